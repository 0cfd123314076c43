"""src/blogc/renderer.c: what a variable stands for."""
from vc.sym import *
from vc.lib import C, need_str
from . import client
from .abs import trie_ok, trie_live, trie_has, tsel, cs_holds, holds_f
F = 'src/blogc/renderer.c'
VIEW, USES = {}, dict(client.USES)
BUILTINS = dict(client.BUILTINS)
CONV = z3.Function('formatted.date', SEQ, SEQ, SEQ)      # what B06 proves blogc_convert_datetime returns
CONVOK = z3.Function('valid.date', SEQ, SEQ, B)
FVAR = z3.Function('loop.value.name', SEQ, SEQ, SEQ)
TRIES = ('TD', 'TV', 'TS', 'TOWN', 'TKEY')


def b(name, maps=(), note=''):
    def d(f):
        f.maps, f.note = tuple(maps), note
        BUILTINS[name] = f
        return f
    return d


@b('blogc_convert_datetime', maps=('LIVE', 'SIZE', '$nxt', 'P.o', 'P.f'), note='client view of B06: a fresh string, the date in the given format, or NULL and an error')
def b_conv(eng, fr, st, vals, types, T, line, args):
    for p in vals[:2]:
        need_str(eng, st, p, line, 'blogc_convert_datetime: the arguments are strings')
    d, f = eng.cs(st, vals[0]), eng.cs(st, vals[1])
    e = vals[2]
    s2 = st.copy()
    st.assume(CONVOK(d, f))
    r = client.newstr(eng, st, CONV(d, f))
    s2.assume(z3.Not(CONVOK(d, f)))
    eng.unowned(s2)
    o = eng.newobj(s2, 1)
    s2.maps['P.o'] = z3.Store(eng.gm(s2, 'P.o'), zi(e.o), z3.Store(z3.Select(eng.gm(s2, 'P.o'), zi(e.o)), zi(e.f), zi(o)))
    s2.maps['P.f'] = z3.Store(eng.gm(s2, 'P.f'), zi(e.o), z3.Store(z3.Select(eng.gm(s2, 'P.f'), zi(e.o)), zi(e.f), z3.IntVal(0)))
    return [(st, r), (s2, P(0, 0))]


@b('bc_error_print', note='bc_error_print writes a message')
def b_eprint(eng, fr, st, vals, types, T, line, args):
    return [(st, None)]


ef = C('bc_error_free', 'err', file='src/common/error.c', maps=('LIVE',), allocates=False, requires=lambda c: [('error', Or(Eq(c.a('err').o, 0), c.live(c.a('err'))))],
       modifies=lambda c: {'LIVE': [c.a('err').o]}, ensures=lambda c: [])
ef.view = True
USES['bc_error_free'] = ef


def maybe_trie(c, n):
    return Or(Eq(c.a(n).o, 0), trie_ok(c, c.a(n)))


def has(c, k, st=None):
    g, l = c.a('global'), c.a('local')
    return Or(And(ne0(l.o), trie_has(c, l, k, st)), And(ne0(g.o), trie_has(c, g, k, st)))


def obj(c, k, st=None):
    """the value of k: of the local bindings, else of the global ones (block)"""
    g, l = c.a('global'), c.a('local')
    return z3.If(And(ne0(l.o), trie_has(c, l, k, st)), z3.Select(tsel(c, 'TV', l, st), k), z3.If(And(ne0(g.o), trie_has(c, g, k, st)), z3.Select(tsel(c, 'TV', g, st), k), z3.IntVal(0)))


def text(c, k, st=None):
    g, l = c.a('global'), c.a('local')
    return z3.If(And(ne0(l.o), trie_has(c, l, k, st)), z3.Select(tsel(c, 'TS', l, st), k), z3.Select(tsel(c, 'TS', g, st), k))


def name(c, n='name'):
    return c.cs(c.a(n), c.pre)


def reg(c_, tries=True):
    c_.view = True
    c_.tries = tries
    VIEW[c_.fname if hasattr(c_, 'fname') else c_.name] = c_
    return c_


def bind(c):
    return [('global', maybe_trie(c, 'global')), ('local', maybe_trie(c, 'local'))]


reg(C('blogc_get_variable', 'name global local', file=F, maps=TRIES, allocates=False,
    requires=lambda c: [('name', c.isstr(c.a('name')))] + bind(c),
    ensures=lambda c: [('value', And(c.result.o == obj(c, name(c)), Eq(c.result.f, 0))), ('string', Implies(ne0(c.result.o), And(c.isstr(c.result), c.cs(c.result) == text(c, name(c)), lt(c.result.o, c.pre.nxt), gt(c.result.o, 0)))), ('bound', Iff(ne0(c.result.o), has(c, name(c))))]))


def fresh_str(c, r):
    return And(ge(r.o, c.pre.nxt), lt(r.o, c.st.nxt), Eq(r.f, 0), c.isstr(r))


FMT = seq_lit(b'DATE_FORMAT')


def formatted(c, d, st=None):
    f = text(c, FMT, st)
    return z3.If(And(has(c, FMT, st), CONVOK(d, f)), CONV(d, f), d)


reg(C('blogc_format_date', 'date global local', file=F, maps=TRIES + ('LIVE', 'SIZE'),
    requires=lambda c: [('date', c.nullstr(c.a('date')))] + bind(c),
    ensures=lambda c: [('null', Iff(Eq(c.result.o, 0), Eq(c.a('date').o, 0))), ('date', Implies(ne0(c.a('date').o), And(fresh_str(c, c.result), c.cs(c.result) == formatted(c, name(c, 'date')))))]))


# ---- the variable a loop value is taken from: name__item, upper case, all else underscores
def norm(x):
    keep = z3.Or(z3.And(x >= 48, x <= 57), z3.And(x >= 65, x <= 90))
    return z3.If(keep, x, z3.If(z3.And(x >= 97, x <= 122), x - 32, z3.IntVal(95)))


def raw(c):
    return cat(name(c), b'__', name(c, 'item'))


def upper(c, r, n, st=None):
    """the first n bytes are done, the rest as they were"""
    k = z3.Int('k')
    x = z3.Select(c.arr(r), k)
    v = raw(c)
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < z3.Length(v)), x == z3.If(k < zi(n), norm(v[k]), v[k])), patterns=[x])


def is_fvar(c, r):
    """definition of the name: the only text with these bytes"""
    k = z3.Int('k')
    v, f = raw(c), FVAR(name(c), name(c, 'item'))
    s, a = c.cs(r), c.arr(r)
    return Implies(And(Eq(r.f, 0), c.slen(r) == z3.Length(v), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < z3.Length(v)), z3.Select(a, k) == norm(v[k])))), s == f)


reg(C('foreach_value_variable', 'name item', file=F, maps=('M8', 'LIVE', 'SIZE'),
    requires=lambda c: [('name', c.nullstr(c.a('name'))), ('item', c.nullstr(c.a('item')))],
    entry=lambda c: [cs_holds(c.e)],
    exit_lemmas=lambda c: [Implies(ne0(c.result.o), is_fvar(c, c.result))],
    exit_asserts=lambda c: [('length', Implies(ne0(c.result.o), z3.Length(c.cs(c.result)) == z3.Length(raw(c)))), ('bytes', Implies(ne0(c.result.o), upper(c, c.result, z3.Length(raw(c)))))],
    ensures=lambda c: [('null', Iff(Eq(c.result.o, 0), Or(Eq(c.a('name').o, 0), Eq(c.a('item').o, 0)))),
                       ('name', Implies(ne0(c.result.o), And(fresh_str(c, c.result), c.cs(c.result) == FVAR(name(c), name(c, 'item')))))],
    loops={0: Loop(inv=lambda c: [('string', And(c.rv.o >= c.pre.nxt, lt(c.rv.o, c.st.nxt), Eq(c.rv.f, 0), c.isstr(c.rv), c.slen(c.rv) == z3.Length(raw(c)), c.i <= z3.Length(raw(c)), c.i >= 0, zi(c.size(c.rv)) > z3.Length(raw(c)), c.byte(c.rv, z3.Length(raw(c))) == 0)), ('done', upper(c, c.rv, c.i))],
                   decreases=lambda c: z3.Length(raw(c)) - c.i)}), tries=False)


# ---- NAME, NAME_20, NAME_FORMATTED, FOREACH_ITEM, FOREACH_VALUE ...
NUM = z3.Function('number', SEQ, I)
LMAX = (1 << 63) - 1


def digit(x):
    return z3.And(x >= 48, x <= 57)


@b('strtol', maps=('P.o', 'P.f'), note='strtol reads a text of digits to its end and gives its number, at most LONG_MAX')
def b_strtol(eng, fr, st, vals, types, T, line, args):
    p, e = vals[0], vals[1]
    need_str(eng, st, p, line, 'strtol: argument is a string')
    n, a, k = eng.slen(st, p), z3.Select(eng.gm(st, 'M8'), zi(p.o)), z3.Int('k')
    r, end = fresh('strtol'), fresh('end')
    x = z3.Select(a, k)
    v = eng.cs(st, p)
    st.assume(And(r >= -LMAX - 1, r <= LMAX, end >= zi(p.f), end <= zi(p.f) + n, z3.Implies(z3.And(n > 0, z3.ForAll([k], z3.Implies(z3.And(k >= zi(p.f), k < zi(p.f) + n), digit(x)), patterns=[x])), z3.And(end == zi(p.f) + n, r == NUM(v), r >= 0))))
    whole, wn = eng.cs_f()(a, 0), eng.slen_f()(a, 0)
    st.assume(z3.Implies(z3.And(wn >= zi(p.f), zi(p.f) >= 0), v == z3.SubSeq(whole, zi(p.f), wn - zi(p.f))))       # definition of the texts of one buffer
    for m, val in (('P.o', p.o), ('P.f', end)):
        st.maps[m] = z3.Store(eng.gm(st, m), zi(e.o), z3.Store(z3.Select(eng.gm(st, m), zi(e.o)), zi(e.f), zi(val)))
    return [(st, r)]


def lit_at(a, i, t):
    return And(*[z3.Select(a, zi(i) + k) == ord(x) for k, x in enumerate(t)])


@b('bc_str_ends_with', note='client view of C04: the last bytes are the suffix')
def b_ends(eng, fr, st, vals, types, T, line, args):
    from vc.lib import lit_of
    t = lit_of(eng, vals[1]).decode()
    need_str(eng, st, vals[0], line, 'bc_str_ends_with: argument is a string')
    p = vals[0]
    n, a = eng.slen(st, p), z3.Select(eng.gm(st, 'M8'), zi(p.o))
    return [(st, z3.If(And(n >= len(t), lit_at(a, zi(p.f) + n - len(t), t)), z3.IntVal(1), z3.IntVal(0)))]


@b('bc_str_starts_with', note='client view of C04: the first bytes are the prefix')
def b_starts(eng, fr, st, vals, types, T, line, args):
    from vc.lib import lit_of
    t = lit_of(eng, vals[1]).decode()
    need_str(eng, st, vals[0], line, 'bc_str_starts_with: argument is a string')
    p = vals[0]
    n, a = eng.slen(st, p), z3.Select(eng.gm(st, 'M8'), zi(p.o))
    return [(st, z3.If(And(n >= len(t), lit_at(a, zi(p.f), t)), z3.IntVal(1), z3.IntVal(0)))]


def tries_kept(c, g, k):
    j = z3.Const('key', SEQ)
    d, t, o = [z3.Select(tsel(c, m, g), j) for m in ('TD', 'TS', 'TV')]
    same = z3.And(d == z3.Select(tsel(c, 'TD', g, c.pre), j), t == z3.Select(tsel(c, 'TS', g, c.pre), j), o == z3.Select(tsel(c, 'TV', g, c.pre), j))
    return And(*[z3.ForAll([j], z3.Implies(z3.Or(j != k, z3.Select(tsel(c, 'TD', g, c.pre), k)), same), patterns=[q]) for q in (d, t, o)])


ev = C('blogc_funcvars_eval', 'global name', file='src/blogc/funcvars.c', maps=TRIES + ('LIVE', 'SIZE', 'M8'), trusted=True,
       requires=lambda c: [('global', maybe_trie(c, 'global')), ('name', c.isstr(c.a('name')))],
       modifies=lambda c: {m: [c.a('global').o] for m in ('TD', 'TV', 'TS')},
       ensures=lambda c: [('global', maybe_trie(c, 'global')), ('kept', Implies(ne0(c.a('global').o), tries_kept(c, c.a('global'), name(c))))])
ev.view, ev.tries = True, True
ev.note = 'blogc_funcvars_eval binds at most the name it is given, and only when it has no binding'
USES['blogc_funcvars_eval'] = ev


def item(c, st=None):
    v = c.a('foreach_var')
    return P(z3.Select(c.map('S.bc_slist_t.data.o', st), zi(v.o)), z3.Select(c.map('S.bc_slist_t.data.f', st), zi(v.o)))


def itemtext(c):
    return c.cs(item(c, c.pre), c.pre)


def hasitem(c):
    return And(ne0(c.a('foreach_var').o), ne0(item(c, c.pre).o))


def fkey(c):
    return FVAR(name(c, 'foreach_name'), itemtext(c))


def value(c, k):
    """(given, text) of a name without suffixes"""
    it, fv = k == seq_lit(b'FOREACH_ITEM'), k == seq_lit(b'FOREACH_VALUE')
    hi = hasitem(c)
    hv = And(hi, ne0(c.a('foreach_name').o))
    given = z3.If(z3.And(it, hi), z3.BoolVal(True), z3.If(z3.And(fv, hv), has(c, fkey(c)), has(c, k)))
    return given, z3.If(z3.And(it, hi), itemtext(c), z3.If(z3.And(fv, hv), text(c, fkey(c)), text(c, k)))


ITEM, VALUE = seq_lit(b'FOREACH_ITEM'), seq_lit(b'FOREACH_VALUE')


def parts(c):
    """the base name, whether it is to be formatted, the length"""
    p = c.a('name')
    a, n = c.arr(p, c.pre), zi(c.slen(p, c.pre))
    i = zi(c.i) if c.has('i') else z3.IntVal(0)
    num = z3.And(z3.Select(a, zi(p.f) + i) == 95, i + 1 < n)
    m1 = z3.If(num, i, n)
    fm = And(m1 >= 10, lit_at(a, zi(p.f) + m1 - 10, '_FORMATTED'))
    s = lambda x, y: z3.SubSeq(name(c), x, y - x)
    return num, s(z3.IntVal(0), z3.If(fm, m1 - 10, m1)), fm, NUM(s(i + 1, n)), i, n, z3.If(fm, m1 - 10, m1)


def digits_after(c):
    p = c.a('name')
    a, k = c.arr(p, c.pre), z3.Int('k')
    num, _, _, _, i, n, _ = parts(c)
    x = z3.Select(a, k)
    return And(i >= 0, Or(i < n, And(i == 0, n == 0)), z3.ForAll([k], z3.Implies(z3.And(k > zi(p.f) + i, k < zi(p.f) + n), digit(x)), patterns=[x]), Or(i == 0, z3.Not(digit(z3.Select(a, zi(p.f) + i)))))


def exact(c):
    return has(c, name(c), c.pre)


def outcome(c):
    if not c.has('i'):
        return []
    num, base, fm, L, i, n, _ = parts(c)
    g, t = value(c, base)
    p = c.a('name')
    a = c.arr(p, c.pre)
    date = And(n >= 5, lit_at(a, p.f, 'DATE_'))
    full = z3.If(z3.And(fm, date), formatted(c, t), t)
    cut = z3.And(num, L > 0)
    out = z3.If(cut, z3.SubSeq(full, 0, z3.If(L < z3.Length(full), L, z3.Length(full))), full)
    return [('suffix', digits_after(c)), ('given', Iff(ne0(c.result.o), g)), ('text', Implies(ne0(c.result.o), And(fresh_str(c, c.result), c.cs(c.result) == out)))]


def early(c):
    k = name(c)
    it, fv = k == ITEM, k == VALUE
    hv = And(hasitem(c), ne0(c.a('foreach_name').o))
    f = lambda x: And(fresh_str(c, c.result), c.cs(c.result) == x)
    return [('exact', Implies(exact(c), And(ne0(c.result.o), f(text(c, k, c.pre))))),
            ('item', Implies(And(Not(exact(c)), it), And(Iff(ne0(c.result.o), hasitem(c)), Implies(hasitem(c), f(itemtext(c)))))),
            ('loop value', Implies(And(Not(exact(c)), fv), And(Iff(ne0(c.result.o), And(hv, has(c, fkey(c), c.pre))), Implies(ne0(c.result.o), f(text(c, fkey(c), c.pre))))))]


reg(C('blogc_format_variable', 'name global local foreach_name foreach_var', file=F, maps=TRIES + ('M8', 'LIVE', 'SIZE', 'P.o', 'P.f', 'S.bc_slist_t.data.o', 'S.bc_slist_t.data.f'),
    requires=lambda c: [('name', And(c.isstr(c.a('name')), lt(c.a('name').o, c.st.nxt)))] + bind(c) + [('two tries', Or(Eq(c.a('global').o, 0), Not(Eq(c.a('global').o, c.a('local').o)))), ('loop name', c.nullstr(c.a('foreach_name'))),
        ('loop item', Or(Eq(c.a('foreach_var').o, 0), And(c.live(c.a('foreach_var')), Eq(c.a('foreach_var').f, 0), Or(Eq(item(c).o, 0), And(c.isstr(item(c)), lt(item(c).o, c.st.nxt)))))), ('length', zi(c.slen(c.a('name'))) < INTLIM)],
    modifies=lambda c: {m: [c.a('global').o] for m in ('TD', 'TV', 'TS')},
    entry=lambda c: [cs_holds(c.e), sub_text(c.e)],
    exit_asserts=lambda c: [('len %d%d' % (x, y), Implies(And(parts(c)[0] if x else Not(parts(c)[0]), parts(c)[2] if y else Not(parts(c)[2])), zi(c.slen(c.var)) == parts(c)[6])) for x in (0, 1) for y in (0, 1)] + [('base length', zi(c.slen(c.var)) == parts(c)[6]), ('base', c.cs(c.var) == parts(c)[1])] if c.has('var') else [],
    ensures=lambda c: early(c) + outcome(c),
    loops={0: Loop(inv=lambda c: [('string', And(c.var.o >= c.pre.nxt, lt(c.var.o, c.st.nxt), Eq(c.var.f, 0), c.isstr(c.var), c.cs(c.var) == name(c), c.slen(c.var) == c.slen(c.a('name'), c.pre))), ('bytes', bytes_same(c)), ('suffix', digits_before(c))], decreases=lambda c: c.i)}))
INTLIM = (1 << 31) - 2


def sub_text(eng):
    """definitions: the piece of a buffer before the end of its text is the beginning of the text; so is the text after a NUL is stored in it"""
    from .abs import sub_f
    f, sl, g = sub_f(eng), eng.slen_f(), eng.cs_f()
    a, i, j = z3.Const('a', A1), z3.Int('i'), z3.Int('j')
    eng.ax('subtext', z3.ForAll([a, i, j], z3.Implies(z3.And(j >= i, j - i <= sl(a, i)), f(a, i, j) == z3.SubSeq(g(a, i), 0, j - i)), patterns=[f(a, i, j)]))
    k = z3.Int('k')
    b_ = z3.Store(a, j, z3.IntVal(0))
    on = z3.And(i >= 0, j >= i, j <= i + sl(a, i))
    eng.ax('cuttext', z3.ForAll([a, i, j], z3.Implies(on, z3.And(sl(b_, i) == j - i, g(b_, i) == z3.SubSeq(g(a, i), 0, j - i))), patterns=[sl(b_, i)]))
    eng.ax('cuttext2', z3.ForAll([a, i, j], z3.Implies(on, z3.And(sl(b_, i) == j - i, g(b_, i) == z3.SubSeq(g(a, i), 0, j - i))), patterns=[g(b_, i)]))
    return True


def bytes_same(c):
    p = c.a('name')
    a, v, k = c.arr(p, c.pre), c.arr(c.var), z3.Int('k')
    x = z3.Select(v, k)
    n = zi(c.slen(p, c.pre))
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= n), z3.And(x == z3.Select(a, zi(p.f) + k), Iff(x == 0, k == n))), patterns=[x])


def digits_before(c):
    p = c.a('name')
    a, k = c.arr(p, c.pre), z3.Int('k')
    i, n = zi(c.i), zi(c.slen(p, c.pre))
    x = z3.Select(a, k)
    return And(i >= 0, Or(i < n, And(i == 0, n == 0)), z3.ForAll([k], z3.Implies(z3.And(k > zi(p.f) + i, k < zi(p.f) + n), digit(x)), patterns=[x]))


VIEW['blogc_format_variable'].nocand, VIEW['blogc_format_variable'].feas_ms, VIEW['blogc_format_variable'].shards = True, 200, 6
