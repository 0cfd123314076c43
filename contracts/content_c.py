"""src/blogc/content-parser.c: slugs, HTML escaping, descriptions, ordered-list markers."""
from vc.sym import *
from vc.lib import C
from .abs import holds_f, cs_holds, sub_f, alive, buf, viewbytes, nonul, nonul_axioms, STRMAPS, mods, after
from .utils_c import fold, fresh_text, INTLIM
F = 'src/blogc/content-parser.c'
VIEW, CONC = {}, {}


def regv(c):
    c.view = True
    VIEW[c.name] = c
    return c


# ---- HTML escaping
ENT = ((38, b'&amp;'), (60, b'&lt;'), (62, b'&gt;'), (34, b'&quot;'), (39, b'&#x27;'), (47, b'&#x2F;'))


def ent(x):
    r = z3.Unit(zi(x))
    for c, t in ENT:
        r = z3.If(zi(x) == c, seq_lit(t), r)
    return r


ESCD, esc0, esc1 = fold(None, 'htmlesc', lambda f, a, s, i: z3.Concat(f(a, s, i), ent(z3.Select(a, i))))

regv(C('htmlentities_append', 'str c', file=F, maps=STRMAPS,
       requires=lambda c: [('str', alive(c, c.a('str')))], modifies=mods,
       ensures=lambda c: after(c, c.a('str'), cat(c.sv(c.a('str'), c.pre), ent(c.a('c'))))))


def escaped(c, p, st):
    return ESCD(c.arr(p, st), zi(p.f), zi(p.f) + zi(c.slen(p, st)))


regv(C('blogc_htmlentities', 'str', file=F, maps=(),
       requires=lambda c: [('str', c.nullstr(c.a('str')))],
       entry=lambda c: [nonul_axioms(c.e) or True, esc0(c.arr(c.a('str')), c.a('str').f), nonul(c.e, ESCD(c.arr(c.a('str')), c.a('str').f, c.a('str').f))],
       ensures=lambda c: [('null', Iff(Eq(c.a('str').o, 0), Eq(c.result.o, 0))),
                          ('fresh', Implies(ne0(c.a('str').o), And(ge(c.result.o, c.pre.nxt), lt(c.result.o, c.st.nxt), Eq(c.result.f, 0), c.isstr(c.result)))),
                          ('escaped', Implies(ne0(c.a('str').o), And(viewbytes(c, c.result, escaped(c, c.a('str'), c.pre)), c.cs(c.result) == escaped(c, c.a('str'), c.pre))))],
       exit_lemmas=lambda c: [c.e.slen_min(c.st, c.result) or True],
       exit_asserts=lambda c: [c.sv(c.rv) == escaped(c, c.a('str'), c.pre)] if c.has('rv') else [],
       loops={0: Loop(inv=lambda c: [('range', And(c.i >= 0, c.i <= c.slen(c.a('str')))), ('alive', alive(c, c.rv)), ('arg', c.isstr(c.a('str'))),
                                     ('view', c.sv(c.rv) == ESCD(c.arr(c.a('str'), c.pre), c.a('str').f, c.a('str').f + c.i)),
                                     ('nonul', nonul(c.e, ESCD(c.arr(c.a('str'), c.pre), c.a('str').f, c.a('str').f + c.i)))],
                      lemmas=lambda c: [esc1(c.arr(c.a('str'), c.pre), c.a('str').f, c.a('str').f + c.head.vars['i'])],
                      facts=lambda c: [c.e.slen_min(c.st, c.a('str')) or True],
                      decreases=lambda c: c.slen(c.a('str')) - c.i)}))


# ---- slugs: letters to lower case, digits kept, every other byte a dash
def slug(x):
    return z3.If(z3.Or(z3.And(x >= 97, x <= 122), z3.And(x >= 48, x <= 57)), x, z3.If(z3.And(x >= 65, x <= 90), x + 32, 45))


def slugs(c, r, s, n):
    k = z3.Int('k')
    x, y = z3.Select(c.arr(r), k), z3.Select(c.arr(s, c.pre), zi(s.f) + k)
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(n)), x == slug(y)), patterns=[x])


regv(C('blogc_slugify', 'str', file=F, maps=(),
       requires=lambda c: [('str', c.nullstr(c.a('str')))],
       entry=lambda c: [c.e.slen_min(c.pre, c.a('str')) or cs_holds(c.e)],
       ensures=lambda c: [('null', Iff(Eq(c.a('str').o, 0), Eq(c.result.o, 0))),
                          ('fresh', Implies(ne0(c.a('str').o), And(ge(c.result.o, c.pre.nxt), lt(c.result.o, c.st.nxt), Eq(c.result.f, 0), c.isstr(c.result)))),
                          ('length', Implies(ne0(c.a('str').o), Eq(c.slen(c.result), c.slen(c.a('str'), c.pre)))),
                          ('mapped', Implies(ne0(c.a('str').o), slugs(c, c.result, c.a('str'), c.slen(c.a('str'), c.pre))))],
       exit_lemmas=lambda c: [c.e.slen_min(c.st, c.result) or True],
       loops={0: Loop(inv=lambda c: [('range', And(c.i >= 0, c.i <= c.slen(c.a('str'), c.pre))), ('str', And(c.isstr(c.new_str), Eq(c.new_str.f, 0), Eq(c.slen(c.new_str), c.slen(c.a('str'), c.pre)))),
                                     ('done', slugs(c, c.new_str, c.a('str'), c.i)),
                                     ('rest', rest(c, c.new_str, c.a('str'), c.i))],
                      decreases=lambda c: c.slen(c.a('str'), c.pre) - c.i)}))


def rest(c, r, s, i):
    k = z3.Int('k')
    x, y = z3.Select(c.arr(r), k), z3.Select(c.arr(s, c.pre), zi(s.f) + k)
    return z3.ForAll([k], z3.Implies(z3.And(k >= zi(i), k < zi(c.slen(s, c.pre))), x == y), patterns=[x])


# ---- no byte that could start markup
def quiet(eng, v):
    return z3.Function('quiet', SEQ, B)(v)


def quiet_axioms(eng):
    f = z3.Function('quiet', SEQ, B)
    i, x, y = z3.Int('i'), z3.Const('x', SEQ), z3.Const('y', SEQ)
    eng.ax('quiet0', f(z3.Empty(SEQ)))
    eng.ax('quiet1', z3.ForAll([i], f(z3.Unit(i)) == z3.Not(z3.Or(i == 60, i == 62, i == 34, i == 39)), patterns=[f(z3.Unit(i))]))
    eng.ax('quiet2', z3.ForAll([x, y], f(z3.Concat(x, y)) == z3.And(f(x), f(y)), patterns=[f(z3.Concat(x, y))]))
    a, s, j = z3.Const('a', A1), z3.Int('s'), z3.Int('j')
    return True


def fixinv(c):
    return [('alive', And(alive(c, c.rv), c.rv.o >= zi(c.pre.nxt), buf(c, c.rv) >= zi(c.pre.nxt))), ('arg', And(c.isstr(c.a('paragraph')), Eq(c.arr(c.a('paragraph')), c.arr(c.a('paragraph'), c.pre)))),
            ('range', And(c.current >= 0, c.current <= c.slen(c.a('paragraph'), c.pre), c.start >= 0)), ('piece', Or(c.start <= c.current, False)), ('going', Eq(c.last, 0)), ('newline', Implies(ne0(c.newline), c.start <= c.current)),
            ('nonul', nonul(c.e, c.sv(c.rv))), ('shorter', And(z3.Length(c.sv(c.rv)) <= c.start, c.start <= c.slen(c.a('paragraph'), c.pre) + 1))]


regv(C('blogc_fix_description', 'paragraph', file=F, maps=(),
       requires=lambda c: [('paragraph', c.nullstr(c.a('paragraph'))), ('size', Or(Eq(c.a('paragraph').o, 0), c.slen(c.a('paragraph')) <= INTLIM))],
       entry=lambda c: [nonul_axioms(c.e) or c.e.slen_min(c.pre, c.a('paragraph')) or True],
       ensures=lambda c: [('null', Iff(Eq(c.a('paragraph').o, 0), Eq(c.result.o, 0))),
                          ('fresh', Implies(ne0(c.a('paragraph').o), And(ge(c.result.o, c.pre.nxt), lt(c.result.o, c.st.nxt), Eq(c.result.f, 0), c.isstr(c.result))))],
       loops={0: Loop(inv=fixinv, decreases=lambda c: c.slen(c.a('paragraph'), c.pre) - c.current)}))

def marker(c, n, digits=False):
    """the first n bytes can only be digits, a dot, spaces and tabs"""
    p = c.a('str')
    k = z3.Int('k')
    x = z3.Select(c.arr(p), k)
    dig = z3.And(x >= 48, x <= 57)
    return z3.ForAll([k], z3.Implies(z3.And(k >= zi(p.f), k < zi(p.f) + zi(n)), dig if digits else z3.Or(dig, x == 46, x == 32, x == 9)), patterns=[x])


def item(c, n, more=True):
    """digits, a dot, blanks up to byte n, and a byte there"""
    p = c.a('str')
    d, k = z3.Ints('d k')
    x, y = z3.Select(c.arr(p), zi(p.f) + d), z3.Select(c.arr(p), k)
    dig = z3.ForAll([k], z3.Implies(z3.And(k >= zi(p.f), k < zi(p.f) + d), z3.And(y >= 48, y <= 57)), patterns=[y])
    bl = z3.ForAll([k], z3.Implies(z3.And(k > zi(p.f) + d, k < zi(p.f) + zi(n)), z3.Or(y == 32, y == 9)), patterns=[y])
    return z3.Exists([d], z3.And(d >= 1, d < zi(n), x == 46, dig, bl, *([zi(n) < zi(c.slen(p))] if more else [z3.Or(zi(n) <= zi(c.a('prefix_len')), d == zi(n) - 1)])))


regv(C('blogc_is_ordered_list_item', 'str prefix_len', file=F, maps=(), allocates=False,
       requires=lambda c: [('str', c.nullstr(c.a('str'))), ('prefix', c.a('prefix_len') <= MAXOBJ)],
       entry=lambda c: [c.e.slen_min(c.pre, c.a('str')) or True],
       ensures=lambda c: [('null', Implies(Eq(c.a('str').o, 0), Eq(c.result, 0))),
                          ('item', Implies(ne0(c.result), And(c.a('prefix_len') >= 2, c.a('prefix_len') < c.slen(c.a('str')), c.byte(c.a('str')) >= 48, c.byte(c.a('str')) <= 57, marker(c, c.a('prefix_len'))))),
                          ('exactly then', Implies(And(ne0(c.a('str').o), Eq(c.result, 0)), Not(item(c, c.a('prefix_len')))))],
       loops={0: Loop(inv=lambda c: [('range', And(c.i >= 0, c.i <= c.slen(c.a('str')))), c.isstr(c.a('str')), ('digits', marker(c, c.i, True))], decreases=lambda c: c.slen(c.a('str')) - c.i),
              1: Loop(inv=lambda c: [('range', And(c.i >= 2, c.i <= c.slen(c.a('str')))), c.isstr(c.a('str')), ('first', And(c.byte(c.a('str')) >= 48, c.byte(c.a('str')) <= 57)), ('marker', marker(c, c.i)), ('dot', item(c, c.i, False))],
                      decreases=lambda c: c.slen(c.a('str')) - c.i)}))
