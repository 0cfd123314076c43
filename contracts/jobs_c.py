"""src/blogc-make/rules.c: what every build rule asks blogc to make."""
from vc.sym import *
from vc.lib import C, need_str, fmt_lit, lit_of
from . import client
from .abs import NOKEYS, NOTEXT
from .lists_c import LIST, ND, ND2, IDX, IDX2, N, N2, dat, datf
F = 'src/blogc-make/rules.c'
VIEW, USES = {}, dict(client.USES)
BUILTINS = dict(client.BUILTINS)
CTX, SET, FC = 'S.bm_ctx_t.', 'S.bm_settings_t.', 'S.bm_filectx_t.'
CI = z3.Function('same but for case', SEQ, SEQ, B)
TRUTH = z3.Function('is true', SEQ, B)             # what C04 proves bc_str_to_bool decides
NUML = z3.Function('number of', SEQ, I)
NEED = z3.Function('out of date', I, I, I, I, I, B, B)      # what M03 proves bm_rule_need_rebuild decides
JD, JS = z3.Const('job.bound', z3.ArraySort(SEQ, B)), z3.Const('job.texts', z3.ArraySort(SEQ, SEQ))
JTEMPLATE, JENTRY, JCTX = z3.Int('job.template'), z3.Int('job.entry'), z3.Int('job.ctx')
POS = z3.Function('position', I, I)
DEC = z3.Function('fmt_uz', I, SEQ)
EMPTY = z3.Empty(SEQ)
TR = ('TD', 'TS')


def lit(x):
    from vc.sym import lit_text
    return lit_text(x.encode(), 24)


def b(name, maps=(), note=''):
    def d(f):
        f.maps, f.note = tuple(maps), note
        BUILTINS[name] = f
        return f
    return d


def t0(eng, st, m, t):
    return z3.Select(eng.gm(st, m), zi(t.o))


@b('bc_trie_new', maps=('LIVE', 'SIZE', '$nxt') + TR, note='client view of C02: bc_trie_new returns a fresh trie without bindings')
def b_new(eng, fr, st, vals, types, T, line, args):
    eng.unowned(st)
    o = eng.newobj(st, 1)
    for m, v in (('TD', NOKEYS), ('TS', NOTEXT)):
        st.maps[m] = z3.Store(eng.gm(st, m), zi(o), v)
    return [(st, P(o, 0))]


def live_trie(eng, st, t, line, who):
    eng.prove(st, And(ne0(t.o), Eq(t.f, 0), z3.Select(eng.gm(st, 'LIVE'), zi(t.o))), 'precondition', who + ': the trie is live', line)


@b('bc_trie_insert', maps=TR, note='client view of C02: the key is bound to the text, other bindings stay; no effect without trie, key or value')
def b_ins(eng, fr, st, vals, types, T, line, args):
    t, k, d = vals
    if eng.target.name in ('posts_ordering', 'posts_pagination'):
        eng.prove(st, Or(Eq(t.o, 0), And(Eq(t.f, 0), z3.Select(eng.gm(st, 'LIVE'), zi(t.o)))), 'precondition', 'bc_trie_insert: the trie is live', line)
    else:
        live_trie(eng, st, t, line, 'bc_trie_insert')
    eng.prove(st, Or(Eq(d.o, 0), eng.isstr(st, d)), 'precondition', 'bc_trie_insert: the value is a string or NULL', line)
    on = And(ne0(t.o), ne0(d.o))
    for m, v in (('TD', z3.BoolVal(True)), ('TS', eng.cs(st, d))):
        eng.modset_ok(st, m, t.o, line, fr)
        old = t0(eng, st, m, t)
        st.maps[m] = z3.Store(eng.gm(st, m), zi(t.o), z3.If(on if not isinstance(on, bool) else z3.BoolVal(on), z3.Store(old, eng.cs(st, k), v), old))
    return [(st, None)]


@b('bc_trie_free', maps=('LIVE',), note='client view of C02: the trie is released')
def b_free(eng, fr, st, vals, types, T, line, args):
    live_trie(eng, st, vals[0], line, 'bc_trie_free')
    st.maps['LIVE'] = z3.Store(eng.gm(st, 'LIVE'), zi(vals[0].o), z3.BoolVal(False))
    return [(st, None)]


@b('strcasecmp', note='strcasecmp returns 0 exactly for texts that are the same but for case')
def b_ci(eng, fr, st, vals, types, T, line, args):
    r = fresh('strcasecmp')
    st.assume((r == 0) == CI(eng.cs(st, vals[0]), eng.cs(st, vals[1])))
    return [(st, r)]


@b('bc_str_to_bool', note='client view of C04: the truth of a text, false for NULL')
def b_bool(eng, fr, st, vals, types, T, line, args):
    p = vals[0]
    return [(st, z3.If(And(ne0(p.o), TRUTH(eng.cs(st, p))), z3.IntVal(1), z3.IntVal(0)))]


@b('strtol', note='strtol gives the number a text starts with')
def b_strtol(eng, fr, st, vals, types, T, line, args):
    n = NUML(eng.cs(st, vals[0]))
    st.assume(And(n >= -(1 << 63), n < (1 << 63)))
    return [(st, n)]


@b('bm_rule_need_rebuild', note='client view of M03: whether the output is missing or older than one of the files it is made from')
def b_need(eng, fr, st, vals, types, T, line, args):
    s, a, l, t, o, only = vals
    return [(st, z3.If(NEED(zi(s.o), zi(a.o), zi(l.o), zi(t.o), zi(o.o), ne0(only) if not isinstance(ne0(only), bool) else z3.BoolVal(ne0(only))), z3.IntVal(1), z3.IntVal(0)))]


# ---- settings
def fp(c, base, f, o, st=None):
    return z3.Select(c.map(base + f + '.o', st), zi(o))


def settings(c, st=None):
    return fp(c, SET, 'settings', fp(c, CTX, 'settings', c.a('ctx').o, st), st)


def ctx_ok(c):
    """a context whose settings are read"""
    x = c.a('ctx')
    s = fp(c, CTX, 'settings', x.o)
    t = fp(c, SET, 'settings', s)
    k = z3.Const('k', SEQ)
    v = z3.Select(z3.Select(c.map('TV'), t), k)
    sl, a = c.e.slen_f(), z3.Select(c.map('M8'), v)
    own = z3.And(v > 0, v < zi(c.st.nxt), z3.Select(c.map('LIVE'), v), sl(a, 0) >= 0, sl(a, 0) < z3.Select(c.map('SIZE'), v), z3.Select(a, sl(a, 0)) == 0, c.e.cs_f()(a, 0) == z3.Select(z3.Select(c.map('TS'), t), k))
    i = lambda o: And(o > 0, o < zi(c.st.nxt), z3.Select(c.map('LIVE'), o))
    return And(c.live(x), Eq(x.f, 0), gt(x.o, 0), lt(x.o, c.st.nxt), i(s), i(t), z3.ForAll([k], z3.Implies(z3.Select(z3.Select(c.map('TD'), t), k), own), patterns=[v]))


def null_or_ctx(c):
    return Or(Eq(c.a('ctx').o, 0), ctx_ok(c))


def bound(c, k):
    return z3.Select(z3.Select(c.map('TD', c.pre), settings(c, c.pre)), k)


def text(c, k):
    return z3.Select(z3.Select(c.map('TS', c.pre), settings(c, c.pre)), k)


def textor(c, k):
    """the text of a setting, empty when it is not there"""
    return z3.If(bound(c, k), text(c, k), EMPTY)


lk = C('bm_ctx_settings_lookup', 'ctx key', file='src/blogc-make/ctx.c', maps=('TD', 'TV', 'TS'), allocates=False,
       requires=lambda c: [('context', null_or_ctx(c)), ('key', c.isstr(c.a('key')))],
       ensures=lambda c: (lambda k: [('value', Implies(ne0(c.a('ctx').o), And(Iff(ne0(c.result.o), bound(c, k)), Implies(ne0(c.result.o), And(c.isstr(c.result), Eq(c.result.f, 0), c.cs(c.result) == text(c, k)))))), ('which', Implies(And(ne0(c.a('ctx').o), ne0(c.result.o)), Eq(c.result.o, z3.Select(z3.Select(c.map('TV', c.pre), settings(c, c.pre)), k)))), ('null', Implies(Eq(c.a('ctx').o, 0), Eq(c.result.o, 0)))])(c.cs(c.a('key'), c.pre)))
lk.view = True
ls = C('bm_ctx_settings_lookup_str', 'ctx key', file='src/blogc-make/ctx.c', maps=('TD', 'TV', 'TS'), allocates=False,
       requires=lambda c: [('context', null_or_ctx(c)), ('key', c.isstr(c.a('key')))],
       ensures=lambda c: (lambda k: [('string', And(ne0(c.result.o), c.isstr(c.result))), ('value', Implies(ne0(c.a('ctx').o), c.cs(c.result) == textor(c, k)))])(c.cs(c.a('key'), c.pre)))
ls.view = True
VIEW['bm_ctx_settings_lookup'], VIEW['bm_ctx_settings_lookup_str'] = lk, ls


@b('bc_trie_lookup', note='client view of C02: the value bound to the key, or NULL')
def b_lookup(eng, fr, st, vals, types, T, line, args):
    t, k = vals
    eng.prove(st, Or(Eq(t.o, 0), And(Eq(t.f, 0), z3.Select(eng.gm(st, 'LIVE'), zi(t.o)))), 'precondition', 'bc_trie_lookup: the trie is live', line)
    v = eng.cs(st, k)
    return [(st, P(z3.If(And(ne0(t.o), z3.Select(t0(eng, st, 'TD', t), v)), z3.Select(t0(eng, st, 'TV', t), v), z3.IntVal(0)), 0))]


def ins(ds, k, v, on=True):
    d, s = ds
    k = lit(k)
    if on is True:
        return z3.Store(d, k, z3.BoolVal(True)), z3.Store(s, k, v)
    return z3.If(on, z3.Store(d, k, z3.BoolVal(True)), d), z3.If(on, z3.Store(s, k, v), s)


def ordering(c, ds, k):
    v = textor(c, k)
    asc = CI(v, lit('asc'))
    sort = And(bound(c, lit('posts_sort')), TRUTH(text(c, lit('posts_sort'))))
    return ins(ins(ds, 'FILTER_SORT', lit('1'), sort), 'FILTER_REVERSE', lit('1'), sort == asc)


def pagination(c, ds, k):
    on = NUML(textor(c, k)) >= 0
    return ins(ins(ds, 'FILTER_PAGE', lit('1'), on), 'FILTER_PER_PAGE', text(c, k), z3.And(on, bound(c, k)))


def tr(c, t, st=None):
    return z3.Select(c.map('TD', st), zi(t.o)), z3.Select(c.map('TS', st), zi(t.o))


def helper(name, spec):
    c_ = VIEW[name] = C(name, 'ctx variables variable', file=F, maps=('TD', 'TS', 'TV'),
        requires=lambda c: [('context', null_or_ctx(c)), ('bindings', And(c.live(c.a('variables')), Eq(c.a('variables').f, 0), gt(c.a('variables').o, 0), Or(Eq(c.a('ctx').o, 0), Not(Eq(c.a('variables').o, settings(c)))))), ('name', c.isstr(c.a('variable')))],
        modifies=lambda c: {m: [c.a('variables').o] for m in TR},
        ensures=lambda c: (lambda d, w: [('nothing', Implies(Eq(c.a('ctx').o, 0), And(*[x == y for x, y in zip(tr(c, c.a('variables')), d)]))), ('bound', Implies(ne0(c.a('ctx').o), tr(c, c.a('variables'))[0] == w[0])), ('texts', Implies(ne0(c.a('ctx').o), tr(c, c.a('variables'))[1] == w[1]))])(tr(c, c.a('variables'), c.pre), spec(c, tr(c, c.a('variables'), c.pre), c.cs(c.a('variable'), c.pre))))
    c_.view = True


helper('posts_ordering', ordering)
VIEW['posts_ordering'].exit_asserts = lambda c: [('asc', Iff(ne0(c.asc), CI(textor(c, c.cs(c.a('variable'), c.pre)), lit('asc')))), ('sort', Iff(ne0(c.v('sort')), And(bound(c, lit('posts_sort')), TRUTH(text(c, lit('posts_sort'))))))] if c.has('sort') else []
helper('posts_pagination', pagination)
c_ = VIEW['posts_pagination_enabled'] = C('posts_pagination_enabled', 'ctx variable', file=F, maps=('TD', 'TS', 'TV'), allocates=False,
    requires=lambda c: [('context', null_or_ctx(c)), ('name', c.isstr(c.a('variable')))],
    ensures=lambda c: [('enabled', Iff(ne0(c.result), And(ne0(c.a('ctx').o), NUML(textor(c, c.cs(c.a('variable'), c.pre))) != 0)))])
c_.view = True


# ---- the rules
def own(c, o, st=None):
    return And(o > 0, o < zi((st or c.st).nxt), z3.Select(c.map('LIVE', st), o))


def outs(c, i, nd=ND):
    return dat(c, nd(i), c.pre)


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


class Job:
    """one rule: when it applies, what is bound, which template and entry, one output per list element"""
    def __init__(self, guard, binds, args, each=None, listing=True, sources='posts_fctx', paired=False):
        self.guard, self.binds, self.args, self.each, self.listing, self.sources, self.paired = guard, binds, args, each, listing, sources, paired


def cf(c, f):
    return fp(c, CTX, f, c.a('ctx').o, c.pre)


def active(c, job):
    s = cf(c, 'settings')
    return And(ne0(c.a('ctx').o), *[fp(c, SET, g, s, c.pre) != 0 for g in job.guard])


def needs(c, job, i):
    out = outs(c, i)
    entry, tmpl, ntmpl = job.args(c)
    src = ND2(i) if job.paired else cf(c, job.sources)
    return NEED(src, cf(c, 'settings_fctx'), entry, ntmpl, out, zb(job.paired))


@b('bm_exec_blogc', maps=('DONE',), note='client view of M05: blogc is run for one output; here only what it is asked for matters')
def b_exec(eng, fr, st, vals, types, T, line, args):
    ctx, g, loc, listing, entry, tmpl, out, src, only = vals
    job = eng.target.job
    pr = lambda what, f: eng.prove(st, f, 'precondition', 'bm_exec_blogc: ' + what, line)
    i = POS(zi(out.o))
    pr('the context', zi(ctx.o) == JCTX)
    live_trie(eng, st, g, line, 'bm_exec_blogc')
    d, s = JD, JS
    for k, v in (job.each(i) if job.each else ()):
        d, s = z3.Store(d, lit(k), z3.BoolVal(True)), z3.Store(s, lit(k), v)
    pr('bound variables', t0(eng, st, 'TD', g) == d)
    pr('texts of the variables', t0(eng, st, 'TS', g) == s)
    if job.paired:
        pr('own variables', And(ne0(loc.o), t0(eng, st, 'TD', loc) == z3.If(SLUGGED(i), z3.Store(NOKEYS, lit('MAKE_SLUG'), z3.BoolVal(True)), NOKEYS), t0(eng, st, 'TS', loc) == z3.If(SLUGGED(i), z3.Store(NOTEXT, lit('MAKE_SLUG'), SLUG(i)), NOTEXT)))
        pr('own source', And(zi(src.o) == ND2(i), ne0(only)))
    else:
        pr('no own variables', Eq(loc.o, 0))
        pr('all sources', And(zi(src.o) == JSRC, Eq(only, 0)))
    pr('listing', Iff(ne0(listing), zb(job.listing)))
    pr('entry template', zi(entry.o) == JENTRY)
    pr('template', zi(tmpl.o) == JTEMPLATE)
    r = fresh('status')
    m = eng.gm(st, 'DONE')
    st.maps['DONE'] = z3.Store(m, zi(out.o), z3.If(r == 0, z3.IntVal(1), z3.IntVal(2)))
    return [(st, r)]


JSRC = z3.Int('job.sources')
SLUGGED, SLUG, TAG = z3.Function('has slug', I, B), z3.Function('slug', I, SEQ), z3.Function('tag', I, SEQ)


def done(c, o, st=None):
    return z3.Select(c.map('DONE', st), zi(o))


def outputs_ok(c, job):
    i = z3.Int('i')
    x = dat(c, ND(i))
    r = [('outputs', And(LIST(c, c.a('outputs'), N), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), z3.And(datf(c, ND(i)) == 0, z3.Or(x == 0, z3.And(POS(x) == i, x > 0, x < zi(c.st.nxt), done(c, x) == 0)))), patterns=[x])))]
    return r


def tags_ok(c):
    """the tags, one for each output"""
    s = cf(c, 'settings')
    v = P(fp(c, SET, 'tags', s), fp(c, SET, 'tags.f', s) if False else z3.Select(c.map(SET + 'tags.f'), s))
    i = z3.Int('i')
    e, f = [z3.Select(z3.Select(c.map(m), zi(v.o)), zi(v.f) + i) for m in ('P.o', 'P.f')]
    k = z3.Int('k')
    e, f = [z3.Select(z3.Select(c.map(m), zi(v.o)), k) for m in ('P.o', 'P.f')]
    a, sl = z3.Select(c.map('M8'), e), c.e.slen_f()
    return Implies(ne0(v.o), And(own(c, zi(v.o)), Eq(v.f, 0), z3.Select(c.map('SIZE'), zi(v.o)) > N, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N), z3.And(e > 0, e < zi(c.st.nxt), f == 0, z3.Select(c.map('LIVE'), e), sl(a, 0) >= 0, sl(a, 0) < z3.Select(c.map('SIZE'), e), z3.Select(a, sl(a, 0)) == 0, c.e.cs_f()(a, 0) == TAG(k))), patterns=[e])))


def sources_ok(c, job):
    """the sources, one for each output"""
    i = z3.Int('i')
    x = dat(c, ND2(i))
    sp, sf = z3.Select(c.map(FC + 'slug.o'), x), z3.Select(c.map(FC + 'slug.f'), x)
    a, sl = z3.Select(c.map('M8'), sp), c.e.slen_f()
    n = sl(a, sf)
    return [('sources', And(LIST(c, P(cf(c, job.sources), 0), N2, nd=ND2, idx=IDX2), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N2), z3.And(own(c, x), datf(c, ND2(i)) == 0, SLUGGED(i) == (sp != 0), z3.Or(sp == 0, z3.And(sp > 0, sp < zi(c.st.nxt), z3.Select(c.map('LIVE'), sp), sf >= 0, n >= 0, sf + n < z3.Select(c.map('SIZE'), sp), z3.Select(a, sf + n) == 0, c.e.cs_f()(a, sf) == SLUG(i))))), patterns=[x])))]


def spec_of(c, job):
    entry, tmpl, ntmpl = job.args(c)
    d, s = (NOKEYS, NOTEXT)
    for f in job.binds:
        d, s = f(c, (d, s))
    return [JD == d, JS == s, JTEMPLATE == tmpl, JENTRY == entry, JCTX == zi(c.a('ctx').o)] + ([] if job.paired else [JSRC == cf(c, job.sources)])


def total(job):
    return z3.If(N2 < N, N2, N) if job.paired else N


def all_done(c, job, n):
    i = z3.Int('i')
    x = outs(c, i)
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(n), x != 0), done(c, x) == z3.If(needs(c, job, i), z3.IntVal(1), z3.IntVal(0))), patterns=[x])


def untouched(c, n):
    i = z3.Int('i')
    x = outs(c, i)
    return z3.ForAll([i], z3.Implies(z3.And(i >= zi(n), i < N, x != 0), done(c, x) == 0), patterns=[x])


def below(c, m):
    c.e.name_maps(c.st)
    o = z3.Int('o')
    x = z3.Select(c.map(m), o)
    return z3.ForAll([o], z3.Implies(o < zi(c.pre.nxt), x == z3.Select(c.map(m, c.pre), o)), patterns=[x])


def rule(name, job):
    def at(c):
        l = c.o if job.paired else c.l
        return l, zi(If(Eq(l.o, 0), N, IDX(l.o)))

    def pos(c):
        l, p = at(c)
        if job.paired:
            return z3.If(zi(l.o) == 0, N, IDX(zi(l.o)))
        return p

    def inv(c):
        l, p = at(c)
        out = [('blocks', below(c, 'LIVE')), ('rv', Eq(c.rv, 0)), ('variables', And(c.live(c.variables), Eq(c.variables.f, 0), c.variables.o >= c.pre.nxt, lt(c.variables.o, c.st.nxt))),
               ('at', And(Eq(l.f, 0), p >= 0, p <= N, Implies(ne0(l.o), And(p < N, Eq(l.o, ND(p))))))]
        if job.paired:
            s = c.s
            out += [('source at', And(Eq(s.f, 0), Or(And(Eq(s.o, 0), p >= N2) if True else True, And(p < N2, Eq(s.o, ND2(p)), IDX2(zi(s.o)) == p)), p <= N2))]
        d, s_ = tr(c, c.variables)
        if job.each:
            last = [z3.Bool('bound before'), None]
            k = [lit(x) for x, _ in job.each(z3.IntVal(0))]
            base = lambda a, z: [z3.Select(a, y) for y in k]
            kd, ks = JD, JS
            for y in k:
                kd, ks = z3.Store(kd, y, z3.Select(d, y)), z3.Store(ks, y, z3.Select(s_, y))
            out += [('bound', d == kd), ('texts', s_ == ks)]
        else:
            out += [('bound', d == JD), ('texts', s_ == JS)]
        if c.has('i') and any(x == 'FILTER_TAG' for x, _ in (job.each(z3.IntVal(0)) if job.each else ())):
            out += [('tag at', Implies(ne0(l.o), Eq(c.i, p)))]
        if c.has('page'):
            out += [('page at', Implies(ne0(l.o), Eq(c.page, p + 1)))]
        return out + [('done', all_done(c, job, p)), ('to do', untouched(c, p))]

    c_ = VIEW[name] = C(name, 'ctx outputs args', file=F, maps=TR + ('TV', 'DONE', 'LIVE', 'SIZE', 'M8', 'P.o', 'P.f'),
        requires=lambda c: [('context', null_or_ctx(c)), ('fits', N < MAXOBJ)] + [(n, Implies(active(c, job), f)) for n, f in outputs_ok(c, job) + (sources_ok(c, job) if job.paired else []) + ([('tags', tags_ok(c))] if 'tags' in job.guard else [])],
        entry=lambda c: [Implies(active(c, job), And(*spec_of(c, job)))],
        modifies=lambda c: {'DONE': 'ANY'},
        ensures=lambda c: [('all made', Implies(And(active(c, job), Eq(c.result, 0)), all_done(c, job, total(job)))), ('off', Implies(Not(active(c, job)), And(Eq(c.result, 0), c.map('DONE') == c.map('DONE', c.pre))))],
        loops={0: Loop(inv=inv, decreases=lambda c: N - pos(c))})
    c_.view, c_.job = True, job
    c_.nocand, c_.feas_ms = True, 100


K = lambda k, v: (lambda c, ds: ins(ds, k, lit(v)))
S_ = lambda k, s: (lambda c, ds: ins(ds, k, textor(c, lit(s))))
SN = lambda k, s: (lambda c, ds: ins(ds, k, text(c, lit(s)), bound(c, lit(s))))
PG = lambda k: (lambda c, ds: pagination(c, ds, lit(k)))
OR = lambda k: (lambda c, ds: ordering(c, ds, lit(k)))
ATOM = '%Y-%m-%dT%H:%M:%SZ'
main_ = lambda c: (cf(c, 'listing_entry_fctx'), cf(c, 'main_template_fctx'), cf(c, 'main_template_fctx'))
single = lambda c: (z3.IntVal(0), cf(c, 'main_template_fctx'), cf(c, 'main_template_fctx'))
atom = lambda c: (z3.IntVal(0), cf(c, 'atom_template_fctx'), z3.If(z3.Select(c.map(CTX + 'atom_template_tmp', c.pre), zi(c.a('ctx').o)) != 0, z3.IntVal(0), cf(c, 'atom_template_fctx')))
tag = lambda i: [('FILTER_TAG', TAG(i))]
rule('index_exec', Job(['posts'], [PG('posts_per_page'), OR('html_order'), S_('DATE_FORMAT', 'date_format'), K('MAKE_RULE', 'index'), K('MAKE_TYPE', 'post')], main_))
rule('atom_exec', Job(['posts'], [PG('atom_posts_per_page'), OR('atom_order'), K('DATE_FORMAT', ATOM), K('MAKE_RULE', 'atom'), K('MAKE_TYPE', 'atom')], atom))
rule('tags_exec', Job(['posts', 'tags'], [PG('posts_per_page'), OR('html_order'), S_('DATE_FORMAT', 'date_format'), K('MAKE_RULE', 'tags'), K('MAKE_TYPE', 'post')], main_, tag))
rule('atom_tags_exec', Job(['posts', 'tags'], [PG('atom_posts_per_page'), OR('atom_order'), K('DATE_FORMAT', ATOM), K('MAKE_RULE', 'atom_tags'), K('MAKE_TYPE', 'atom')], atom, tag))
rule('pagination_exec', Job(['posts'], [S_('FILTER_PER_PAGE', 'posts_per_page'), OR('html_order'), S_('DATE_FORMAT', 'date_format'), K('MAKE_RULE', 'pagination'), K('MAKE_TYPE', 'post')], main_, lambda i: [('FILTER_PAGE', DEC(i + 1))]))
rule('posts_exec', Job(['posts'], [K('IS_POST', '1'), SN('DATE_FORMAT', 'date_format'), OR('html_order'), K('MAKE_RULE', 'posts'), K('MAKE_TYPE', 'post')], single, listing=False, paired=True))
rule('pages_exec', Job(['pages'], [SN('DATE_FORMAT', 'date_format'), K('MAKE_RULE', 'pages'), K('MAKE_TYPE', 'page')], single, listing=False, sources='pages_fctx', paired=True))


# ---- copies and cleaning
def ghost_result(eng, st, o, ok):
    """record what became of a file: 1 done, 2 failed"""
    m = eng.gm(st, 'DONE')
    st.maps['DONE'] = z3.Store(m, zi(o), z3.If(ok, z3.IntVal(1), z3.IntVal(2)))


@b('bm_exec_native_cp', maps=('DONE',), note='client view of M06: 0 exactly when the whole file was copied')
def b_cp(eng, fr, st, vals, types, T, line, args):
    src, dst, verb = vals
    i = POS(zi(dst.o))
    eng.prove(st, zi(src.o) == z3.Select(JSRCS, i), 'precondition', 'bm_exec_native_cp: the file is copied to its own output', line)
    r = fresh('status')
    ghost_result(eng, st, dst.o, r == 0)
    return [(st, r)]


JSRCS, JDIR = z3.Const('job.each source', z3.ArraySort(I, I)), z3.Int('job.output_dir')


def copying():
    job = Job(['copy'], [], lambda c: (z3.IntVal(0), z3.IntVal(0), z3.IntVal(0)), sources='copy_fctx', paired=True)
    i = z3.Int('i')
    pos = lambda c: z3.If(zi(c.o.o) == 0, N, IDX(zi(c.o.o)))

    def srcs(c):
        x = dat(c, ND2(i))
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N2), z3.And(z3.Select(JSRCS, i) == x, datf(c, ND2(i)) == 0)), patterns=[x])

    def inv(c):
        p = pos(c)
        return [('rv', Eq(c.rv, 0)), ('at', And(Eq(c.o.f, 0), p >= 0, p <= N, Implies(ne0(c.o.o), And(p < N, Eq(c.o.o, ND(p)))))),
                ('source at', And(Eq(c.s.f, 0), Or(And(Eq(c.s.o, 0), p >= N2), And(p < N2, Eq(c.s.o, ND2(p)), IDX2(zi(c.s.o)) == p)), p <= N2)),
                ('done', all_done(c, job, p)), ('to do', untouched(c, p))]

    c_ = VIEW['copy_exec'] = C('copy_exec', 'ctx outputs args', file=F, maps=('DONE', 'LIVE', 'P.o', 'P.f'),
        requires=lambda c: [('context', null_or_ctx(c)), ('fits', N < MAXOBJ)] + [(n, Implies(active(c, job), f)) for n, f in outputs_ok(c, job) + [('sources', And(LIST(c, P(cf(c, 'copy_fctx'), 0), N2, nd=ND2, idx=IDX2), srcs(c)))]],
        modifies=lambda c: {'DONE': 'ANY'},
        ensures=lambda c: [('all copied', Implies(And(active(c, job), Eq(c.result, 0)), all_done(c, job, total(job)))), ('off', Implies(Not(active(c, job)), And(Eq(c.result, 0), c.map('DONE') == c.map('DONE', c.pre))))],
        loops={0: Loop(inv=inv, decreases=lambda c: N - pos(c))})
    c_.view, c_.job = True, job


copying()


@b('bm_rule_list_built_files', maps=(), note='bm_rule_list_built_files gives the list of the files the build rules name (checked bounded)')
def b_built(eng, fr, st, vals, types, T, line, args):
    return [(st, P(z3.If(N == 0, z3.IntVal(0), ND(0)), 0))]


@b('bm_exec_native_rm', maps=('DONE',), note='client view of M04: 0 exactly when the file and the directories it leaves empty are gone')
def b_rm(eng, fr, st, vals, types, T, line, args):
    d, f, verb = vals
    eng.prove(st, zi(d.o) == JDIR, 'precondition', 'bm_exec_native_rm: inside the output directory', line)
    eng.prove(st, z3.Select(eng.gm(st, 'DONE'), zi(f.o)) == 0, 'precondition', 'bm_exec_native_rm: the file was not removed before', line)
    r = fresh('status')
    ghost_result(eng, st, f.o, r == 0)
    return [(st, r)]


@b('bm_exec_native_is_empty_dir', note='client view of M04: whether the directory is empty')
def b_empty(eng, fr, st, vals, types, T, line, args):
    eng.prove(st, zi(vals[0].o) == JDIR, 'precondition', 'bm_exec_native_is_empty_dir: the output directory', line)
    r = fresh('empty')
    st.assume(z3.And(r >= 0, r <= 1))
    return [(st, r)]


@b('bc_slist_free_full', note='client view of C03: the list is released')
def b_freef(eng, fr, st, vals, types, T, line, args):
    return [(st, None)]


def cleaning():
    i = z3.Int('i')
    x0 = lambda c: dat(c, ND(i), c.pre)
    rd = lambda c, x: z3.Select(c.map(FC + 'readable', c.pre), x) != 0
    pos = lambda c: z3.If(zi(c.l.o) == 0, N, IDX(zi(c.l.o)))

    def files(c):
        x = dat(c, ND(i))
        return And(LIST(c, P(z3.If(N == 0, z3.IntVal(0), ND(0)), 0), N), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), z3.And(datf(c, ND(i)) == 0, z3.Or(x == 0, z3.And(POS(x) == i, own(c, x), done(c, x) == 0)))), patterns=[x]))

    def removed(c, n):
        x = x0(c)
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(n), x != 0), done(c, x) == z3.If(rd(c, x), z3.IntVal(1), z3.IntVal(0))), patterns=[x])

    def only(c):
        o = z3.Int('o')
        x = done(c, o)
        return z3.ForAll([o], z3.Implies(x != done(c, o, c.pre), z3.And(POS(o) >= 0, POS(o) < N, dat(c, ND(POS(o)), c.pre) == o, rd(c, o))), patterns=[x])

    c_ = VIEW['clean_exec'] = C('clean_exec', 'ctx outputs args', file=F, maps=('DONE', 'LIVE', 'P.o', 'P.f'),
        requires=lambda c: [('context', ctx_ok(c)), ('fits', N < MAXOBJ), ('files', files(c))],
        entry=lambda c: [JDIR == fp(c, CTX, 'output_dir', c.a('ctx').o)],
        modifies=lambda c: {'DONE': 'ANY'},
        ensures=lambda c: [('every built file that exists is removed', Implies(Eq(c.result, 0), removed(c, N))), ('nothing else is removed', only(c))],
        loops={0: Loop(inv=lambda c: [('rv', Eq(c.rv, 0)), ('at', And(Eq(c.l.f, 0), pos(c) >= 0, pos(c) <= N, Implies(ne0(c.l.o), And(pos(c) < N, Eq(c.l.o, ND(pos(c))))))), ('removed', removed(c, pos(c))), ('to do', untouched(c, pos(c))), ('only', only(c))],
                       decreases=lambda c: N - pos(c))})
    c_.view = True


cleaning()

for _c in VIEW.values():
    _c.hide = ('bc_str_to_bool', 'bc_trie_new', 'bc_trie_insert', 'bc_trie_lookup', 'bc_trie_free', 'bm_exec_native_cp', 'bm_exec_native_rm', 'bm_exec_native_is_empty_dir', 'bc_slist_free_full')
