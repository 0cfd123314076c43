"""src/blogc-make/rules.c: which files every build rule names."""
from vc.sym import *
from vc.lib import C, fresh_string
from . import jobs_c as J
from .jobs_c import F, CTX, SET, fp, cf, own, lit, textor, bound, text, settings, ctx_ok, NUML, ins, pagination, NOKEYS, NOTEXT, zb
VIEW = {}
USES = dict(J.USES, **{k: J.VIEW[k] for k in ('bm_ctx_settings_lookup', 'bm_ctx_settings_lookup_str', 'posts_pagination', 'posts_pagination_enabled')})
BUILTINS = dict(J.BUILTINS)
EMPTY = z3.Empty(SEQ)
GEN = z3.Function('generated name', SEQ, SEQ, SEQ, SEQ, SEQ, SEQ)          # what M02 proves bm_generate_filename gives
GEN2 = z3.Function('generated name of two parts', SEQ, SEQ, SEQ, SEQ, SEQ, SEQ, SEQ, SEQ)
NT = z3.Int('job.elements')
EL = z3.Function('element', I, SEQ)
FMTD = z3.Function('fmt_d', I, SEQ)
LASTG = z3.Function('last page given', SEQ, B)       # blogc prints a last page for the posts of this tag (empty: all posts)
LASTP = z3.Function('last page', SEQ, I)
JDIR, JTD, JTS, JSRC = z3.Const('job.directory', SEQ), z3.Const('job.bound', z3.ArraySort(SEQ, B)), z3.Const('job.texts', z3.ArraySort(SEQ, SEQ)), z3.Int('job.sources')
JCTX = z3.Int('job.ctx')


def b(name, maps=(), note=''):
    def d(f):
        f.maps, f.note = tuple(maps), note
        BUILTINS[name] = f
        return f
    return d


def opt(eng, st, p):
    return z3.If(zi(p.o) == 0, EMPTY, eng.cs(st, p))


def b_gen(f, who):
    def g(eng, fr, st, vals, types, T, line, args):
        for n, p in enumerate(vals):
            eng.prove(st, Or(Eq(p.o, 0), eng.isstr(st, p)), 'precondition', who + ': argument %d is a string or NULL' % (n + 1), line)
        t = [opt(eng, st, p) for p in vals]
        eng.prove(st, And(ne0(vals[0].o), t[0] == JDIR), 'precondition', who + ': inside the output directory', line)
        w = f(*t)
        r = fresh_string(eng, st, w)
        o = fresh('name')
        st.assume(o == z3.If(w == EMPTY, z3.IntVal(0), zi(r.o)))
        return [(st, P(o, 0))]
    return g


for _n, _f in (('bm_generate_filename', GEN), ('bm_generate_filename2', GEN2)):
    b(_n, maps=('$nxt',), note='client view of M02: the documented name, NULL when it is empty')(b_gen(_f, _n))


@b('bm_filectx_new', maps=('DN', '$nxt', 'LIVE', 'SIZE'), note='bm_filectx_new makes a fresh record of the given path, none without path (checked bounded)')
def b_fctx(eng, fr, st, vals, types, T, line, args):
    ctx, f, slug, s = vals
    eng.prove(st, And(zi(ctx.o) == JCTX, Eq(slug.o, 0), Eq(s.o, 0)), 'precondition', 'bm_filectx_new: an output of this build', line)
    o = eng.newobj(st, 1)
    st.maps['DN'] = z3.Store(eng.gm(st, 'DN'), zi(o), eng.cs(st, f))
    return [(st, P(z3.If(zi(f.o) == 0, z3.IntVal(0), zi(o)), 0))]


@b('bc_slist_append', maps=('LN', 'NAMES', '$nxt', 'LIVE', 'SIZE'), note='client view of C03: the list gains the element at its end; here the name of the output is kept')
def b_app(eng, fr, st, vals, types, T, line, args):
    l, d = vals
    o = eng.newobj(st, 1)
    r = fresh('list')
    st.assume(r == z3.If(zi(l.o) == 0, zi(o), zi(l.o)))
    n = z3.If(zi(l.o) == 0, z3.IntVal(0), z3.Select(eng.gm(st, 'LN'), zi(l.o)))
    st.maps['LN'] = z3.Store(eng.gm(st, 'LN'), r, n + 1)
    x = z3.If(zi(d.o) == 0, EMPTY, z3.Select(eng.gm(st, 'DN'), zi(d.o)))
    st.maps['NAMES'] = z3.Store(eng.gm(st, 'NAMES'), r, z3.Store(z3.Select(eng.gm(st, 'NAMES'), r), n, x))
    return [(st, P(r, 0))]


@b('bm_exec_blogc_get_variable', maps=('$nxt',), note='bm_exec_blogc_get_variable gives what blogc prints for the variable (a page number), or NULL')
def b_get(eng, fr, st, vals, types, T, line, args):
    ctx, g, loc, name, listing, src, only = vals
    pr = lambda what, f: eng.prove(st, f, 'precondition', 'bm_exec_blogc_get_variable: ' + what, line)
    pr('of this build', And(zi(ctx.o) == JCTX, eng.cs(st, name) == lit('LAST_PAGE'), ne0(listing), zi(src.o) == JSRC, Eq(only, 0)))
    pr('variables', And(J.t0(eng, st, 'TD', g) == JTD, J.t0(eng, st, 'TS', g) == JTS))
    tag = EMPTY
    if eng.target.tagged:
        tag = z3.Select(J.t0(eng, st, 'TS', loc), lit('FILTER_TAG'))
        pr('one tag', And(ne0(loc.o), J.t0(eng, st, 'TD', loc) == z3.Store(NOKEYS, lit('FILTER_TAG'), z3.BoolVal(True))))
    else:
        pr('all posts', Eq(loc.o, 0))
    r = fresh_string(eng, st)
    st.assume(And(NUML(eng.cs(st, r)) == LASTP(tag), LASTP(tag) >= 0, LASTP(tag) < (1 << 30)))
    return [(st, P(z3.If(LASTG(tag), zi(r.o), z3.IntVal(0)), 0))]


def opt_text(c, k):
    return textor(c, lit(k))


def below(c, m):
    """the blocks of the caller are as given"""
    c.e.name_maps(c.st)
    o = z3.Int('o')
    x = z3.Select(c.map(m), o)
    return z3.ForAll([o], z3.Implies(z3.And(o > 0, o < zi(c.pre.nxt)), x == z3.Select(c.map(m, c.pre), o)), patterns=[x])


def vector(c, field):
    """the elements of a NULL-terminated array of strings"""
    s = cf(c, 'settings')
    o, f = z3.Select(c.map(SET + field + '.o'), s), z3.Select(c.map(SET + field + '.f'), s)
    k = z3.Int('k')
    x, xf = [z3.Select(z3.Select(c.map(m), o), k) for m in ('P.o', 'P.f')]
    a, sl = z3.Select(c.map('M8'), x), c.e.slen_f()
    r = lambda n: z3.And(k >= 0, k < n)
    return And(own(c, o), f == 0, NT >= 0, z3.Select(c.map('SIZE'), o) > NT, NT < MAXOBJ, z3.Select(z3.Select(c.map('P.o'), o), NT) == 0,
               z3.ForAll([k], z3.Implies(r(NT), z3.And(x > 0, x < zi(c.st.nxt), xf == 0, z3.Select(c.map('LIVE'), x), sl(a, 0) >= 0, sl(a, 0) < z3.Select(c.map('SIZE'), x), z3.Select(a, sl(a, 0)) == 0, c.e.cs_f()(a, 0) == EL(k))), patterns=[x]))


def dir_ok(c):
    x = c.a('ctx').o
    p = P(fp(c, CTX, 'short_output_dir', x), z3.Select(c.map(CTX + 'short_output_dir.f'), zi(x)))
    return And(own(c, p.o), c.isstr(p))


def name_at(c, l, i, st=None):
    return z3.Select(z3.Select(c.map('NAMES', st), zi(l.o)), i)


def listed(c, l, n, f):
    """the list has n elements, named by f"""
    i = z3.Int('i')
    n = zi(n)
    c.e.name_maps(c.st)
    x = name_at(c, l, i)
    return And(Eq(l.f, 0), Iff(Eq(l.o, 0), n == 0), Implies(ne0(l.o), And(own(c, zi(l.o)), z3.Select(c.map('LN'), zi(l.o)) == n)),
               z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), x == f(i)), patterns=[x]))


MAPS = ('NAMES', 'LN', 'DN', 'LIVE', 'SIZE', 'M8', 'P.o', 'P.f', 'TD', 'TS', 'TV')


def outputs(name, guards, per_page, field, names):
    def on(c):
        g = And(ne0(c.a('ctx').o), *[fp(c, SET, x, cf(c, 'settings'), c.pre) != 0 for x in guards])
        return And(g, NUML(opt_text(c, per_page)) != 0) if per_page else g

    act = lambda c: And(ne0(c.a('ctx').o), *[fp(c, SET, x, cf(c, 'settings'), c.pre) != 0 for x in guards])
    total = (lambda c: NT) if field else (lambda c: z3.IntVal(1))
    f = lambda c: (lambda i: names(c, EL(i)))
    c_ = VIEW[name] = C(name, 'ctx', file=F, maps=MAPS,
        requires=lambda c: [('context', J.null_or_ctx(c)), ('directory', Implies(ne0(c.a('ctx').o), dir_ok(c)))] + ([('elements', Implies(act(c), vector(c, field)))] if field else []),
        entry=lambda c: [Implies(ne0(c.a('ctx').o), And(JDIR == c.cs(P(fp(c, CTX, 'short_output_dir', c.a('ctx').o), z3.Select(c.map(CTX + 'short_output_dir.f'), zi(c.a('ctx').o)))), JCTX == zi(c.a('ctx').o)))],
        ensures=lambda c: [('files named', Implies(on(c), listed(c, c.result, total(c), f(c)))), ('off', Implies(Not(on(c)), Eq(c.result.o, 0)))],
        loops={0: Loop(inv=lambda c: [('blocks', below(c, 'LIVE')), ('at', And(c.i >= 0, c.i <= NT)), ('named', listed(c, c.rv, c.i, f(c))), ('newer', Implies(ne0(c.rv.o), zi(c.rv.o) >= zi(c.pre.nxt)))], decreases=lambda c: NT - c.i)} if field else {})
    c_.view, c_.tagged = True, False
    c_.nocand, c_.feas_ms = True, 100


D = lambda c: JDIR
S = opt_text
outputs('index_outputlist', ['posts'], 'posts_per_page', None, lambda c, e: GEN(JDIR, S(c, 'blog_prefix'), S(c, 'index_prefix'), EMPTY, S(c, 'html_ext')))
outputs('atom_outputlist', ['posts'], 'atom_posts_per_page', None, lambda c, e: GEN(JDIR, S(c, 'blog_prefix'), S(c, 'atom_prefix'), EMPTY, S(c, 'atom_ext')))
outputs('atom_tags_outputlist', ['posts', 'tags'], 'atom_posts_per_page', 'tags', lambda c, e: GEN(JDIR, S(c, 'blog_prefix'), S(c, 'atom_prefix'), e, S(c, 'atom_ext')))
outputs('posts_outputlist', ['posts'], None, 'posts', lambda c, e: GEN(JDIR, S(c, 'blog_prefix'), S(c, 'post_prefix'), e, S(c, 'html_ext')))
outputs('tags_outputlist', ['posts', 'tags'], 'posts_per_page', 'tags', lambda c, e: GEN(JDIR, S(c, 'blog_prefix'), S(c, 'tag_prefix'), e, S(c, 'html_ext')))
outputs('pages_outputlist', ['pages'], None, 'pages', lambda c, e: GEN(JDIR, EMPTY, EMPTY, e, S(c, 'html_ext')))


# ---- pages
OFF = z3.Function('pages before', I, I)
NAME = z3.Function('page name', I, SEQ)
PAGES = lambda t: z3.If(LASTG(t), LASTP(t), z3.IntVal(0))


def paged(name, guards, tagged):
    on = lambda c: And(ne0(c.a('ctx').o), *[fp(c, SET, x, cf(c, 'settings'), c.pre) != 0 for x in guards], NUML(opt_text(c, 'posts_per_page')) != 0)
    total = (lambda c: OFF(NT)) if tagged else (lambda c: PAGES(EMPTY))
    fi = lambda c: (lambda i: NAME(i)) if tagged else (lambda i: GEN(JDIR, S(c, 'blog_prefix'), S(c, 'pagination_prefix'), FMTD(i + 1), S(c, 'html_ext')))
    blocks = lambda c: [('blocks', below(c, 'LIVE')), ('newer', Implies(ne0(c.rv.o), zi(c.rv.o) >= zi(c.pre.nxt)))]

    def entry(c):
        d, t = pagination(c, (NOKEYS, NOTEXT), lit('posts_per_page'))
        return [OFF(0) == 0, Implies(ne0(c.a('ctx').o), And(JDIR == c.cs(P(fp(c, CTX, 'short_output_dir', c.a('ctx').o), z3.Select(c.map(CTX + 'short_output_dir.f'), zi(c.a('ctx').o)))), JCTX == zi(c.a('ctx').o), JTD == d, JTS == t, JSRC == cf(c, 'posts_fctx')))]

    def vars_(c):
        v = c.variables
        return [('own list', Not(Eq(c.rv.o, v.o))), ('variables', And(c.live(v), Eq(v.f, 0), zi(v.o) >= zi(c.pre.nxt), lt(v.o, c.st.nxt), z3.Select(c.map('TD'), zi(v.o)) == JTD, z3.Select(c.map('TS'), zi(v.o)) == JTS))]

    if tagged:
        el = lambda c: EL(zi(c.k))
        step = lambda c: [OFF(zi(c.k) + 1) == OFF(zi(c.k)) + PAGES(el(c)), OFF(zi(c.k)) >= 0]
        here = lambda c: Implies(zi(c.i) < PAGES(el(c)), NAME(OFF(zi(c.k)) + zi(c.i)) == GEN2(JDIR, S(c, 'blog_prefix'), S(c, 'tag_prefix'), el(c), S(c, 'pagination_prefix'), FMTD(zi(c.i) + 1), S(c, 'html_ext')))
        loops = {0: Loop(inv=lambda c: blocks(c) + vars_(c) + [('at', And(c.k >= 0, c.k <= NT, OFF(zi(c.k)) >= 0)), ('named', listed(c, c.rv, OFF(zi(c.k)), fi(c)))], facts=step, decreases=lambda c: NT - c.k),
                 1: Loop(inv=lambda c: blocks(c) + vars_(c) + [('page', And(c.i >= 0, c.i <= c.pages, Eq(c.pages, LASTP(el(c))), LASTG(el(c)), OFF(zi(c.k)) >= 0)), ('named', listed(c, c.rv, OFF(zi(c.k)) + c.i, fi(c)))], facts=lambda c: [here(c)], decreases=lambda c: c.pages - c.i)}
    else:
        loops = {0: Loop(inv=lambda c: blocks(c) + [('page', And(c.i >= 0, c.i <= c.pages, Eq(c.pages, LASTP(EMPTY)), LASTG(EMPTY))), ('named', listed(c, c.rv, c.i, fi(c)))], decreases=lambda c: c.pages - c.i)}
    c_ = VIEW[name] = C(name, 'ctx', file=F, maps=MAPS,
        requires=lambda c: [('context', J.null_or_ctx(c)), ('directory', Implies(ne0(c.a('ctx').o), dir_ok(c)))] + ([('elements', Implies(And(ne0(c.a('ctx').o), *[fp(c, SET, x, cf(c, 'settings'), c.pre) != 0 for x in guards]), vector(c, 'tags')))] if tagged else []),
        entry=entry,
        ensures=lambda c: [('files named', Implies(on(c), listed(c, c.result, total(c), fi(c)))), ('off', Implies(Not(on(c)), Eq(c.result.o, 0)))],
        loops=loops)
    c_.view, c_.tagged = True, tagged
    c_.nocand, c_.feas_ms = True, 100


paged('pagination_outputlist', ['posts'], False)
paged('pagination_tags_outputlist', ['posts', 'tags'], True)

for _c in VIEW.values():
    _c.hide = ('bc_trie_new', 'bc_trie_insert', 'bc_trie_lookup', 'bc_trie_free', 'bc_slist_append', 'bm_generate_filename', 'bm_generate_filename2', 'bm_filectx_new')
