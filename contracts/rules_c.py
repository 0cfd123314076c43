"""src/blogc-make/ctx.c and rules.c: what is out of date, and what has to be built again."""
from vc.sym import *
from vc.lib import C, need_str
from . import client
from .lists_c import LIST, ND, IDX, N, dat, datf, nxt, nxtf
F, R = 'src/blogc-make/ctx.c', 'src/blogc-make/rules.c'
VIEW, USES = {}, {}
BUILTINS = {}
EX = z3.Function('exists', SEQ, B)          # the file system, while the function runs
MS = z3.Function('mtime.sec', SEQ, I)
MN = z3.Function('mtime.nsec', SEQ, I)
FC = 'S.bm_filectx_t.'
STATF = ('S.stat.st_mtim.tv_sec', 'S.stat.st_mtim.tv_nsec')
RNG = lambda x: And(x >= -(1 << 63), x < (1 << 63))


def b_stat(eng, fr, st, vals, types, T, line, args):
    need_str(eng, st, vals[0], line, 'stat: path is a string')
    v = eng.cs(st, vals[0])
    p = vals[1]
    r = fresh('stat')
    for m, f in zip(STATF, (MS, MN)):
        old = eng.gm(st, m)
        x = fresh('mtime')
        st.assume(And(RNG(x), Implies(r == 0, x == f(v))))
        st.maps[m] = z3.Store(old, zi(p.o), x)
    st.assume(And(Or(r == 0, r == -1), Iff(r == 0, EX(v)), RNG(MS(v)), RNG(MN(v))))
    return [(st, r)]


b_stat.maps, b_stat.note = STATF, 'stat succeeds exactly for files that exist and gives their modification time'
BUILTINS['stat'] = b_stat


def ff(c, p, f, st=None):
    return z3.Select(c.map(FC + f, st), zi(p.o))


def pathof(c, p, st=None):
    return P(z3.Select(c.map(FC + 'path.o', st), zi(p.o)), z3.Select(c.map(FC + 'path.f', st), zi(p.o)))


def later(s1, n1, s2, n2):
    return Or(s1 > s2, And(s1 == s2, n1 > n2))


def newer(c, st=None):
    x = c.a('ctx')
    t = c.cs(pathof(c, x, c.pre), c.pre)
    return And(ne0(x.o), EX(t), later(MS(t), MN(t), ff(c, x, 'tv_sec', c.pre), ff(c, x, 'tv_nsec', c.pre)))


def fc_ok(c, x):
    return And(c.live(x), Eq(x.f, 0), c.isstr(pathof(c, x)), lt(pathof(c, x).o, c.st.nxt), gt(x.o, 0), lt(x.o, c.st.nxt))


def i64(c, p, st=None):
    return z3.Select(z3.Select(c.map('I64', st), zi(p.o)), zi(p.f))


def text(c):
    return c.cs(pathof(c, c.a('ctx'), c.pre), c.pre)


c_ = VIEW['bm_filectx_changed'] = C('bm_filectx_changed', 'ctx tv_sec tv_nsec', file=F, maps=('I64',), allocates=False,
    requires=lambda c: [('file', Or(Eq(c.a('ctx').o, 0), fc_ok(c, c.a('ctx')))), ('seconds', Or(Eq(c.a('tv_sec').o, 0), c.valid(c.a('tv_sec'), 1))), ('nanoseconds', Or(Eq(c.a('tv_nsec').o, 0), And(c.valid(c.a('tv_nsec'), 1), Not(Eq(c.a('tv_sec').o, c.a('tv_nsec').o)))))],
    modifies=lambda c: {'I64': [c.a('tv_sec').o, c.a('tv_nsec').o]},
    ensures=lambda c: [('newer', Iff(ne0(c.result), newer(c))), ('time', Implies(newer(c), And(Implies(ne0(c.a('tv_sec').o), i64(c, c.a('tv_sec')) == MS(text(c))), Implies(ne0(c.a('tv_nsec').o), i64(c, c.a('tv_nsec')) == MN(text(c))))))])
c_.view = True

c_ = VIEW['bm_filectx_reload'] = C('bm_filectx_reload', 'ctx', file=F, maps=(FC + 'tv_sec', FC + 'tv_nsec', FC + 'readable'),
    requires=lambda c: [('file', Or(Eq(c.a('ctx').o, 0), fc_ok(c, c.a('ctx'))))],
    modifies=lambda c: {FC + k: [c.a('ctx').o] for k in ('tv_sec', 'tv_nsec', 'readable')},
    ensures=lambda c: [('newer', Implies(newer(c), And(ff(c, c.a('ctx'), 'tv_sec') == MS(text(c)), ff(c, c.a('ctx'), 'tv_nsec') == MN(text(c)), ff(c, c.a('ctx'), 'readable') == 1))),
                       ('kept', Implies(And(ne0(c.a('ctx').o), Not(newer(c))), And(*[ff(c, c.a('ctx'), k) == ff(c, c.a('ctx'), k, c.pre) for k in ('tv_sec', 'tv_nsec', 'readable')])))])
c_.view = True

# ---- client view of C03: the nodes of a list that is built by appending
NEXTM = ('S.bc_slist_t.next', 'S.bc_slist_t.next*')


def LN(c, h, st=None):
    return z3.If(zi(h.o) == 0, z3.IntVal(0), z3.Select(c.map('LN', st), zi(h.o)))


def at(c, h, i, st=None):
    return z3.Select(z3.Select(c.map('LA', st), zi(h.o)), zi(i))


def LISTG(c, h, st=None):
    c.e.name_maps(st or c.st)
    i = z3.Int('i')
    x = at(c, h, i, st)
    n = LN(c, h, st)
    rng = z3.And(i >= 0, i < n)
    bound = zi((st or c.st).nxt)
    return And(Eq(h.f, 0), Implies(ne0(h.o), And(n >= 1, at(c, h, 0, st) == zi(h.o))),
               Implies(ne0(h.o), z3.ForAll([i], z3.Implies(rng, z3.And(x > 0, x >= zi(h.o), x < bound, z3.Select(c.map('LO', st), x) == zi(h.o), z3.Select(c.map('LI', st), x) == i, z3.Select(c.map('LIVE', st), x),
                                                      nxt(c, x, st) == z3.If(i == n - 1, z3.IntVal(0), at(c, h, i + 1, st)), nxtf(c, x, st) == 0)), patterns=[x])))


def appended(c):
    h, r = c.a('l'), c.result
    n = LN(c, h, c.pre)
    j = z3.Int('j')
    x = at(c, r, j)
    new = at(c, r, n)
    return [('head', And(Eq(r.f, 0), ne0(r.o), If(Eq(h.o, 0), ge(r.o, c.pre.nxt), Eq(r.o, h.o)))), ('length', z3.Select(c.map('LN'), zi(r.o)) == n + 1),
            ('kept', Implies(ne0(h.o), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), x == at(c, h, j, c.pre)), patterns=[x]))),
            ('new', And(new >= zi(c.pre.nxt), new < zi(c.st.nxt), dat(c, new) == zi(c.a('data').o), datf(c, new) == zi(c.a('data').f))), ('list', LISTG(c, r))]


ap = C('bc_slist_append', 'l data', file='src/common/utils.c', maps=('LN', 'LA', 'LO', 'LI', 'LIVE') + NEXTM,
       requires=lambda c: [('list', LISTG(c, c.a('l')))],
       modifies=lambda c: dict({m: [z3.If(zi(c.a('l').o) == 0, z3.IntVal(0), at(c, c.a('l'), LN(c, c.a('l'), c.pre) - 1, c.pre))] for m in NEXTM}, LN=[c.a('l').o], LA=[c.a('l').o]),
       ensures=appended)
ap.view = True
USES['bc_slist_append'] = ap
fr_ = C('bc_slist_free', 'l', file='src/common/utils.c', maps=('LIVE',), allocates=False,
        requires=lambda c: [('list', LISTG(c, c.a('l')))],
        modifies=lambda c: {'LIVE': [lambda o: And(ne0(c.a('l').o), zi(o) >= zi(c.a('l').o))]}, ensures=lambda c: [])
fr_.view = True
USES['bc_slist_free'] = fr_


# ---- the decision
def fcq(c, x):
    return And(c.live(x), Eq(x.f, 0))


def stale(c, o):
    """the file of this context forces a build"""
    o = zi(o)
    out = c.a('output')
    g = lambda f: z3.Select(c.map(FC + f, c.pre), o)
    return Or(o == 0, g('readable') == 0, later(g('tv_sec'), g('tv_nsec'), ff(c, out, 'tv_sec', c.pre), ff(c, out, 'tv_nsec', c.pre)))


def M(c):
    return zi(If(And(ne0(c.a('only_first_source')), N > 1), 1, N))


def deps(c):
    """settings, template, entry: how many of them there are before each"""
    p = [c.a('settings'), c.a('template'), c.a('listing_entry')]
    k, out = z3.IntVal(0), []
    for x in p:
        out.append((x, k))
        k = k + z3.If(zi(x.o) == 0, 0, 1)
    return out, k


def src(c, i):
    return dat(c, ND(i), c.pre)


def below(c, m):
    c.e.name_maps(c.st)
    o = z3.Int('o')
    x = z3.Select(c.map(m), o)
    return z3.ForAll([o], z3.Implies(z3.And(o > 0, o < zi(c.pre.nxt)), x == z3.Select(c.map(m, c.pre), o)), patterns=[x])


def holds(c, s, n):
    """the list s has the first n sources after the others"""
    d, k = deps(c)
    j = z3.Int('j')
    y = at(c, s, j)
    return [('own', Or(Eq(s.o, 0), ge(s.o, c.pre.nxt))), ('list', LISTG(c, s)), ('length', LN(c, s) == k + n)] + \
           [('part %d' % i, Implies(ne0(x.o), And(dat(c, at(c, s, b)) == zi(x.o), datf(c, at(c, s, b)) == 0))) for i, (x, b) in enumerate(d)] + \
           [('sources', z3.ForAll([j], z3.Implies(z3.And(j >= k, j < k + n), z3.And(dat(c, y) == src(c, j - k), datf(c, y) == 0)), patterns=[y]))]


def sources_ok(c):
    i = z3.Int('i')
    x = dat(c, ND(i))
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), z3.And(datf(c, ND(i)) == 0, z3.Or(x == 0, z3.And(x > 0, x < zi(c.st.nxt), z3.Select(c.map('LIVE'), x))))), patterns=[x])


def pos(c, p):
    return If(Eq(p.o, 0), N, IDX(p.o))


def old(c):
    return [('blocks', below(c, 'LIVE'))] + [(k, below(c, 'S.bc_slist_t.' + k)) for k in ('data.o', 'data.f', 'next.o', 'next.f')] + [(k, below(c, FC + k)) for k in ('readable', 'tv_sec', 'tv_nsec')]


def live_all(c, s):
    j = z3.Int('j')
    y = at(c, s, j)
    x = dat(c, y)
    return [('live', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < LN(c, s)), z3.And(datf(c, y) == 0, z3.Or(x == 0, z3.And(x > 0, x < zi(c.pre.nxt), z3.Select(c.map('LIVE'), x))))), patterns=[y]))]


def kpos(c):
    l = c.v('l.2')
    return z3.If(zi(l.o) == 0, LN(c, c.s), z3.Select(c.map('LI'), zi(l.o)))


def fresh_until(c, k):
    j = z3.Int('j')
    y = at(c, c.s, j)
    d, b = deps(c)
    x = src(c, j)
    return [('fresh', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(k)), z3.Not(stale(c, dat(c, y)))), patterns=[y])),
            ('fresh sources', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < M(c), b + j < zi(k)), z3.Not(stale(c, x))), patterns=[x]))]


def need(c):
    i = z3.Int('i')
    d, _ = deps(c)
    return Or(Eq(c.a('output').o, 0), ff(c, c.a('output'), 'readable', c.pre) == 0, *[And(ne0(x.o), stale(c, x.o)) for x, _ in d], z3.Exists([i], z3.And(i >= 0, i < M(c), stale(c, src(c, i)))))


c_ = VIEW['bm_rule_need_rebuild'] = C('bm_rule_need_rebuild', 'sources settings listing_entry template output only_first_source', file=R, maps=('LN', 'LA', 'LO', 'LI') + NEXTM,
    requires=lambda c: [('sources', And(LIST(c, c.a('sources'), N), sources_ok(c)))] + [(n, Or(Eq(c.a(n).o, 0), And(c.valid(c.a(n), 1), Eq(c.a(n).f, 0), gt(c.a(n).o, 0), lt(c.a(n).o, c.st.nxt)))) for n in ('settings', 'listing_entry', 'template', 'output')] + [('flags', And(*[zi(c.a('only_first_source')) >= 0]))],
    modifies=lambda c: {},
    ensures=lambda c: [('old', Implies(Eq(c.result, 0), Not(need(c)))), ('new', Implies(ne0(c.result), need(c)))],
    loops={0: Loop(inv=lambda c: old(c) + [('at', And(Eq(c.l.f, 0), pos(c, c.l) >= 0, Implies(ne0(c.l.o), pos(c, c.l) < N), Eq(c.l.o, If(Eq(c.l.o, 0), 0, ND(IDX(c.l.o)))), Implies(ne0(c.a('only_first_source')), pos(c, c.l) == 0))), ('rv', Eq(c.rv, 0))] + holds(c, c.s, pos(c, c.l)),
                   decreases=lambda c: N - pos(c, c.l)),
           1: Loop(inv=lambda c: old(c) + [('at', And(Eq(c.v('l.2').f, 0), kpos(c) >= 0, Implies(ne0(c.v('l.2').o), kpos(c) < LN(c, c.s)), Implies(ne0(c.v('l.2').o), Eq(c.v('l.2').o, at(c, c.s, kpos(c)))))), ('rv', Eq(c.rv, 0))] + fresh_until(c, kpos(c)) + live_all(c, c.s) + holds(c, c.s, M(c)),
                   decreases=lambda c: LN(c, c.s) - kpos(c))})
c_.view = True
c_.nocand, c_.feas_ms = True, 100
