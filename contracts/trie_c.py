"""The prefix tree (src/common/utils.c): an exact map from C strings to values.

Words are abstract: EPS, and ext(w,c) (injective).  WK(a,s,i) is the word of the
bytes a[s..i).  Ghost state of a trie (per node / per word):
  INT[n]   n is a node of the trie        W[n]    word of the path above n
  POS[n]   position among its siblings    AT[w]   sibling list under w, CNT[w] its length
  NF[w][c] the node under w with key c (0 if none)
The value bound to the key with word w is data(NF[w][0]).
"""
from vc.sym import *
from vc.lib import C
U = 'src/common/utils.c'
CONC = {}
WORD = z3.DeclareSort('Word')
EPS = z3.Const('eps', WORD)
ext = z3.Function('ext', WORD, I, WORD)
pr = z3.Function('pr', WORD, WORD)
lc = z3.Function('lc', WORD, I)
ln = z3.Function('ln', WORD, I)
WK = z3.Function('WK', A1, I, I, WORD)
AW = z3.ArraySort(I, WORD)
WI = z3.ArraySort(WORD, I)
WA = z3.ArraySort(WORD, A1)
GH = {'INT': AB, 'W': AW, 'POS': A1, 'AT': WA, 'CNT': WI, 'NF': WA}
NODE = 'S.bc_trie_node_t.'


def reg(c):
    CONC[c.name] = c
    return c


def word_axioms(eng):
    w, c = z3.Const('w', WORD), z3.Int('c')
    eng.ax('ext', z3.ForAll([w, c], z3.And(pr(ext(w, c)) == w, lc(ext(w, c)) == c, ext(w, c) != EPS, ln(ext(w, c)) == ln(w) + 1), patterns=[ext(w, c)]))


def wk1(a, s, i):
    return WK(a, s, i + 1) == ext(WK(a, s, i), z3.Select(a, i))


def key(c, n, st=None): return z3.Select(c.map(NODE + 'key', st), zi(n))
def nxt(c, n, st=None): return z3.Select(c.map(NODE + 'next.o', st), zi(n))
def child(c, n, st=None): return z3.Select(c.map(NODE + 'child.o', st), zi(n))
def data(c, n, st=None): return z3.Select(c.map(NODE + 'data.o', st), zi(n))
def dataf(c, n, st=None): return z3.Select(c.map(NODE + 'data.f', st), zi(n))
def root(c, t, st=None): return z3.Select(c.map('S.bc_trie_t.root.o', st), zi(t.o))


class G:
    """the ghost arrays of a state"""
    def __init__(self, d):
        self.d = d

    def __getattr__(self, k):
        return self.d['t' + k]


def gh(st):
    return G(st.ghost)


def wf(c, t, g, st=None):
    st = st or c.st
    n, i, ch = z3.Ints('n i ch')
    w = z3.Const('w', WORD)
    S = z3.Select
    inn = S(g.INT, n)
    wn = S(g.W, n)
    ex = ext(wn, key(c, n, st))
    at = S(S(g.AT, w), i)
    nf = S(S(g.NF, w), ch)
    return [('trie', And(ne0(t.o), gt(t.o, 0), c.live(t, st), Not(S(g.INT, zi(t.o))))),
            ('root', Eq(root(c, t, st), If(S(g.CNT, EPS) == 0, 0, S(S(g.AT, EPS), 0)))),
            ('nodes', z3.ForAll([n], z3.Implies(inn, z3.And(n > 0, n < zi(st.nxt), S(c.map('LIVE', st), n), S(g.POS, n) >= 0, S(g.POS, n) < S(g.CNT, wn), S(S(g.AT, wn), S(g.POS, n)) == n,
                                                            S(S(g.NF, wn), key(c, n, st)) == n, key(c, n, st) >= -128, key(c, n, st) <= 127)), patterns=[inn])),
            ('next', z3.ForAll([n], z3.Implies(inn, nxt(c, n, st) == z3.If(S(g.POS, n) + 1 == S(g.CNT, wn), 0, S(S(g.AT, wn), S(g.POS, n) + 1))), patterns=[nxt(c, n, st)])),
            ('child', z3.ForAll([n], z3.Implies(inn, child(c, n, st) == z3.If(S(g.CNT, ex) == 0, 0, S(S(g.AT, ex), 0))), patterns=[child(c, n, st)])),
            ('siblings', z3.ForAll([w, i], z3.Implies(z3.And(i >= 0, i < S(g.CNT, w)), z3.And(S(g.INT, at), S(g.W, at) == w, S(g.POS, at) == i)), patterns=[at])),
            ('rooted', z3.ForAll([n], z3.Implies(inn, S(g.CNT, EPS) > 0), patterns=[inn])),
            ('count', z3.ForAll([w], S(g.CNT, w) >= 0, patterns=[S(g.CNT, w)])),
            ('find', z3.ForAll([w, ch], z3.Implies(nf != 0, z3.And(S(g.INT, nf), S(g.W, nf) == w, key(c, nf, st) == ch)), patterns=[nf])),
            ('closed', z3.ForAll([w, ch], z3.Implies(S(g.CNT, ext(w, ch)) > 0, S(S(g.NF, w), ch) != 0), patterns=[S(g.CNT, ext(w, ch))]))]


def init_ghost():
    return {('t' + k): (lambda k=k, s=s: z3.Const('ghost.' + k, s)) for k, s in GH.items()}


def K(c, i):
    k = c.a('key')
    return WK(c.arr(k, c.pre), k.f, zi(i))


def KB(c, i):
    return z3.Select(c.arr(c.a('key'), c.pre), zi(i))


def valueof(c, g, w, st=None):
    nf = z3.Select(z3.Select(g.NF, w), 0)
    return z3.If(nf == 0, z3.IntVal(0), data(c, nf, st))


def pre_ghost(c):
    word_axioms(c.e)
    k = c.a('key')
    return [WK(c.arr(k), k.f, k.f) == EPS]


def endk(c):
    return c.a('key').f + c.slen(c.a('key'), c.pre)


# ---- lookup
def look_outer(c):
    g = gh(c.pre)
    i = c.v('key').f
    return [('key', And(Eq(c.v('key').o, c.a('key').o), i >= c.a('key').f, i <= endk(c))),
            ('at', Eq(c.parent.o, If(z3.Select(g.CNT, K(c, i)) == 0, 0, z3.Select(z3.Select(g.AT, K(c, i)), 0)))),
            ('root', Implies(z3.Select(g.CNT, K(c, i)) > 0, z3.Select(g.INT, c.parent.o)))]


def look_inner(c):
    g = gh(c.pre)
    i = c.v('key').f
    w = K(c, i)
    m = z3.Int('m')
    b = z3.If(c.tmp.o == 0, z3.Select(g.CNT, w), z3.Select(g.POS, c.tmp.o))
    at = z3.Select(z3.Select(g.AT, w), m)
    return look_outer(c) + [('tmp', Or(Eq(c.tmp.o, 0), And(z3.Select(g.INT, c.tmp.o), z3.Select(g.W, c.tmp.o) == w))),
                            ('passed', z3.ForAll([m], z3.Implies(z3.And(m >= 0, z3.Or(m < b - 1, m == b - 1)), key(c, at) != KB(c, i)), patterns=[at]))]


def absent(c):
    """if no node carries the next character, no longer word below it is present (induction over the key)"""
    if not (c.has('tmp') and isinstance(c.v('tmp'), P)):
        return []
    g = gh(c.pre)
    i = c.v('key').f
    e = c.e
    w = K(c, i)
    j = fresh('ind')
    nf = lambda k: z3.Select(z3.Select(g.NF, K(c, k)), KB(c, k))
    here = And(Eq(c.tmp.o, 0))
    if here is False:
        return []
    s = c.st
    nfi = nf(i)
    at = z3.Select(z3.Select(g.AT, w), z3.Select(g.POS, nfi))
    s.assume(z3.Implies(nfi != 0, z3.And(z3.Select(g.INT, nfi), at == nfi)) if False else z3.BoolVal(True))
    e.prove(s, Implies(here, nfi == 0), 'lemma', 'absent.base', None)
    s2 = s.copy()
    s2.assume(z3.And(j >= zi(i), j < zi(endk(c)), nf(j) == 0))
    s2.assume(wk1(c.arr(c.a('key'), c.pre), c.a('key').f, j))
    e.prove(s2, z3.Select(g.CNT, K(c, j + 1)) == 0, 'lemma', 'absent.step-empty', None)
    e.prove(s2, nf(j + 1) == 0, 'lemma', 'absent.step', None)
    return [Implies(here, nf(zi(endk(c))) == 0)]


reg(C('bc_trie_lookup', 'trie key', file=U, concrete=True, maps=(), allocates=False,
      requires=lambda c: [('trie', Or(Eq(c.a('trie').o, 0), And(*[f for _, f in wf(c, c.a('trie'), gh(c.st))]))), ('key', c.nullstr(c.a('key')))],
      entry=pre_ghost,
      ensures=lambda c: [('null', Implies(Or(Eq(c.a('trie').o, 0), Eq(c.a('key').o, 0)), Eq(c.result.o, 0))),
                         ('value', Implies(And(ne0(c.a('trie').o), ne0(c.a('key').o)), Eq(c.result.o, valueof(c, gh(c.pre), K(c, endk(c))))))],
      exit_lemmas=lambda c: root_empty(c) + absent(c),
      loops={0: Loop(inv=look_outer, lemmas=lambda c: [wk1(c.arr(c.a('key'), c.pre), c.a('key').f, c.head.vars['key'].f)],
                     facts=lambda c: [c.e.slen_min(c.st, c.a('key')) or True],
                     decreases=lambda c: endk(c) - c.v('key').f),
             1: Loop(inv=look_inner, decreases=lambda c: z3.If(c.tmp.o == 0, 0, z3.Select(gh(c.pre).CNT, K(c, c.v('key').f)) - z3.Select(gh(c.pre).POS, c.tmp.o)))}))


def root_empty(c):
    """empty trie: the same induction from the start of the key"""
    if c.has('tmp') and isinstance(c.v('tmp'), P):
        return []
    g = gh(c.pre)
    e, s = c.e, c.st
    here = And(ne0(c.a('trie').o), ne0(c.a('key').o))
    i = c.a('key').f
    nf = lambda k: z3.Select(z3.Select(g.NF, K(c, k)), KB(c, k))
    j = fresh('ind')
    e.prove(s, Implies(here, nf(i) == 0), 'lemma', 'empty.base', None)
    s2 = s.copy()
    s2.assume(zi(here) if here is not True else z3.BoolVal(True))
    s2.assume(z3.And(j >= zi(i), j < zi(endk(c)), nf(j) == 0))
    s2.assume(wk1(c.arr(c.a('key'), c.pre), c.a('key').f, j))
    e.prove(s2, z3.Select(g.CNT, K(c, j + 1)) == 0, 'lemma', 'empty.step-empty', None)
    e.prove(s2, nf(j + 1) == 0, 'lemma', 'empty.step', None)
    return [Implies(here, nf(zi(endk(c))) == 0)]


CONC['bc_trie_lookup'].ghost_init = init_ghost()


# ---- insert
def upd(c, g, n, w, ch, created):
    """ghost state after linking the new node n (key ch) at the end of the sibling list of w"""
    S, St = z3.Select, z3.Store
    k = S(g.CNT, w)
    f = lambda new, old: z3.If(created, new, old)
    return {'tINT': f(St(g.INT, n, z3.BoolVal(True)), g.INT), 'tW': f(St(g.W, n, w), g.W), 'tPOS': f(St(g.POS, n, k), g.POS),
            'tAT': f(St(g.AT, w, St(S(g.AT, w), k, n)), g.AT), 'tCNT': f(St(g.CNT, w, k + 1), g.CNT),
            'tNF': f(St(g.NF, w, St(S(g.NF, w), ch, n)), g.NF)}


def values_kept(c, g, skip=None):
    """bindings other than skip are those of entry"""
    w = z3.Const('w', WORD)
    g0 = gh(c.pre)
    n = z3.Int('n')
    nf0 = z3.Select(z3.Select(g0.NF, w), 0)
    nf = z3.Select(z3.Select(g.NF, w), 0)
    guard = z3.BoolVal(True) if skip is None else w != skip
    return [('finds-kept', z3.ForAll([w], z3.Implies(guard, nf == nf0), patterns=[nf])),
            ('nodes-kept', z3.ForAll([n], z3.Implies(z3.Select(g0.INT, n), z3.And(z3.Select(g.INT, n))), patterns=[z3.Select(g0.INT, n)])),
            ('data-kept', z3.ForAll([n], z3.Implies(z3.And(z3.Select(g0.INT, n), *([] if skip is None else [n != z3.Select(z3.Select(g.NF, skip), 0)])),
                                                    z3.And(data(c, n) == data(c, n, c.pre), dataf(c, n) == dataf(c, n, c.pre))), patterns=[data(c, n)]))]


def ins_outer(c):
    g = gh(c.st)
    i = c.v('key').f
    return wf(c, c.a('trie'), g) + [
        ('key', And(Eq(c.v('key').o, c.a('key').o), i >= c.a('key').f, i <= endk(c))),
        ('keyalive', And(c.live(c.a('key')), Eq(c.map('SIZE')[zi(c.a('key').o)], c.map('SIZE', c.pre)[zi(c.a('key').o)]))),
        ('at', If(Eq(c.parent.o, 0), And(Eq(i, c.a('key').f)), And(z3.Select(g.INT, c.parent.o), ext(z3.Select(g.W, c.parent.o), key(c, c.parent.o)) == K(c, i), i > c.a('key').f))),
        ] + values_kept(c, g)


def ins_inner(c):
    g = gh(c.st)
    i = c.v('key').f
    w = K(c, i)
    m = z3.Int('m')
    S = z3.Select
    b = z3.If(c.tmp.o == 0, S(g.CNT, w), S(g.POS, c.tmp.o))
    at = S(S(g.AT, w), m)
    return ins_outer(c) + [
        ('tmp', Or(Eq(c.tmp.o, 0), And(S(g.INT, c.tmp.o), S(g.W, c.tmp.o) == w))),
        ('some', S(g.CNT, w) > 0), ('index', And(b >= 0)),
        ('prev', If(Eq(c.previous.o, 0), And(b == 0), And(b > 0, S(g.INT, c.previous.o), S(g.W, c.previous.o) == w, S(g.POS, c.previous.o) == b - 1))),
        ('passed', z3.ForAll([m], z3.Implies(z3.And(m >= 0, z3.Or(m < b - 1, m == b - 1)), key(c, at) != KB(c, i)), patterns=[at]))]


def ins_step(c):
    h = c.head
    i = h.vars['key'].f
    p = c.parent.o
    if z3.simplify(zi(c.st.nxt) == zi(h.nxt)).eq(z3.BoolVal(True)):      # no allocation on this path: nothing was linked
        return {'t' + k: getattr(gh(h), k) for k in GH}
    return upd(c, gh(h), zi(p), K(c, i), KB(c, i), zi(p) >= zi(h.nxt))


def free_handler(eng, fr, st, fv, vals, types, T, line, fexpr):
    """a value's free function releases only that value (never a node of the trie or the trie itself)"""
    o = z3.Int('o')
    g = gh(st)
    old = eng.gm(st, 'LIVE')
    new = fresh('LIVE', AB)
    t = eng.entry_args['trie']
    st.assume(z3.ForAll([o], z3.Implies(z3.Or(z3.Select(g.INT, o), o == zi(t.o), o == zi(eng.entry_args['key'].o), o >= zi(eng.entry_state.nxt)), z3.Select(new, o) == z3.Select(old, o)), patterns=[z3.Select(new, o)]))
    st.maps['LIVE'] = new
    return [(st, None)]


INSM = tuple(NODE + x for x in ('key', 'data', 'data*', 'next', 'next*', 'child', 'child*')) + ('S.bc_trie_t.root', 'S.bc_trie_t.root*', 'LIVE')


def ins_end(c):
    """ghost state at return: the node for the terminator may have been created in the last iteration"""
    if not c.has('parent') or not isinstance(c.v('parent'), P):
        return gh(c.st)
    return G({**c.st.ghost, **upd(c, gh(c.st), zi(c.parent.o), K(c, endk(c)), z3.IntVal(0), z3.Select(gh(c.st).INT, zi(c.parent.o)) == z3.BoolVal(False))})


def ins_post(c):
    if not (c.has('parent') and isinstance(c.v('parent'), P)):
        return [('ignored', Or(Eq(c.a('trie').o, 0), Eq(c.a('key').o, 0), Eq(c.a('data').o, 0)))] + unchanged(c)
    g0 = ins_end(c)
    # name the ghost arrays so that quantifier patterns match
    d = {}
    for k in GH:
        x = fresh('end.' + k, GH[k])
        c.st.assume(x == g0.d['t' + k])
        d['t' + k] = x
    g = G(d)
    w = K(c, endk(c))
    return wf(c, c.a('trie'), g) + [('bound', And(z3.Select(z3.Select(g.NF, w), 0) != 0, data(c, z3.Select(z3.Select(g.NF, w), 0)) == c.a('data').o, dataf(c, z3.Select(z3.Select(g.NF, w), 0)) == c.a('data').f))] + values_kept(c, g, skip=w)


def unchanged(c):
    return [('unchanged-' + m, Eq(c.map(m), c.map(m, c.pre))) for m in (NODE + 'data.o', NODE + 'next.o', NODE + 'child.o', 'S.bc_trie_t.root.o')]


t = reg(C('bc_trie_insert', 'trie key data', file=U, concrete=True, maps=INSM, maxstates=40,
          requires=lambda c: [('trie', Or(Eq(c.a('trie').o, 0), And(*[f for _, f in wf(c, c.a('trie'), gh(c.st))]))), ('key', c.nullstr(c.a('key'))),
                              ('apart', Implies(ne0(c.a('trie').o), And(Not(z3.Select(gh(c.st).INT, zi(c.a('key').o))))))],
          modifies=lambda c: {m: 'ANY' for m in INSM},
          entry=pre_ghost,
          ensures=ins_post,
          loops={0: Loop(inv=ins_outer, ghosts=tuple('t' + k for k in GH), ghost_step=ins_step,
                         lemmas=lambda c: [wk1(c.arr(c.a('key'), c.pre), c.a('key').f, c.head.vars['key'].f)],
                         facts=lambda c: [c.e.slen_min(c.st, c.a('key')) or True],
                         decreases=lambda c: endk(c) - c.v('key').f),
                 1: Loop(inv=ins_inner, decreases=lambda c: z3.If(c.tmp.o == 0, 0, z3.Select(gh(c.st).CNT, K(c, c.v('key').f)) - z3.Select(gh(c.st).POS, c.tmp.o)))}))
t.ghost_init = init_ghost()
t.fnptr = free_handler
