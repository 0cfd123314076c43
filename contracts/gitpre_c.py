"""src/blogc-git-receiver: the pre-receive ref list."""
from vc.sym import *
from vc.lib import C
from .abs import sub_f, trie_ok, tsel, TRIEMAPS, NOKEYS, NOTEXT, CARD, card_axioms, town
F = 'src/blogc-git-receiver/pre-receive-parser.c'
VIEW = {}


def reg(c):
    c.view = True
    VIEW[c.name] = c
    return c


def en(c, name):
    return c.frame.F.unit.enumconst[name]


# A line is OLD SP NEW SP REF LF, every field at least one byte.  The bindings after reading on from position k:
# OL/NE/RE: k is inside the old id / inside the new id that began at s / inside the ref that began at r (new id at s).
SB_, SS_ = z3.ArraySort(SEQ, B), z3.ArraySort(SEQ, SEQ)
MAP = z3.Datatype('RefMap')
MAP.declare('mk', ('dom', SB_), ('val', SS_))
MAP = MAP.create()
OL0 = z3.Function('refs', A1, I, I, MAP, I, MAP)
OL = z3.Function('refsOld', A1, I, I, MAP, I, MAP)
NE0 = z3.Function('refsNew0', A1, I, I, MAP, I, MAP)
NE = z3.Function('refsNew', A1, I, I, MAP, I, I, MAP)
RE0 = z3.Function('refsRef0', A1, I, I, MAP, I, I, MAP)
RE = z3.Function('refsRef', A1, I, I, MAP, I, I, I, MAP)


def src(c):
    p = c.a('input')
    return c.arr(p, c.pre), zi(p.f), zi(c.a('input_len'))


def at(c, k):
    a, b, n = src(c)
    return z3.Select(a, b + zi(k))


def piece(c, i, j):
    a, b, n = src(c)
    return sub_f(c.e)(a, b + zi(i), b + zi(j))


HEADS = b'refs/heads/'


def bindref(c, m, s, r, k):
    """the map after a complete line: a branch ref is bound to its new id"""
    isbranch = z3.And(k - r > 11, *[at(c, r + i) == b for i, b in enumerate(HEADS)])
    key, val = piece(c, r + 11, k), piece(c, s, r - 1)
    return z3.If(isbranch, MAP.mk(z3.Store(MAP.dom(m), key, z3.BoolVal(True)), z3.Store(MAP.val(m), key, val)), m)


def steps(c, m, k, s, r):
    k, s, r = zi(k), zi(s), zi(r)
    a = src(c)
    end = k >= a[2]
    x = at(c, k)
    return And(OL0(*a, m, k) == z3.If(end, m, OL(*a, m, k + 1)),
               OL(*a, m, k) == z3.If(end, m, z3.If(x == 32, NE0(*a, m, k + 1), OL(*a, m, k + 1))),
               NE0(*a, m, k) == z3.If(end, m, NE(*a, m, k, k + 1)),
               NE(*a, m, s, k) == z3.If(end, m, z3.If(x == 32, RE0(*a, m, s, k + 1), NE(*a, m, s, k + 1))),
               RE0(*a, m, s, k) == z3.If(end, m, RE(*a, m, s, k, k + 1)),
               RE(*a, m, s, r, k) == z3.If(end, m, z3.If(x == 10, OL0(*a, bindref(c, m, s, r, k), k + 1), RE(*a, m, s, r, k + 1))))


def cur(c, st=None):
    rv = c.rv
    return MAP.mk(tsel(c, 'TD', rv, st), tsel(c, 'TS', rv, st))


E0 = MAP.mk(NOKEYS, NOTEXT)


def target(c):
    return OL0(*src(c), E0, z3.IntVal(0))


def inv(c):
    i, s = c.current, c.state
    a = src(c)
    S = lambda n: Eq(s, en(c, n))
    m = cur(c)
    T = target(c)
    names = ('START_OLD', 'OLD', 'START_NEW', 'NEW', 'START_REF', 'REF')
    return [('range', And(i >= 0, i <= a[2])), ('states', Or(*[S(n) for n in names])), ('trie', trie_ok(c, c.rv, lo=c.pre.nxt)),
            ('own', ge(c.rv.o, c.pre.nxt)),
            ('new', Implies(S('NEW'), And(c.start >= 0, c.start < i))),
            ('ref', Implies(Or(S('START_REF'), S('REF')), And(c.start_new >= 0, c.start_new < i))),
            ('ref2', Implies(S('REF'), And(c.start > c.start_new + 1, c.start < i))), ('ref3', Implies(S('START_REF'), c.start_new + 1 < i)),
            ('at old', Implies(S('START_OLD'), OL0(*a, m, i) == T)), ('in old', Implies(S('OLD'), OL(*a, m, i) == T)),
            ('at new', Implies(S('START_NEW'), NE0(*a, m, i) == T)), ('in new', Implies(S('NEW'), NE(*a, m, zi(c.start), i) == T)),
            ('at ref', Implies(S('START_REF'), RE0(*a, m, zi(c.start_new), i) == T)), ('in ref', Implies(S('REF'), RE(*a, m, zi(c.start_new), zi(c.start), i) == T))]


def lem(c):
    h = c.head.vars
    m = MAP.mk(z3.Select(c.map('TD', c.head), zi(h['rv'].o)), z3.Select(c.map('TS', c.head), zi(h['rv'].o)))
    return [steps(c, m, h['current'], h['start'], h['start']), steps(c, m, h['current'], h['start_new'], h['start'])]


def loopfacts(c):
    m = cur(c)
    return [steps(c, m, src(c)[2], x, y) for x, y in ((c.start, c.start), (c.start_new, c.start))]


c_ = reg(C('bgr_pre_receive_parse', 'input input_len', file=F, maps=TRIEMAPS + ('M8',), maxstates=60,
      requires=lambda c: [('input', Or(Eq(c.a('input_len'), 0), c.valid(c.a('input'), c.a('input_len')))), ('text', nonul_in(c))],
      entry=lambda c: [sub_f(c.e) is not None, card_axioms(c.e) or True],
      modifies=lambda c: {},
      ensures=lambda c: [('bindings', Implies(ne0(c.result.o), And(trie_ok(c, c.result), tsel(c, 'TD', c.result) == MAP.dom(target(c)), tsel(c, 'TS', c.result) == MAP.val(target(c))))),
                         ('none', Implies(Eq(c.result.o, 0), CARD(MAP.dom(target(c))) == 0))],
      loops={0: Loop(inv=inv, lemmas=lem, facts=loopfacts, decreases=lambda c: sub_(c.a('input_len'), c.current))}))
c_.tries = True


def nonul_in(c):
    a, b, n = src(c)
    k = z3.Int('k')
    return z3.ForAll([k], z3.Implies(z3.And(k >= b, k < b + n), z3.Select(a, k) != 0), patterns=[z3.Select(a, k)])
