"""Linked lists and sorting (src/common/utils.c, src/common/sort.c), concrete memory.

List representation: ND(0..n-1) are the nodes of the argument list in order,
IDX its inverse; the list's contents are the data pointers along ND.
"""
from vc.sym import *
from vc.lib import C
U = 'src/common/utils.c'
SORT = 'src/common/sort.c'
CONC = {}
BN = 'bc_slist_t'
ND = z3.Function('node', I, I)
IDX = z3.Function('node_index', I, I)
N = z3.Int('list.n')
ND2 = z3.Function('node2', I, I)
IDX2 = z3.Function('node_index2', I, I)
N2 = z3.Int('list.n2')


def reg(c):
    CONC[c.name] = c
    return c


def nxt(c, o, st=None):
    return z3.Select(c.map('S.bc_slist_t.next.o', st), zi(o))


def nxtf(c, o, st=None):
    return z3.Select(c.map('S.bc_slist_t.next.f', st), zi(o))


def dat(c, o, st=None):
    return z3.Select(c.map('S.bc_slist_t.data.o', st), zi(o))


def datf(c, o, st=None):
    return z3.Select(c.map('S.bc_slist_t.data.f', st), zi(o))


def LIST(c, l, n, st=None, nd=ND, idx=IDX, bound=None):
    i = z3.Int('i')
    st = st or c.st
    x = nd(i)
    b = zi(bound if bound is not None else st.nxt)
    rngi = z3.And(i >= 0, i < n)
    lv = z3.Select(c.map('LIVE', st), x)
    body = z3.And(x > 0, x < b, lv, nxt(c, x, st) == If(i == n - 1, 0, nd(i + 1)), nxtf(c, x, st) == 0)
    return And(n >= 0, Eq(l.o, If(Eq(n, 0), 0, nd(0))), Eq(l.f, 0),
               z3.ForAll([i], z3.Implies(rngi, body), patterns=[nxt(c, x, st)]),
               z3.ForAll([i], z3.Implies(rngi, z3.And(x > 0, x < b, lv)), patterns=[lv]),
               z3.ForAll([i], z3.Implies(rngi, z3.And(idx(x) == i, x > 0, x < b)), patterns=[x]))


def same_data(c, n, nd=ND):
    i = z3.Int('i')
    x = nd(i)
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(dat(c, x) == dat(c, x, c.pre), datf(c, x) == datf(c, x, c.pre))), patterns=[dat(c, x)])


def same_next(c, n, nd=ND):
    i = z3.Int('i')
    x = nd(i)
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(nxt(c, x) == nxt(c, x, c.pre), nxtf(c, x) == nxtf(c, x, c.pre))), patterns=[nxt(c, x)])


NEXTM = ('S.bc_slist_t.next', 'S.bc_slist_t.next*')
TAIL = {0: Loop(inv=lambda c: [('at', And(Eq(c.tmp.o, ND(IDX(c.tmp.o))), Eq(c.tmp.f, 0), IDX(c.tmp.o) >= 0, IDX(c.tmp.o) < N)),
                               ('list', LIST(c, c.a('l'), N, bound=c.pre.nxt))],
               decreases=lambda c: N - IDX(c.tmp.o))}


def last(n, nd=ND):
    return If(Eq(n, 0), 0, nd(n - 1))


reg(C('bc_slist_append', 'l data', file=U, concrete=True, maps=NEXTM,
      requires=lambda c: [('list', LIST(c, c.a('l'), N))],
      modifies=lambda c: {'S.bc_slist_t.next': [last(N)], 'S.bc_slist_t.next*': [last(N)]},
      ensures=lambda c: [('head', Implies(N > 0, Eq(c.result, c.a('l')))), ('kept', same_data(c, N)), ('chain', same_next(c, N - 1)),
                         ('linked', Implies(N > 0, And(Eq(nxt(c, ND(N - 1)), NEW(c)), Eq(nxtf(c, ND(N - 1)), 0)))), ('first', Implies(Eq(N, 0), And(Eq(c.result.o, NEW(c)), Eq(c.result.f, 0)))),
                         ('new', And(NEW(c) >= zi(c.pre.nxt), c.live(P(NEW(c), 0)), Eq(nxt(c, NEW(c)), 0), Eq(dat(c, NEW(c)), c.a('data').o), Eq(datf(c, NEW(c)), c.a('data').f)))],
      loops=TAIL))


def NEW(c):
    return zi(c.v('node').o) if getattr(c, 'is_body', False) and c.has('node') else z3.Int('new.node')


reg(C('bc_slist_prepend', 'l data', file=U, concrete=True, maps=(),
      requires=lambda c: [('list', LIST(c, c.a('l'), N))],
      ensures=lambda c: [('new', And(c.result.o >= zi(c.pre.nxt), Eq(c.result.f, 0), c.live(c.result), Eq(nxt(c, c.result.o), c.a('l').o), Eq(nxtf(c, c.result.o), 0), Eq(dat(c, c.result.o), c.a('data').o), Eq(datf(c, c.result.o), c.a('data').f))),
                         ('kept', And(same_data(c, N), same_next(c, N)))]))

reg(C('bc_slist_append_list', 'l n', file=U, concrete=True, maps=NEXTM,
      requires=lambda c: [('list', LIST(c, c.a('l'), N)), ('other', LIST(c, c.a('n'), N2, nd=ND2, idx=IDX2)), ('disjoint', disj(c))],
      modifies=lambda c: {'S.bc_slist_t.next': [last(N)], 'S.bc_slist_t.next*': [last(N)]},
      ensures=lambda c: [('head', Eq(c.result, If(Eq(N, 0), c.a('n'), c.a('l')))), ('linked', Implies(N > 0, And(Eq(nxt(c, ND(N - 1)), c.a('n').o), Eq(nxtf(c, ND(N - 1)), 0)))),
                         ('kept', And(same_data(c, N), same_data(c, N2, ND2))), ('chain', And(same_next(c, N - 1), same_next(c, N2, ND2)))],
      loops=TAIL))


def disj(c):
    i, j = z3.Ints('i j')
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < N, j >= 0, j < N2), ND(i) != ND2(j)), patterns=[z3.MultiPattern(ND(i), ND2(j))])


reg(C('bc_slist_length', 'l', file=U, concrete=True, maps=(), allocates=False,
      requires=lambda c: [('list', LIST(c, c.a('l'), N)), N < (1 << 60)],
      ensures=lambda c: [('length', Eq(c.result, N))],
      loops={0: Loop(inv=lambda c: [('at', And(c.i >= 0, c.i <= N, Eq(c.tmp.f, 0), Eq(c.tmp.o, If(Eq(c.i, N), 0, ND(c.i)))))],
                     decreases=lambda c: N - c.i)}))


# ---- sorting: the comparator is an arbitrary total preorder on the data
CMP = z3.Function('cmp', I, I, I)      # on data object ids (each datum is one object)


def cmp_axioms(eng):
    x, y, z = z3.Ints('x y z')
    eng.ax('cmp.total', z3.ForAll([x, y], z3.Implies(CMP(x, y) > 0, CMP(y, x) < 0), patterns=[CMP(x, y)]))
    eng.ax('cmp.sym', z3.ForAll([x, y], z3.Implies(CMP(x, y) <= 0, CMP(y, x) >= 0), patterns=[CMP(x, y)]))
    eng.ax('cmp.trans', z3.ForAll([x, y, z], z3.Implies(z3.And(CMP(x, y) <= 0, CMP(y, z) <= 0), CMP(x, z) <= 0), patterns=[z3.MultiPattern(CMP(x, y), CMP(y, z))]))
    eng.ax('cmp.range', z3.ForAll([x, y], z3.And(CMP(x, y) >= -(1 << 31), CMP(x, y) < (1 << 31)), patterns=[CMP(x, y)]))


def cmp_handler(eng, fr, st, fv, vals, types, T, line, fexpr):
    cmp_axioms(eng)
    return [(st, CMP(zi(vals[0].o), zi(vals[1].o)))]


def D(c, i, st=None):
    return dat(c, ND(i), st)


PA = A1


def perm_inv(c):
    """contents = original contents permuted by G.perm; order only changed between strictly out-of-order pairs"""
    p = c.g('perm')
    q = c.g('inv')
    i, j = z3.Ints('i j')
    pi, pj = z3.Select(p, i), z3.Select(p, j)
    r = lambda v: z3.And(v >= 0, v < N)
    return [('content', z3.ForAll([i], z3.Implies(r(i), z3.And(D(c, i) == D(c, pi, c.pre), datf(c, ND(i)) == datf(c, ND(pi), c.pre))), patterns=[D(c, i)])),
            ('bijection', z3.ForAll([i], z3.Implies(r(i), z3.And(pi >= 0, pi < N, z3.Select(q, pi) == i)), patterns=[pi])),
            ('bijection2', z3.ForAll([i], z3.Implies(r(i), z3.And(z3.Select(q, i) >= 0, z3.Select(q, i) < N, z3.Select(p, z3.Select(q, i)) == i)), patterns=[z3.Select(q, i)])),
            ('stable', z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < N, pi > pj), CMP(D(c, pj, c.pre), D(c, pi, c.pre)) > 0), patterns=[z3.MultiPattern(pi, pj)]))]


def rbound(c):
    return If(Eq(c.rptr.o, 0), N, IDX(c.rptr.o))


def suffix_sorted(c, r):
    i, j = z3.Ints('i j')
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < N, j >= r), CMP(D(c, i), D(c, j)) <= 0), patterns=[z3.MultiPattern(D(c, i), D(c, j))])


def outer(c):
    r = rbound(c)
    return [('list', LIST(c, c.a('l'), N, bound=c.pre.nxt)), ('window', And(Or(Eq(c.rptr.o, 0), And(Eq(c.rptr.o, ND(IDX(c.rptr.o))), r < N)), r >= 1, r <= N)), ('suffix', suffix_sorted(c, r))] + perm_inv(c)


def inner(c):
    i = z3.Int('i')
    k = IDX(c.lptr.o)
    r = rbound(c)
    return outer(c) + [('at', And(Eq(c.lptr.o, ND(k)), Eq(c.lptr.f, 0), k >= 0, Or(k < r - 1, Eq(k, r - 1)), Implies(ne0(c.swapped), k >= 1))),
                       ('max', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k), CMP(D(c, i), D(c, k)) <= 0), patterns=[D(c, i)])),
                       ('nochange', Implies(Eq(c.swapped, 0), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k), CMP(D(c, i), D(c, i + 1)) <= 0), patterns=[D(c, i)])))]


def sort_step(c):
    h = c.head
    k = IDX(h.vars['lptr'].o)
    p, q = h.ghost['perm'], h.ghost['inv']
    sw = CMP(D(c, k, h), D(c, k + 1, h)) > 0
    p2 = z3.Store(z3.Store(p, k, z3.Select(p, k + 1)), k + 1, z3.Select(p, k))
    q2 = z3.Store(z3.Store(q, z3.Select(p, k), k + 1), z3.Select(p, k + 1), k)
    return {'perm': z3.If(sw, p2, p), 'inv': z3.If(sw, q2, q)}


DATAM = ('S.bc_slist_t.data', 'S.bc_slist_t.data*')


def sorted_post(c):
    i = z3.Int('i')
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N - 1), CMP(D(c, i), D(c, i + 1)) <= 0), patterns=[D(c, i)])


def sort_ghosts():
    i = z3.Int('i')
    ident = z3.Lambda([i], i)
    return ident


s = reg(C('bc_slist_sort', 'l cmp', file=SORT, concrete=True, maps=DATAM, allocates=False,
          requires=lambda c: [('list', LIST(c, c.a('l'), N)), N < (1 << 60), ('cmp', ne0(c.a('cmp').o))],
          modifies=lambda c: {'S.bc_slist_t.data': 'ANY', 'S.bc_slist_t.data*': 'ANY'},
          entry=lambda c: [cmp_axioms(c.e) or True, idperm(c)],
          ensures=lambda c: [('result', Eq(c.result, c.a('l')))] + ([('sorted', sorted_post(c))] + perm_inv(c) if 'perm' in c.st.ghost else []),
          exit_asserts=lambda c: [],
          loops={0: Loop(inv=outer, ghosts=('perm', 'inv'), decreases=lambda c: rbound(c)),
                 1: Loop(inv=inner, ghosts=('perm', 'inv'), ghost_step=sort_step, decreases=lambda c: rbound(c) - IDX(c.lptr.o))}))
s.ghost_init = {'perm': lambda: z3.Const('perm0', A1), 'inv': lambda: z3.Const('inv0', A1)}
s.fnptr = cmp_handler


def idperm(c):
    i = z3.Int('i')
    p, q = z3.Const('perm0', A1), z3.Const('inv0', A1)
    return z3.And(z3.ForAll([i], z3.Select(p, i) == i, patterns=[z3.Select(p, i)]), z3.ForAll([i], z3.Select(q, i) == i, patterns=[z3.Select(q, i)]))
