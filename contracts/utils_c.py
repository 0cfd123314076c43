"""src/common/utils.c verified against concrete memory (layer 0).

R(s): representation invariant of a growable string: live control block, live
buffer of exactly allocated_len bytes, len < allocated_len, NUL at len.
"""
from vc.sym import *
from vc.lib import C, TRUSTED, cstr_fresh
U = 'src/common/utils.c'
LIM = 1 << 62
INTLIM = (1 << 31) - 2
BS = 'bc_string_t'


def L(c, s, st=None): return c.fld(s, BS, 'len', st)
def CAP(c, s, st=None): return c.fld(s, BS, 'allocated_len', st)
def STR(c, s, st=None): return c.fld(s, BS, 'str', st)


def R(c, s, st=None):
    b = STR(c, s, st)
    return And(ne0(s.o), Eq(s.f, 0), gt(s.o, 0), c.live(s, st), Not(Eq(b.o, 0)), gt(b.o, 0), Eq(b.f, 0), c.live(b, st),
               Not(Eq(b.o, s.o)), L(c, s, st) < CAP(c, s, st), Eq(c.size(b, st), CAP(c, s, st)),
               Eq(c.byte(b, L(c, s, st), st), 0), CAP(c, s, st) <= LIM)


def R0(c, s, st=None):
    """R, or the just-allocated empty control block bc_string_new builds"""
    b = STR(c, s, st)
    return Or(R(c, s, st), And(ne0(s.o), Eq(s.f, 0), gt(s.o, 0), c.live(s, st), Eq(b.o, 0), Eq(b.f, 0), Eq(L(c, s, st), 0), Eq(CAP(c, s, st), 0)))


def bytes_eq(c, p, i, st1, q, j, st2, n, name='k'):
    """forall 0<=k<n: p[i+k] in st1 == q[j+k] in st2"""
    k = z3.Int(name)
    a, b = c.arr(p, st1), c.arr(q, st2)
    pi, qj = add(p.f, i), add(q.f, j)
    d = z3.simplify(zi(qj) - zi(pi))

    def half(lo, u, v, d):
        x, y = z3.Select(u, k), z3.Select(v, k if z3.is_int_value(d) and d.as_long() == 0 else k + d)
        return z3.ForAll([k], z3.Implies(z3.And(k >= zi(lo), k < zi(lo) + zi(n)), x == y), patterns=[x])
    return z3.And(half(pi, a, b, d), half(qj, b, a, z3.simplify(-d)))


def str_mods(c):
    s = c.a('str')
    b = STR(c, s)
    return {'S.bc_string_t.len': [s.o], 'S.bc_string_t.allocated_len': [s.o], 'S.bc_string_t.str': [s.o],
            'S.bc_string_t.str*': [s.o], 'M8': [b.o], 'LIVE': [b.o]}


STRMAPS = ('S.bc_string_t.len', 'S.bc_string_t.allocated_len', 'S.bc_string_t.str', 'S.bc_string_t.str*', 'M8', 'LIVE')


def unchanged(c, s):
    return And(Eq(L(c, s), L(c, s, c.pre)), Eq(STR(c, s), STR(c, s, c.pre)))


def fresh_or_same(c, s):
    b, b0 = STR(c, s), STR(c, s, c.pre)
    return Or(Eq(b.o, b0.o), And(ge(b.o, c.pre.nxt), lt(b.o, c.st.nxt)))


CONC = {}


def reg(c):
    CONC[c.name] = c
    return c


def sufdisj(c, suf):
    s = c.a('str')
    return And(Not(Eq(suf.o, STR(c, s).o)))


# ---- growable strings
reg(C('bc_string_append_len', 'str suffix len', maps=STRMAPS, file=U, concrete=True,
      requires=lambda c: [('str', Or(Eq(c.a('str').o, 0), R0(c, c.a('str')))),
                          ('suffix', Or(Eq(c.a('suffix').o, 0), And(c.valid(c.a('suffix'), c.a('len')), Or(Eq(c.a('str').o, 0), sufdisj(c, c.a('suffix')))))),
                          ('size', Or(Eq(c.a('str').o, 0), L(c, c.a('str')) + c.a('len') < LIM - 4096))],
      modifies=str_mods,
      ensures=lambda c: [('result', Eq(c.result, c.a('str'))),
                         ('noop', Implies(And(ne0(c.a('str').o), Eq(c.a('suffix').o, 0)), unchanged(c, c.a('str')))),
                         ('rep', Implies(And(ne0(c.a('str').o), ne0(c.a('suffix').o)), R(c, c.a('str')))),
                         ('buf', Implies(And(ne0(c.a('str').o), ne0(c.a('suffix').o)), fresh_or_same(c, c.a('str')))),
                         ('len', Implies(And(ne0(c.a('str').o), ne0(c.a('suffix').o)), Eq(L(c, c.a('str')), L(c, c.a('str'), c.pre) + c.a('len')))),
                         ('kept', Implies(And(ne0(c.a('str').o), ne0(c.a('suffix').o)),
                                          bytes_eq(c, STR(c, c.a('str')), 0, c.st, STR(c, c.a('str'), c.pre), 0, c.pre, L(c, c.a('str'), c.pre)))),
                         ('appended', Implies(And(ne0(c.a('str').o), ne0(c.a('suffix').o)),
                                              bytes_eq(c, c.a('suffix'), 0, c.pre, STR(c, c.a('str')), L(c, c.a('str'), c.pre), c.st, c.a('len'))))]))

reg(C('bc_string_append', 'str suffix', maps=STRMAPS, file=U, concrete=True,
      requires=lambda c: [('str', Or(Eq(c.a('str').o, 0), R0(c, c.a('str')))),
                          ('suffix', Or(Eq(c.a('suffix').o, 0), And(c.isstr(c.a('suffix')), Or(Eq(c.a('str').o, 0), sufdisj(c, c.a('suffix')))))),
                          ('size', Implies(ne0(c.a('str').o), And(L(c, c.a('str')) < LIM - 8192, Implies(ne0(c.a('suffix').o), L(c, c.a('str')) + c.slen(c.a('suffix')) < LIM - 8192))))],
      modifies=str_mods,
      ensures=lambda c: [('result', Eq(c.result, c.a('str'))),
                         ('rep', Implies(ne0(c.a('str').o), R(c, c.a('str')))),
                         ('buf', Implies(ne0(c.a('str').o), fresh_or_same(c, c.a('str')))),
                         ('len', Implies(ne0(c.a('str').o), Eq(L(c, c.a('str')), L(c, c.a('str'), c.pre) + If(Eq(c.a('suffix').o, 0), 0, c.slen(c.a('suffix'), c.pre))))),
                         ('kept', Implies(ne0(c.a('str').o), bytes_eq(c, STR(c, c.a('str')), 0, c.st, STR(c, c.a('str'), c.pre), 0, c.pre, L(c, c.a('str'), c.pre)))),
                         ('appended', Implies(And(ne0(c.a('str').o), ne0(c.a('suffix').o)),
                                              bytes_eq(c, c.a('suffix'), 0, c.pre, STR(c, c.a('str')), L(c, c.a('str'), c.pre), c.st, c.slen(c.a('suffix'), c.pre))))]))

reg(C('bc_string_append_c', 'str c', maps=STRMAPS, file=U, concrete=True,
      requires=lambda c: [('str', Or(Eq(c.a('str').o, 0), R0(c, c.a('str')))), ('size', Implies(ne0(c.a('str').o), L(c, c.a('str')) < LIM - 8192))],
      modifies=str_mods,
      ensures=lambda c: [('result', Eq(c.result, c.a('str'))),
                         ('rep', Implies(ne0(c.a('str').o), R(c, c.a('str')))),
                         ('buf', Implies(ne0(c.a('str').o), fresh_or_same(c, c.a('str')))),
                         ('len', Implies(ne0(c.a('str').o), Eq(L(c, c.a('str')), L(c, c.a('str'), c.pre) + 1))),
                         ('kept', Implies(ne0(c.a('str').o), bytes_eq(c, STR(c, c.a('str')), 0, c.st, STR(c, c.a('str'), c.pre), 0, c.pre, L(c, c.a('str'), c.pre)))),
                         ('appended', Implies(ne0(c.a('str').o), Eq(c.byte(STR(c, c.a('str')), L(c, c.a('str'), c.pre)), c.a('c'))))]))

reg(C('bc_string_new', '', file=U, concrete=True, maps=(),
      ensures=lambda c: [('rep', R(c, c.result)), ('empty', Eq(L(c, c.result), 0)),
                         ('fresh', And(ge(c.result.o, c.pre.nxt), ge(STR(c, c.result).o, c.pre.nxt), lt(c.result.o, c.st.nxt), lt(STR(c, c.result).o, c.st.nxt)))]))

reg(C('bc_string_free', 'str free_str', file=U, concrete=True, maps=('LIVE',), allocates=False,
      requires=lambda c: [('str', Or(Eq(c.a('str').o, 0), R(c, c.a('str'))))],
      modifies=lambda c: {'LIVE': [c.a('str').o, STR(c, c.a('str')).o]},
      ensures=lambda c: [('keep', Implies(And(ne0(c.a('str').o), Eq(c.a('free_str'), 0)), And(Eq(c.result, STR(c, c.a('str'), c.pre)), c.live(c.result)))),
                         ('drop', Implies(Or(Eq(c.a('str').o, 0), Not(Eq(c.a('free_str'), 0))), Eq(c.result.o, 0))),
                         ('freed', Implies(ne0(c.a('str').o), Not(c.live(c.a('str'))))),
                         ('bufstate', Implies(ne0(c.a('str').o), Iff(c.live(STR(c, c.a('str'), c.pre)), Eq(c.a('free_str'), 0))))]))

reg(C('bc_string_dup', 'str', file=U, concrete=True, maps=(),
      requires=lambda c: [('str', Or(Eq(c.a('str').o, 0), And(R(c, c.a('str')), lt(STR(c, c.a('str')).o, c.st.nxt), L(c, c.a('str')) < LIM - 8192)))],
      ensures=lambda c: [('null', Iff(Eq(c.a('str').o, 0), Eq(c.result.o, 0))),
                         ('rep', Implies(ne0(c.a('str').o), And(R(c, c.result), ge(c.result.o, c.pre.nxt), ge(STR(c, c.result).o, c.pre.nxt)))),
                         ('len', Implies(ne0(c.a('str').o), Eq(L(c, c.result), L(c, c.a('str'), c.pre)))),
                         ('same', Implies(ne0(c.a('str').o), bytes_eq(c, STR(c, c.result), 0, c.st, STR(c, c.a('str'), c.pre), 0, c.pre, L(c, c.a('str'), c.pre))))]))

# ---- string duplication
def dup_ens(c):
    s = c.a('s')
    n = c.slen(s, c.pre)
    return [('null', Implies(Eq(s.o, 0), Eq(c.result.o, 0))),
            ('copy', Implies(And(ne0(s.o), ne0(c.result.o)), And(c.valid(c.result, n + 1), ge(c.result.o, c.pre.nxt), Eq(c.result.f, 0),
                     bytes_eq(c, c.result, 0, c.st, s, 0, c.pre, n + 1))))]


reg(C('bc_strdup', 's', file=U, concrete=True, maps=(), requires=lambda c: [c.nullstr(c.a('s'))], ensures=dup_ens))

reg(C('bc_strndup', 's n', file=U, concrete=True, maps=(),
      requires=lambda c: [Or(c.nullstr(c.a('s')), c.valid(c.a('s'), c.a('n')))],
      ensures=lambda c: [('null', Implies(Eq(c.a('s').o, 0), Eq(c.result.o, 0))),
                         ('copy', Implies(And(ne0(c.a('s').o), ne0(c.result.o)), And(c.isstr(c.result), ge(c.result.o, c.pre.nxt),
                                  le(c.slen(c.result), c.a('n')), bytes_eq(c, c.result, 0, c.st, c.a('s'), 0, c.pre, c.slen(c.result)),
                                  Or(Eq(c.slen(c.result), c.a('n')), Eq(c.byte(c.a('s'), c.slen(c.result), c.pre), 0)))))]))


# ---- predicates on strings
def isspace(x):
    return Or(*[Eq(x, k) for k in (32, 9, 10, 11, 12, 13)])


reg(C('bc_isspace', 'c', file=U, maps=(), allocates=False,
      ensures=lambda c: [('iff', Iff(Eq(c.result, 1), isspace(c.a('c')))), ('bool', Or(Eq(c.result, 0), Eq(c.result, 1)))]))


def sw_ens(c):
    s, p = c.a('str'), c.a('prefix')
    n = c.slen(p, c.pre)
    k = z3.Int('k')
    A, Bp = c.arr(s, c.pre), c.arr(p, c.pre)
    allk = z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(A, s.f + k) == z3.Select(Bp, p.f + k)), patterns=[z3.Select(A, s.f + k)])
    allk2 = z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(A, s.f + k) == z3.Select(Bp, p.f + k)), patterns=[z3.Select(Bp, p.f + k)])
    return [('yes', Implies(Not(Eq(c.result, 0)), And(n <= c.slen(s, c.pre), allk))), ('no', Implies(And(n <= c.slen(s, c.pre), allk2), Not(Eq(c.result, 0))))]


reg(C('bc_str_starts_with', 'str prefix', file=U, maps=(), allocates=False,
      requires=lambda c: [c.isstr(c.a('str')), c.isstr(c.a('prefix')), c.slen(c.a('str')) <= INTLIM, c.slen(c.a('prefix')) <= INTLIM],
      ensures=sw_ens))

reg(C('bc_str_ends_with', 'str suffix', file=U, maps=(), allocates=False,
      requires=lambda c: [c.isstr(c.a('str')), c.isstr(c.a('suffix')), c.slen(c.a('str')) <= INTLIM, c.slen(c.a('suffix')) <= INTLIM],
      ensures=lambda c: [('iff', Iff(Not(Eq(c.result, 0)), And(c.slen(c.a('suffix')) <= c.slen(c.a('str')),
                          c.cs(P(c.a('str').o, c.a('str').f + c.slen(c.a('str')) - c.slen(c.a('suffix')))) == c.cs(c.a('suffix')))))]))


def forall_range(c, p, lo, hi, pred, st, name='k'):
    """forall lo<=k<hi: pred(byte k of p)"""
    k = z3.Int(name)
    x = z3.Select(c.arr(p, st), k)
    return z3.ForAll([k], z3.Implies(z3.And(k >= zi(add(p.f, lo)), k < zi(add(p.f, hi))), pred(x)), patterns=[x])


def lstrip_ens(c):
    s, r = c.a('str'), c.result
    n = c.slen(s, c.pre)
    return [('null', Implies(Eq(s.o, 0), Eq(r.o, 0))),
            ('inside', Implies(ne0(s.o), And(Eq(r.o, s.o), r.f >= s.f, r.f <= s.f + n))),
            ('stripped', Implies(ne0(s.o), forall_range(c, s, 0, r.f - s.f, isspace, c.pre))),
            ('maximal', Implies(ne0(s.o), Or(Eq(r.f, s.f + n), Not(isspace(c.byte(r, 0, c.pre))))))]


def strip_req(c):
    return [Or(Eq(c.a('str').o, 0), And(c.isstr(c.a('str')), c.slen(c.a('str')) <= INTLIM))]


reg(C('bc_str_lstrip', 'str', file=U, maps=(), allocates=False, requires=strip_req, ensures=lstrip_ens,
      loops={0: Loop(inv=lambda c: [c.i >= 0, c.i <= c.str_len, Implies(c.str_len > 0, c.i < c.str_len), Eq(c.str_len, c.slen(c.a('str'))), forall_range(c, c.a('str'), 0, c.i, isspace, c.st)],
                     decreases=lambda c: c.str_len - c.i)}))


def rstrip_ens(c):
    s, r = c.a('str'), c.result
    n, m = c.slen(s, c.pre), c.slen(s)
    return [('null', Implies(Eq(s.o, 0), Eq(r.o, 0))),
            ('same', Eq(r, s)),
            ('string', Implies(ne0(s.o), And(c.isstr(s), m <= n))),
            ('prefix-kept', Implies(ne0(s.o), bytes_eq(c, s, 0, c.st, s, 0, c.pre, m))),
            ('stripped', Implies(ne0(s.o), forall_range(c, s, m, n, isspace, c.pre))),
            ('maximal', Implies(ne0(s.o), Or(Eq(m, 0), Not(isspace(c.byte(s, m - 1))))))]


reg(C('bc_str_rstrip', 'str', file=U, maps=('M8',), allocates=False, requires=lambda c: strip_req(c) + [Or(Eq(c.a('str').o, 0), c.a('str').o > 0)],
      modifies=lambda c: {'M8': [c.a('str').o]}, ensures=rstrip_ens,
      exit_lemmas=lambda c: [c.e.slen_min(c.st, c.a('str')) or True],
      loops={0: Loop(inv=lambda c: [c.i >= -1, c.i < c.str_len, Implies(c.str_len > 0, c.i >= 0), Eq(c.str_len, c.slen(c.a('str'), c.pre)), forall_range(c, c.a('str'), c.i + 1, c.str_len, isspace, c.pre),
                                    Eq(c.arr(c.a('str')), c.arr(c.a('str'), c.pre))],
                     modifies=lambda c: {'M8': []},
                     decreases=lambda c: c.i + 1)}))


def strip_ens(c):
    s, r = c.a('str'), c.result
    n, m = c.slen(s, c.pre), c.slen(r)
    return [('null', Implies(Eq(s.o, 0), Eq(r.o, 0))),
            ('inside', Implies(ne0(s.o), And(Eq(r.o, s.o), r.f >= s.f, r.f + m <= s.f + n, c.isstr(r)))),
            ('kept', Implies(ne0(s.o), bytes_eq(c, r, 0, c.st, r, 0, c.pre, m))),
            ('left', Implies(ne0(s.o), forall_range(c, s, 0, r.f - s.f, isspace, c.pre))),
            ('right', Implies(ne0(s.o), forall_range(c, s, r.f - s.f + m, n, isspace, c.pre))),
            ('maximal', Implies(ne0(s.o), Or(Eq(m, 0), And(Not(isspace(c.byte(r))), Not(isspace(c.byte(r, m - 1)))))))]


reg(C('bc_str_strip', 'str', file=U, maps=('M8',), allocates=False, requires=lambda c: strip_req(c) + [Or(Eq(c.a('str').o, 0), c.a('str').o > 0)],
      modifies=lambda c: {'M8': [c.a('str').o]}, ensures=strip_ens))

# ---- bc_str_find: first unescaped occurrence.  esc(a,i,j): position j is escaped when scanning from i
esc = z3.Function('esc', A1, I, I, B)


def esc_def(a, s, j):
    """defining equation at j: j is escaped iff the previous byte is an unescaped backslash"""
    return esc(a, s, j) == z3.And(j > s, z3.Select(a, j - 1) == 92, z3.Not(esc(a, s, j - 1)))


def find_ens(c):
    s, r = c.a('str'), c.result
    a = c.arr(s)
    n = c.slen(s)
    k = z3.Int('k')
    ch = c.a('c')

    def hit(x):
        return z3.And(z3.Select(a, x) == ch, z3.Not(esc(a, s.f, x)), z3.Or(z3.Select(a, x) != 92))
    nohit = lambda hi: z3.ForAll([k], z3.Implies(z3.And(k >= s.f, k < hi), z3.Not(hit(k))), patterns=[z3.Select(a, k)])
    return [('null', Implies(Eq(s.o, 0), Eq(r.o, 0))),
            ('end', Implies(And(ne0(s.o), Eq(ch, 0)), And(Eq(r.o, s.o), Eq(r.f, s.f + n)))),
            ('found', Implies(And(ne0(s.o), ne0(ch), ne0(r.o)), And(Eq(r.o, s.o), r.f >= s.f, r.f < s.f + n, hit(r.f), nohit(r.f)))),
            ('absent', Implies(And(ne0(s.o), ne0(ch), Eq(r.o, 0)), nohit(s.f + n)))]


def find_lem(c):
    # instantiate the definition of esc around the loop index
    a = c.arr(c.a('str'))
    s = c.a('str').f
    i = c.head.vars['i']
    return [esc_def(a, s, s + i + d) for d in (0, 1, 2)]


reg(C('bc_str_find', 'str c', file=U, maps=(), allocates=False,
      requires=lambda c: [c.nullstr(c.a('str')), c.slen(c.a('str')) < LIM], ensures=find_ens,
      entry=lambda c: [esc_def(c.arr(c.a('str')), c.a('str').f, c.a('str').f)],
      exit_lemmas=lambda c: [esc_def(c.arr(c.a('str')), c.a('str').f, c.a('str').f + c.v('i') + d) for d in (0, 1)] if c.has('i') else [],
      loops={0: Loop(inv=lambda c: [c.i >= 0, c.i <= c.slen(c.a('str')) + 0, Not(esc(c.arr(c.a('str')), c.a('str').f, c.a('str').f + c.i)),
                                    z3.ForAll([z3.Int('k')], z3.Implies(z3.And(z3.Int('k') >= c.a('str').f, z3.Int('k') < c.a('str').f + c.i),
                                              z3.Not(z3.And(z3.Select(c.arr(c.a('str')), z3.Int('k')) == c.a('c'), z3.Select(c.arr(c.a('str')), z3.Int('k')) != 92, z3.Not(esc(c.arr(c.a('str')), c.a('str').f, z3.Int('k')))))),
                                              patterns=[z3.Select(c.arr(c.a('str')), z3.Int('k'))])],
                     lemmas=find_lem, decreases=lambda c: c.slen(c.a('str')) - c.i)}))


def ci_eq(c, s, lit):
    a = c.arr(s)
    return And(*[Or(*[Eq(z3.Select(a, s.f + i), ord(x)) for x in {ch.lower(), ch.upper()}]) for i, ch in enumerate(lit)], Eq(z3.Select(a, s.f + len(lit)), 0))


reg(C('bc_str_to_bool', 'str', file=U, maps=(), allocates=False, requires=lambda c: [c.nullstr(c.a('str'))],
      ensures=lambda c: [('iff', Iff(Not(Eq(c.result, 0)), And(ne0(c.a('str').o), Or(*[ci_eq(c, c.a('str'), w) for w in ('1', 'y', 'yes', 'true', 'on')]))))]))


# ======================================================================
# functions that use growable strings only through their API: verified
# against the client-side (view) contracts in abs.py
from .abs import ABS, alive, buf, viewbytes, nonul, nonul_axioms

VIEW = {}


def regv(c):
    c.view = True
    VIEW[c.name] = c
    return c


def fold(eng, name, step, extra=()):
    """prefix fold over bytes: F(a,s,s)=empty; F(a,s,i+1)=F(a,s,i) ++ step(a[i]).  Returned with its
    instance generator: defs(a,s,i) is the defining equation at i."""
    f = z3.Function(name, A1, I, I, SEQ)
    return f, (lambda a, s: f(a, s, s) == z3.Empty(SEQ)), (lambda a, s, i: f(a, s, i + 1) == step(f, a, s, i))


# ---- bc_shell_quote
def shq_step(x):
    return z3.If(x == 33, seq_lit(b"'\\!'"), z3.If(x == 39, seq_lit(b"'\\''"), z3.Unit(x)))


SHQ, shq0, shq1 = fold(None, 'shq', lambda f, a, s, i: z3.Concat(f(a, s, i), shq_step(z3.Select(a, i))))


def shq_text(c, p, n, st):
    """the quoted form of the n bytes at p"""
    return cat(b"'", SHQ(c.arr(p, st), zi(p.f), zi(add(p.f, n))), b"'")


def fresh_text(c, v):
    """result is a fresh C string whose text is exactly v (v NUL-free)"""
    return [('fresh', And(ge(c.result.o, c.pre.nxt), Eq(c.result.f, 0), c.live(c.result), lt(c.result.o, c.st.nxt))),
            ('text', viewbytes(c, c.result, v)), ('room', c.size(c.result) > z3.Length(v))]


def cut0(c):
    nonul_axioms(c.e)
    return []


regv(C('bc_shell_quote', 'command', file=U, maps=(),
       requires=lambda c: [c.nullstr(c.a('command'))],
       entry=lambda c: cut0(c) + [shq0(c.arr(c.a('command')), c.a('command').f), nonul(c.e, SHQ(c.arr(c.a('command')), c.a('command').f, c.a('command').f))],
       ensures=lambda c: [('null', Implies(Eq(c.a('command').o, 0), viewbytes(c, c.result, seq_lit(b"''")))),
                          ('quoted', Implies(ne0(c.a('command').o), viewbytes(c, c.result, shq_text(c, c.a('command'), c.slen(c.a('command'), c.pre), c.pre)))),
                          ('fresh', And(ge(c.result.o, c.pre.nxt), Eq(c.result.f, 0), c.isstr(c.result)))],
       exit_lemmas=lambda c: [c.e.slen_min(c.st, c.result) or True],
       exit_asserts=lambda c: [c.sv(c.rv) == If(Eq(c.a('command').o, 0), seq_lit(b"''"), shq_text(c, c.a('command'), c.slen(c.a('command'), c.pre), c.pre))],
       loops={0: Loop(inv=lambda c: [c.i >= 0, c.i <= c.slen(c.a('command')), ('arg', c.isstr(c.a('command'))),
                                     ('view', c.sv(c.rv) == cat(b"'", SHQ(c.arr(c.a('command'), c.pre), c.a('command').f, c.a('command').f + c.i))),
                                     ('nonul', nonul(c.e, SHQ(c.arr(c.a('command'), c.pre), c.a('command').f, c.a('command').f + c.i)))],
                      lemmas=lambda c: [shq1(c.arr(c.a('command'), c.pre), c.a('command').f, c.a('command').f + c.head.vars['i'])],
                      facts=lambda c: [c.e.slen_min(c.st, c.a('command')) or True],
                      decreases=lambda c: c.slen(c.a('command')) - c.i)}))


# ---- bc_string_append_escaped: drops each unescaped backslash
def une_step(f, a, s, i):
    x = z3.Select(a, i)
    return z3.If(z3.And(x == 92, z3.Not(esc(a, s, i))), f(a, s, i), z3.Concat(f(a, s, i), z3.Unit(x)))


UNE, une0, une1 = fold(None, 'unescape', une_step)

regv(C('bc_string_append_escaped', 'str suffix', file=U, maps=('SV', 'STRB', 'M8', 'LIVE'),
       requires=lambda c: [('str', Or(Eq(c.a('str').o, 0), alive(c, c.a('str')))), ('suffix', Or(Eq(c.a('suffix').o, 0), And(c.isstr(c.a('suffix')), Or(Eq(c.a('str').o, 0), Not(Eq(c.a('suffix').o, buf(c, c.a('str'))))))))],
       modifies=lambda c: {'SV': [c.a('str').o], 'STRB': [c.a('str').o], 'M8': [buf(c, c.a('str'))], 'LIVE': [buf(c, c.a('str'))]},
       entry=lambda c: [une0(c.arr(c.a('suffix')), c.a('suffix').f), esc_def(c.arr(c.a('suffix')), c.a('suffix').f, c.a('suffix').f)],
       ensures=lambda c: [('result', Eq(c.result, c.a('str'))),
                          ('alive', Implies(ne0(c.a('str').o), And(alive(c, c.a('str')), Or(Eq(buf(c, c.a('str')), buf(c, c.a('str'), c.pre)), buf(c, c.a('str')) >= zi(c.pre.nxt))))),
                          ('noop', Implies(And(ne0(c.a('str').o), Eq(c.a('suffix').o, 0)), c.sv(c.a('str')) == c.sv(c.a('str'), c.pre))),
                          ('view', Implies(And(ne0(c.a('str').o), ne0(c.a('suffix').o)),
                                           c.sv(c.a('str')) == cat(c.sv(c.a('str'), c.pre), UNE(c.arr(c.a('suffix'), c.pre), c.a('suffix').f, c.a('suffix').f + c.slen(c.a('suffix'), c.pre)))))],
       loops={0: Loop(inv=lambda c: [c.i >= 0, c.i <= c.slen(c.a('suffix'), c.pre), ('str', Eq(c.str, c.a('str'))), ('alive', alive(c, c.str)),
                                     ('buf', Or(Eq(buf(c, c.str), buf(c, c.str, c.pre)), buf(c, c.str) >= zi(c.pre.nxt))),
                                     ('state', Iff(Not(Eq(c.escaped, 0)), esc(c.arr(c.a('suffix'), c.pre), c.a('suffix').f, c.a('suffix').f + c.i))),
                                     ('view', c.sv(c.str) == cat(c.sv(c.a('str'), c.pre), UNE(c.arr(c.a('suffix'), c.pre), c.a('suffix').f, c.a('suffix').f + c.i)))],
                      lemmas=lambda c: [une1(c.arr(c.a('suffix'), c.pre), c.a('suffix').f, c.a('suffix').f + c.head.vars['i']),
                                        esc_def(c.arr(c.a('suffix'), c.pre), c.a('suffix').f, c.a('suffix').f + c.head.vars['i'] + 1)],
                      facts=lambda c: [c.e.slen_min(c.st, c.a('suffix')) or True],
                      decreases=lambda c: c.slen(c.a('suffix'), c.pre) - c.i)}))


# ---- string vectors
def strv_ok(c, v, n, st=None):
    """v is a NULL-terminated vector of n pieces, each a string"""
    po, pf = z3.Select(c.map('P.o', st), zi(v.o)), z3.Select(c.map('P.f', st), zi(v.o))
    j = z3.Int('j')
    m8 = c.map('M8', st)
    sl = c.e.slen_f()
    pj, fj = z3.Select(po, j), z3.Select(pf, j)
    a = z3.Select(m8, pj)
    return And(ne0(v.o), c.live(v, st), n >= 0, v.f >= 0, v.f + n < c.size(v, st), z3.Select(po, v.f + n) == 0,
               z3.ForAll([j], z3.Implies(z3.And(j >= v.f, j < v.f + n), z3.And(pj != 0, pj < zi((st or c.st).nxt), fj >= 0, z3.Select(c.map('LIVE', st), pj), sl(a, fj) >= 0,
                         fj + sl(a, fj) < z3.Select(c.map('SIZE', st), pj), z3.Select(a, fj + sl(a, fj)) == 0)), patterns=[pj]))


VN = z3.Int('strv.n')        # ghost: number of pieces of the argument vector
JOIN = z3.Function('joined', I, SEQ)   # text of the first j pieces joined (of the argument vector, at entry)


def piece(c, v, j, st):
    po, pf = z3.Select(c.map('P.o', st), zi(v.o)), z3.Select(c.map('P.f', st), zi(v.o))
    return P(z3.Select(po, v.f + j), z3.Select(pf, v.f + j))


def join_def(c, j):
    v, sep = c.a('strv'), c.a('separator')
    return JOIN(j + 1) == z3.If(j == 0, c.cs(piece(c, v, zi(j), c.pre), c.pre), z3.Concat(JOIN(j), c.cs(sep, c.pre), c.cs(piece(c, v, zi(j), c.pre), c.pre)))


regv(C('bc_strv_join', 'strv separator', file=U, maps=(),
       requires=lambda c: [Or(Eq(c.a('strv').o, 0), strv_ok(c, c.a('strv'), VN)), c.nullstr(c.a('separator'))],
       entry=lambda c: cut0(c) + [JOIN(0) == z3.Empty(SEQ)],
       ensures=lambda c: [('null', Iff(Eq(c.result.o, 0), Or(Eq(c.a('strv').o, 0), Eq(c.a('separator').o, 0)))),
                          ('joined', Implies(ne0(c.result.o), And(ge(c.result.o, c.pre.nxt), c.isstr(c.result), c.cs(c.result) == JOIN(VN))))],
       exit_asserts=lambda c: ([Implies(ne0(c.result.o), c.sv(c.str) == JOIN(VN)), Implies(ne0(c.result.o), nonul(c.e, c.sv(c.str)))] if c.has('str') else []),
       loops={0: Loop(inv=lambda c: [c.i >= 0, c.i <= VN,
                                     ('view', c.sv(c.str) == If(And(c.i > 0, c.i < VN), z3.Concat(JOIN(c.i), c.cs(c.a('separator'), c.pre)), JOIN(c.i))),
                                     ('nonul', nonul(c.e, JOIN(c.i)))],
                      lemmas=lambda c: [join_def(c, c.head.vars['i'])],
                      decreases=lambda c: VN - c.i)}))

regv(C('bc_strv_length', 'strv', file=U, maps=(), allocates=False,
       requires=lambda c: [Or(Eq(c.a('strv').o, 0), strv_ok(c, c.a('strv'), VN))],
       ensures=lambda c: [('length', Eq(c.result, If(Eq(c.a('strv').o, 0), 0, VN)))],
       loops={0: Loop(inv=lambda c: [c.i >= 0, c.i <= VN], decreases=lambda c: VN - c.i)}))

# ---- bc_str_split: pieces are the maximal separator-free runs, in order
ST = z3.Function('split_start', I, I)
EN = z3.Function('split_end', I, I)


def hit(c, k, j):
    a = c.arr(c.a('str'), c.pre)
    mx = c.a('max_pieces')
    return z3.Or(z3.Select(a, k) == 0, z3.And(z3.Select(a, k) == c.a('c'), z3.Or(mx == 0, j + 1 < mx)))


def split_def(c, j, k):
    """definition of EN at j: the first hit at or after ST(j); ST(j+1)=EN(j)+1"""
    m = z3.Int('m')
    a = c.arr(c.a('str'), c.pre)
    first = z3.And(k >= ST(j), hit(c, k, j), z3.ForAll([m], z3.Implies(z3.And(m >= ST(j), m < k), z3.Not(hit(c, m, j))), patterns=[z3.Select(a, m)]))
    return z3.And(z3.Implies(first, EN(j) == k), ST(j + 1) == EN(j) + 1)


def pieces_ok(c, rv, n, st):
    s = c.a('str')
    a = c.arr(s, c.pre)
    po, pf = z3.Select(c.map('P.o', st), zi(rv.o)), z3.Select(c.map('P.f', st), zi(rv.o))
    j, k = z3.Ints('j k')
    m8 = c.map('M8', st)
    pj = z3.Select(po, j)
    rng_ = z3.And(j >= 0, z3.Or(j < n - 1, j == n - 1))   # j<n, split so that the newest piece is its own case
    one = z3.ForAll([j], z3.Implies(rng_, z3.And(pj >= zi(c.pre.nxt), pj < zi(st.nxt), pj != zi(rv.o), z3.Select(pf, j) == 0, z3.Select(c.map('LIVE', st), pj), z3.Select(c.map('SIZE', st), pj) == EN(j) - ST(j) + 1)), patterns=[pj])
    two = z3.ForAll([j], z3.Implies(rng_, z3.And(EN(j) >= ST(j), ST(j) >= s.f, EN(j) <= s.f + c.slen(s, c.pre), z3.Select(z3.Select(m8, pj), EN(j) - ST(j)) == 0)), patterns=[pj])
    thr = z3.ForAll([j, k], z3.Implies(z3.And(rng_, k >= 0, k < EN(j) - ST(j)), z3.Select(z3.Select(m8, pj), k) == z3.Select(a, ST(j) + k)), patterns=[z3.Select(z3.Select(m8, pj), k)])
    dis = z3.ForAll([j, k], z3.Implies(z3.And(rng_, k >= 0, k < j), z3.Select(po, k) != pj), patterns=[z3.MultiPattern(z3.Select(po, k), pj)])
    return [('piece-alloc', one), ('piece-bounds', two), ('piece-bytes', thr), ('piece-distinct', dis)]


def split_as(c):
    h = c.head.vars['count']
    k, j = z3.Int('k'), z3.Int('j')
    po = z3.Select(c.map('P.o'), zi(c.rv.o))
    pj = z3.Select(po, h)
    pi = z3.Select(po, j)
    po0 = z3.Select(c.map('P.o', c.head), zi(c.head.vars['rv'].o))
    M0, M1 = c.map('M8', c.head), c.map('M8')
    a = c.arr(c.a('str'), c.pre)
    return [('newpiece-end', Implies(c.count == h + 1, And(EN(h) == c.a('str').f + c.head.vars['i']))),
            ('newpiece', Implies(c.count == h + 1, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < EN(h) - ST(h)), z3.Select(z3.Select(c.map('M8'), pj), k) == z3.Select(a, ST(h) + k)), patterns=[z3.Select(z3.Select(c.map('M8'), pj), k)]))),
            ('oldpieces', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < h), z3.And(pi == z3.Select(po0, j), z3.Select(M1, pi) == z3.Select(M0, pi))), patterns=[pi]))]


reg(C('bc_str_split', 'str c max_pieces', file=U, maps=('M8',),
      requires=lambda c: [c.nullstr(c.a('str')), c.slen(c.a('str')) < LIM],
      entry=lambda c: [ST(0) == c.a('str').f],
      ensures=lambda c: [('null', Iff(Eq(c.result.o, 0), Eq(c.a('str').o, 0))),
                         ('terminated', Implies(ne0(c.a('str').o), And(Eq(c.result.f, 0), c.live(c.result), z3.Select(z3.Select(c.map('P.o'), c.result.o), SPN(c)) == 0, c.size(c.result) == SPN(c) + 1, SPN(c) >= 0))),
                         ('limit', Implies(And(ne0(c.a('str').o), ne0(c.a('max_pieces'))), SPN(c) <= zi(c.a('max_pieces')))),
                         ('all', Implies(ne0(c.a('str').o), If(Eq(c.slen(c.a('str'), c.pre), 0), Eq(SPN(c), 0), And(SPN(c) > 0, EN(SPN(c) - 1) == c.a('str').f + c.slen(c.a('str'), c.pre)))))] + [(l, Implies(ne0(c.a('str').o), f)) for l, f in pieces_ok(c, c.result, SPN(c), c.st)],
      loops={0: Loop(inv=lambda c: [c.i >= 0, c.i <= c.slen(c.a('str'), c.pre) + 1, ('start', c.a('str').f + c.start == ST(c.count)), c.start >= 0, c.start <= c.i, c.count >= 0, c.count <= c.i, Implies(c.slen(c.a('str'), c.pre) == 0, And(c.i == 0)),
                                    ('rv', And(Eq(c.rv.f, 0), c.rv.o >= zi(c.pre.nxt), c.rv.o < zi(c.st.nxt), c.live(c.rv), c.size(c.rv) >= c.count)),
                                    ('limit', Or(Eq(c.a('max_pieces'), 0), c.count < c.a('max_pieces'), And(Eq(c.count, c.a('max_pieces')), Eq(c.i, c.slen(c.a('str'), c.pre) + 1)))),
                                    ('end', Implies(c.i == c.slen(c.a('str'), c.pre) + 1, And(c.count > 0, EN(c.count - 1) == c.a('str').f + c.slen(c.a('str'), c.pre)))),
                                    ('nohit', z3.ForAll([z3.Int('m')], z3.Implies(z3.And(z3.Int('m') >= c.a('str').f + c.start, z3.Int('m') < c.a('str').f + c.i), z3.Not(hit(c, z3.Int('m'), c.count))),
                                                        patterns=[z3.Select(c.arr(c.a('str'), c.pre), z3.Int('m'))])),
                                    ] + pieces_ok(c, c.rv, c.count, c.st),
                     lemmas=lambda c: [split_def(c, c.head.vars['count'], c.a('str').f + c.head.vars['i'])],
                     asserts=split_as,
                     facts=lambda c: [c.e.slen_min(c.st, c.a('str')) or True],
                     decreases=lambda c: c.slen(c.a('str'), c.pre) + 1 - c.i)}))


def SPN(c):
    return c.v('count') if getattr(c, 'is_body', False) and c.has('count') else z3.Int('split.n')


# ---- vectors that own their pieces (the client-side view of abs.py): release and length
from . import abs as A_


def freed_upto(c, i):
    j = z3.Int('j')
    v = c.a('strv')
    pj = A_.piece_at(c, v, j, c.pre)
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < A_.NP(zi(v.o))), z3.Select(c.map('LIVE'), pj) == (j >= zi(i))), patterns=[pj])


def vec_mem(c):
    v = c.a('strv')
    return And(c.live(v))


F_ = A_.ABS['bc_strv_free']
regv(C('bc_strv_free', 'strv', file=U, maps=('LIVE',), allocates=False, requires=F_.requires, modifies=F_.modifies, ensures=F_.ensures,
       loops={0: Loop(inv=lambda c: [('range', And(c.i >= 0, c.i <= A_.NP(zi(c.a('strv').o)))), ('vector', vec_mem(c)), ('freed', freed_upto(c, c.i))],
                      facts=lambda c: [VOWN_lemma(c)],
                      decreases=lambda c: A_.NP(zi(c.a('strv').o)) - c.i)}))


def VOWN_lemma(c):
    return z3.BoolVal(True)


L_ = A_.ABS['bc_strv_length']
VIEW['bc_strv_length!own'] = C('bc_strv_length', 'strv', file=U, maps=(), allocates=False, requires=L_.requires, ensures=L_.ensures,
                               loops={0: Loop(inv=lambda c: [('range', And(c.i >= 0, c.i <= A_.NP(zi(c.a('strv').o))))], decreases=lambda c: A_.NP(zi(c.a('strv').o)) - c.i)})
