"""src/blogc/loader.c: file names of posts and the order of dated posts."""
from vc.sym import *
from vc.lib import C
from . import client
from .abs import holds_f, cs_holds
F = 'src/blogc/loader.c'
VIEW, USES = {}, dict(client.USES)
BUILTINS = dict(client.BUILTINS)
INTLIM = (1 << 31) - 2


def sep(x):
    return z3.Or(x == 47, x == 92)


def fa(c, lo, hi, pred):
    """every byte of f at positions lo < k < hi satisfies pred"""
    p = c.a('f')
    k = z3.Int('k')
    x = z3.Select(c.arr(p, c.pre), k)
    return z3.ForAll([k], z3.Implies(z3.And(k > zi(add(p.f, lo)), k < zi(add(p.f, hi))), pred(x)), patterns=[x])


def at(c, j):
    p = c.a('f')
    return z3.Select(c.arr(p, c.pre), zi(add(p.f, j)))


def n_(c):
    return zi(c.slen(c.a('f'), c.pre))


def same(c, q, d):
    """the copy q holds the bytes of f, but for position d"""
    p = c.a('f')
    k = z3.Int('k')
    x, y = z3.Select(c.arr(q), k), z3.Select(c.arr(p, c.pre), zi(p.f) + k)
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= n_(c), k != zi(d)), x == y), patterns=[x])


def base(c):
    """the part between the last directory separator (at s) and the last dot after it"""
    if not c.has('tmp'):
        return []
    s = c.tmp.f - 1
    n, m, r = n_(c), zi(c.slen(c.result)), c.result
    d = s + 1 + m
    p = c.a('f')
    k = z3.Int('k')
    x = z3.Select(c.arr(r), k)
    return [('after the last separator', And(Or(s == -1, And(s >= 0, s < n, sep(at(c, s)))), fa(c, s, n, lambda x: z3.Not(sep(x))))),
            ('before the last dot', And(d <= n, If(d == n, fa(c, s, n, lambda x: x != 46), And(at(c, d) == 46, fa(c, d, n, lambda x: x != 46))))),
            ('bytes', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), x == z3.Select(c.arr(p, c.pre), zi(p.f) + s + 1 + k)), patterns=[x]))]


def copied(c):
    k = z3.Int('k')
    x = z3.Select(c.arr(c.result), k)
    return [z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(c.slen(c.result))), x == z3.Select(c.arr(c.tmp), zi(c.tmp.f) + k)), patterns=[x])]


def inv(c):
    n, i, q = n_(c), zi(c.i), c.filename
    d = zi(c.slen(q))
    return [('range', And(i >= -1, i <= n, Eq(c.tmp, c.filename), Eq(q.f, 0), ge(q.o, c.pre.nxt))), ('copy', And(c.isstr(q), d <= n, c.size(q) > n)),
            ('no separator', fa(c, i, n, lambda x: z3.Not(sep(x)))),
            ('dot', If(Eq(c.removed_dot, 0), And(d == n, same(c, q, -1), fa(c, i, n, lambda x: x != 46)), And(d > i, d < n, at(c, d) == 46, fa(c, d, n, lambda x: x != 46), same(c, q, d))))]


c_ = VIEW['blogc_get_filename'] = C('blogc_get_filename', 'f', file=F, maps=(),
    requires=lambda c: [('name', c.nullstr(c.a('f'))), ('size', Or(Eq(c.a('f').o, 0), c.slen(c.a('f')) <= INTLIM))],
    entry=lambda c: [c.e.slen_min(c.pre, c.a('f')) or cs_holds(c.e)],
    ensures=lambda c: [('none', Iff(Eq(c.result.o, 0), Or(Eq(c.a('f').o, 0), n_(c) == 0))),
                       ('fresh', Implies(ne0(c.result.o), And(ge(c.result.o, c.pre.nxt), lt(c.result.o, c.st.nxt), Eq(c.result.f, 0), c.isstr(c.result))))] + base(c),
    exit_asserts=lambda c: copied(c) if c.has('tmp') else [],
    loops={0: Loop(inv=inv, decreases=lambda c: c.i + 1)})
c_.view = True
