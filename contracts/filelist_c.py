"""src/blogc/filelist-parser.c: the list of files named by a file list."""
from vc.sym import *
from vc.lib import C
from . import client
from .abs import sub_f, alive, buf, nonul, nonul_axioms
from .source_c import STRIP, s_ as strip_c
from .client import TL
F = 'src/blogc/filelist-parser.c'
VIEW, USES = {}, dict(client.USES, bc_str_strip=strip_c)
BUILTINS = dict(client.BUILTINS)
INTLIM = (1 << 31) - 2
FN = {n: z3.Function('files' + n, A1, I, I, TL, I, I, TL) for n in ('START', 'CMT', 'LINE')}


def src(c):
    p = c.a('src')
    return c.arr(p, c.pre), zi(p.f), zi(c.a('src_len'))


def at(c, k):
    a, b, n = src(c)
    return z3.Select(a, b + zi(k))


def piece(c, i, j):
    a, b, n = src(c)
    return sub_f(c.e)(a, b + zi(i), b + zi(j))


def f(c, n, acc, k, s=0):
    return FN[n](*src(c), acc, zi(s), zi(k))


def steps(c, acc, s, k):
    """START: at the start of a line; CMT: in a comment; LINE: in a line that starts at s"""
    s, k = zi(s), zi(k)
    n = src(c)[2]
    x = at(c, k)
    nl = z3.Or(x == 10, x == 13)
    return And(f(c, 'START', acc, k) == z3.If(k >= n, acc, z3.If(x == 35, f(c, 'CMT', acc, k), z3.If(z3.Or(nl, x == 32, x == 9), f(c, 'START', acc, k + 1), f(c, 'LINE', acc, k, k)))),
               f(c, 'CMT', acc, k) == z3.If(k >= n, acc, z3.If(nl, f(c, 'START', acc, k + 1), f(c, 'CMT', acc, k + 1))),
               f(c, 'LINE', acc, k, s) == z3.If(k >= n, acc, z3.If(nl, f(c, 'START', TL.snoc(acc, STRIP(piece(c, s, k))), k + 1), z3.If(k == n - 1, TL.snoc(acc, STRIP(piece(c, s, k + 1))), f(c, 'LINE', acc, k + 1, s)))))


def subs(c, s, k):
    s, k = zi(s), zi(k)
    return And(piece(c, s, s) == z3.Empty(SEQ), piece(c, k, k) == z3.Empty(SEQ), z3.Implies(k >= s, piece(c, s, k + 1) == z3.Concat(piece(c, s, k), z3.Unit(at(c, k)))))


def target(c):
    return f(c, 'START', TL.none, 0)


def cur(c, st=None):
    return client.ltext(c, c.rv, st)


def lo(c):
    """where the current line began"""
    return zi(c.current) - z3.Length(c.sv(c.line))


def inv(c):
    i = zi(c.current)
    n = src(c)[2]
    S = lambda x: Eq(c.state, c.frame.F.unit.enumconst[x])
    m = cur(c)
    return [('range', And(i >= 0, Or(i <= n, i == n + 1))), ('states', Or(S('LINE_START'), S('LINE'))), ('list', And(client.llist(c, c.rv), Or(Eq(c.rv.o, 0), ge(c.rv.o, c.pre.nxt)))),
            ('line', And(alive(c, c.line), ge(c.line.o, c.pre.nxt), buf(c, c.line) >= zi(c.pre.nxt), nonul(c.e, c.sv(c.line)))),
            ('separate', And(Not(Eq(c.line.o, c.rv.o)), Not(Eq(buf(c, c.line), c.rv.o)))),
            ('source', Eq(c.arr(c.a('src')), c.arr(c.a('src'), c.pre))),
            ('between lines', Implies(S('LINE_START'), And(c.sv(c.line) == z3.Empty(SEQ), f(c, 'START', m, i) == target(c)))),
            ('in a line', Implies(S('LINE'), And(lo(c) >= 0, i <= n, i < n, c.sv(c.line) == piece(c, lo(c), i), f(c, 'LINE', m, i, lo(c)) == target(c))))]


def lem(c):
    hv = c.head.vars
    m = client.ltext(c, hv['rv'], c.head)
    v = z3.Select(c.map('SV', c.head), zi(hv['line'].o))
    s = hv['current'] - z3.Length(v)
    return [steps(c, cur(c), 0, c.current), steps(c, m, s, hv['current']), steps(c, m, hv['current'], hv['current']), subs(c, s, hv['current'])]


def inner(c):
    i = zi(c.current)
    n = src(c)[2]
    return [('range', And(i >= 0, i <= n)), ('comment', f(c, 'CMT', cur(c), i) == target(c)), ('text', And(c.sv(c.line) == z3.Empty(SEQ), Eq(c.arr(c.a('src')), c.arr(c.a('src'), c.pre))))]


def nonul_in(c):
    a, b_, n = src(c)
    k = z3.Int('k')
    return z3.ForAll([k], z3.Implies(z3.And(k >= b_, k < b_ + n), z3.Select(a, k) != 0), patterns=[z3.Select(a, k)])


c_ = VIEW['blogc_filelist_parse'] = C('blogc_filelist_parse', 'src src_len', file=F, maps=('LT', 'M8', 'SV', 'STRB') + client.NEXTS,
    requires=lambda c: [('source', Or(Eq(c.a('src_len'), 0), c.valid(c.a('src'), c.a('src_len')))), ('size', And(c.a('src_len') >= 0, c.a('src_len') < INTLIM)), ('text', nonul_in(c))],
    entry=lambda c: [nonul_axioms(c.e) or sub_f(c.e) is not None, client.list_axiom(c.e) or True],
    modifies=lambda c: {},
    ensures=lambda c: [('files', client.ltext(c, c.result) == target(c))],
    exit_lemmas=lambda c: [steps(c, client.ltext(c, c.result), 0, c.current)],
    loops={0: Loop(inv=inv, lemmas=lem, facts=lambda c: [steps(c, cur(c), 0, c.current)], decreases=lambda c: 2 * (src(c)[2] - c.current) + If(Eq(c.state, c.frame.F.unit.enumconst['LINE']), 0, 1)),
           1: Loop(inv=inner, lemmas=lambda c: [steps(c, client.ltext(c, c.head.vars['rv'], c.head), 0, c.head.vars['current'])], facts=lambda c: [steps(c, cur(c), 0, c.current)], decreases=lambda c: src(c)[2] - c.current)})
c_.view = True
