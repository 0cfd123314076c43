"""src/common/utf8.c: the table automaton accepts exactly RFC 3629 well-formed byte sequences.

U8(a,s,i) is the state of the specification automaton (the RFC 3629 section 4 grammar) after bytes a[s..i):
0 between characters, 1/2/3 that many any-continuation bytes to come, 4/5 after E0/ED, 6/7 after F0/F4, 8 malformed.
"""
from vc.sym import *
from vc.lib import C
F = 'src/common/utf8.c'
CONC = {}
U8 = z3.Function('U8', A1, I, I, I)


def reg(c):
    CONC[c.name] = c
    return c


def inr(b, lo, hi):
    return z3.And(b >= lo, b <= hi)


def step(q, sb):
    b = z3.If(sb < 0, sb + 256, sb)
    bad = z3.IntVal(8)
    tail = inr(b, 0x80, 0xbf)
    nxt = [z3.If(b <= 0x7f, 0, z3.If(inr(b, 0xc2, 0xdf), 1, z3.If(b == 0xe0, 4, z3.If(b == 0xed, 5, z3.If(inr(b, 0xe1, 0xef), 2,
           z3.If(b == 0xf0, 6, z3.If(b == 0xf4, 7, z3.If(inr(b, 0xf1, 0xf3), 3, bad)))))))),
           z3.If(tail, 0, bad), z3.If(tail, 1, bad), z3.If(tail, 2, bad),
           z3.If(inr(b, 0xa0, 0xbf), 1, bad), z3.If(inr(b, 0x80, 0x9f), 1, bad), z3.If(inr(b, 0x90, 0xbf), 2, bad), z3.If(inr(b, 0x80, 0x8f), 2, bad)]
    r = bad
    for i in reversed(range(8)):
        r = z3.If(q == i, nxt[i], r)
    return r


def u(c, i):
    p = c.a('str')
    return U8(c.arr(p, c.pre), zi(p.f), zi(p.f) + zi(i))


def step_at(c, i):
    p = c.a('str')
    return u(c, zi(i) + 1) == step(u(c, i), z3.Select(c.arr(p, c.pre), zi(p.f) + zi(i)))


# the code's state number for each specification state (any injection with 0 -> accept would do)
CODE = {0: 0, 1: 24, 2: 36, 3: 84, 4: 48, 5: 60, 6: 72, 7: 96, 8: 12}


def code_of(eng, unit):
    return CODE


def rel(c, i, state):
    q = u(c, i)
    return And(q >= 0, q <= 8, Or(*[And(q == k, Eq(state, v)) for k, v in CODE.items()]))


def readable(c):
    p, n = c.a('str'), c.a('len')
    return And(n < (1 << 62), Implies(n > 0, c.valid(p, n)))


reg(C('bc_utf8_validate', 'str len', file=F, concrete=True, maps=(), allocates=False,
      requires=lambda c: [('readable', readable(c))],
      entry=lambda c: [u(c, 0) == 0],
      ensures=lambda c: [('rfc3629', Iff(ne0(c.result) if False else Eq(c.result, 1), Eq(u(c, c.a('len')), 0)))],
      loops={0: Loop(inv=lambda c: [('range', And(c.i >= 0, c.i <= c.a('len'))), ('state', rel(c, c.i, c.state))],
                     lemmas=lambda c: [step_at(c, c.head.vars['i'])],
                     decreases=lambda c: c.a('len') - c.i)}))


def bom(c):
    p, n = c.a('str'), c.a('len')
    b = [z3.Select(c.arr(p), zi(p.f) + k) for k in range(3)]
    return And(n >= 3, b[0] == 0xef - 256, b[1] == 0xbb - 256, b[2] == 0xbf - 256)


reg(C('bc_utf8_skip_bom', 'str len', file=F, concrete=True, maps=(), allocates=False,
      requires=lambda c: [('readable', readable(c))],
      ensures=lambda c: [('bom', Eq(c.result, If(bom(c), 3, 0)))]))
