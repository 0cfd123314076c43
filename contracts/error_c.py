"""src/common/error.c: the reported line and position.

A text is scanned token by token; a token is CR LF, LF CR, or one byte.  TK(t) is the start of token t,
LN/CO the line and column there: a line-break token moves to (line+1, 1), any other byte to (line, column+1).
"""
from vc.sym import *
from vc.lib import C, fresh_string, fmt_result, fmt_lit
F = 'src/common/error.c'
VIEW = {}
TK = z3.Function('TK', A1, I, I, I, I)
LN = z3.Function('LN', A1, I, I, I, I)
CO = z3.Function('CO', A1, I, I, I, I)
BUILTINS = {}


def b(name, maps=()):
    def d(f):
        f.maps = tuple(maps)
        f.note = ''
        BUILTINS[name] = f
        return f
    return d


@b('__builtin_va_start')
def va(eng, fr, st, vals, types, T, line, args):
    return [(st, 0)]


@b('__builtin_va_end')
def va2(eng, fr, st, vals, types, T, line, args):
    return [(st, 0)]


@b('bc_strdup_vprintf', ('$nxt',))
def vpr(eng, fr, st, vals, types, T, line, args):
    eng.prove(st, eng.isstr(st, vals[0]), 'precondition', 'format is a string', line)
    return [(st, fresh_string(eng, st))]


vpr.note = 'bc_strdup_vprintf returns a fresh string (vsnprintf trusted)'


@b('bc_error_new_printf', ('$nxt', 'S.bc_error_t.type', 'S.bc_error_t.msg'))
def enp(eng, fr, st, vals, types, T, line, args):
    seq = fmt_result(eng, st, vals[1], vals[2:], line, 'bc_error_new_printf')
    return [(st, mkerr(eng, st, vals[0], seq))]


enp.note = 'bc_error_new_printf stores exactly the formatted text (vsnprintf trusted)'


def mkerr(eng, st, ty, seq):
    p = fresh_string(eng, st, seq)
    o = eng.newobj(st, 1)
    for m, v in (('type', ty), ('msg.o', p.o), ('msg.f', 0)):
        mm = eng.gm(st, 'S.bc_error_t.' + m)
        st.maps['S.bc_error_t.' + m] = z3.Store(mm, zi(o), zi(v))
    return P(o, 0)


def reg(c):
    VIEW[c.name] = c
    return c


reg(C('bc_error_new', 'type msg', file=F, maps=('LIVE', 'SIZE', 'M8', 'S.bc_error_t.type', 'S.bc_error_t.msg'),
      requires=lambda c: [('msg', Or(Eq(c.a('msg').o, 0), c.isstr(c.a('msg'))))],
      modifies=lambda c: {},
      ensures=lambda c: [('fresh', And(ge(c.result.o, c.pre.nxt), lt(c.result.o, c.st.nxt), Eq(c.result.f, 0), c.live(c.result))),
                         ('type', Eq(c.fld(c.result, 'bc_error_t', 'type'), c.a('type'))),
                         ('msg', Implies(ne0(c.a('msg').o), And(c.isstr(c.fld(c.result, 'bc_error_t', 'msg')), ge(c.fld(c.result, 'bc_error_t', 'msg').o, c.pre.nxt), Eq(c.cs(c.fld(c.result, 'bc_error_t', 'msg')), c.cs(c.a('msg'), c.pre)))))]))


def f(c, fn, t):
    p = c.a('src')
    return fn(c.arr(p, c.pre), zi(p.f), zi(c.a('src_len')), zi(t))


def at(c, k):
    p = c.a('src')
    return z3.Select(c.arr(p, c.pre), zi(p.f) + zi(k))


def nl(x):
    return z3.Or(x == 10, x == 13)


def step(c, t):
    s = f(c, TK, t)
    n = zi(c.a('src_len'))
    x, y = at(c, s), at(c, s + 1)
    pair = z3.And(s + 1 < n, z3.Or(z3.And(x == 10, y == 13), z3.And(x == 13, y == 10)))
    return And(f(c, TK, t + 1) == z3.If(pair, s + 2, s + 1),
               f(c, LN, t + 1) == z3.If(nl(x), f(c, LN, t) + 1, f(c, LN, t)),
               f(c, CO, t + 1) == z3.If(nl(x), 1, f(c, CO, t) + 1))


def inv(c):
    t = c.g('tok')
    n, cur = zi(c.a('src_len')), zi(c.a('current'))
    return [('range', And(c.i >= 0, c.i <= n, t >= 0, c.linestart >= 0, c.linestart <= c.i, Or(c.linestart < n, c.linestart == 0), Eq(c.lineend, 0))),
            ('bounds', And(c.lineno >= 1, c.lineno <= c.i + 1, c.pos >= 1, c.pos <= c.i + 1)),
            ('token', And(f(c, TK, t) <= c.i, Or(Eq(f(c, TK, t), c.i), And(f(c, TK, t) >= cur, f(c, TK, t) <= c.i)))),
            ('first', Or(t == 0, f(c, TK, t - 1) < cur)),
            ('line', Eq(c.lineno, f(c, LN, t))), ('column', Eq(c.pos, f(c, CO, t))),
            ('msg', msgok(c))]


def msgok(c):
    return And(c.isstr(c.msg), ge(c.msg.o, c.pre.nxt), Eq(c.msg.f, 0))


def gstep(c):
    t = c.head.ghost['tok']
    return {'tok': z3.If(zi(c.head.vars['i']) < zi(c.a('current')), t + 1, t)}


def text(c):
    m = c.fld(c.result, 'bc_error_t', 'msg')
    t = c.g('tok')
    fd = z3.Function('fmt_d', I, SEQ)
    long = cat(c.cs(c.msg), fmt_lit(b'\nError occurred near line '), fd(f(c, LN, t)), fmt_lit(b', position '), fd(f(c, CO, t)), seq_lit(b': '), c.cs(c.line))
    return And(c.isstr(m), If(Eq(c.byte(c.line), 0), Eq(c.cs(m), c.cs(c.msg)), Eq(c.cs(m), long)))


def done(c):
    t = c.g('tok')
    n, cur = zi(c.a('src_len')), zi(c.a('current'))
    s = f(c, TK, t)
    return And(t >= 0, z3.Or(s >= cur, s >= n), Or(t == 0, f(c, TK, t - 1) < cur))


MAPS = ('LIVE', 'SIZE', 'M8', 'S.bc_error_t.type', 'S.bc_error_t.msg')
reg(C('bc_error_parser', 'type src src_len current format', file=F, maps=MAPS, variadic=True,
      requires=lambda c: [('source', And(c.a('src_len') < (1 << 62), Implies(c.a('src_len') > 0, c.valid(c.a('src'), c.a('src_len'))), Or(c.a('src_len') > 0, c.isstr(c.a('src'))))),
                          ('format', c.nullstr(c.a('format')))],
      entry=lambda c: [f(c, TK, 0) == 0, f(c, LN, 0) == 1, f(c, CO, 0) == 1],
      modifies=lambda c: {},
      ensures=lambda c: ([('position', done(c)), ('text', text(c))] if c.has('lineno') else [('noformat', Eq(c.a('format').o, 0))]) +
      [('fresh', And(ge(c.result.o, c.pre.nxt), Eq(c.result.f, 0), c.live(c.result))), ('type', Eq(c.fld(c.result, 'bc_error_t', 'type'), c.a('type')))],
      loops={0: Loop(inv=inv, ghosts=('tok',), ghost_step=gstep, lemmas=lambda c: [step(c, c.head.ghost['tok'])],
                     decreases=lambda c: sub_(c.a('src_len'), c.i))}))
VIEW['bc_error_parser'].ghost_init = {'tok': lambda: z3.IntVal(0)}
