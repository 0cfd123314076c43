"""src/blogc/datetime-parser.c: which dates are accepted and the calendar time they stand for."""
from vc.sym import *
from vc.lib import C, fresh_string
from . import client
F = 'src/blogc/datetime-parser.c'
VIEW, USES = {}, client.USES
BUILTINS = dict(client.BUILTINS)


def b(name, maps=(), note=''):
    def d(f):
        f.maps, f.note = tuple(maps), note
        BUILTINS[name] = f
        return f
    return d


FLD = ('tm_sec', 'tm_min', 'tm_hour', 'tm_mday', 'tm_mon', 'tm_year', 'tm_isdst')
TMAPS = tuple('S.tm.' + f for f in FLD)
FORMATTED = z3.Bool('strftime.room')     # the formatted date fits the buffer


@b('memset', maps=TMAPS, note='memset clears the struct tm')
def b_memset(eng, fr, st, vals, types, T, line, args):
    p, x, n = vals
    eng.prove(st, And(ne0(p.o), z3.Select(eng.gm(st, 'LIVE'), zi(p.o)), Eq(x, 0)), 'memory', 'memset of a live struct', line)
    for m in TMAPS:
        st.maps[m] = z3.Store(eng.gm(st, m), zi(p.o), 0)
    return [(st, p)]


@b('mktime', maps=TMAPS, note='mktime gets the fields of the date (obligation at the call) and may normalise them')
def b_mktime(eng, fr, st, vals, types, T, line, args):
    c = Ctx(eng, st, fr.pre, fr.args, frame=fr)
    v = values(c)
    for f in ('tm_year', 'tm_mon', 'tm_mday', 'tm_hour', 'tm_min', 'tm_sec'):
        eng.prove(st, Eq(c.fld(vals[0], 'tm', f), v[f]), 'call', 'the date handed to the C library: ' + f, line)
    eng.prove(st, Eq(c.fld(vals[0], 'tm', 'tm_isdst'), -1), 'call', 'daylight saving is left to the C library', line)
    eng.prove(st, accepted(c), 'call', 'only an accepted date is formatted', line)
    for m in TMAPS:
        st.maps[m] = z3.Store(eng.gm(st, m), zi(vals[0].o), fresh('tm'))
    return [(st, fresh('time'))]


@b('strftime', maps=('M8',), note='strftime writes a string into the buffer it is given, or returns 0')
def b_strftime(eng, fr, st, vals, types, T, line, args):
    p, n, f, t = vals
    eng.prove(st, And(ne0(p.o), z3.Select(eng.gm(st, 'LIVE'), zi(p.o)), ge(p.f, 0), le(add(p.f, n), z3.Select(eng.gm(st, 'SIZE'), zi(p.o)))), 'memory', 'strftime: the buffer has the size given', line)
    eng.prove(st, eng.isstr(st, f), 'precondition', 'strftime: the format is a string', line)
    a = fresh('strftime', A1)
    st.maps['M8'] = z3.Store(eng.gm(st, 'M8'), zi(p.o), a)
    r = fresh('strftime.n')
    sl = eng.slen_f()(a, zi(p.f))
    st.assume(And(r >= 0, r < zi(n), FORMATTED == (r != 0), Implies(r != 0, And(z3.Select(a, zi(p.f) + r) == 0, sl >= 0, sl <= r, z3.Select(a, zi(p.f) + sl) == 0))))
    return [(st, r)]


def at(c, j):
    p = c.a('orig')
    return z3.Select(c.arr(p, c.pre), zi(add(p.f, j)))


def dig(c, j, hi=9):
    return z3.And(at(c, j) >= 48, at(c, j) <= 48 + hi)


def num(c, *js):
    r = 0
    for j in js:
        r = r * 10 + (at(c, j) - 48)
    return r


def conds(c):
    """what position j must hold, and the value it completes"""
    sep = lambda j, x: at(c, j) == x
    return [dig(c, 0), dig(c, 1), dig(c, 2), And(dig(c, 3), num(c, 0, 1, 2, 3) >= 1900), sep(4, 45), dig(c, 5, 1), And(dig(c, 6), num(c, 5, 6) >= 1, num(c, 5, 6) <= 12), sep(7, 45),
            dig(c, 8, 3), And(dig(c, 9), num(c, 8, 9) >= 1, num(c, 8, 9) <= 31), sep(10, 32), dig(c, 11, 2), And(dig(c, 12), num(c, 11, 12) <= 23), sep(13, 58), dig(c, 14, 5), dig(c, 15), sep(16, 58),
            dig(c, 17, 6), And(dig(c, 18), num(c, 17, 18) <= 60)]


def prefix(c, n):
    return And(*[Implies(zi(n) > j, x) for j, x in enumerate(conds(c))])


def length(c):
    return c.slen(c.a('orig'), c.pre)


def accepted(c):
    n = length(c)
    return And(Or(n == 10, n == 13, n == 16, n >= 19), prefix(c, n))


def values(c, n=None):
    n = zi(length(c) if n is None else n)
    return {'tm_year': z3.If(n > 3, num(c, 0, 1, 2, 3) - 1900, 0), 'tm_mon': z3.If(n > 6, num(c, 5, 6) - 1, 0), 'tm_mday': z3.If(n > 9, num(c, 8, 9), 0),
            'tm_hour': z3.If(n > 12, num(c, 11, 12), 0), 'tm_min': z3.If(n > 15, num(c, 14, 15), 0), 'tm_sec': z3.If(n > 18, num(c, 17, 18), 0)}


def partial(c, i):
    """the number being read when i bytes have been read"""
    i = zi(i)
    return {1: 1000 * num(c, 0), 2: 100 * num(c, 0, 1), 3: 10 * num(c, 0, 1, 2), 6: 10 * num(c, 5), 9: 10 * num(c, 8), 12: 10 * num(c, 11), 15: 10 * num(c, 14), 18: 10 * num(c, 17)}


def inv(c):
    i = zi(c.i)
    first = c.frame.F.unit.enumconst['DATETIME_FIRST_YEAR']
    done = c.frame.F.unit.enumconst['DATETIME_DONE']
    t = c.t
    v = values(c, i)
    part = partial(c, i)
    return [('range', And(i >= 0, i <= length(c))), ('string', And(c.isstr(c.a('orig')), Eq(c.arr(c.a('orig')), c.arr(c.a('orig'), c.pre)))), ('state', Eq(c.state, z3.If(i < 19, i + first, done))), ('read', prefix(c, i)),
            ('fields', And(*[Eq(c.fld(t, 'tm', f), v[f]) for f in v], Eq(c.fld(t, 'tm', 'tm_isdst'), -1))),
            ('number', And(*[Implies(i == k, Eq(c.tmp, x)) for k, x in part.items()], *[Implies(i == k, Eq(c.tmp, 0)) for k in (0, 5, 8, 11, 14, 17)], c.tmp >= -2000, c.tmp <= 10000)), ('diff', Eq(c.diff, 48)),
            ('no error', Eq(errv(c).o, 0))]


def errv(c, st=None):
    p = c.a('err')
    return P(z3.Select(z3.Select(c.map('P.o', st), zi(p.o)), zi(p.f)), z3.Select(z3.Select(c.map('P.f', st), zi(p.o)), zi(p.f)))


def active(c):
    return And(ne0(c.a('err').o), Eq(errv(c, c.pre).o, 0))


VIEW['blogc_convert_datetime'] = c_ = C('blogc_convert_datetime', 'orig format err', file=F, maps=('P.o', 'P.f', 'M8') + client.EMAPS[:2] + client.EMAPS[3:] + TMAPS, maxstates=80,
    requires=lambda c: [('date', c.isstr(c.a('orig'))), ('format', c.isstr(c.a('format'))), ('error', Or(Eq(c.a('err').o, 0), c.valid(c.a('err'), 1)))],
    entry=lambda c: [c.e.slen_min(c.pre, c.a('orig')) or True],
    modifies=lambda c: {'P.o': [c.a('err').o], 'P.f': [c.a('err').o], 'P': [c.a('err').o]},
    ensures=lambda c: [('off', Implies(Not(active(c)), Eq(c.result.o, 0))),
                       ('accepted', Implies(ne0(c.result.o), And(active(c), accepted(c)))),
                       ('rejected', Implies(And(active(c), Eq(c.result.o, 0)), And(ne0(errv(c).o), Or(Not(accepted(c)), z3.Not(FORMATTED))))),
                       ('result', Implies(ne0(c.result.o), And(ge(c.result.o, c.pre.nxt), Eq(c.result.f, 0), c.isstr(c.result), Eq(errv(c).o, 0))))],
    loops={0: Loop(inv=inv, decreases=lambda c: length(c) - c.i)})
c_.view = True
c_.shards = 4
