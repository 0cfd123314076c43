"""Client-side (layer 1) contracts of the container API.

A growable string is seen through its ghost view SV[s] (the byte sequence it
holds); these contracts are the concrete ones of utils_c.py with 'the first len
bytes of the buffer' replaced by that view.
"""
from vc.sym import *
from vc.lib import C, cstr_fresh

ABS = {}
U = 'src/common/utils.c'


def reg(c):
    c.view = True
    ABS[c.name] = c
    return c


STRMAPS = ('SV', 'STRB', 'M8', 'LIVE')


def buf(c, s, st=None):
    return z3.Select(c.map('STRB', st), zi(s.o))


def mods(c):
    s = c.a('str')
    return {'SV': [s.o], 'STRB': [s.o], 'M8': [buf(c, s)], 'LIVE': [buf(c, s)]}


def alive(c, s):
    """s is a live growable string (its buffer is private to it)"""
    b = buf(c, s)
    return And(ne0(s.o), Eq(s.f, 0), gt(s.o, 0), c.live(s), b > 0, b < zi(c.st.nxt), c.live(P(b, 0)), Not(Eq(b, s.o)))


def after(c, s, view):
    b = buf(c, s)
    return [('view', Eq(c.sv(s), view)), ('buf', And(b > 0, b < zi(c.st.nxt), c.live(P(b, 0)), Not(Eq(b, s.o)), Or(Eq(b, buf(c, s, c.pre)), b >= zi(c.pre.nxt))))]


def small(c, s, extra=0):
    return True


reg(C('bc_string_new', '', file=U, maps=('SV', 'STRB'),
      ensures=lambda c: [('fresh', And(ge(c.result.o, c.pre.nxt), lt(c.result.o, c.st.nxt), Eq(c.result.f, 0), c.live(c.result),
                                       buf(c, c.result) >= zi(c.pre.nxt), buf(c, c.result) < zi(c.st.nxt), Not(Eq(buf(c, c.result), c.result.o)), c.live(P(buf(c, c.result), 0)))),
                         ('empty', Eq(c.sv(c.result), z3.Empty(SEQ)))]))

reg(C('bc_string_append', 'str suffix', file=U, maps=STRMAPS,
      requires=lambda c: [('str', alive(c, c.a('str'))), ('suffix', Or(Eq(c.a('suffix').o, 0), And(c.isstr(c.a('suffix')), Not(Eq(c.a('suffix').o, buf(c, c.a('str')))))))],
      modifies=mods,
      ensures=lambda c: [('result', Eq(c.result, c.a('str')))] + after(c, c.a('str'), If(Eq(c.a('suffix').o, 0), c.sv(c.a('str'), c.pre), cat(c.sv(c.a('str'), c.pre), c.cs(c.a('suffix'), c.pre))))))

reg(C('bc_string_append_c', 'str c', file=U, maps=STRMAPS,
      requires=lambda c: [('str', alive(c, c.a('str')))], modifies=mods,
      ensures=lambda c: [('result', Eq(c.result, c.a('str')))] + after(c, c.a('str'), cat(c.sv(c.a('str'), c.pre), z3.Unit(zi(c.a('c')))))))


reg(C('bc_strdup', 's', file=U, maps=(), requires=lambda c: [('str', c.nullstr(c.a('s')))],
      ensures=lambda c: [('null', Implies(Eq(c.a('s').o, 0), Eq(c.result.o, 0))),
                         ('copy', Implies(ne0(c.a('s').o), And(cstr_fresh(c), Eq(c.cs(c.result), c.cs(c.a('s'), c.pre)), Eq(c.slen(c.result), c.slen(c.a('s'), c.pre)))))]))

reg(C('bc_strndup', 's n', file=U, maps=(), requires=lambda c: [('range', Or(c.nullstr(c.a('s')), c.valid(c.a('s'), c.a('n'))))],
      ensures=lambda c: [('null', Implies(Eq(c.a('s').o, 0), Eq(c.result.o, 0))),
                         ('copy', Implies(ne0(c.a('s').o), And(cstr_fresh(c), le(c.slen(c.result), c.a('n')), Eq(c.cs(c.result), sub(c, c.a('s'), c.slen(c.result), c.pre)),
                                                                        Or(Eq(c.slen(c.result), c.a('n')), Eq(c.byte(c.a('s'), c.slen(c.result), c.pre), 0)))))]))


def sub_f(eng):
    """sub(a,i,j): the bytes a[i..j) as a sequence"""
    f = z3.Function('sub', A1, I, I, SEQ)
    a, i, j = z3.Const('a', A1), z3.Int('i'), z3.Int('j')
    eng.ax('sublen', z3.ForAll([a, i, j], z3.Implies(j >= i, z3.Length(f(a, i, j)) == j - i), patterns=[f(a, i, j)]))
    return f


def sub(c, p, n, st=None):
    f = sub_f(c.e)
    return f(c.arr(p, st), zi(p.f), zi(add(p.f, n)))


reg(C('bc_string_append_len', 'str suffix len', file=U, maps=STRMAPS,
      requires=lambda c: [('str', alive(c, c.a('str'))), ('suffix', Or(Eq(c.a('suffix').o, 0), And(c.valid(c.a('suffix'), c.a('len')), Not(Eq(c.a('suffix').o, buf(c, c.a('str')))))))],
      modifies=mods,
      ensures=lambda c: [('result', Eq(c.result, c.a('str')))] + after(c, c.a('str'), If(Eq(c.a('suffix').o, 0), c.sv(c.a('str'), c.pre), cat(c.sv(c.a('str'), c.pre), sub(c, c.a('suffix'), c.a('len'), c.pre))))))

reg(C('bc_string_free', 'str free_str', file=U, maps=('LIVE',), allocates=False,
      requires=lambda c: [('str', Or(Eq(c.a('str').o, 0), alive(c, c.a('str'))))],
      modifies=lambda c: {'LIVE': [c.a('str').o, If(Eq(c.a('str').o, 0), 0, buf(c, c.a('str')))]},
      ensures=lambda c: [('keep', Implies(And(ne0(c.a('str').o), Eq(c.a('free_str'), 0)),
                                          And(Eq(c.result.o, buf(c, c.a('str'), c.pre)), Eq(c.result.f, 0), c.live(c.result),
                                              c.size(c.result) > z3.Length(c.sv(c.a('str'), c.pre)), Eq(c.byte(c.result, z3.Length(c.sv(c.a('str'), c.pre))), 0),
                                              viewbytes(c, c.result, c.sv(c.a('str'), c.pre))))),
                         ('drop', Implies(Or(Eq(c.a('str').o, 0), Not(Eq(c.a('free_str'), 0))), Eq(c.result.o, 0))),
                         ('freed', Implies(ne0(c.a('str').o), Not(c.live(c.a('str')))))]))


def holds_f(eng):
    """holds(a,i,v): the bytes of a from i on are exactly v (definition: a[i+k]==v[k] for k<len v)"""
    f = z3.Function('holds', A1, I, SEQ, B)
    a, i, v, k = z3.Const('a', A1), z3.Int('i'), z3.Const('v', SEQ), z3.Int('k')
    eng.ax('holds', z3.ForAll([a, i, v, k], z3.Implies(z3.And(f(a, i, v), k >= i, k < i + z3.Length(v)), z3.Select(a, k) == v[k - i]),
                              patterns=[z3.MultiPattern(f(a, i, v), z3.Select(a, k))]))
    return f


def cs_holds(eng):
    """definition fact: a string's text is the bytes before its NUL"""
    h, g, sl = holds_f(eng), eng.cs_f(), eng.slen_f()
    a, i = z3.Const('a', A1), z3.Int('i')
    eng.ax('csholds', z3.ForAll([a, i], z3.Implies(sl(a, i) >= 0, h(a, i, g(a, i))), patterns=[g(a, i)]))
    return True


def viewbytes(c, p, v):
    """the buffer starts with the bytes of v; when v has no NUL the C string is exactly v"""
    a = c.arr(p)
    c.e.slen_f()
    return And(holds_f(c.e)(a, zi(p.f), v),
               c.slen(p) >= 0, c.slen(p) <= z3.Length(v), Iff(c.slen(p) == z3.Length(v), nonul(c.e, v)),
               Implies(nonul(c.e, v), c.cs(p) == v))


def nonul(eng, v):
    """v contains no NUL byte (uninterpreted here; homomorphic over concatenation, see nonul_axioms)"""
    return z3.Function('nonul', SEQ, B)(v)


def nonul_axioms(eng):
    f = z3.Function('nonul', SEQ, B)
    a, i = z3.Const('a', A1), z3.Int('i')
    x, y = z3.Const('x', SEQ), z3.Const('y', SEQ)
    eng.ax('nonul0', f(z3.Empty(SEQ)))
    eng.ax('nonul1', z3.ForAll([i], f(z3.Unit(i)) == (i != 0), patterns=[f(z3.Unit(i))]))
    eng.ax('nonul2', z3.ForAll([x, y], f(z3.Concat(x, y)) == z3.And(f(x), f(y)), patterns=[f(z3.Concat(x, y))]))
    g = eng.cs_f()
    eng.ax('nonul3', z3.ForAll([a, i], f(g(a, i)), patterns=[g(a, i)]))


# ---- string vectors as values with their own pieces.  NP(v) is the number of pieces of the vector object v,
# VOWN/VPOS the vector and index a piece object belongs to (fixed when the vector is made).
NP, VOWN, VPOS = (z3.Function(n, I, I) for n in ('npieces', 'piece_of', 'piece_pos'))


def piece_at(c, v, j, st=None):
    return z3.Select(z3.Select(c.map('P.o', st), zi(v.o)), zi(j))


def svec(c, v, st=None, lo=None):
    """v is NULL-terminated; each of its pieces is a live string of its own"""
    st = st or c.st
    n = NP(zi(v.o))
    j = z3.Int('j')
    pj = piece_at(c, v, j, st)
    fj = z3.Select(z3.Select(c.map('P.f', st), zi(v.o)), j)
    sl = c.e.slen_f()
    a = z3.Select(c.map('M8', st), pj)
    return And(ne0(v.o), gt(v.o, 0), Eq(v.f, 0), c.live(v, st), n >= 0, c.size(v, st) > n, c.size(v, st) < MAXOBJ, piece_at(c, v, n, st) == 0, z3.Select(z3.Select(c.map('P.f', st), zi(v.o)), n) == 0,
               z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(pj > (0 if lo is None else zi(lo) - 1), pj < zi(st.nxt), fj == 0, z3.Select(c.map('LIVE', st), pj), VOWN(pj) == zi(v.o), VPOS(pj) == j, pj != zi(v.o),
                         sl(a, 0) >= 0, sl(a, 0) < z3.Select(c.map('SIZE', st), pj), z3.Select(a, sl(a, 0)) == 0)), patterns=[pj]))


def mine(v):
    return lambda o: Or(Eq(o, v.o), And(ne0(v.o), Eq(VOWN(zi(o)), v.o)))


reg(C('bc_str_split', 'str c max_pieces', file=U, maps=(),
      requires=lambda c: [('str', c.nullstr(c.a('str')))],
      ensures=lambda c: [('null', Iff(Eq(c.result.o, 0), Eq(c.a('str').o, 0))),
                         ('pieces', Implies(ne0(c.a('str').o), And(ge(c.result.o, c.pre.nxt), lt(c.result.o, c.st.nxt), svec(c, c.result, lo=c.pre.nxt)))),
                         ('owned', z3.ForAll([z3.Int('o')], z3.Implies(z3.And(VOWN(z3.Int('o')) == zi(c.result.o), zi(c.result.o) != 0), z3.And(z3.Int('o') >= zi(c.pre.nxt), z3.Int('o') < zi(c.st.nxt))), patterns=[VOWN(z3.Int('o'))])),
                         ('empty', Implies(ne0(c.a('str').o), Iff(Eq(NP(zi(c.result.o)), 0), Eq(c.slen(c.a('str'), c.pre), 0)))),
                         ('limit', Implies(And(ne0(c.a('str').o), ne0(c.a('max_pieces'))), le(NP(zi(c.result.o)), c.a('max_pieces'))))]))

reg(C('bc_strv_free', 'strv', file=U, maps=('LIVE',), allocates=False,
      requires=lambda c: [('strv', Or(Eq(c.a('strv').o, 0), svec(c, c.a('strv'))))],
      modifies=lambda c: {'LIVE': [mine(c.a('strv'))]},
      ensures=lambda c: [('freed', Implies(ne0(c.a('strv').o), And(Not(c.live(c.a('strv'))), z3.ForAll([z3.Int('j')], z3.Implies(z3.And(z3.Int('j') >= 0, z3.Int('j') < NP(zi(c.a('strv').o))), z3.Not(z3.Select(c.map('LIVE'), piece_at(c, c.a('strv'), z3.Int('j'), c.pre)))), patterns=[piece_at(c, c.a('strv'), z3.Int('j'), c.pre)]))))]))

reg(C('bc_strv_length', 'strv', file=U, maps=(), allocates=False,
      requires=lambda c: [('strv', Or(Eq(c.a('strv').o, 0), svec(c, c.a('strv'))))],
      ensures=lambda c: [('length', Eq(c.result, If(Eq(c.a('strv').o, 0), 0, NP(zi(c.a('strv').o)))))]))


# ---- tries as finite maps from C strings to values.  TD[t] is the set of keys, TV[t] the value object bound to a key
# (values are blocks the trie owns: TOWN[o] is the owner, TKEY[o] the key), TS[t] the text of the value at insertion.
SB_, SI_, SS_ = z3.ArraySort(SEQ, B), z3.ArraySort(SEQ, I), z3.ArraySort(SEQ, SEQ)
NOKEYS = z3.K(SEQ, z3.BoolVal(False))
NOTEXT = z3.K(SEQ, z3.Empty(SEQ))


def owns_nothing(c, t):
    c.e.name_maps(c.st)
    o = z3.Int('o')
    w = z3.Select(c.map('TOWN'), o)
    return z3.ForAll([o], w != zi(t.o), patterns=[w])


CARD = z3.Function('card', SB_, I)
TRIEMAPS = ('TD', 'TV', 'TS', 'TOWN', 'TKEY', 'LIVE')


def card_axioms(eng):
    d, k = z3.Const('d', SB_), z3.Const('ks', SEQ)
    eng.ax('card0', CARD(NOKEYS) == 0)
    eng.ax('card1', z3.ForAll([d, k], CARD(z3.Store(d, k, z3.BoolVal(True))) == z3.If(z3.Select(d, k), CARD(d), CARD(d) + 1), patterns=[CARD(z3.Store(d, k, z3.BoolVal(True)))]))
    eng.ax('card2', z3.ForAll([d], CARD(d) >= 0, patterns=[CARD(d)]))
    eng.ax('card3', z3.ForAll([d, k], z3.Implies(z3.Select(d, k), CARD(d) > 0), patterns=[z3.MultiPattern(CARD(d), z3.Select(d, k))]))


def tsel(c, m, t, st=None):
    return z3.Select(c.map(m, st), zi(t.o))


def town(c, o, st=None):
    return z3.Select(c.map('TOWN', st), zi(o))


def trie_ok(c, t, st=None, lo=None):
    """t is a live trie whose values are live strings of its own; lo: values allocated before lo are not among them"""
    st = st or c.st
    c.e.name_maps(st)
    k = z3.Const('k', SEQ)
    v = z3.Select(tsel(c, 'TV', t, st), k)
    sl = c.e.slen_f()
    a = z3.Select(c.map('M8', st), v)
    own = z3.And(v > 0, v < zi(st.nxt), z3.Select(c.map('LIVE', st), v), z3.Select(c.map('TOWN', st), v) == zi(t.o), z3.Select(c.map('TKEY', st), v) == k,
                 sl(a, 0) >= 0, sl(a, 0) < z3.Select(c.map('SIZE', st), v), z3.Select(a, sl(a, 0)) == 0, c.e.cs_f()(a, 0) == z3.Select(tsel(c, 'TS', t, st), k))
    more = []
    if lo is not None:
        o = z3.Int('o')
        w = z3.Select(c.map('TOWN', st), o)
        more = [z3.ForAll([o], z3.Implies(w == zi(t.o), o >= zi(lo)), patterns=[w])]
    return And(trie_live(c, t, st), *more, z3.ForAll([k], z3.Implies(z3.Select(tsel(c, 'TD', t, st), k), own), patterns=[v]))


def trie_live(c, t, st=None):
    st = st or c.st
    return And(ne0(t.o), Eq(t.f, 0), gt(t.o, 0), lt(t.o, st.nxt), c.live(t, st), town(c, t.o, st) == 0)


def trie_has(c, t, key, st=None):
    return z3.Select(tsel(c, 'TD', t, st), key)


reg(C('bc_trie_new', 'free_func', file=U, maps=('TD', 'TS'),
      modifies=lambda c: {},
      ensures=lambda c: [('fresh', And(ge(c.result.o, c.pre.nxt), lt(c.result.o, c.st.nxt), Eq(c.result.f, 0), c.live(c.result))), ('empty', And(tsel(c, 'TD', c.result) == NOKEYS, tsel(c, 'TS', c.result) == NOTEXT)), ('owns nothing', owns_nothing(c, c.result))]))


def ins_on(c):
    return And(ne0(c.a('trie').o), ne0(c.a('key').o), ne0(c.a('data').o))


def ins_key(c):
    return c.cs(c.a('key'), c.pre)


reg(C('bc_trie_insert', 'trie key data', file=U, maps=TRIEMAPS, allocates=True,
      requires=lambda c: [('trie', Or(Eq(c.a('trie').o, 0), trie_live(c, c.a('trie')))), ('key', c.nullstr(c.a('key'))),
                          ('data', Or(Eq(c.a('data').o, 0), And(c.live(c.a('data')), Eq(c.a('data').f, 0), gt(c.a('data').o, 0), lt(c.a('data').o, c.st.nxt), town(c, c.a('data').o) == 0, Not(Eq(c.a('data').o, c.a('trie').o)), c.isstr(c.a('data')))))],
      modifies=lambda c: dict({m: [c.a('trie').o] for m in ('TD', 'TV', 'TS')}, TOWN=[If(ins_on(c), c.a('data').o, 0)], TKEY=[If(ins_on(c), c.a('data').o, 0)],
                              LIVE=[If(And(ins_on(c), trie_has(c, c.a('trie'), ins_key(c))), z3.Select(tsel(c, 'TV', c.a('trie')), ins_key(c)), 0)]),
      ensures=lambda c: (lambda t, k, d: [
          ('off', Implies(Not(ins_on(c)), And(*[tsel(c, m, t) == tsel(c, m, t, c.pre) for m in ('TD', 'TV', 'TS')], *[z3.Select(c.map(m), 0) == z3.Select(c.map(m, c.pre), 0) for m in ('TOWN', 'LIVE')]))),
          ('bound', Implies(ins_on(c), And(tsel(c, 'TD', t) == z3.Store(tsel(c, 'TD', t, c.pre), k, z3.BoolVal(True)), tsel(c, 'TV', t) == z3.Store(tsel(c, 'TV', t, c.pre), k, zi(d.o)),
                                           tsel(c, 'TS', t) == z3.Store(tsel(c, 'TS', t, c.pre), k, c.cs(d, c.pre)), town(c, d.o) == zi(t.o), z3.Select(c.map('TKEY'), zi(d.o)) == k,
                                           Implies(Not(trie_has(c, t, k, c.pre)), z3.Select(c.map('LIVE'), 0) == z3.Select(c.map('LIVE', c.pre), 0)))))])(c.a('trie'), ins_key(c), c.a('data'))))

reg(C('bc_trie_lookup', 'trie key', file=U, maps=(), allocates=False,
      requires=lambda c: [('trie', Or(Eq(c.a('trie').o, 0), trie_live(c, c.a('trie')))), ('key', c.nullstr(c.a('key')))],
      ensures=lambda c: [('value', If(And(ne0(c.a('trie').o), ne0(c.a('key').o)), If(trie_has(c, c.a('trie'), ins_key(c)), And(Eq(c.result.o, z3.Select(tsel(c, 'TV', c.a('trie')), ins_key(c))), Eq(c.result.f, 0)), Eq(c.result.o, 0)), Eq(c.result.o, 0)))]))

reg(C('bc_trie_size', 'trie', file=U, maps=(), allocates=False,
      requires=lambda c: [('trie', Or(Eq(c.a('trie').o, 0), trie_live(c, c.a('trie'))))],
      ensures=lambda c: [card_axioms(c.e) or ('size', Eq(c.result, If(Eq(c.a('trie').o, 0), 0, CARD(tsel(c, 'TD', c.a('trie'))))))]))


def owned_by(c, t, st=None):
    """the blocks a trie owns (NULL owns nothing)"""
    m = c.map('TOWN', st)
    return lambda o: And(ne0(t.o), Or(Eq(o, t.o), z3.Select(m, zi(o)) == zi(t.o)))


reg(C('bc_trie_free', 'trie', file=U, maps=('LIVE',), allocates=False,
      requires=lambda c: [('trie', Or(Eq(c.a('trie').o, 0), trie_live(c, c.a('trie'))))],
      modifies=lambda c: {'LIVE': [owned_by(c, c.a('trie'))]},
      ensures=lambda c: [('freed', Implies(ne0(c.a('trie').o), Not(c.live(c.a('trie')))))]))
