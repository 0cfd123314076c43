"""src/blogc/source-parser.c: headers and content of a source file."""
from vc.sym import *
from vc.lib import C, fresh_string
from vc.cast import SIZE_T, Ptr, CHAR
from . import client
from .abs import sub_f, trie_ok, trie_live, tsel, TRIEMAPS, NOKEYS, NOTEXT, CARD, card_axioms, town
from .gitpre_c import SB_, SS_, MAP, E0
F = 'src/blogc/source-parser.c'
VIEW, USES = {}, dict(client.USES)
BUILTINS = dict(client.BUILTINS)
INTLIM = (1 << 31) - 2


def b(name, maps=(), note=''):
    def d(f):
        f.maps, f.note = tuple(maps), note
        BUILTINS[name] = f
        return f
    return d


STRIP = z3.Function('stripped', SEQ, SEQ)     # what C04 proves bc_str_strip leaves of a text

USES['bc_str_strip'] = s_ = C('bc_str_strip', 'str', file='src/common/utils.c', maps=('M8',), allocates=False,
    requires=lambda c: [('str', And(c.isstr(c.a('str')), gt(c.a('str').o, 0))), ('size', c.slen(c.a('str')) <= INTLIM)],
    modifies=lambda c: {'M8': [c.a('str').o]},
    ensures=lambda c: [('inside', And(Eq(c.result.o, c.a('str').o), ge(c.result.f, c.a('str').f), c.isstr(c.result), c.slen(c.result) <= c.slen(c.a('str'), c.pre))),
                       ('text', c.cs(c.result) == STRIP(c.cs(c.a('str'), c.pre)))])
s_.view = True


@b('blogc_content_parse', maps=('M8', 'LIVE', 'SIZE', '$nxt', 'P.o', 'P.f', 'I64'), note='assumed contract of blogc_content_parse: a fresh string, an excerpt end inside it, and fresh strings or NULL for the rest')
def b_content(eng, fr, st, vals, types, T, line, args):
    eng.prove(st, Or(Eq(vals[0].o, 0), eng.isstr(st, vals[0])), 'precondition', 'blogc_content_parse: the source is a string', line)
    r = client.newstr(eng, st)
    e = fresh('end_excerpt')
    st.assume(And(e >= 0, e <= eng.slen(st, r)))
    client.out(eng, st, vals[1], e, SIZE_T, line, 'end_excerpt')
    for i, n in ((2, 'first_header'), (3, 'description'), (4, 'endl')):
        client.out(eng, st, vals[i], client.maybe(eng, st, client.newstr(eng, st)), ('ptr', CHAR), line, n)
    h = vals[5]
    # headers == NULL is allowed
    o = eng.newobj(st, 1)
    v = client.maybe(eng, st, P(o, 0))
    eng.prove(st, Or(Eq(h.o, 0), z3.Select(eng.gm(st, 'LIVE'), zi(h.o))), 'precondition', 'headers is writable', line)
    for k, x in (('P.o', v.o), ('P.f', 0)):
        mm = eng.gm(st, k)
        st.maps[k] = z3.If(zi(h.o) == 0, mm, z3.Store(mm, zi(h.o), z3.Store(z3.Select(mm, zi(h.o)), zi(h.f), zi(x))))
    return [(st, r)]


@b('blogc_toctree_render', maps=('$nxt',), note='blogc_toctree_render returns NULL or a fresh string (its own contract is in toctree_c)')
def b_toc(eng, fr, st, vals, types, T, line, args):
    eng.prove(st, Or(Eq(vals[2].o, 0), eng.isstr(st, vals[2])), 'precondition', 'blogc_toctree_render: endl is a string', line)
    return [(st, client.maybe(eng, st, client.newstr(eng, st)))]


@b('blogc_toctree_free', note='blogc_toctree_free releases the headers only')
def b_tocfree(eng, fr, st, vals, types, T, line, args):
    return [(st, None)]


MAXDEPTH = z3.Bool('TOCTREE_MAXDEPTH.is.a.number')


@b('strtol', maps=('P.o', 'P.f'), note='strtol returns some number and an end pointer inside the string')
def b_strtol(eng, fr, st, vals, types, T, line, args):
    eng.prove(st, eng.isstr(st, vals[0]), 'precondition', 'strtol argument is a string', line)
    f = fresh('endptr')
    st.assume(And(f >= zi(vals[0].f), f <= zi(vals[0].f) + eng.slen(st, vals[0])))
    client.out(eng, st, vals[1], P(vals[0].o, f), ('ptr', CHAR), line, 'endptr')
    r = fresh('strtol')
    st.assume(And(r >= -(1 << 63), r < (1 << 63)))
    return [(st, r)]


# What the headers say, read from position k with the bindings m so far.
OUT = z3.Datatype('Headers')
OUT.declare('mk', ('ok', B), ('map', MAP), ('start', I))
OUT = OUT.create()
BAD = z3.Const('headers.bad', OUT)
H = {n: z3.Function('hdr' + n, A1, I, I, MAP, SEQ, I, I, OUT) for n in ('START', 'KEY', 'VS', 'VAL', 'SEP', 'CS')}
RESERVED = (b'FILENAME', b'CONTENT', b'DATE_FORMATTED', b'DATE_FIRST_FORMATTED', b'DATE_LAST_FORMATTED', b'PAGE_FIRST', b'PAGE_PREVIOUS', b'PAGE_CURRENT', b'PAGE_NEXT', b'PAGE_LAST', b'BLOGC_VERSION')


def src(c):
    p = c.a('src')
    return c.arr(p, c.pre), zi(p.f), zi(c.a('src_len'))


def at(c, k):
    a, b_, n = src(c)
    return z3.Select(a, b_ + zi(k))


def piece(c, i, j):
    a, b_, n = src(c)
    return sub_f(c.e)(a, b_ + zi(i), b_ + zi(j))


def bind(m, k, v):
    return MAP.mk(z3.Store(MAP.dom(m), k, z3.BoolVal(True)), z3.Store(MAP.val(m), k, v))


NOTEXT_ = z3.Empty(SEQ)


def h(c, name, m, key=None, s=0, k=0):
    return H[name](*src(c), m, NOTEXT_ if key is None else key, zi(s), zi(k))


def reserved(c, s, k):
    return Or(*[And(k - s == len(w), *[at(c, s + i) == x for i, x in enumerate(w)]) for w in RESERVED])


def steps(c, m, key, s, k):
    """the defining equations at position k"""
    s, k = zi(s), zi(k)
    n = src(c)[2]
    x = at(c, k)
    end = k >= n
    good = lambda m, p: OUT.mk(z3.BoolVal(True), m, p)
    nl = z3.Or(x == 10, x == 13)
    up = z3.And(x >= 65, x <= 90)
    I_ = z3.If
    return And(z3.Not(OUT.ok(BAD)),
               h(c, 'START', m, None, 0, k) == I_(end, I_(CARD(MAP.dom(m)) > 0, good(m, n), BAD), I_(z3.Or(nl, x == 32, x == 9), h(c, 'START', m, None, 0, k + 1), I_(up, h(c, 'KEY', m, None, k, k + 1), I_(x == 45, h(c, 'SEP', m, None, 0, k + 1), BAD)))),
               h(c, 'KEY', m, None, s, k) == I_(end, BAD, I_(z3.Or(up, z3.And(x >= 48, x <= 57), x == 95), h(c, 'KEY', m, None, s, k + 1), I_(x == 58, I_(reserved(c, s, k), BAD, h(c, 'VS', m, piece(c, s, k), 0, k + 1)), BAD))),
               h(c, 'VS', m, key, 0, k) == I_(end, BAD, I_(nl, h(c, 'START', bind(m, key, NOTEXT_), None, 0, k + 1), h(c, 'VAL', m, key, k, k + 1))),
               h(c, 'VAL', m, key, s, k) == I_(end, BAD, I_(nl, h(c, 'START', bind(m, key, STRIP(piece(c, s, k))), None, 0, k + 1), h(c, 'VAL', m, key, s, k + 1))),
               h(c, 'SEP', m, None, 0, k) == I_(end, good(m, n), I_(x == 45, h(c, 'SEP', m, None, 0, k + 1), I_(nl, h(c, 'CS', m, None, 0, k + 1), BAD))),
               h(c, 'CS', m, None, 0, k) == I_(end, good(m, n), I_(nl, h(c, 'CS', m, None, 0, k + 1), good(m, k))))


def target(c):
    return h(c, 'START', E0)


def cur(c, st=None):
    return MAP.mk(tsel(c, 'TD', c.rv, st), tsel(c, 'TS', c.rv, st))


def errv(c, st=None):
    p = c.a('err')
    return P(z3.Select(z3.Select(c.map('P.o', st), zi(p.o)), zi(p.f)), z3.Select(z3.Select(c.map('P.f', st), zi(p.o)), zi(p.f)))


def active(c):
    return And(ne0(c.a('err').o), Eq(errv(c, c.pre).o, 0))


RAW, CON, EXC, FH, DES, TOC = (lit_text(x, 6) for x in (b'RAW_CONTENT', b'CONTENT', b'EXCERPT', b'FIRST_HEADER', b'DESCRIPTION', b'TOCTREE'))


def final(c, d, v):
    """the bindings after the content: everything from the headers kept, but for the fields blogc owns"""
    T = target(c)
    m = OUT.map(T)
    k = z3.Const('k', SEQ)
    own = z3.Or(k == RAW, k == CON, k == EXC)
    d0, v0 = z3.Select(MAP.dom(m), k), z3.Select(MAP.val(m), k)
    return [('fields', And(z3.Select(d, RAW), z3.Select(d, CON), z3.Select(d, EXC))),
            ('raw', z3.Select(v, RAW) == piece(c, OUT.start(T), src(c)[2])),
            ('kept', z3.ForAll([k], z3.Implies(z3.And(d0, z3.Not(own)), z3.And(z3.Select(d, k), z3.Select(v, k) == v0)), patterns=[z3.Select(d, k)])),
            ('no others', z3.ForAll([k], z3.Implies(z3.And(z3.Not(d0), z3.Not(own), k != FH, k != DES, k != TOC), z3.Not(z3.Select(d, k))), patterns=[z3.Select(d, k)]))]


def keyok(c):
    return And(c.isstr(c.key), Eq(c.key.f, 0), gt(c.key.o, 0), lt(c.key.o, c.st.nxt), ge(c.key.o, c.pre.nxt), town(c, c.key.o) == 0, Not(Eq(c.key.o, c.rv.o)), c.e.not_local(c.st, c.key.o))


def inv(c):
    i, s = zi(c.current), c.state
    n = src(c)[2]
    S = lambda x: Eq(s, c.frame.F.unit.enumconst['SOURCE_' + x])
    T, m = target(c), cur(c)
    invalue = Or(S('CONFIG_VALUE_START'), S('CONFIG_VALUE'))
    return [('range', And(i >= 0, i <= n)), ('states', Or(*[S(x) for x in ('START', 'CONFIG_KEY', 'CONFIG_VALUE_START', 'CONFIG_VALUE', 'SEPARATOR', 'CONTENT_START', 'CONTENT')])),
            ('trie', trie_ok(c, c.rv, lo=c.pre.nxt)), ('own', And(ge(c.rv.o, c.pre.nxt), ne0(c.rv.o))), ('no error', And(Eq(errv(c).o, 0), town(c, c.a('err').o) == 0, c.valid(c.a('err'), 1), town(c, c.a('src').o) == 0)),
            ('key', If(invalue, keyok(c), Eq(c.key.o, 0))),
            ('startpos', Implies(Or(S('CONFIG_KEY'), S('CONFIG_VALUE')), And(c.start >= 0, c.start < i))),
            ('source', Eq(c.arr(c.a('src')), c.arr(c.a('src'), c.pre))),
            ('at start', Implies(S('START'), h(c, 'START', m, None, 0, i) == T)),
            ('in key', Implies(S('CONFIG_KEY'), h(c, 'KEY', m, None, c.start, i) == T)),
            ('at value', Implies(S('CONFIG_VALUE_START'), h(c, 'VS', m, c.cs(c.key), 0, i) == T)),
            ('in value', Implies(S('CONFIG_VALUE'), h(c, 'VAL', m, c.cs(c.key), c.start, i) == T)),
            ('separator', Implies(S('SEPARATOR'), h(c, 'SEP', m, None, 0, i) == T)),
            ('before content', Implies(S('CONTENT_START'), h(c, 'CS', m, None, 0, i) == T)),
            ('content', Implies(S('CONTENT'), And(OUT.ok(T), Eq(OUT.start(T), c.start), c.start >= 0, c.start < n, c.start <= i))),
            ('headers', Implies(And(S('CONTENT'), i < n), OUT.map(T) == m)),
            ] + [(l, Implies(And(S('CONTENT'), i >= n), f)) for l, f in final(c, tsel(c, 'TD', c.rv), tsel(c, 'TS', c.rv))]


def lem(c):
    hv = c.head.vars
    m = MAP.mk(z3.Select(c.map('TD', c.head), zi(hv['rv'].o)), z3.Select(c.map('TS', c.head), zi(hv['rv'].o)))
    return [steps(c, m, c.cs(hv['key'], c.head), hv['start'], hv['current'])]


def step(c):
    """stepping stone: the raw content, as its own text"""
    if not c.has('tmp') or not c.has('end_excerpt'):
        return []
    g = And(Eq(c.state, c.frame.F.unit.enumconst['SOURCE_CONTENT']), c.current >= src(c)[2])
    return [('length of the raw content', Implies(g, c.slen(c.tmp) == src(c)[2] - zi(c.start))), ('raw content', Implies(g, c.cs(c.tmp) == piece(c, c.start, src(c)[2]))),
            ('raw content bound', Implies(g, z3.Select(tsel(c, 'TS', c.rv), RAW) == c.cs(c.tmp)))]


def nonul_in(c):
    a, b_, n = src(c)
    k = z3.Int('k')
    return z3.ForAll([k], z3.Implies(z3.And(k >= b_, k < b_ + n), z3.Select(a, k) != 0), patterns=[z3.Select(a, k)])


c_ = VIEW['blogc_source_parse'] = C('blogc_source_parse', 'src src_len toctree_maxdepth err', file=F, maps=TRIEMAPS + ('M8', 'P.o', 'P.f'), maxstates=400,
    requires=lambda c: [('source', Or(Eq(c.a('src_len'), 0), c.valid(c.a('src'), c.a('src_len')))), ('string', And(c.isstr(c.a('src')), town(c, c.a('src').o) == 0)), ('size', And(c.a('src_len') >= 0, c.a('src_len') <= INTLIM)), ('text', nonul_in(c)), ('error', Or(Eq(c.a('err').o, 0), And(c.valid(c.a('err'), 1), town(c, c.a('err').o) == 0, gt(c.a('err').o, 0), lt(c.a('err').o, c.st.nxt))))],
    entry=lambda c: [z3.Distinct(RAW, CON, EXC, FH, DES, TOC), sub_f(c.e) is not None, card_axioms(c.e) or True],
    modifies=lambda c: {'P.o': [c.a('err').o], 'P.f': [c.a('err').o], 'P': [c.a('err').o]},
    ensures=lambda c: [('off', Implies(Not(active(c)), Eq(c.result.o, 0))),
                       ('accepted', Implies(ne0(c.result.o), And(OUT.ok(target(c)), Eq(errv(c).o, 0), trie_ok(c, c.result)))),
                       ('headers only', Implies(And(ne0(c.result.o), OUT.start(target(c)) >= src(c)[2]), And(tsel(c, 'TD', c.result) == MAP.dom(OUT.map(target(c))), tsel(c, 'TS', c.result) == MAP.val(OUT.map(target(c)))))),
                       ('rejected', Implies(And(active(c), Eq(c.result.o, 0)), And(ne0(errv(c).o), Or(Not(OUT.ok(target(c))), OUT.start(target(c)) < src(c)[2]))))] +
                      [(l, Implies(And(ne0(c.result.o), OUT.start(target(c)) < src(c)[2]), f)) for l, f in final(c, tsel(c, 'TD', c.result), tsel(c, 'TS', c.result))],
    loops={0: Loop(inv=inv, lemmas=lem, asserts=step, facts=lambda c: [steps(c, cur(c), c.cs(c.key), c.start, c.current)], decreases=lambda c: 2 * (c.a('src_len') - c.current) + If(Eq(c.state, c.frame.F.unit.enumconst['SOURCE_CONTENT']), 0, 1))})
c_.view = c_.tries = True
c_.nocand, c_.feas_ms, c_.shards = True, 20, 8
c_.litmax = 6
