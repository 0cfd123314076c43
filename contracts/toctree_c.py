"""src/blogc/toctree.c: the table of contents."""
from vc.sym import *
from vc.lib import C, fmt_lit
from . import client
from .abs import alive, buf, nonul, nonul_axioms
from .lists_c import LIST, ND, IDX, N, nxt, dat, datf
F = 'src/blogc/toctree.c'
LIM = 1 << 58
LOW, WIT = z3.Int('lowest_level'), z3.Int('lowest_header')
VIEW, USES = {}, dict(client.USES)
BUILTINS = dict(client.BUILTINS)
HS = 'blogc_toctree_header_t'


def level(c, i):
    return c.fld(P(dat(c, ND(i)), 0), HS, 'level')


def headers_ok(c):
    """every element is a header with a level and its own strings"""
    i = z3.Int('i')
    d = dat(c, ND(i))
    slug, text = c.fld(P(d, 0), HS, 'slug'), c.fld(P(d, 0), HS, 'text')
    sl = c.e.slen_f()

    def st(p):
        a = z3.Select(c.map('M8'), zi(p.o))
        n = sl(a, zi(p.f))
        return And(zi(p.o) >= 0, zi(p.o) < zi(c.st.nxt), Implies(ne0(p.o), And(z3.Select(c.map('LIVE'), zi(p.o)), zi(p.f) >= 0, n >= 0, zi(p.f) + n < z3.Select(c.map('SIZE'), zi(p.o)), z3.Select(a, zi(p.f) + n) == 0)))
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), z3.And(d > 0, d < zi(c.st.nxt), datf(c, ND(i)) == 0, z3.Select(c.map('LIVE'), d), level(c, i) >= 1, level(c, i) < LIM, st(slug), st(text), Or(slug.o != 0, text.o != 0))), patterns=[d])


def lv(c):
    return c.v('l.2') if c.has('l.2') else c.l


def at(c):
    l = lv(c)
    k = IDX(zi(l.o))
    return Or(And(Eq(l.o, 0), Eq(l.f, 0)), And(Eq(l.o, ND(k)), Eq(l.f, 0), k >= 0, k < N))


def pos(c):
    return If(Eq(lv(c).o, 0), N, IDX(zi(lv(c).o)))


def lowest(c, upto):
    i = z3.Int('i')
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(upto)), level(c, i) >= zi(c.lower_level)), patterns=[dat(c, ND(i))])


def minimum(c):
    """LOW is the least level there is"""
    i = z3.Int('i')
    return z3.Implies(N > 0, z3.And(WIT >= 0, WIT < N, level(c, WIT) == LOW, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), level(c, i) >= LOW), patterns=[dat(c, ND(i))])))


# ---- the definition: OUT(cur, acc, i) is the whole text when the headers before i have given acc and lists are open
# down to level cur; GO is the same on the way to the level of header i; CLOSE closes what is open
OUT, GO = (z3.Function('toc_' + n, I, SEQ, I, SEQ) for n in ('OUT', 'GO'))
CLOSE = z3.Function('toc_CLOSE', I, SEQ, SEQ)
SPACES = z3.Function('spaces', I, SEQ)


ENDL = z3.Const('toc_endl', SEQ)


def endl(c):
    return ENDL


def endl_is(c):
    e = c.a('endl')
    return ENDL == If(Eq(e.o, 0), fmt_lit(b'\n'), c.cs(e, c.pre))


def closing(c, k):
    return cat(SPACES(4 * (k - LOW)), fmt_lit(b'</ul>'), endl(c))


def opening(c, k):
    return cat(SPACES(4 + 4 * (k - LOW)), fmt_lit(b'<ul>'), endl(c))


def htext(c, i, name):
    p = c.fld(P(dat(c, ND(i), c.pre), 0), HS, name, c.pre)
    return p, c.e.cs_f()(z3.Select(c.map('M8', c.pre), zi(p.o)), zi(p.f))


def item(c, k, acc, i):
    (sp, slug), (tp, text) = htext(c, i, 'slug'), htext(c, i, 'text')
    head = cat(SPACES(4 + 4 * (k - LOW)), fmt_lit(b'<li>'))
    link = cat(fmt_lit(b'<a href="#'), slug, fmt_lit(b'">'), If(Eq(tp.o, 0), z3.Empty(SEQ), text), fmt_lit(b'</a>'))
    return cat(cat(cat(acc, head), If(Eq(sp.o, 0), text, link)), cat(fmt_lit(b'</li>'), endl(c)))


def skip(c, i):
    m = zi(c.a('maxdepth'))
    return z3.And(m > 0, plevel(c, i) - LOW >= m)


def plevel(c, i):
    return c.fld(P(dat(c, ND(i), c.pre), 0), HS, 'level', c.pre)


def steps(c, k, acc, i):
    k, i = zi(k), zi(i)
    l = plevel(c, i)
    return And(OUT(k, acc, i) == z3.If(i >= N, CLOSE(k, acc), z3.If(skip(c, i), OUT(k, acc, i + 1), GO(k, acc, i))),
               GO(k, acc, i) == z3.If(k > l, GO(k - 1, cat(acc, closing(c, k)), i), z3.If(k < l, GO(k + 1, cat(acc, opening(c, k)), i), OUT(k, item(c, k, acc, i), i + 1))),
               CLOSE(k, acc) == z3.If(k >= LOW, CLOSE(k - 1, cat(acc, closing(c, k))), acc))


def target(c):
    return OUT(LOW, cat(fmt_lit(b'<ul>'), endl(c)), 0)


def text_axioms(c):
    """spaces and the literal texts have no NUL (the results are texts)"""
    i = z3.Int('i')
    return And(z3.ForAll([i], nonul(c.e, SPACES(i)), patterns=[SPACES(i)]), *[nonul(c.e, fmt_lit(x)) for x in (b'<li>', b'</ul>', b'<ul>', b'<a href="#', b'">', b'</a>', b'</li>')])


def below(c, m):
    """the blocks of the caller are as given"""
    c.e.name_maps(c.st)
    o = z3.Int('o')
    x = z3.Select(c.map(m), o)
    return z3.ForAll([o], z3.Implies(o < zi(c.pre.nxt), x == z3.Select(c.map(m, c.pre), o)), patterns=[x])


def depth(c):
    """indentation follows the nesting"""
    return And(Eq(c.lower_level, LOW), LOW >= 1, LOW < LIM, c.current_level >= LOW, c.current_level < LIM, c.spacing == 4 + 4 * (c.current_level - LOW))


def text(c):
    return And(alive(c, c.rv), ge(c.rv.o, c.pre.nxt), buf(c, c.rv) >= zi(c.pre.nxt), nonul(c.e, c.sv(c.rv)))


def hidx(c):
    return IDX(zi(lv(c).o))


def cur(c):
    l = lv(c)
    return And(Eq(c.t.f, 0), Eq(l.o, ND(hidx(c))), Eq(l.f, 0), hidx(c) >= 0, hidx(c) < N, Eq(c.t.o, dat(c, l.o)), Not(skip(c, hidx(c))))


def acc(c, st=None):
    return c.sv(c.rv, st)


def hd(c):
    hv = c.head.vars
    return hv['current_level'], z3.Select(c.map('SV', c.head), zi(hv['rv'].o))


def lem(c):
    k, a = hd(c)
    i = IDX(zi(c.head.vars['l.2'].o)) if 'l.2' in c.head.vars else IDX(zi(c.head.vars['l'].o))
    return [steps(c, k, a, i), steps(c, c.current_level, acc(c), i)]


def lem1(c):
    k, a = hd(c)
    l = c.head.vars['l.2']
    i = If(Eq(l.o, 0), N, IDX(zi(l.o)))
    return [steps(c, k, a, i), steps(c, c.current_level, acc(c), i), steps(c, c.current_level, acc(c), pos(c))]


def fx(c):
    return [steps(c, c.current_level, acc(c), pos(c))]


base = lambda c: [('blocks', below(c, 'LIVE')), ('bytes', below(c, 'M8')), ('text', text(c)), ('endl', c.nullstr(c.a('endl')))]
c_ = VIEW['blogc_toctree_render'] = C('blogc_toctree_render', 'headers maxdepth endl', file=F, maps=(),
    requires=lambda c: [('headers', And(LIST(c, c.a('headers'), N), headers_ok(c))), ('endl', c.nullstr(c.a('endl'))), ('lowest', minimum(c)), ('line end', endl_is(c))],
    entry=lambda c: [nonul_axioms(c.e) or text_axioms(c)],
    ensures=lambda c: [('none', Iff(Eq(c.result.o, 0), Or(N == 0, Eq(c.a('maxdepth'), 0)))), ('fresh', Implies(ne0(c.result.o), And(ge(c.result.o, c.pre.nxt), Eq(c.result.f, 0), c.live(c.result)))),
                       ('text', Implies(ne0(c.result.o), And(c.isstr(c.result), Eq(c.cs(c.result), target(c)))))],
    exit_asserts=lambda c: [('all of it', Eq(acc(c), target(c)))] if c.has('rv') else [],
    exit_lemmas=lambda c: [steps(c, c.current_level, acc(c), N)] if c.has('rv') else [],
    loops={0: Loop(inv=lambda c: [('at', at(c)), ('lowest', lowest(c, pos(c))), ('some', And(c.lower_level >= 0, c.lower_level < LIM, Implies(pos(c) == 0, Eq(c.lower_level, 0)), Implies(pos(c) > 0, And(c.lower_level >= 1, c.lower_level >= LOW))))], decreases=lambda c: N - pos(c)),
           1: Loop(inv=lambda c: base(c) + [('at', at(c)), ('depth', depth(c)), ('so far', OUT(zi(c.current_level), acc(c), pos(c)) == target(c))], facts=fx, lemmas=lem1, decreases=lambda c: N - pos(c)),
           2: Loop(inv=lambda c: base(c) + [('header', cur(c)), ('depth', depth(c)), ('so far', GO(zi(c.current_level), acc(c), hidx(c)) == target(c))], facts=fx, lemmas=lem, decreases=lambda c: c.current_level),
           3: Loop(inv=lambda c: base(c) + [('header', cur(c)), ('depth', depth(c)), ('deeper', c.current_level <= c.fld(c.t, HS, 'level')), ('so far', GO(zi(c.current_level), acc(c), hidx(c)) == target(c))], facts=fx, lemmas=lem, decreases=lambda c: c.fld(c.t, HS, 'level') - c.current_level),
           4: Loop(inv=lambda c: base(c) + [('left', And(Eq(c.lower_level, LOW), LOW >= 1, LOW < LIM, c.current_level >= LOW - 1, c.current_level < LIM, c.spacing == 4 + 4 * (c.current_level - LOW))), ('so far', CLOSE(zi(c.current_level), acc(c)) == target(c))],
                   facts=lambda c: [steps(c, c.current_level, acc(c), N)], lemmas=lambda c: [steps(c, *hd(c), N), steps(c, c.current_level, acc(c), N)], decreases=lambda c: c.current_level)})
c_.view = True
c_.shards = 16
c_.nocand, c_.feas_ms = True, 100
