"""src/blogc-make: names of outputs and the commands that are run."""
import itertools
from vc.sym import *
from vc.lib import C, fresh_string
from . import client
from .abs import alive, buf, nonul, nonul_axioms, holds_f
F = 'src/blogc-make/utils.c'
VIEW, USES = {}, dict(client.USES)
BUILTINS = dict(client.BUILTINS)
EMPTY = z3.Empty(SEQ)


def part(c, n, st=None):
    """(given and not empty, text)"""
    p = c.a(n)
    return And(ne0(p.o), z3.Length(c.cs(p, c.pre)) > 0), c.cs(p, c.pre)


def firsts(c, names):
    """the first byte of a C string (definition of its text)"""
    return [Implies(ne0(c.a(n).o), And(Iff(Eq(c.byte(c.a(n), 0, c.pre), 0), z3.Length(c.cs(c.a(n), c.pre)) == 0), Implies(z3.Length(c.cs(c.a(n), c.pre)) > 0, c.cs(c.a(n), c.pre)[0] == zi(c.byte(c.a(n), 0, c.pre))))) for n in names]


def when(x, *t):
    return If(x, cat(*t), EMPTY)


def zz(x):
    return zi(x) if not isinstance(x, bool) else z3.BoolVal(x)


PATH = z3.Function('path', I, B, SEQ, B, SEQ, B, SEQ, B, SEQ, B, SEQ, SEQ)      # the name after its k-th part
PARTS = 10


def pb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def path(dirgiven, d, *parts, k=PARTS):
    return PATH(k, pb(dirgiven), d, *[y for h, t in parts for y in (pb(h), t)])


def path_is(*a):
    """dir [/gprefix] [/ prefix [/] name] ext; a page called index whose extension is a directory is that directory"""
    dirgiven, d, (hg, g), (hp, p), (hf, f), (he, e) = a
    dirext = And(he, e[0] == 47)
    plain = And(he, Not(e[0] == 47))
    index = And(hf, f == seq_lit(b'index'), dirext, Not(hp))
    w = [(And(dirgiven, Or(hg, hp, hf, he)), [d]), (hg, [b'/']), (hg, [g]), (And(Or(hp, hf, plain), Not(index)), [b'/']), (hp, [p]),
         (And(hf, hp, Not(f[0] == 47)), [b'/']), (And(hf, Not(index)), [f]), (And(Not(hf), plain, Not(hp)), [b'index']), (he, [e])]
    out = [path(*a, k=0) == EMPTY]
    for i, (x, t) in enumerate(w):
        prev, cur = path(*a, k=i), path(*a, k=i + 1)
        out += [Implies(x, cur == cat(prev, *t)), Implies(Not(x), cur == prev)]
    return And(*out, path(*a) == path(*a, k=len(w)))


def below(c, m):
    """the blocks of the caller are as given"""
    c.e.name_maps(c.st)
    o = z3.Int('o')
    x = z3.Select(c.map(m), o)
    return z3.ForAll([o], z3.Implies(o < zi(c.pre.nxt), x == z3.Select(c.map(m, c.pre), o)), patterns=[x])


def joins(c):
    """what is kept where ways meet: how much of the name is there"""
    if not c.has('rv'):
        return None
    a = wargs(c)
    return [('blocks', below(c, 'LIVE')), ('bytes', below(c, 'M8')), ('newer', c.st.nxt >= zi(c.pre.nxt)), ('string', And(alive(c, c.rv), c.rv.o >= c.pre.nxt, zi(c.rv.o) < zi(c.st.nxt), buf(c, c.rv) >= zi(c.pre.nxt)))] + \
           flags(c) + [('path %d' % i, c.sv(c.rv) == path(*a, k=i)) for i in range(PARTS)]


ARGS = ('dir', 'gprefix', 'prefix', 'fname', 'ext')


def want(c):
    return path(*wargs(c))


def wargs(c):
    return (ne0(c.a('dir').o), c.cs(c.a('dir'), c.pre), part(c, 'gprefix'), part(c, 'prefix'), part(c, 'fname'), part(c, 'ext'))


def flags(c):
    """what the code decided about its arguments, for the names it still uses"""
    g, p, f, e = (part(c, n)[0] for n in ARGS[1:])
    e0 = part(c, 'ext')[1][0] == 47
    w = dict(have_gprefix=g, have_prefix=p, have_fname=f, have_ext=e, have_ext_noslash=And(e, Not(e0)), is_index=And(f, e, part(c, 'fname')[1] == seq_lit(b'index'), e0, Not(p)))
    return [(n, Iff(ne0(c.v(n)), x)) for n, x in w.items() if c.has(n)]


def named(c, w):
    return [('none', Iff(Eq(c.result.o, 0), z3.Length(w) == 0)), ('fresh', Implies(ne0(c.result.o), And(ge(c.result.o, c.pre.nxt), Eq(c.result.f, 0), c.live(c.result)))),
            ('text', Implies(ne0(c.result.o), And(c.isstr(c.result), Eq(c.cs(c.result), w))))]


c_ = VIEW['bm_generate_filename'] = C('bm_generate_filename', 'dir gprefix prefix fname ext', file=F, maps=(),
    requires=lambda c: [(n, c.nullstr(c.a(n))) for n in ARGS],
    entry=lambda c: [nonul_axioms(c.e) or True] + firsts(c, ARGS) + [nonul(c.e, seq_lit(b'index')), path_is(*wargs(c))],
    ensures=lambda c: named(c, want(c)),
    exit_asserts=lambda c: flags(c) + [('name', Eq(c.sv(c.rv), want(c)))] if c.has('rv') else [],
    )
c_.view = True
c_.nocand, c_.feas_ms, c_.joins = True, 100, joins


def joined(c):
    """prefix / fname / prefix2, of those that are given"""
    (hp, p), (hf, f), (h2, p2) = part(c, 'prefix'), part(c, 'fname'), part(c, 'prefix2')
    return cat(when(hp, p), when(And(hp, Or(hf, h2)), b'/'), when(hf, f), when(And(hf, h2), b'/'), when(h2, p2))


def want2(c):
    return path(*wargs2(c))


def wargs2(c):
    j = joined(c)
    return (ne0(c.a('dir').o), c.cs(c.a('dir'), c.pre), part(c, 'gprefix'), (z3.Length(j) > 0, j), part(c, 'fname2'), part(c, 'ext'))


A2_ = ('dir', 'gprefix', 'prefix', 'fname', 'prefix2', 'fname2', 'ext')
c_ = VIEW['bm_generate_filename2'] = C('bm_generate_filename2', ' '.join(A2_), file=F, maps=(),
    requires=lambda c: [(n, c.nullstr(c.a(n))) for n in A2_],
    entry=lambda c: [nonul_axioms(c.e) or True] + firsts(c, A2_),
    ensures=lambda c: named(c, want2(c)),
    exit_asserts=lambda c: [('directory', Eq(c.sv(c.p), joined(c)))] if c.has('p') else [])
c_.view = True


CWD = z3.Const('working.directory', SEQ)


def b(name, maps=(), note=''):
    def d(f):
        f.maps, f.note = tuple(maps), note
        BUILTINS[name] = f
        return f
    return d


@b('getcwd', maps=('M8',), note='getcwd stores the working directory as a string that fits, or returns NULL')
def b_getcwd(eng, fr, st, vals, types, T, line, args):
    d, n = vals
    eng.prove(st, And(ne0(d.o), z3.Select(eng.gm(st, 'LIVE'), zi(d.o)), ge(d.f, 0), le(add(d.f, n), z3.Select(eng.gm(st, 'SIZE'), zi(d.o)))), 'memory', 'getcwd buffer range', line)
    eng.modset_ok(st, 'M8', d.o, line, fr)
    new = fresh('cwd', A1)
    st.maps['M8'] = z3.Store(eng.gm(st, 'M8'), zi(d.o), new)
    r = z3.Bool(str(fresh('found')))
    sl = eng.slen_f()(new, zi(d.f))
    st.assume(z3.Implies(r, z3.And(sl >= 0, sl < zi(n), z3.Select(new, zi(d.f) + sl) == 0, eng.cs_f()(new, zi(d.f)) == CWD)))
    return [(st, P(z3.If(r, zi(d.o), 0), z3.If(r, zi(d.f), 0)))]


@b('__errno_location', maps=('LIVE', 'SIZE', '$nxt'), note='errno is some int')
def b_errno(eng, fr, st, vals, types, T, line, args):
    eng.unowned(st)
    o = eng.newobj(st, 1)
    return [(st, P(o, 0))]


@b('strerror', note='strerror returns a string')
def b_strerror(eng, fr, st, vals, types, T, line, args):
    return [(st, client.newstr(eng, st))]


def errv(c, st=None):
    p = c.a('err')
    st = st or c.st
    return P(z3.Select(z3.Select(c.map('P.o', st), zi(p.o)), zi(p.f)), z3.Select(z3.Select(c.map('P.f', st), zi(p.o)), zi(p.f)))


def active(c):
    return And(ne0(c.a('err').o), Eq(errv(c, c.pre).o, 0))


def absolute(c):
    return Eq(c.byte(c.a('path'), 0, c.pre), 47)


c_ = VIEW['bm_abspath'] = C('bm_abspath', 'path err', file=F, maps=('P.o', 'P.f'),
    requires=lambda c: [('path', c.isstr(c.a('path'))), ('error', Or(Eq(c.a('err').o, 0), c.valid(c.a('err'), 1)))],
    entry=lambda c: [nonul_axioms(c.e) or True],
    modifies=lambda c: {'P.o': [c.a('err').o], 'P.f': [c.a('err').o], 'P': [c.a('err').o]},
    ensures=lambda c: [('off', Implies(Not(active(c)), Eq(c.result.o, 0))), ('path or error', Implies(active(c), Iff(Eq(c.result.o, 0), ne0(errv(c).o)))),
                       ('absolute', Implies(And(active(c), absolute(c)), ne0(c.result.o))),
                       ('text', Implies(ne0(c.result.o), And(ge(c.result.o, c.pre.nxt), Eq(c.result.f, 0), c.isstr(c.result), Eq(c.cs(c.result), If(absolute(c), c.cs(c.a('path'), c.pre), cat(CWD, b'/', c.cs(c.a('path'), c.pre)))))))])
c_.view = True
