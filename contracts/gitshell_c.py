"""src/blogc-git-receiver: the SSH forced command."""
from vc.sym import *
from vc.lib import C
from .abs import holds_f, sub_f
F = 'src/blogc-git-receiver/shell-command-parser.c'
VIEW = {}


def reg(c):
    c.view = True
    VIEW[c.name] = c
    return c


def en(c, name):
    """value of an enum constant of the translation unit"""
    return c.frame.F.unit.enumconst[name]


# What a POSIX shell makes of the word that starts at k: WD between quoted parts, ES after a backslash,
# QO right after an opening quote, IN inside a quoted part.  e: nothing has been read so far (one leading
# slash is dropped, repositories are relative).
FN = {n: z3.Function('sh' + n, A1, I, I, B, I, SEQ) for n in ('WD', 'ES', 'QO', 'IN')}
CMDS = (b'git-upload-pack', b'git-receive-pack', b'git-upload-archive')


def at(c, k):
    p = c.a('command')
    return z3.Select(c.arr(p, c.pre), zi(p.f) + zi(k))


def n_(c):
    return zi(c.slen(c.a('command'), c.pre))


def sp(c, name, e, k):
    p = c.a('command')
    return FN[name](c.arr(p, c.pre), zi(p.f), n_(c), e if isz(e) else z3.BoolVal(e), zi(k))


def steps(c, e, k):
    """the defining equations at position k"""
    k = zi(k)
    end = k >= n_(c)
    x = at(c, k)
    mt = z3.Empty(SEQ)
    W = lambda n, e2, d=1: sp(c, n, e2, k + d)
    return And(sp(c, 'WD', e, k) == z3.If(end, mt, z3.If(x == 39, W('QO', e), W('ES', e))),
               sp(c, 'ES', e, k) == z3.If(end, mt, z3.Concat(z3.Unit(x), W('WD', False))),
               sp(c, 'QO', e, k) == z3.If(end, mt, z3.If(x == 39, W('WD', e), z3.If(z3.And(e if isz(e) else z3.BoolVal(e), x == 47), W('IN', e), z3.Concat(z3.Unit(x), W('IN', False))))),
               sp(c, 'IN', e, k) == z3.If(end, mt, z3.If(x == 39, W('WD', e), z3.Concat(z3.Unit(x), W('IN', False)))))


AC = {n: z3.Function('sh' + n, A1, I, I, I, B) for n in ('okWD', 'okES', 'okIN')}


def ok(c, name, k):
    p = c.a('command')
    return AC['ok' + name](c.arr(p, c.pre), zi(p.f), n_(c), zi(k))


def oksteps(c, k):
    """the word is well formed: closed quotes, and outside quotes only an escaped ' or !"""
    k = zi(k)
    more = k < n_(c)
    x = at(c, k)
    W = lambda n: ok(c, n, k + 1)
    return And(ok(c, 'WD', k) == Or(Not(more), z3.If(x == 39, W('IN'), And(x == 92, W('ES')))),
               ok(c, 'ES', k) == And(more, Or(x == 33, x == 39), W('WD')), ok(c, 'IN', k) == And(more, z3.If(x == 39, W('WD'), W('IN'))))


def wellformed(c):
    return And(iscmd(c), *[Implies(cmd(c, t), ok(c, 'WD', len(t) + 1)) for t in CMDS])


def pieces(c, i, j):
    p = c.a('command')
    return sub_f(c.e)(c.arr(p, c.pre), zi(p.f) + zi(i), zi(p.f) + zi(j))


def sub_facts(c, i, j):
    """sub(i,i) is empty, sub(i,j+1) is sub(i,j) and the byte at j"""
    i, j = zi(i), zi(j)
    return And(pieces(c, i, i) == z3.Empty(SEQ), z3.Implies(j >= i, pieces(c, i, j + 1) == z3.Concat(pieces(c, i, j), z3.Unit(at(c, j)))),
               pieces(c, j, j + 1) == z3.Unit(at(c, j)), pieces(c, j, j) == z3.Empty(SEQ), pieces(c, j + 1, j + 1) == z3.Empty(SEQ))


def cmd(c, t):
    return And(*[at(c, i) == b for i, b in enumerate(t + b' ')])


def iscmd(c):
    return Or(*[cmd(c, t) for t in CMDS])


def target(c):
    r = sp(c, 'WD', True, 0)
    for t in CMDS:
        r = z3.If(cmd(c, t), sp(c, 'WD', True, len(t) + 1), r)
    return r


def nospace(c, i):
    p = c.a('command')
    k = z3.Int('k')
    x = z3.Select(c.arr(p), k)
    return z3.ForAll([k], z3.Implies(z3.And(k >= zi(p.f), k < zi(p.f) + zi(i)), x != 32), patterns=[x])


def inv(c):
    v, i, s = c.sv(c.rv), c.current, c.state
    S = lambda n: Eq(s, en(c, n))
    e = z3.Length(v) == 0
    pend = z3.Concat(v, pieces(c, c.start, i))
    return [('range', And(i >= 0, i <= n_(c))), ('len', Eq(c.command_len, n_(c))),
            ('states', Or(*[S(n) for n in ('START_COMMAND', 'START_REPO', 'START_REPO2', 'REPO', 'START_ESCAPED')])),
            ('form', And(*[Implies(S(a), ok(c, b, i) == wellformed(c)) for a, b in (('START_REPO', 'WD'), ('START_REPO2', 'IN'), ('REPO', 'IN'), ('START_ESCAPED', 'ES'))])),
            ('nospace', Implies(S('START_COMMAND'), nospace(c, i))),
            ('begin', Implies(S('START_COMMAND'), v == z3.Empty(SEQ))),
            ('command', Or(S('START_COMMAND'), iscmd(c))),
            ('start', Implies(S('REPO'), And(c.start >= 0, c.start <= i))),
            ('word', Implies(S('START_REPO'), z3.Concat(v, sp(c, 'WD', e, i)) == target(c))),
            ('quote', Implies(S('START_REPO2'), z3.Concat(v, sp(c, 'QO', e, i)) == target(c))),
            ('escape', Implies(S('START_ESCAPED'), z3.Concat(v, sp(c, 'ES', e, i)) == target(c))),
            ('inside', Implies(S('REPO'), z3.Concat(pend, sp(c, 'IN', z3.Length(pend) == 0, i)) == target(c)))]


def lem(c):
    i = c.head.vars['current']
    e = z3.Length(z3.Select(c.map('SV', c.head), zi(c.head.vars['rv'].o))) == 0
    st = c.head.vars['start']
    e2 = z3.Length(z3.Concat(z3.Select(c.map('SV', c.head), zi(c.head.vars['rv'].o)), pieces(c, st, i))) == 0
    return [steps(c, e, i), steps(c, e2, i), steps(c, False, i), steps(c, True, i), sub_facts(c, st, i), oksteps(c, i)]


def parent_at(c, i):
    p = c.a('repo')
    a = lambda d: z3.Select(c.arr(p), zi(p.f) + zi(i) + d)
    return And(Or(Eq(i, 0), a(-1) == 47), a(0) == 46, a(1) == 46, Or(a(2) == 0, a(2) == 47))


def noparent(c, p, n):
    """no path component is '..'"""
    k = z3.Int('k')
    a = lambda d: z3.Select(c.arr(p), k + d)
    return z3.ForAll([k], z3.Implies(z3.And(k >= zi(p.f), z3.Or(k < zi(p.f) + zi(n) - 1, k == zi(p.f) + zi(n) - 1)), z3.Not(And(Or(k == zi(p.f), a(-1) == 47), a(0) == 46, a(1) == 46, Or(a(2) == 0, a(2) == 47)))), patterns=[a(0)])


PW = z3.Function('parent_witness', A1, I, I)     # skolem: where a '..' component is, when there is one


def parent_in(c):
    """the path has a component '..' (a witness is the place the check found)"""
    if not c.has('rv') or not isinstance(c.v('rv'), P):
        return False
    b = z3.Select(c.map('STRB'), zi(c.rv.o))
    v, k = target(c), PW(z3.Select(c.map('M8'), b), 0)
    return And(k >= 0, k + 1 < z3.Length(v), Or(k == 0, v[k - 1] == 47), v[k] == 46, v[k + 1] == 46, Or(k + 2 == z3.Length(v), v[k + 2] == 47, v[k + 2] == 0))


reg(C('has_parent_reference', 'repo', file=F, maps=(), allocates=False, requires=lambda c: [('repo', c.isstr(c.a('repo')))],
      ensures=lambda c: [('no parent reference', Implies(Eq(c.result, 0), noparent(c, c.a('repo'), c.slen(c.a('repo'))))),
                         ('parent reference', Implies(ne0(c.result), (lambda i: And(i >= 0, i < c.slen(c.a('repo')), parent_at(c, i)))(c.i if c.is_body else PW(c.arr(c.a('repo')), zi(c.a('repo').f)))))],
      loops={0: Loop(inv=lambda c: [('range', And(c.i >= 0, c.i <= c.slen(c.a('repo')))), ('before', noparent(c, c.a('repo'), c.i))],
                     facts=lambda c: [c.e.slen_min(c.st, c.a('repo')) or True], decreases=lambda c: c.slen(c.a('repo')) - c.i)}))

reg(C('bgr_shell_command_parse', 'command', file=F, maps=(), maxstates=60,
      requires=lambda c: [('command', c.isstr(c.a('command')))],
      entry=lambda c: [sub_f(c.e) is not None, c.e.slen_min(c.pre, c.a('command')) or True],
      exit_lemmas=lambda c: [oksteps(c, n_(c))] + [steps(c, x, n_(c)) for x in (True, False)] + [c.e.slen_min(c.st, c.result) or True],
      ensures=lambda c: [('command', Implies(ne0(c.result.o), iscmd(c))),
                         ('word', Implies(ne0(c.result.o), And(ge(c.result.o, c.pre.nxt), Eq(c.result.f, 0), c.live(c.result), z3.Length(target(c)) > 0, holds_f(c.e)(c.arr(c.result), 0, target(c)), Eq(c.byte(c.result, z3.Length(target(c))), 0)))),
                         ('well formed', Implies(ne0(c.result.o), wellformed(c))),
                         ('complete', Implies(And(Eq(c.result.o, 0), wellformed(c)), Or(z3.Length(target(c)) == 0, parent_in(c)))),
                         ('stays below', Implies(ne0(c.result.o), noparent(c, c.result, c.slen(c.result))))],
      loops={0: Loop(inv=inv, lemmas=lem, facts=lambda c: [oksteps(c, c.current)], decreases=lambda c: sub_(c.command_len, c.current))}))
