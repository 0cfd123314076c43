"""src/blogc/main.c: the directories above the output file."""
from vc.sym import *
from vc.lib import C, need_str
from . import client
from .abs import cs_holds
from .native_c import BUILTINS as NB, ok_str, G
F = 'src/blogc/main.c'
VIEW, USES = {}, dict(client.USES)
BUILTINS = dict(client.BUILTINS, strerror=NB['strerror'], __errno_location=NB['__errno_location'])
OUTP = z3.Const('output.path', SEQ)
SLASH = lambda x: z3.Or(x == 47, x == 92)


def b(name, maps=(), note=''):
    def d(f):
        f.maps, f.note = tuple(maps), note
        BUILTINS[name] = f
        return f
    return d


@b('mkdir', maps=('ERRNO', 'MKD'), note='mkdir creates a directory or fails; the directory is there afterwards if it succeeds or fails with EEXIST')
def b_mkdir(eng, fr, st, vals, types, T, line, args):
    p = vals[0]
    need_str(eng, st, p, line, 'mkdir: path is a string')
    k = z3.Int('k')
    a = z3.Select(eng.gm(st, 'M8'), zi(p.o))
    n = eng.slen(st, p)
    eng.prove(st, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(a, zi(p.f) + k) == OUTP[k]), patterns=[z3.Select(a, zi(p.f) + k)]), 'precondition', 'mkdir: a directory above the output file', line)
    eng.prove(st, And(n > 0, n < z3.Length(OUTP), SLASH(OUTP[n])), 'precondition', 'mkdir: a whole component', line)
    r, e = fresh('mkdir'), fresh('errno')
    st.assume(Or(r == 0, r == -1))
    m = eng.gm(st, 'MKD')
    st.maps['MKD'] = z3.Store(m, n, z3.If(z3.Or(r == 0, e == 17), z3.IntVal(1), z3.Select(m, n)))
    st.maps['ERRNO'] = z3.Store(eng.gm(st, 'ERRNO'), 0, e)
    return [(st, r)]


@b('exit', note='exit ends the program')
def b_exit(eng, fr, st, vals, types, T, line, args):
    eng.prove(st, Not(Eq(vals[0], 0)), 'precondition', 'exit: with a failure status', line)
    return []


def there(c, m):
    k = z3.Int('k')
    d = z3.Select(c.map('MKD'), k)
    return z3.ForAll([k], z3.Implies(z3.And(k > 0, k < m, SLASH(OUTP[k])), d == 1), patterns=[d])


def inv(c):
    f, t = c.fname, c.tmp
    a = c.arr(f)
    k = z3.Int('k')
    n = z3.Length(OUTP)
    return [('name', And(f.o >= c.pre.nxt, lt(f.o, c.st.nxt), Eq(f.f, 0), c.isstr(f), Eq(t.o, f.o), ge(t.f, 0), c.slen(f) == n, le(t.f, n), zi(c.size(f)) > n)),
            ('copy', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(a, k) == OUTP[k]), patterns=[z3.Select(a, k)])), ('end', c.byte(f, n) == 0), ('made', there(c, zi(t.f)))]


c_ = VIEW['blogc_mkdir_recursive'] = C('blogc_mkdir_recursive', 'filename', file=F, maps=('M8', 'ERRNO', 'MKD', 'LIVE'),
    requires=lambda c: [('name', And(ok_str(c, c.a('filename')), c.cs(c.a('filename')) == OUTP))],
    modifies=lambda c: {'ERRNO': [0], 'MKD': 'ANY'},
    entry=lambda c: [cs_holds(c.e)],
    ensures=lambda c: [('every directory above the output is there', there(c, z3.Length(OUTP)))],
    loops={0: Loop(inv=inv, decreases=lambda c: z3.Length(OUTP) - zi(c.tmp.f))})
c_.view = True
