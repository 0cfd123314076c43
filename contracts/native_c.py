"""src/blogc-make/exec-native.c: copying a file, looking into a directory, removing what was built."""
from vc.sym import *
from vc.lib import C, need_str
from . import client
from .abs import cs_holds
from .file_c import BUILTINS as FB, USES as FU
F = 'src/blogc-make/exec-native.c'
VIEW, USES = {}, dict(client.USES)
BUILTINS = dict(client.BUILTINS, strerror=FB['strerror'])
FA, FL = z3.Const('file.bytes', A1), z3.Int('file.length')       # what the file that is copied holds
FC = 'S.bm_filectx_t.'
NE = z3.Function('entries', SEQ, I)                              # how many names a directory has
EN = z3.Function('entry', SEQ, I, SEQ)
THERE = z3.Function('there', SEQ, B)                             # the directory exists
UP = z3.Function('up', SEQ, B)                                   # the path, its directory, the directory of that, ...
DIR = z3.Function('dirname', SEQ, SEQ)
A = lambda m: z3.Select(m, 0)


def b(name, maps=(), note=''):
    def d(f):
        f.maps, f.note = tuple(maps), note
        BUILTINS[name] = f
        return f
    return d


def path(c, x, st=None):
    return P(z3.Select(c.map(FC + 'path.o', st), zi(x.o)), z3.Select(c.map(FC + 'path.f', st), zi(x.o)))


def spath(c, x, st=None):
    return P(z3.Select(c.map(FC + 'short_path.o', st), zi(x.o)), z3.Select(c.map(FC + 'short_path.f', st), zi(x.o)))


def ok_str(c, p):
    return And(c.isstr(p), gt(p.o, 0), lt(p.o, c.st.nxt))


def fc_ok(c, x):
    return And(c.live(x), Eq(x.f, 0), gt(x.o, 0), lt(x.o, c.st.nxt), ok_str(c, path(c, x)), ok_str(c, spath(c, x)))


# errno: one cell; the only value the code looks at is ENOENT after opendir and EEXIST after mkdir
@b('__errno_location', maps=('LIVE', 'SIZE', '$nxt'), note='errno is an int; after a failed opendir it is ENOENT exactly when the directory does not exist')
def b_errno(eng, fr, st, vals, types, T, line, args):
    eng.unowned(st)
    o = eng.newobj(st, 1)
    x = z3.Select(z3.Select(eng.gm(st, 'I32'), zi(o)), 0)
    st.assume(x == A(eng.gm(st, 'ERRNO')))
    return [(st, P(o, 0))]


@b('fflush', note='fflush')
def b_fflush(eng, fr, st, vals, types, T, line, args):
    return [(st, fresh('fflush'))]


# ---- directories
def dname(eng, st, o):
    return P(z3.Function('sub.dirent.d_name', I, I)(zi(o)), 0)


@b('opendir', maps=('LIVE', 'SIZE', '$nxt', 'FPOS', 'DN', 'ERRNO'), note='opendir returns NULL (errno ENOENT exactly if the directory is missing) or a stream over its names')
def b_opendir(eng, fr, st, vals, types, T, line, args):
    need_str(eng, st, vals[0], line, 'opendir: path is a string')
    v = eng.cs(st, vals[0])
    s2 = st.copy()
    e = fresh('errno')
    s2.assume(And((e == 2) == z3.Not(THERE(v))))
    s2.maps['ERRNO'] = z3.Store(eng.gm(s2, 'ERRNO'), 0, e)
    eng.unowned(st)
    o = eng.newobj(st, 1)
    st.assume(And(THERE(v), NE(v) >= 0))
    st.maps['FPOS'] = z3.Store(eng.gm(st, 'FPOS'), zi(o), z3.IntVal(0))
    st.maps['DN'] = z3.Store(eng.gm(st, 'DN'), zi(o), v)
    return [(st, P(o, 0)), (s2, P(0, 0))]


def dn(eng, st, o):
    return z3.Select(eng.gm(st, 'DN'), zi(o))


@b('readdir', maps=('LIVE', 'SIZE', '$nxt', 'FPOS'), note='readdir gives every name of the directory once, then NULL (read errors of an open directory not modelled)')
def b_readdir(eng, fr, st, vals, types, T, line, args):
    d = vals[0]
    eng.prove(st, And(ne0(d.o), z3.Select(eng.gm(st, 'LIVE'), zi(d.o))), 'precondition', 'readdir: the directory is open', line)
    v, p = dn(eng, st, d.o), z3.Select(eng.gm(st, 'FPOS'), zi(d.o))
    s2 = st.copy()
    s2.assume(p >= NE(v))
    st.assume(And(p >= 0, p < NE(v)))
    st.maps['FPOS'] = z3.Store(eng.gm(st, 'FPOS'), zi(d.o), p + 1)
    eng.unowned(st)
    o = eng.newobj(st, 1)
    q = dname(eng, st, o)
    st.assume(And(z3.Select(eng.gm(st, 'LIVE'), q.o), q.o < -1000000, z3.Select(eng.gm(st, 'SIZE'), q.o) == 256, eng.isstr(st, q), eng.cs(st, q) == EN(v, p)))
    return [(st, P(o, 0)), (s2, P(0, 0))]


@b('closedir', maps=('LIVE',), note='closedir closes the stream')
def b_closedir(eng, fr, st, vals, types, T, line, args):
    d = vals[0]
    eng.prove(st, And(ne0(d.o), z3.Select(eng.gm(st, 'LIVE'), zi(d.o))), 'precondition', 'closedir: the directory is open', line)
    st.maps['LIVE'] = z3.Store(eng.gm(st, 'LIVE'), zi(d.o), z3.BoolVal(False))
    r = fresh('closedir')
    return [(st, r)]


def errv(c, st=None):
    p = c.a('err')
    st = st or c.st
    return z3.Select(z3.Select(c.map('P.o', st), zi(p.o)), zi(p.f))


def dots(x):
    from vc.sym import seq_lit
    return z3.Or(x == seq_lit(b'.'), x == seq_lit(b'..'))


def empty(v):
    k = z3.Int('k')
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < NE(v)), dots(EN(v, k))), patterns=[EN(v, k)])


def dpos(c):
    return z3.Select(c.map('FPOS'), zi(c.d.o))


def read(c):
    k = z3.Int('k')
    v = c.cs(c.a('dir'), c.pre)
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < dpos(c)), dots(EN(v, k))), patterns=[EN(v, k)])


def noerr(c):
    return Or(Eq(c.a('err').o, 0), errv(c) == 0)


DIRVIEW = lambda c: c.cs(c.a('dir'), c.pre)
ISEMPTY = z3.Function('empty', SEQ, B)
c_ = VIEW['bm_exec_native_is_empty_dir'] = C('bm_exec_native_is_empty_dir', 'dir err', file=F, maps=('P', 'P.o', 'P.f', 'FPOS', 'ERRNO', 'DN', 'LIVE', 'SIZE', 'S.bc_error_t.msg.o', 'S.bc_error_t.msg.f'),
    requires=lambda c: [('dir', c.isstr(c.a('dir'))), ('dir object', lt(c.a('dir').o, c.st.nxt)), ('error', Or(Eq(c.a('err').o, 0), And(c.valid(c.a('err'), 1), errv(c, c.pre) == 0)))],
    modifies=lambda c: {'P.o': [c.a('err').o], 'P.f': [c.a('err').o], 'P': [c.a('err').o], 'ERRNO': [0]},
    entry=lambda c: [ISEMPTY(DIRVIEW(c)) == empty(DIRVIEW(c))],
    ensures=lambda c: [('empty', Implies(And(noerr(c), ne0(c.a('err').o), ne0(c.result)), Or(Not(THERE(DIRVIEW(c))), ISEMPTY(DIRVIEW(c))))),
                       ('not empty', Implies(Eq(c.result, 0), And(THERE(DIRVIEW(c)), Not(ISEMPTY(DIRVIEW(c)))))),
                       ('error', Implies(ne0(c.a('err').o), Or(errv(c) == 0, And(errv(c) >= zi(c.pre.nxt), errv(c) < zi(c.st.nxt), c.live(P(errv(c), 0))))))],
    loops={0: Loop(inv=lambda c: [('stream', And(c.live(c.d), c.d.o >= c.pre.nxt, Eq(c.d.f, 0), z3.Select(c.map('DN'), zi(c.d.o)) == DIRVIEW(c), dpos(c) >= 0, dpos(c) <= NE(DIRVIEW(c)), NE(DIRVIEW(c)) >= 0)),
                                  ('there', THERE(DIRVIEW(c))), ('none yet', Eq(c.count, 0)), ('dots', read(c)), ('no error', And(noerr(c), Or(Eq(c.a('err').o, 0), c.valid(c.a('err'), 1))))],
                   decreases=lambda c: NE(DIRVIEW(c)) - dpos(c))})
c_.view = True


# ---- removing what was built
@b('unlink', maps=('UNL', 'ERRNO'), note='unlink removes the file of that name or fails')
def b_unlink(eng, fr, st, vals, types, T, line, args):
    need_str(eng, st, vals[0], line, 'unlink: path is a string')
    v = eng.cs(st, vals[0])
    eng.prove(st, And(v == FILE, A(eng.gm(st, 'UNL')) == 0), 'precondition', 'unlink: the file that was built, once', line)
    r = fresh('unlink')
    st.maps['UNL'] = z3.Store(eng.gm(st, 'UNL'), 0, z3.If(r == 0, z3.IntVal(1), z3.IntVal(2)))
    st.maps['ERRNO'] = z3.Store(eng.gm(st, 'ERRNO'), 0, fresh('errno'))
    return [(st, r)]


FILE, OUT = z3.Const('built.file', SEQ), z3.Const('output.dir', SEQ)


@b('rmdir', maps=('LASTRM', 'RM', 'ERRNO'), note='rmdir removes an empty directory or fails')
def b_rmdir(eng, fr, st, vals, types, T, line, args):
    need_str(eng, st, vals[0], line, 'rmdir: path is a string')
    v = eng.cs(st, vals[0])
    eng.prove(st, UP(v), 'precondition', 'rmdir: a directory above the built file', line)
    eng.prove(st, A(eng.gm(st, 'UNL')) == 1, 'precondition', 'rmdir: the built file was removed', line)
    eng.prove(st, Or(ISEMPTY(v), Not(THERE(v))), 'precondition', 'rmdir: the directory was found empty', line)
    eng.prove(st, A(eng.gm(st, 'LASTRM')) != OUT, 'precondition', 'rmdir: nothing above the output directory', line)
    r = fresh('rmdir')
    st.maps['LASTRM'] = z3.Store(eng.gm(st, 'LASTRM'), 0, v)
    st.maps['RM'] = z3.Store(eng.gm(st, 'RM'), 0, A(eng.gm(st, 'RM')) + 1)
    st.maps['ERRNO'] = z3.Store(eng.gm(st, 'ERRNO'), 0, fresh('errno'))
    return [(st, r)]


RANK = z3.Function('depth', SEQ, I)


@b('dirname', maps=('M8', 'LIVE', 'SIZE', '$nxt'), note='dirname gives the text before the last slash in the buffer it is given (which it may change) or static text; repeated, it ends at "." or "/"')
def b_dirname(eng, fr, st, vals, types, T, line, args):
    p = vals[0]
    need_str(eng, st, p, line, 'dirname: argument is a string')
    eng.modset_ok(st, 'M8', p.o, line, fr)
    v = eng.cs(st, p)
    new = fresh('dirname', A1)
    eng.unowned(st)
    o = eng.newobj(st, 5)
    st.maps['M8'] = z3.Store(eng.gm(st, 'M8'), zi(p.o), new)
    st.maps['M8'] = z3.Store(eng.gm(st, 'M8'), zi(o), fresh('static', A1))
    s = z3.Bool(str(fresh('in.place')))
    r = P(z3.If(s, zi(p.o), zi(o)), z3.If(s, zi(p.f), z3.IntVal(0)))
    st.assume(And(eng.isstr(st, r), eng.cs(st, r) == DIR(v), z3.Implies(z3.Or(UP(v), v == FILE), UP(DIR(v))), z3.Implies(z3.Not(dot(v)), RANK(DIR(v)) < RANK(v)), RANK(v) >= 0, RANK(DIR(v)) >= 0))
    return [(st, r)]




def dot(v):
    return z3.Or(v == seq_lit(b'.'), v == seq_lit(b'/'))


@b('bc_error_new_printf', maps=client.EMAPS + ('M8', 'S.bc_error_t.msg.o', 'S.bc_error_t.msg.f'), note='bc_error_new_printf returns a fresh error with a message')
def b_enp(eng, fr, st, vals, types, T, line, args):
    [(s, e)] = client.BUILTINS['bc_error_new_printf'](eng, fr, st, vals, types, T, line, args)
    m = client.newstr(eng, s)
    for k, x in (('.o', m.o), ('.f', m.f)):
        s.maps['S.bc_error_t.msg' + k] = z3.Store(eng.gm(s, 'S.bc_error_t.msg' + k), zi(e.o), zi(x))
    return [(s, e)]


def emsg(c, o):
    return P(z3.Select(c.map('S.bc_error_t.msg.o'), zi(o)), z3.Select(c.map('S.bc_error_t.msg.f'), zi(o)))


VIEW['bm_exec_native_is_empty_dir'].ensures0 = VIEW['bm_exec_native_is_empty_dir'].ensures
VIEW['bm_exec_native_is_empty_dir'].ensures = lambda c: VIEW['bm_exec_native_is_empty_dir'].ensures0(c) + [('message', Implies(And(ne0(c.a('err').o), errv(c) != 0), And(emsg(c, errv(c)).o >= zi(c.pre.nxt), emsg(c, errv(c)).o < zi(c.st.nxt), c.isstr(emsg(c, errv(c))))))]
ef = C('bc_error_free', 'err', file='src/common/error.c', maps=('LIVE',), allocates=False, requires=lambda c: [('error', Or(Eq(c.a('err').o, 0), c.live(c.a('err'))))],
       modifies=lambda c: {'LIVE': [c.a('err').o, emsg(c, c.a('err').o).o]}, ensures=lambda c: [])
ef.view = True
USES['bc_error_free'] = ef
G = lambda c, m, st=None: z3.Select(c.map(m, st), 0)


def rminv(c):
    d, s = c.dir, c.short_dir
    v = c.cs(d)
    own = lambda p: And(c.isstr(p), p.o >= c.pre.nxt, Eq(p.f, 0), lt(p.o, c.st.nxt))
    return [('dir', own(d)), ('short', own(s)), ('apart', And(Not(Eq(d.o, s.o)), Not(Eq(d.o, cell(c, 'err').o)), Not(Eq(s.o, cell(c, 'err').o)))), ('above', UP(v)), ('removed', G(c, 'UNL') == 1), ('output', And(c.isstr(c.a('output_dir')), c.cs(c.a('output_dir')) == OUT, G(c, 'LASTRM') != OUT)),
            ('rv', Eq(c.rv, 0)), ('err', errl(c) == 0), ('rank', RANK(c.cs(s)) >= 0)]


def cell(c, n):
    return c.st.vars[c.frame.prefix + n]


def errl(c):
    x = c.v('err')
    return x.o if hasattr(x, 'o') else x


c_ = VIEW['bm_exec_native_rm'] = C('bm_exec_native_rm', 'output_dir dest verbose', file=F, maps=('M8', 'UNL', 'LASTRM', 'RM', 'ERRNO', 'LIVE'),
    requires=lambda c: [('output dir', And(ok_str(c, c.a('output_dir')), c.cs(c.a('output_dir')) == OUT)), ('file', And(fc_ok(c, c.a('dest')), c.cs(path(c, c.a('dest'))) == FILE)),
                        ('apart', And(Not(Eq(path(c, c.a('dest')).o, spath(c, c.a('dest')).o)), Not(Eq(path(c, c.a('dest')).o, c.a('output_dir').o)), Not(Eq(spath(c, c.a('dest')).o, c.a('output_dir').o)))),
                        ('start', And(G(c, 'UNL') == 0, G(c, 'LASTRM') != OUT))],
    modifies=lambda c: {'M8': [path(c, c.a('dest')).o, spath(c, c.a('dest')).o], 'UNL': [0], 'LASTRM': [0], 'RM': [0], 'ERRNO': [0]},
    ensures=lambda c: [('removed or failed', Implies(Eq(c.result, 0), G(c, 'UNL') == 1)), ('tried', G(c, 'UNL') != 0)],
    loops={0: Loop(inv=rminv, decreases=lambda c: RANK(c.cs(c.short_dir)))})
c_.view = True


# ---- copying
SRC, DST = z3.Const('source.path', SEQ), z3.Const('destination.path', SEQ)
O_RDONLY, O_NEW = 0, 1 | 64 | 512        # O_WRONLY | O_CREAT | O_TRUNC


@b('mkdir', maps=('ERRNO',), note='mkdir creates a directory or fails')
def b_mkdir(eng, fr, st, vals, types, T, line, args):
    p = vals[0]
    need_str(eng, st, p, line, 'mkdir: path is a string')
    k = z3.Int('k')
    a = z3.Select(eng.gm(st, 'M8'), zi(p.o))
    n = eng.slen(st, p)
    eng.prove(st, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(a, zi(p.f) + k) == DST[k]), patterns=[z3.Select(a, zi(p.f) + k)]), 'precondition', 'mkdir: a directory above the destination', line)
    st.maps['ERRNO'] = z3.Store(eng.gm(st, 'ERRNO'), 0, fresh('errno'))
    return [(st, fresh('mkdir'))]


@b('open', maps=('ERRNO', 'FDK'), note='open gives a descriptor at the start of the file, or -1')
def b_open(eng, fr, st, vals, types, T, line, args):
    p = vals[0]
    need_str(eng, st, p, line, 'open: path is a string')
    v = eng.cs(st, p)
    eng.prove(st, Or(And(Eq(vals[1], O_RDONLY), v == SRC), And(Eq(vals[1], O_NEW), v == DST)), 'precondition', 'open: reads the source, or empties the destination', line)
    s2 = st.copy()
    s2.maps['ERRNO'] = z3.Store(eng.gm(s2, 'ERRNO'), 0, fresh('errno'))
    r = fresh('fd')
    k = z3.If(zi(vals[1]) == O_RDONLY, z3.IntVal(1), z3.IntVal(2))
    st.assume(And(r >= 0, r < 2 ** 31, z3.Select(eng.gm(st, 'FDK'), r) == 0))
    st.maps['FDK'] = z3.Store(eng.gm(st, 'FDK'), r, k)
    return [(st, r), (s2, z3.IntVal(-1))]


@b('read', maps=('M8', 'RP', 'REOF', 'ERRNO'), note='read stores the next bytes of the file (any number of them up to the count), 0 at its end, -1 for an error; the file does not change meanwhile')
def b_read(eng, fr, st, vals, types, T, line, args):
    fd, d, n = vals
    eng.prove(st, z3.Select(eng.gm(st, 'FDK'), zi(fd)) == 1, 'precondition', 'read: from the source', line)
    eng.prove(st, And(ne0(d.o), z3.Select(eng.gm(st, 'LIVE'), zi(d.o)), ge(d.f, 0), gt(n, 0), le(add(d.f, n), z3.Select(eng.gm(st, 'SIZE'), zi(d.o)))), 'memory', 'read buffer range', line)
    eng.modset_ok(st, 'M8', d.o, line, fr)
    r = fresh('read')
    pos = G0(eng, st, 'RP')
    st.assume(And(r >= -1, r <= zi(n), Implies(r >= 0, pos + r <= FL), Iff(r == 0, And(r >= 0, pos == FL)), pos >= 0))
    old, new, k = z3.Select(eng.gm(st, 'M8'), zi(d.o)), fresh('read', A1), z3.Int('k')
    st.assume(z3.ForAll([k], z3.Select(new, k) == z3.If(z3.And(k >= zi(d.f), k < zi(d.f) + r), z3.Select(FA, pos + k - zi(d.f)), z3.Select(old, k)), patterns=[z3.Select(new, k)]))
    st.maps['M8'] = z3.Store(eng.gm(st, 'M8'), zi(d.o), new)
    st.maps['RP'] = z3.Store(eng.gm(st, 'RP'), 0, z3.If(r > 0, pos + r, pos))
    st.maps['REOF'] = z3.Store(eng.gm(st, 'REOF'), 0, z3.If(r == 0, z3.IntVal(1), z3.IntVal(0)))
    st.maps['ERRNO'] = z3.Store(eng.gm(st, 'ERRNO'), 0, fresh('errno'))
    return [(st, r)]


def G0(eng, st, m):
    return z3.Select(eng.gm(st, m), 0)


@b('write', maps=('WP', 'ERRNO'), note='write appends any number of the bytes (at least one), or gives -1')
def b_write(eng, fr, st, vals, types, T, line, args):
    fd, d, n = vals
    eng.prove(st, z3.Select(eng.gm(st, 'FDK'), zi(fd)) == 2, 'precondition', 'write: to the destination', line)
    eng.prove(st, And(ne0(d.o), z3.Select(eng.gm(st, 'LIVE'), zi(d.o)), ge(d.f, 0), gt(n, 0), le(add(d.f, n), z3.Select(eng.gm(st, 'SIZE'), zi(d.o)))), 'memory', 'write buffer range', line)
    a, k, w = z3.Select(eng.gm(st, 'M8'), zi(d.o)), z3.Int('k'), G0(eng, st, 'WP')
    eng.prove(st, z3.ForAll([k], z3.Implies(z3.And(k >= zi(d.f), k < zi(d.f) + zi(n)), z3.Select(a, k) == z3.Select(FA, w + k - zi(d.f))), patterns=[z3.Select(a, k)]), 'precondition', 'write: the bytes that come next in the source', line)
    r = fresh('write')
    st.assume(And(Or(r == -1, And(r >= 1, r <= zi(n)))))
    st.maps['WP'] = z3.Store(eng.gm(st, 'WP'), 0, z3.If(r > 0, w + r, w))
    st.maps['ERRNO'] = z3.Store(eng.gm(st, 'ERRNO'), 0, fresh('errno'))
    return [(st, r)]


@b('close', maps=('FDK',), note='close frees the descriptor')
def b_close(eng, fr, st, vals, types, T, line, args):
    eng.prove(st, z3.Select(eng.gm(st, 'FDK'), zi(vals[0])) != 0, 'precondition', 'close: the descriptor is open', line)
    st.maps['FDK'] = z3.Store(eng.gm(st, 'FDK'), zi(vals[0]), z3.IntVal(0))
    return [(st, fresh('close'))]


def cpname(c):
    f, t = c.fname, c.tmp
    a = c.arr(f)
    k = z3.Int('k')
    n = z3.Length(DST)
    return [('name', And(f.o >= c.pre.nxt, lt(f.o, c.st.nxt), Eq(f.f, 0), c.isstr(f), Eq(t.o, f.o), ge(t.f, 0), c.slen(f) == n, le(t.f, n), zi(c.size(f)) > n)),
            ('copy', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(a, k) == DST[k]), patterns=[z3.Select(a, k)])), ('end', c.byte(f, n) == 0), ('start', start(c))]


def start(c):
    k = z3.Int('k')
    d = z3.Select(c.map('FDK'), k)
    return And(G(c, 'RP') == 0, G(c, 'WP') == 0, z3.ForAll([k], d == 0, patterns=[d]))


def fds(c):
    k = z3.Int('k')
    d = z3.Select(c.map('FDK'), k)
    return [('descriptors', And(z3.Select(c.map('FDK'), zi(c.fd_from)) == 1, z3.Select(c.map('FDK'), zi(c.fd_to)) == 2)),
            ('no other', z3.ForAll([k], z3.Implies(z3.And(k != zi(c.fd_from), k != zi(c.fd_to)), d == 0), patterns=[d]))]


def closed(c):
    k = z3.Int('k')
    d = z3.Select(c.map('FDK'), k)
    return z3.ForAll([k], d == 0, patterns=[d])


def pending(c):
    p, n = c.out_ptr, zi(c.nread)
    a, k, w = c.arr(c.buffer), z3.Int('k'), G(c, 'WP')
    return [('at', And(Eq(p.o, c.buffer.o), ge(p.f, 0), n > 0, zi(p.f) + n <= zi(c.size(c.buffer)), n + w == G(c, 'RP'), w >= 0, G(c, 'RP') <= FL)),
            ('bytes', z3.ForAll([k], z3.Implies(z3.And(k >= zi(p.f), k < zi(p.f) + n), z3.Select(a, k) == z3.Select(FA, w + k - zi(p.f))), patterns=[z3.Select(a, k)]))] + fds(c)


c_ = VIEW['bm_exec_native_cp'] = C('bm_exec_native_cp', 'source dest verbose', file=F, maps=('M8', 'RP', 'WP', 'REOF', 'ERRNO', 'FDK', 'LIVE'),
    requires=lambda c: [('source', And(fc_ok(c, c.a('source')), c.cs(path(c, c.a('source'))) == SRC)), ('destination', And(fc_ok(c, c.a('dest')), c.cs(path(c, c.a('dest'))) == DST)), ('size', And(FL >= 0, FL < MAXOBJ)), ('start', start(c))],
    modifies=lambda c: {k: [0] if k != 'FDK' else 'ANY' for k in ('RP', 'WP', 'REOF', 'ERRNO', 'FDK')},
    entry=lambda c: [cs_holds(c.e)],
    ensures=lambda c: [('complete', Implies(Eq(c.result, 0), And(G(c, 'WP') == FL, G(c, 'REOF') == 1))), ('closed', closed(c)), ('status', Or(Eq(c.result, 0), Eq(c.result, 1)))],
    loops={0: Loop(inv=cpname, decreases=lambda c: z3.Length(DST) - zi(c.tmp.f)),
           1: Loop(inv=lambda c: [('same', And(G(c, 'RP') == G(c, 'WP'), G(c, 'RP') >= 0, G(c, 'RP') <= FL))] + fds(c), decreases=lambda c: FL - G(c, 'RP')),
           2: Loop(inv=pending, decreases=lambda c: zi(c.nread))})
c_.view = True
