"""src/blogc-runserver: URL decoding, MIME guessing, docroot containment."""
from vc.sym import *
from vc.lib import C, fresh_string, fmt_result
from .abs import holds_f, buf, viewbytes, nonul, nonul_axioms
HU, MI, HT = ('src/blogc-runserver/' + x for x in ('httpd-utils.c', 'mime.c', 'httpd.c'))
VIEW = {}
BUILTINS = {}


def reg(c):
    c.view = True
    VIEW[c.name] = c
    return c


def b(name, maps=(), note=''):
    def d(f):
        f.maps = tuple(maps)
        f.note = note
        for n in name.split():
            BUILTINS[n] = f
        return f
    return d


def hexval(x):
    return z3.If(z3.And(x >= 48, x <= 57), x - 48, z3.If(z3.And(x >= 97, x <= 102), x - 87, z3.If(z3.And(x >= 65, x <= 70), x - 55, -1)))


reg(C('br_hextoi', 'c', file=HU, maps=(), allocates=False, ensures=lambda c: [('hex digit value', Eq(c.result, hexval(zi(c.a('c')))))]))

# DEC(a,base,n,k): what the bytes k..n of the n-byte string at a[base..] decode to
DEC = z3.Function('urldecode', A1, I, I, I, SEQ)


def sbyte(v):
    return z3.If(v > 127, v - 256, v)


def dec(c, k):
    p = c.a('str')
    return DEC(c.arr(p, c.pre), zi(p.f), zi(c.slen(p, c.pre)), zi(k))


def dec_step(c, k):
    p = c.a('str')
    n = zi(c.slen(p, c.pre))
    at = lambda j: z3.Select(c.arr(p, c.pre), zi(p.f) + j)
    k = zi(k)
    h1, h2 = hexval(at(k + 1)), hexval(at(k + 2))
    esc = z3.And(at(k) == 37, k + 2 < n, h1 >= 0, h2 >= 0)
    return dec(c, k) == z3.If(k >= n, z3.Empty(SEQ), z3.If(esc, z3.Concat(z3.Unit(sbyte(16 * h1 + h2)), dec(c, k + 3)),
                              z3.Concat(z3.Unit(z3.If(at(k) == 43, 32, at(k))), dec(c, k + 1))))


def str_(c):
    return Implies(ne0(c.a('str').o), c.isstr(c.a('str')))


reg(C('br_urldecode', 'str', file=HU, maps=(), requires=lambda c: [('str', c.nullstr(c.a('str')))],
      ensures=lambda c: [('null', Iff(Eq(c.a('str').o, 0), Eq(c.result.o, 0))),
                         ('decoded', Implies(ne0(c.a('str').o), And(c.isstr(c.result), ge(c.result.o, c.pre.nxt), Eq(c.result.f, 0), holds_f(c.e)(c.arr(c.result), zi(c.result.f), dec(c, 0)),
                                                                    Eq(c.byte(c.result, z3.Length(dec(c, 0))), 0), c.size(c.result) > z3.Length(dec(c, 0)))))],
      exit_asserts=lambda c: [('view', c.sv(c.rv) == dec(c, 0))] if c.has('rv') and isinstance(c.v('rv'), P) else [],
      loops={0: Loop(inv=lambda c: [('range', And(c.i >= 0, c.i <= c.slen(c.a('str')))), ('arg', c.isstr(c.a('str'))),
                                    ('view', z3.Concat(c.sv(c.rv), dec(c, c.i)) == dec(c, 0)), ('step', dec_step(c, c.i))] if False else
                     [('range', And(c.i >= 0, c.i <= c.slen(c.a('str')))), ('arg', c.isstr(c.a('str'))),
                      ('view', z3.Concat(c.sv(c.rv), dec(c, c.i)) == dec(c, 0))],
                     facts=lambda c: [c.e.slen_min(c.st, c.a('str')) or True, dec_step(c, c.i)],
                     decreases=lambda c: c.slen(c.a('str')) - c.i)}))


# ---- extension
def sep(x):
    return z3.Or(x == 47, x == 92)


def none_after(c, i):
    p = c.a('filename')
    k = z3.Int('k')
    x = z3.Select(c.arr(p), k)
    return z3.ForAll([k], z3.Implies(z3.And(k > zi(p.f) + zi(i), k < zi(p.f) + zi(c.slen(p))), z3.And(x != 46, z3.Not(sep(x)))), patterns=[x])


def ext_post(c):
    p, r = c.a('filename'), c.result
    i = sub_(sub_(r.f, p.f), 1)
    out = [('inside', Implies(ne0(r.o), And(Eq(r.o, p.o), i > 0, i < zi(c.slen(p)), Eq(c.byte(p, i), 46), none_after(c, i), c.isstr(r))))]
    if getattr(c, 'is_body', False):
        out.append(('none', Implies(Eq(r.o, 0), Or(And(Eq(c.i, 0), none_after(c, 0)), And(c.i > 0, sep(c.byte(p, c.i)), none_after(c, c.i))))))
    return out


reg(C('br_get_extension', 'filename', file=HU, maps=(), allocates=False, requires=lambda c: [('filename', c.isstr(c.a('filename')))],
      ensures=ext_post, exit_lemmas=lambda c: [c.e.slen_min(c.st, c.a('filename')) or True],
      loops={0: Loop(inv=lambda c: [('range', And(c.i >= 0, c.i <= c.slen(c.a('filename')))), ('after', none_after(c, c.i)), ('ext', Eq(c.ext.o, 0))],
                     facts=lambda c: [c.e.slen_min(c.st, c.a('filename')) or True],
                     decreases=lambda c: c.i)}))


# ---- MIME: the first table row whose extension is the file's extension, else octet-stream
def mime_post(c):
    r = c.result
    deflt = Eq(c.cs(r), seq_lit(b'application/octet-stream'))
    ext = lambda: c.v('extension')
    out = [('type', c.isstr(r))]
    if getattr(c, 'is_body', False):
        if not c.has('i'):
            out.append(('noext', And(Eq(ext().o, 0), deflt)))
        else:
            out.append(('first match', Or(And(deflt, rows(c, c.i), Eq(row(c, c.i, 'extension').o, 0)),
                                          And(Eq(r, row(c, c.i, 'mimetype')), Eq(c.cs(row(c, c.i, 'extension')), c.cs(ext())), rows(c, c.i)))))
    return out


def tab(c):
    u = c.frame.F.unit
    for (path, gid), o in c.e.globobj.items():
        return o
    return None


def row(c, i, f):
    return c.fld(P(zi(tab(c)) + zi(i), 0), 'content_type_map', f)


def rows(c, i):
    """no row before i has the file's extension"""
    k = z3.Int('k')
    e = row(c, k, 'extension')
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, z3.Or(k < zi(i) - 1, k == zi(i) - 1)), z3.And(e.o != 0, c.cs(e) != c.cs(c.extension))), patterns=[zi(e.o)])


reg(C('br_mime_guess_content_type', 'filename', file=MI, maps=(), allocates=False, requires=lambda c: [('filename', c.isstr(c.a('filename')))],
      ensures=mime_post,
      loops={0: Loop(inv=lambda c: [('rows', And(c.i >= 0, c.i < nrows(c), rows(c, c.i) if tab(c) is not None else c.i == 0))],
                     decreases=lambda c: nrows(c) - c.i)}))


def nrows(c):
    g = [g for g in c.frame.F.unit.globals_by_id.values() if g.get('name') == 'content_types']
    import re
    return int(re.search(r'\[(\d+)\]', g[0]['type']['qualType']).group(1)) if g else 0


# ---- POSIX calls used by the server (trusted)
RP = z3.Function('realpath', SEQ, SEQ)      # the resolved form of a path (file system assumed stable during a request)
CANON = z3.Function('resolved', SEQ, B)     # the text is a resolved path


@b('realpath', ('$nxt',), 'realpath returns NULL or a fresh string: the resolved path of its argument')
def b_realpath(eng, fr, st, vals, types, T, line, args):
    eng.prove(st, eng.isstr(st, vals[0]), 'precondition', 'realpath argument is a string', line)
    s2 = st.copy()
    r = RP(eng.cs(st, vals[0]))
    p = fresh_string(eng, st, r)
    st.assume(CANON(r))
    return [(st, p), (s2, P(0, 0))]


@b('access', (), 'access returns 0 or -1')
def b_access(eng, fr, st, vals, types, T, line, args):
    eng.prove(st, eng.isstr(st, vals[0]), 'precondition', 'access argument is a string', line)
    r = fresh('access')
    st.assume(z3.Or(r == 0, r == -1))
    return [(st, r)]


@b('write', (), 'write reads n bytes and returns a count up to n, or -1')
def b_write(eng, fr, st, vals, types, T, line, args):
    fd, p, n = vals
    eng.prove(st, Or(Eq(n, 0), And(ne0(p.o), z3.Select(eng.gm(st, 'LIVE'), zi(p.o)), ge(p.f, 0), le(add(p.f, n), z3.Select(eng.gm(st, 'SIZE'), zi(p.o))))), 'memory', 'write range is readable', line)
    r = fresh('write')
    st.assume(z3.And(r >= -1, r <= zi(n)))
    return [(st, r)]


RXA = z3.Const('received.bytes', A1)      # all bytes the socket delivers, in order
TERM = z3.Int('first.line.end')            # index of the first CR, LF or NUL among them (definition, see entry)
PRE = z3.Function('received.text', I, SEQ)  # the first n of them


def recv(c, st=None):
    return z3.Select(c.map('RP', st), 0)


def isterm(x):
    return z3.Or(x == 10, x == 13, x == 0)


def line_entry(c):
    k = z3.Int('k')
    x = z3.Select(RXA, k)
    nonul_axioms(c.e)
    return [recv(c) == 0, TERM >= 0, isterm(z3.Select(RXA, TERM)), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < TERM), z3.Not(isterm(x))), patterns=[x]), PRE(z3.IntVal(0)) == z3.Empty(SEQ)]


def cut(n):
    return z3.If(zi(n) < TERM, zi(n), TERM)


def pre_step(n):
    n = zi(n)
    return PRE(n + 1) == z3.Concat(PRE(n), z3.Unit(z3.Select(RXA, n)))


@b('read', ('M8', 'RP', 'REOF'), 'read stores the next bytes of the socket, at most n, and returns their count, or -1')
def b_read(eng, fr, st, vals, types, T, line, args):
    fd, p, n = vals
    eng.prove(st, And(ne0(p.o), z3.Select(eng.gm(st, 'LIVE'), zi(p.o)), ge(p.f, 0), le(add(p.f, n), z3.Select(eng.gm(st, 'SIZE'), zi(p.o)))), 'memory', 'read range is writable', line)
    eng.modset_ok(st, 'M8', p.o, line, fr)
    mm = eng.gm(st, 'M8')
    old, new, k = z3.Select(mm, zi(p.o)), fresh('rd', A1), z3.Int('k')
    r, pos = fresh('read'), z3.Select(eng.gm(st, 'RP'), 0)
    x = z3.Select(new, k)
    st.assume(z3.ForAll([k], z3.And(x >= -128, x <= 127, x == z3.If(z3.And(k >= zi(p.f), k < zi(p.f) + r), z3.Select(RXA, pos + k - zi(p.f)), z3.Select(old, k))), patterns=[x]))
    st.maps['M8'] = z3.Store(mm, zi(p.o), new)
    st.assume(z3.And(r >= -1, r <= zi(n)))
    st.maps['RP'] = z3.Store(eng.gm(st, 'RP'), 0, z3.If(r > 0, pos + r, pos))
    st.maps['REOF'] = z3.Store(eng.gm(st, 'REOF'), 0, z3.If(r < zi(n), z3.IntVal(1), z3.IntVal(0)))
    return [(st, r)]


@b('close', (), 'close has no effect on memory')
def b_close(eng, fr, st, vals, types, T, line, args):
    return [(st, fresh('close'))]


@b('stat', ('S.stat.st_mode',), 'stat fills its result')
def b_stat(eng, fr, st, vals, types, T, line, args):
    eng.prove(st, eng.isstr(st, vals[0]), 'precondition', 'stat argument is a string', line)
    p = vals[1]
    mm = eng.gm(st, 'S.stat.st_mode')
    m = fresh('st_mode')
    st.assume(z3.And(m >= 0, m < 2 ** 32))
    st.maps['S.stat.st_mode'] = z3.Store(mm, zi(p.o), m)
    r = fresh('stat')
    st.assume(z3.Or(r == 0, r == -1))
    return [(st, r)]


@b('__errno_location', (), 'errno is some int')
def b_errno(eng, fr, st, vals, types, T, line, args):
    o = eng.newobj(st, 1)
    return [(st, P(o, 0))]


b_errno.maps = ('LIVE', 'SIZE', '$nxt')

reg(C('br_mime_guess_index', 'path', file=MI, maps=(), requires=lambda c: [('path', c.isstr(c.a('path')))],
      ensures=lambda c: [('found', Or(Eq(c.result.o, 0), And(c.isstr(c.result), ge(c.result.o, c.pre.nxt), Eq(c.result.f, 0)))),
                         ('candidate', Implies(ne0(c.result.o), Eq(c.cs(c.result), cat(c.cs(c.a('path'), c.pre), b'/', c.cs(row(c, c.i, 'index')))))) if c.is_body else ('', True)],
      loops={0: Loop(inv=lambda c: [('range', And(c.i >= 0, c.i < nrows(c))), ('notyet', Eq(c.found.o, 0))],
                     decreases=lambda c: nrows(c) - c.i)}))


def INS(c, root, path):
    """path is root or lies below it: root's text is a prefix ending at a component boundary"""
    k = z3.Int('k')
    n = zi(c.slen(root))
    at = lambda j: z3.Select(c.arr(path), zi(path.f) + j)
    ra = z3.Select(c.arr(root), zi(root.f) + k)
    return And(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), at(k) == ra), patterns=[ra]), Or(at(n) == 0, at(n) == 47, And(n > 0, Eq(c.byte(root, n - 1), 47))))


reg(C('is_inside', 'root path', file=HT, maps=(), allocates=False,
      requires=lambda c: [('root', c.isstr(c.a('root'))), ('path', c.isstr(c.a('path')))],
      exit_lemmas=lambda c: [c.e.slen_min(c.st, c.a('root')) or True],
      ensures=lambda c: [('inside', Implies(ne0(c.result), INS(c, c.a('root'), c.a('path'))))]))

reg(C('br_readline', 'socket', file=HU, maps=('RP', 'REOF', 'M8'),
      entry=line_entry, modifies=lambda c: {'RP': [0], 'REOF': [0]},
      ensures=lambda c: [('string', And(c.isstr(c.result), ge(c.result.o, c.pre.nxt), Eq(c.result.f, 0))),
                         ('line', Implies(own(c), c.cs(c.result) == PRE(cut(recv(c))))),
                         ('all that came', Implies(own(c), z3.Select(c.map('REOF'), 0) == 1))],
      exit_asserts=lambda c: [('text', c.sv(c.rv) == PRE(cut(recv(c))))] if c.has('rv') and isinstance(c.v('rv'), P) else [],
      loops={0: Loop(inv=lambda c: [('own', Not(Eq(buf(c, c.rv), c.buffer.o))), ('received', recv(c) >= 0), ('text', c.sv(c.rv) == PRE(cut(recv(c)))), ('over', Iff(ne0(c.end), recv(c) > TERM)), ('no NUL', nonul(c.e, PRE(cut(recv(c)))))]),
             1: Loop(inv=lambda c: [('own', Not(Eq(buf(c, c.rv), c.buffer.o))), ('range', And(c.i >= 0, c.i <= c.len, c.len <= recv(c))), ('chunk', chunk(c)), ('text', c.sv(c.rv) == PRE(recv(c) - c.len + c.i)), ('not over', And(recv(c) - c.len + c.i <= TERM, Eq(c.end, 0))), ('no NUL', nonul(c.e, PRE(recv(c) - c.len + c.i)))],
                     facts=lambda c: [pre_step(recv(c) - c.len + c.i)], decreases=lambda c: sub_(c.len, c.i))}))


def own(c):
    return c.e.target.name == 'br_readline'


def chunk(c):
    k = z3.Int('k')
    x = z3.Select(c.arr(c.buffer), k)
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(c.len)), x == z3.Select(RXA, recv(c) - zi(c.len) + k)), patterns=[x])

# ---- one request: every file that is read is resolved and inside the resolved document root


def contained(c):
    fr = c.caller
    root = c.st.vars.get(fr.prefix + 'real_root')
    droot = c.st.vars.get(fr.prefix + 'docroot')
    if not isinstance(root, P) or not isinstance(droot, P):
        return False
    p = c.a('path')
    return And(c.isstr(root), Eq(c.cs(root), RP(c.cs(droot))), CANON(c.cs(p)), INS(c, root, p))


EF = 'S.bc_error_t.'
reg(C('bc_file_get_contents', 'path utf8 len err', file='src/common/file.c', maps=('I64', 'P.o', 'P.f'),
      requires=lambda c: [('path', c.isstr(c.a('path'))), ('inside the document root', contained(c)), ('out', And(c.valid(c.a('len')), c.valid(c.a('err'))))],
      modifies=lambda c: {'I64': [c.a('len').o], 'P.o': [c.a('err').o], 'P.f': [c.a('err').o]},
      ensures=lambda c: [('error or contents', file_post(c))]))
VIEW['bc_file_get_contents!server'] = VIEW.pop('bc_file_get_contents')
FILE_SRV = VIEW.pop('bc_file_get_contents!server')


def file_post(c):
    e = P(z3.Select(z3.Select(c.map('P.o'), zi(c.a('err').o)), zi(c.a('err').f)), z3.Select(z3.Select(c.map('P.f'), zi(c.a('err').o)), zi(c.a('err').f)))
    n = z3.Select(z3.Select(c.map('I64'), zi(c.a('len').o)), zi(c.a('len').f))
    r = c.result
    ok = And(ne0(r.o), ge(r.o, c.pre.nxt), Eq(r.f, 0), c.live(r), n >= 0, n < c.size(r))
    bad = And(Eq(r.o, 0), ge(e.o, c.pre.nxt), Eq(e.f, 0), live_err(c, e))
    return If(Eq(e.o, 0), ok, bad)


def live_err(c, e):
    m = c.fld(e, 'bc_error_t', 'msg')
    return And(c.live(e), ne0(m.o), c.isstr(m), Eq(m.f, 0), ge(m.o, c.pre.nxt), Not(Eq(m.o, e.o)))


ERR_FREE = C('bc_error_free', 'err', file='src/common/error.c', maps=('LIVE',), allocates=False,
             requires=lambda c: [('err', Or(Eq(c.a('err').o, 0), And(c.live(c.a('err')), Eq(c.a('err').f, 0), gt(c.a('err').o, 0), c.isstr(c.fld(c.a('err'), 'bc_error_t', 'msg')), Not(Eq(c.fld(c.a('err'), 'bc_error_t', 'msg').o, c.a('err').o)))))],
             modifies=lambda c: {'LIVE': [c.a('err').o, c.fld(c.a('err'), 'bc_error_t', 'msg').o]})
USES = {'bc_file_get_contents': FILE_SRV, 'bc_error_free': ERR_FREE}


def req(c, f):
    return c.fld(c.a('arg'), 'request_data_t', f)


reg(C('error', 'socket status_code error', file=HT, maps=(), requires=lambda c: [('error', c.isstr(c.a('error')))]))
VIEW['error'].nofmt = True
reg(C('handle_request', 'arg', file=HT, maps=('LIVE',), maxstates=40,
      requires=lambda c: [('arg', And(c.live(c.a('arg')), Eq(c.a('arg').f, 0), gt(c.a('arg').o, 0))), ('ip', And(c.isstr(req(c, 'ip')), Eq(req(c, 'ip').f, 0), gt(req(c, 'ip').o, 0))),
                          ('docroot', And(c.isstr(req(c, 'docroot')))), ('distinct', And(Not(Eq(req(c, 'ip').o, c.a('arg').o)), Not(Eq(req(c, 'docroot').o, c.a('arg').o)), Not(Eq(req(c, 'docroot').o, req(c, 'ip').o))))],
      modifies=lambda c: {'LIVE': [c.a('arg').o, req(c, 'ip').o]},
      ensures=lambda c: [('released', And(Not(c.live(c.a('arg'))), Not(z3.Select(c.map('LIVE'), zi(c.fld(c.a('arg'), 'request_data_t', 'ip', c.pre).o)))))]))

VIEW['handle_request'].nofmt = True
VIEW['handle_request'].shards = 4
