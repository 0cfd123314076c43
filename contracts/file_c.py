"""src/common/file.c and src/common/stdin.c: whole files, byte for byte."""
from vc.sym import *
from vc.lib import C, need_str
from vc.cast import SIZE_T
from . import client
from .abs import sub_f, alive, buf, viewbytes, holds_f
F = 'src/common/file.c'
VIEW, USES = {}, dict(client.USES)
BUILTINS = dict(client.BUILTINS)
FA, FL = z3.Const('file.bytes', A1), z3.Int('file.length')       # what the file holds
UTF8 = z3.Function('utf8', SEQ, B)                                # what C05 proves bc_utf8_validate decides


def b(name, maps=(), note=''):
    def d(f):
        f.maps, f.note = tuple(maps), note
        BUILTINS[name] = f
        return f
    return d


def ok(eng, st, p, line, who):
    eng.prove(st, And(ne0(p.o), Eq(p.f, 0), z3.Select(eng.gm(st, 'LIVE'), zi(p.o))), 'precondition', who + ': the stream is open', line)


@b('fopen', maps=('LIVE', 'SIZE', '$nxt', 'FPOS', 'FEOF', 'FERR'), note='fopen returns NULL or a stream at the start of the file')
def b_fopen(eng, fr, st, vals, types, T, line, args):
    need_str(eng, st, vals[0], line, 'fopen: path is a string')
    s2 = st.copy()
    eng.unowned(st)
    o = eng.newobj(st, 1)
    for m, v in (('FPOS', z3.IntVal(0)), ('FEOF', z3.BoolVal(False)), ('FERR', z3.BoolVal(False))):
        st.maps[m] = z3.Store(eng.gm(st, m), zi(o), v)
    st.assume(FL >= 0)
    return [(st, P(o, 0)), (s2, P(0, 0))]


@b('fread', maps=('M8', 'FPOS', 'FEOF', 'FERR'), note='fread stores the next bytes of the file; fewer than asked for only at its end (end mark set) or after an error (error mark set); the file does not change meanwhile')
def b_fread(eng, fr, st, vals, types, T, line, args):
    d, sz, n, fp = vals
    ok(eng, st, fp, line, 'fread')
    eng.prove(st, Eq(sz, 1), 'precondition', 'fread: elements are bytes', line)
    eng.prove(st, And(ne0(d.o), z3.Select(eng.gm(st, 'LIVE'), zi(d.o)), ge(d.f, 0), le(add(d.f, n), z3.Select(eng.gm(st, 'SIZE'), zi(d.o)))), 'memory', 'fread buffer range', line)
    eng.modset_ok(st, 'M8', d.o, line, fr)
    r = fresh('fread')
    pos = z3.Select(eng.gm(st, 'FPOS'), zi(fp.o))
    eof, err = z3.Bool(str(fresh('eof'))), z3.Bool(str(fresh('error')))
    st.assume(And(r >= 0, r <= zi(n), z3.Implies(r < zi(n), z3.Or(eof, err)), z3.Implies(z3.And(eof, z3.Not(err)), pos + r == FL), z3.Implies(z3.Not(err), pos + r <= FL)))
    st.assume(z3.Implies(z3.Select(eng.gm(st, 'FERR'), zi(fp.o)), err))
    old, new = z3.Select(eng.gm(st, 'M8'), zi(d.o)), fresh('read', A1)
    k, i, j = z3.Int('k'), z3.Int('i'), z3.Int('j')
    st.assume(z3.ForAll([k], z3.Select(new, k) == z3.If(z3.And(k >= zi(d.f), k < zi(d.f) + r), z3.Select(FA, pos + k - zi(d.f)), z3.Select(old, k)), patterns=[z3.Select(new, k)]))
    s = sub_f(eng)      # equal bytes, equal pieces
    st.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= zi(d.f), i <= j, j <= zi(d.f) + r), s(new, i, j) == s(FA, pos + i - zi(d.f), pos + j - zi(d.f))), patterns=[s(new, i, j)]))
    st.maps['M8'] = z3.Store(eng.gm(st, 'M8'), zi(d.o), new)
    st.maps['FPOS'] = z3.Store(eng.gm(st, 'FPOS'), zi(fp.o), pos + r)
    st.maps['FEOF'] = z3.Store(eng.gm(st, 'FEOF'), zi(fp.o), eof)
    st.maps['FERR'] = z3.Store(eng.gm(st, 'FERR'), zi(fp.o), err)
    return [(st, r)]


def flag(name, m):
    @b(name, note=name + ' reads the mark of the stream')
    def f(eng, fr, st, vals, types, T, line, args):
        ok(eng, st, vals[0], line, name)
        return [(st, z3.If(z3.Select(eng.gm(st, m), zi(vals[0].o)), z3.IntVal(1), z3.IntVal(0)))]


flag('feof', 'FEOF')
flag('ferror', 'FERR')


@b('fclose', maps=('LIVE',), note='fclose closes the stream')
def b_fclose(eng, fr, st, vals, types, T, line, args):
    ok(eng, st, vals[0], line, 'fclose')
    st.maps['LIVE'] = z3.Store(eng.gm(st, 'LIVE'), zi(vals[0].o), z3.BoolVal(False))
    return [(st, z3.IntVal(0))]


@b('__errno_location', maps=('LIVE', 'SIZE', '$nxt'), note='errno is some int')
def b_errno(eng, fr, st, vals, types, T, line, args):
    eng.unowned(st)
    o = eng.newobj(st, 1)
    return [(st, P(o, 0))]


@b('strerror', note='strerror returns a string')
def b_strerror(eng, fr, st, vals, types, T, line, args):
    return [(st, client.newstr(eng, st))]


@b('fgetc', maps=('FPOS', 'FEOF', 'FERR'), note='fgetc returns the next byte as an unsigned char, EOF at the end')
def b_fgetc(eng, fr, st, vals, types, T, line, args):
    pos = z3.Select(eng.gm(st, 'FPOS'), 0)
    x = z3.Select(FA, pos)
    st.assume(And(FL >= 0, x >= -128, x <= 127))
    more = pos < FL
    st.maps['FPOS'] = z3.Store(eng.gm(st, 'FPOS'), 0, z3.If(more, pos + 1, pos))
    return [(st, z3.If(more, z3.If(x < 0, x + 256, x), z3.IntVal(-1)))]


@b('bc_utf8_validate_str', note='client view of C05: decides whether the view is valid UTF-8')
def b_val(eng, fr, st, vals, types, T, line, args):
    v = z3.Select(eng.gm(st, 'SV'), zi(vals[0].o))
    return [(st, z3.If(UTF8(v), z3.IntVal(1), z3.IntVal(0)))]


def bom_at(a, i):
    return And(*[z3.Select(a, i + k) == v - 256 for k, v in enumerate((0xef, 0xbb, 0xbf))])


USES['bc_utf8_skip_bom'] = C('bc_utf8_skip_bom', 'str len', file='src/common/utf8.c', maps=('M8',), allocates=False,
    requires=lambda c: [('readable', Or(Eq(c.a('len'), 0), c.valid(c.a('str'), c.a('len'))))],
    ensures=lambda c: [('bom', Eq(c.result, If(And(c.a('len') >= 3, bom_at(c.arr(c.a('str'), c.pre), zi(c.a('str').f))), 3, 0)))])
USES['bc_utf8_skip_bom'].view = True


def errv(c, st=None):
    p = c.a('err')
    st = st or c.st
    return P(z3.Select(z3.Select(c.map('P.o', st), zi(p.o)), zi(p.f)), z3.Select(z3.Select(c.map('P.f', st), zi(p.o)), zi(p.f)))


def lenv(c, st=None):
    p = c.a('len')
    return z3.Select(z3.Select(c.map('I64', st), zi(p.o)), zi(p.f))


def piece(c, i, j):
    return sub_f(c.e)(FA, zi(i), zi(j))


def skip(c):
    return zi(If(And(ne0(c.a("utf8")), FL >= 3, bom_at(FA, 0)), 3, 0))


def active(c):
    return And(ne0(c.a('path').o), ne0(c.a('len').o), ne0(c.a('err').o), Eq(errv(c, c.pre).o, 0))


def pos(c):
    return z3.Select(c.map('FPOS'), zi(c.fp.o))


def inv(c):
    p = pos(c)
    e, r = z3.Select(c.map('FEOF'), zi(c.fp.o)), z3.Select(c.map('FERR'), zi(c.fp.o))
    v = c.sv(c.str)
    return [('stream', And(c.live(c.fp), Eq(c.fp.f, 0), c.fp.o >= c.pre.nxt, Not(r), p >= 0, p <= FL, Implies(e, p == FL))),
            ('string', And(alive(c, c.str), c.str.o >= c.pre.nxt, buf(c, c.str) >= zi(c.pre.nxt), Not(Eq(c.fp.o, c.str.o)), Not(Eq(c.fp.o, buf(c, c.str))), Not(Eq(c.buffer.o, buf(c, c.str))), Not(Eq(c.buffer.o, c.str.o)))),
            ('length', And(c.valid(c.a('len'), 1), c.valid(c.a('err'), 1), Eq(lenv(c), z3.Length(v)))), ('no error', Eq(errv(c).o, 0)),
            ('path', And(c.isstr(c.a('path')), Eq(c.arr(c.a('path')), c.arr(c.a('path'), c.pre)))),
            ('content', Or(And(p == 0, v == z3.Empty(SEQ), Not(e)), And(e, FL == 0, v == z3.Empty(SEQ)), And(p >= skip(c), Or(p > 3, p == FL), Implies(Not(e), p > 3), v == piece(c, skip(c), p))))]


def splits(c):
    """a piece is the two pieces it is cut into"""
    if not c.has('read_len'):
        return []
    p0 = z3.Select(c.map('FPOS', c.head), zi(c.fp.o))
    s = skip(c)
    return [And(z3.Implies(z3.And(p0 >= s, pos(c) >= p0), piece(c, s, pos(c)) == z3.Concat(piece(c, s, p0), piece(c, p0, pos(c)))), piece(c, 0, 0) == z3.Empty(SEQ), piece(c, 3, 3) == z3.Empty(SEQ))]


def content(c):
    return piece(c, skip(c), FL)


c_ = VIEW['bc_file_get_contents'] = C('bc_file_get_contents', 'path utf8 len err', file=F, maps=('M8', 'P.o', 'P.f', 'I64', 'SV', 'STRB', 'FPOS', 'FEOF', 'FERR'),
    requires=lambda c: [('path', c.nullstr(c.a('path'))), ('length', Or(Eq(c.a('len').o, 0), c.valid(c.a('len'), 1))), ('error', Or(Eq(c.a('err').o, 0), c.valid(c.a('err'), 1))), ('size', FL < MAXOBJ)],
    entry=lambda c: [sub_f(c.e) is not None],
    modifies=lambda c: {'P.o': [c.a('err').o], 'P.f': [c.a('err').o], 'P': [c.a('err').o], 'I64': [c.a('len').o]},
    ensures=lambda c: [('off', Implies(Not(active(c)), Eq(c.result.o, 0))),
                       ('content or error', Implies(active(c), Iff(Eq(c.result.o, 0), ne0(errv(c).o)))),
                       ('content', Implies(And(active(c), ne0(c.result.o)), And(c.result.o >= c.pre.nxt, Eq(c.result.f, 0), c.live(c.result), Eq(lenv(c), FL - skip(c)),
                                                                               holds_f(c.e)(c.arr(c.result), 0, content(c)), Eq(c.byte(c.result, lenv(c)), 0)))),
                       ('valid', Implies(And(active(c), ne0(c.a('utf8')), ne0(c.result.o)), UTF8(content(c)))),
                       ('closed', Implies(And(active(c), ne0(c.fp.o)), Not(c.live(c.fp))) if c.has('fp') else True)],
    exit_asserts=lambda c: [],
    loops={0: Loop(inv=inv, lemmas=splits, decreases=lambda c: FL - pos(c) + If(z3.Select(c.map('FEOF'), zi(c.fp.o)), 0, 1))})
c_.view = True


def spos(c, st=None):
    return z3.Select(c.map('FPOS', st), 0)


c_ = VIEW['bc_stdin_read'] = C('bc_stdin_read', 'len', file='src/common/stdin.c', maps=('M8', 'I64', 'SV', 'STRB', 'FPOS', 'FEOF', 'FERR'),
    requires=lambda c: [('length', Or(Eq(c.a('len').o, 0), c.valid(c.a('len'), 1))), ('start', spos(c) == 0), ('size', And(FL >= 0, FL < MAXOBJ))],
    entry=lambda c: [sub_f(c.e) is not None],
    modifies=lambda c: {'I64': [c.a('len').o], 'FPOS': [0]},
    ensures=lambda c: [('off', Iff(Eq(c.a('len').o, 0), Eq(c.result.o, 0))),
                       ('content', Implies(ne0(c.result.o), And(c.result.o >= c.pre.nxt, Eq(c.result.f, 0), c.live(c.result), Eq(lenv(c), FL), holds_f(c.e)(c.arr(c.result), 0, piece(c, 0, FL)), Eq(c.byte(c.result, FL), 0))))],
    loops={0: Loop(inv=lambda c: [('string', And(alive(c, c.rv), c.rv.o >= c.pre.nxt, buf(c, c.rv) >= zi(c.pre.nxt))), ('length', c.valid(c.a('len'), 1)),
                                  ('content', And(spos(c) >= 0, spos(c) <= FL, c.sv(c.rv) == piece(c, 0, spos(c))))],
                   facts=lambda c: [piece(c, 0, 0) == z3.Empty(SEQ)],
                   lemmas=lambda c: [And(piece(c, 0, 0) == z3.Empty(SEQ), z3.Implies(spos(c, c.head) >= 0, piece(c, 0, spos(c, c.head) + 1) == z3.Concat(piece(c, 0, spos(c, c.head)), z3.Unit(z3.Select(FA, spos(c, c.head))))))],
                   decreases=lambda c: FL - spos(c))})
c_.view = True
