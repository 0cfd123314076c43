"""Contracts of libc (trusted) and the builtin transformers for allocation,
byte copies and printf-like calls.  Everything here is an assumption about
code outside /repo and is listed in the evidence as such."""
import z3
from .sym import *
from .sym import Contract as _Contract
from .cast import Unsupported, VOID, BOOL, CHAR, INT, SIZE_T, Ptr

TRUSTED = {}


def C(name, params, maps=(), **kw):
    c = _Contract(name, **kw)
    c.params = params.split() if isinstance(params, str) else params
    c.maps = tuple(maps)
    return c


def builtin(name, maps=(), note=''):
    def deco(f):
        for n in name.split():
            f.maps = tuple(maps)
            TRUSTED[n] = f
        f.note = note
        return f
    return deco


def find_sizeof(e):
    while e[0] == 'cast':
        e = e[1]
    return e if e[0] == 'sizeof' else None


def alloc_count(eng, st, fr, e, val, line):
    """(element count, elem kind) of a malloc/realloc size expression"""
    while e[0] == 'cast':
        e = e[1]
    if e[0] == 'sizeof':
        T = e[1]
        if T[0] == 'arr':
            return T[2], T[1]
        return 1, T
    if e[0] == 'bin' and e[1] == '*':
        for a, b in ((e[2], e[3]), (e[3], e[2])):
            s = find_sizeof(b)
            if s is not None:
                return eng.ev(st, a, fr, line), s[1]
    return val, CHAR


@builtin('malloc bc_malloc', maps=('LIVE', 'SIZE', '$nxt'), note='allocation returns a fresh object (bc_malloc never returns NULL)')
def b_malloc(eng, fr, st, vals, types, T, line, args):
    n, et = alloc_count(eng, st, fr, args[0], vals[0], line)
    o = eng.newobj(st, n)
    return [(st, P(o, 0))]


def raw_malloc(eng, fr, st, vals, types, T, line, args):
    n, et = alloc_count(eng, st, fr, args[0], vals[0], line)
    s2 = st.copy()
    o = eng.newobj(st, n)
    return [(st, P(o, 0)), (s2, P(0, 0))]


raw_malloc.maps = ('LIVE', 'SIZE', '$nxt')
raw_malloc.note = 'malloc returns NULL or a fresh object'
TRUSTED['malloc'] = raw_malloc


@builtin('realloc bc_realloc', maps=('LIVE', 'SIZE', '$nxt', 'M8', 'P.o', 'P.f'),
         note='realloc moves the object: contents kept, old object freed')
def b_realloc(eng, fr, st, vals, types, T, line, args):
    p = vals[0]
    n, et = alloc_count(eng, st, fr, args[1], vals[1], line)
    lv = z3.Select(eng.gm(st, 'LIVE'), zi(p.o))
    eng.prove(st, Or(Eq(p.o, 0), And(lv, Eq(p.f, 0), gt(p.o, 0), eng.not_local(st, p.o))), 'memory', 'realloc of a live block', line)
    if eng.target_mod is not None and not (isinstance(p.o, int) and p.o == 0):
        allowed = eng.target_mod.get('LIVE', ())
        if allowed != 'ANY':
            eng.prove(st, Or(Eq(p.o, 0), ge(p.o, eng.entry_state.nxt), *within(allowed, p.o)), 'frame', 'frees-only-declared', line)
    st.maps['LIVE'] = z3.Store(eng.gm(st, 'LIVE'), zi(p.o), z3.BoolVal(False))
    o = eng.newobj(st, n)
    if et[0] == 'int' and et[1] == 8:
        ms = ('M8',)
    elif et[0] == 'ptr':
        ms = ('P.o', 'P.f')
    else:
        raise Unsupported('realloc element type')
    for m in ms:
        mm = eng.gm(st, m)
        st.maps[m] = z3.Store(mm, zi(o), z3.Select(mm, zi(p.o)))
    return [(st, P(o, 0))]


@builtin('free', maps=('LIVE',), note='free: argument NULL or a live heap block, not used afterwards')
def b_free(eng, fr, st, vals, types, T, line, args):
    p = vals[0]
    if isinstance(p, FN) or isinstance(p, Opaque):
        raise Unsupported('free of non-pointer')
    lv = z3.Select(eng.gm(st, 'LIVE'), zi(p.o))
    eng.prove(st, Or(Eq(p.o, 0), And(lv, Eq(p.f, 0), gt(p.o, 0), eng.not_local(st, p.o))), 'memory', 'free of a live block (no double free)', line)
    if getattr(eng.target, 'tries', False):
        eng.prove(st, Or(Eq(p.o, 0), z3.Select(eng.gm(st, 'TOWN'), zi(p.o)) == 0), 'memory', 'the freed block is not held by a trie', line)
    if eng.target_mod is not None and not (isinstance(p.o, int) and p.o == 0):
        allowed = eng.target_mod.get('LIVE', ())
        if allowed != 'ANY':
            eng.prove(st, Or(Eq(p.o, 0), ge(p.o, eng.entry_state.nxt), *within(allowed, p.o)), 'frame', 'frees-only-declared', line)
    st.maps['LIVE'] = z3.Store(eng.gm(st, 'LIVE'), zi(p.o), z3.BoolVal(False))
    return [(st, None)]


def need_str(eng, st, p, line, what):
    eng.prove(st, eng.isstr(st, p), 'precondition', what, line)
    eng.slen_min(st, p)


@builtin('strlen', note='strlen returns the distance to the first NUL')
def b_strlen(eng, fr, st, vals, types, T, line, args):
    p = vals[0]
    if isinstance(p.o, int) and p.o in eng.litmem and p.f == 0:
        return [(st, len(eng.litmem[p.o].split(b'\0')[0]))]
    need_str(eng, st, p, line, 'strlen argument is a string')
    n = eng.slen(st, p)
    st.assume(z3.And(n >= 0, n < MAXOBJ))
    return [(st, n)]


@builtin('strnlen')
def b_strnlen(eng, fr, st, vals, types, T, line, args):
    p, n = vals
    sz = z3.Select(eng.gm(st, 'SIZE'), zi(p.o))
    eng.prove(st, Or(eng.isstr(st, p), And(ne0(p.o), z3.Select(eng.gm(st, 'LIVE'), zi(p.o)), ge(p.f, 0), le(add(p.f, n), sz))),
              'precondition', 'strnlen range is readable', line)
    eng.slen_min(st, p)
    r = fresh('strnlen')
    a = z3.Select(eng.gm(st, 'M8'), zi(p.o))
    k = z3.Int('k')
    st.assume(And(r >= 0, r < MAXOBJ, r <= zi(n), Or(r == zi(n), z3.Select(a, zi(p.f) + r) == 0),
              z3.ForAll([k], z3.Implies(z3.And(k >= zi(p.f), k < zi(p.f) + r), z3.Select(a, k) != 0), patterns=[z3.Select(a, k)]),
              Implies(eng.isstr(st, p), r == If(eng.slen(st, p) <= zi(n), eng.slen(st, p), n))))
    return [(st, r)]


@builtin('memcpy', maps=('M8',), note='memcpy copies n bytes between readable/writable ranges')
def b_memcpy(eng, fr, st, vals, types, T, line, args):
    d, s, n = vals
    LV, SZ = eng.gm(st, 'LIVE'), eng.gm(st, 'SIZE')

    def ok(p):
        return And(ne0(p.o), z3.Select(LV, zi(p.o)), ge(p.f, 0), le(add(p.f, n), z3.Select(SZ, zi(p.o))))
    eng.prove(st, ok(d), 'memory', 'memcpy destination range', line)
    eng.prove(st, ok(s), 'memory', 'memcpy source range', line)
    eng.prove(st, Or(Not(Eq(d.o, s.o)), le(add(d.f, n), s.f), le(add(s.f, n), d.f)), 'memory', 'memcpy ranges do not overlap', line)
    eng.modset_ok(st, 'M8', d.o, line, fr)
    mm = eng.gm(st, 'M8')
    old, src = z3.Select(mm, zi(d.o)), z3.Select(mm, zi(s.o))
    new = fresh('cpy', A1)
    k = z3.Int('k')
    st.assume(z3.ForAll([k], z3.Select(new, k) == z3.If(z3.And(k >= zi(d.f), k < zi(d.f) + zi(n)),
              z3.Select(src, k - zi(d.f) + zi(s.f)), z3.Select(old, k)), patterns=[z3.Select(new, k)]))
    st.maps['M8'] = z3.Store(mm, zi(d.o), new)
    return [(st, d)]


def lit_of(eng, p):
    if isinstance(p, P) and isinstance(p.o, int) and p.o in eng.litmem and isinstance(p.f, int):
        return eng.litmem[p.o][p.f:].split(b'\0')[0]
    return None


def sgn(c):
    return c - 256 if c > 127 else c


def eq_lit(eng, st, p, lit):
    """p's string equals the literal, as ground byte facts"""
    a = z3.Select(eng.gm(st, 'M8'), zi(p.o))
    return And(*[z3.Select(a, zi(p.f) + i) == sgn(c) for i, c in enumerate(lit)], z3.Select(a, zi(p.f) + len(lit)) == 0)


@builtin('strcmp', note='strcmp returns 0 exactly for equal strings')
def b_strcmp(eng, fr, st, vals, types, T, line, args):
    p, q = vals
    lp, lq = lit_of(eng, p), lit_of(eng, q)
    if lp is not None and lq is not None:
        return [(st, 0 if lp == lq else 1)]
    for x, l in ((p, lp), (q, lq)):
        if l is None:
            need_str(eng, st, x, line, 'strcmp argument is a string')
    r = fresh('strcmp')
    st.assume(z3.And(r >= -255, r <= 255))
    if lp is not None or lq is not None:
        x, l = (q, lp) if lp is not None else (p, lq)
        e = eq_lit(eng, st, x, l)
        st.assume((r == 0) == e)
        st.assume(z3.Implies(r == 0, eng.slen(st, x) == len(l)))
        st.assume((r == 0) == (eng.cs(st, x) == seq_lit(l)))
    else:
        st.assume((r == 0) == (eng.cs(st, p) == eng.cs(st, q)))
        st.assume(r == z3.Function('strcmp', SEQ, SEQ, I)(eng.cs(st, p), eng.cs(st, q)))
        st.assume(z3.Implies(r == 0, eng.slen(st, p) == eng.slen(st, q)))
    return [(st, r)]


@builtin('strcasecmp')
def b_strcasecmp(eng, fr, st, vals, types, T, line, args):
    p, q = vals
    for x in (p, q):
        if lit_of(eng, x) is None:
            need_str(eng, st, x, line, 'strcasecmp argument is a string')
    lit = lit_of(eng, q)
    r = fresh('strcasecmp')
    if lit is not None:
        a = z3.Select(eng.gm(st, 'M8'), zi(p.o))
        cs = []
        for i, c in enumerate(lit):
            ch = chr(c)
            cs.append(z3.Or(z3.Select(a, zi(p.f) + i) == ord(ch.lower()), z3.Select(a, zi(p.f) + i) == ord(ch.upper())))
        st.assume((r == 0) == And(*cs, z3.Select(a, zi(p.f) + len(lit)) == 0))
        st.assume(z3.Implies(r == 0, eng.slen(st, p) == len(lit)))
    return [(st, r)]


@builtin('strncmp', note='strncmp compares at most n bytes up to the first NUL')
def b_strncmp(eng, fr, st, vals, types, T, line, args):
    p, q, n = vals
    SZ, LV = eng.gm(st, 'SIZE'), eng.gm(st, 'LIVE')
    for x in (p, q):
        if lit_of(eng, x) is None:
            eng.prove(st, Or(eng.isstr(st, x), And(ne0(x.o), z3.Select(LV, zi(x.o)), ge(x.f, 0), le(add(x.f, n), z3.Select(SZ, zi(x.o))))),
                      'precondition', 'strncmp range is readable', line)
            eng.slen_min(st, x)
    r = fresh('strncmp')
    lit, other = lit_of(eng, p), q
    if lit is None:
        lit, other = lit_of(eng, q), p
    if lit is not None:
        a = z3.Select(eng.gm(st, 'M8'), zi(other.o))
        # equal on the first n bytes (including the literal's NUL when n exceeds its length)
        cs = [Implies(gt(n, i), z3.Select(a, zi(other.f) + i) == sgn(c)) for i, c in enumerate(lit + b'\0')]
        # once a NUL matched, comparison stops: all bytes of lit before are non-NUL, so this is exact
        st.assume((r == 0) == And(*cs))
    else:
        k = z3.Int('k')
        a, b = z3.Select(eng.gm(st, 'M8'), zi(p.o)), z3.Select(eng.gm(st, 'M8'), zi(q.o))
        # exact characterisation for two NUL-free prefixes of length n; both directions via slen
        sl = eng.slen_f()
        m = fresh('mism')
        lim = If(sl(b, zi(q.f)) < zi(n), sl(b, zi(q.f)) + 1, n)
        st.assume(z3.Implies(r == 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(lim)), z3.Select(a, zi(p.f) + k) == z3.Select(b, zi(q.f) + k)),
                  patterns=[z3.Select(a, zi(p.f) + k), z3.Select(b, zi(q.f) + k)])))
        st.assume(z3.Implies(r != 0, z3.And(m >= 0, m < zi(lim), z3.Select(a, zi(p.f) + m) != z3.Select(b, zi(q.f) + m))))
    return [(st, r)]


@builtin('strchr')
def b_strchr(eng, fr, st, vals, types, T, line, args):
    p, c = vals
    if lit_of(eng, p) is None:
        need_str(eng, st, p, line, 'strchr argument is a string')
    r = P(fresh('strchr.o'), fresh('strchr.f'))
    a = z3.Select(eng.gm(st, 'M8'), zi(p.o))
    k = z3.Int('k')
    n = eng.slen(st, p)
    st.assume(Or(And(r.o == 0, r.f == 0, z3.ForAll([k], z3.Implies(z3.And(k >= zi(p.f), k < zi(p.f) + n), z3.Select(a, k) != zi(c)), patterns=[z3.Select(a, k)])),
                 And(r.o == zi(p.o), r.f >= zi(p.f), r.f <= zi(p.f) + n, z3.Select(a, r.f) == zi(c),
                     z3.ForAll([k], z3.Implies(z3.And(k >= zi(p.f), k < r.f), z3.Select(a, k) != zi(c)), patterns=[z3.Select(a, k)]))))
    return [(st, r)]


def parse_fmt(fmt):
    """[('lit', bytes) | ('s',) | ('d', spec)]"""
    out, i, lit = [], 0, b''
    while i < len(fmt):
        c = fmt[i:i + 1]
        if c != b'%':
            lit += c; i += 1
            continue
        j = i + 1
        flags = b''
        while j < len(fmt) and fmt[j:j + 1] in b'-+ #0123456789.*' and fmt[j:j + 1] != b'':
            flags += fmt[j:j + 1]; j += 1
        while j < len(fmt) and fmt[j:j + 1] in (b'l', b'h', b'z', b'j'):
            flags += fmt[j:j + 1]; j += 1
        conv = fmt[j:j + 1]
        if conv == b'%':
            lit += b'%'
        else:
            if lit:
                out.append(('lit', lit)); lit = b''
            out.append((conv.decode(), flags.decode()))
        i = j + 1
    if lit:
        out.append(('lit', lit))
    return out


def fmt_lit(bs):
    """literal text of a format; a long one is a named constant (equal text, equal constant)"""
    return seq_lit(bs) if len(bs) <= 4 else z3.Const('text"%s"' % bs.decode('latin-1'), SEQ)


def fmt_result(eng, st, fmtp, vals, line, who):
    """check printf arguments, return the byte sequence they format to"""
    lit = lit_of(eng, fmtp)
    if lit is None:
        if getattr(eng, 'allow_dynamic_format', False):
            eng.prove(st, eng.isstr(st, fmtp), 'precondition', who + ' format is a string', line)
            return fresh('dynfmt', SEQ)
        eng.prove(st, False, 'precondition', who + ': format string is a literal', line)
        return fresh('dynfmt', SEQ)
    pieces = []
    vs = list(vals)
    for x in parse_fmt(lit):
        if x[0] == 'lit':
            pieces.append(fmt_lit(x[1]))
            continue
        stars = x[1].count('*')
        width = None
        for _ in range(stars):
            if vs:
                width = vs.pop(0)
        if not vs:
            eng.prove(st, False, 'precondition', who + ': missing printf argument', line)
            return fresh('fmt', SEQ)
        v = vs.pop(0)
        if x[0] == 's':
            if not isinstance(v, P):
                eng.prove(st, False, 'precondition', who + ': %s argument is a string', line)
                pieces.append(fresh('fmt', SEQ))
                continue
            if x[1] == '*' and lit_of(eng, v) == b'' and not isinstance(width, (Opaque, P, tuple, type(None))):
                pieces.append(z3.Function('spaces', I, SEQ)(zi(width)))
                continue
            if '.' in x[1] or '*' in x[1]:
                eng.prove(st, eng.isstr(st, v), 'precondition', who + ': %s argument is a string', line)
                pieces.append(fresh('fmt', SEQ))
                continue
            if lit_of(eng, v) is None:
                eng.prove(st, eng.isstr(st, v), 'precondition', who + ': %s argument is a string', line)
            pieces.append(eng.cs(st, v))
        elif x[0] in 'diux':
            f = z3.Function('fmt_' + x[0] + x[1].replace('.', '_'), I, SEQ)
            if isinstance(v, (Opaque, P, tuple)):
                pieces.append(fresh('fmt', SEQ))
            else:
                pieces.append(f(zi(v)))
        elif x[0] == 'c':
            pieces.append(z3.Unit(zi(v)))
        else:
            pieces.append(fresh('fmt', SEQ))
    return fresh('fmt', SEQ) if getattr(eng.target, 'nofmt', False) else cat(*pieces)


def fresh_string(eng, st, seq=None, nonul=True):
    """a new heap block holding a NUL-terminated string"""
    o = fresh('str')
    nn = fresh('nxt')
    st.assume(z3.And(o >= zi(st.nxt), nn > o))
    st.nxt = nn
    LV, SZ = eng.gm(st, 'LIVE'), eng.gm(st, 'SIZE')
    p = P(o, 0)
    n = eng.slen(st, p)
    st.assume(z3.And(z3.Select(LV, o), n >= 0, n < z3.Select(SZ, o), n < MAXOBJ, z3.Select(z3.Select(eng.gm(st, 'M8'), o), n) == 0))
    if seq is not None:
        st.assume(eng.cs(st, p) == seq)
    return p


def b_strdup_printf(eng, fr, st, vals, types, T, line, args):
    seq = fmt_result(eng, st, vals[0], vals[1:], line, 'bc_strdup_printf')
    return [(st, fresh_string(eng, st, seq))]


b_strdup_printf.maps = ('$nxt',)
b_strdup_printf.note = 'bc_strdup_printf returns exactly the formatted text (vsnprintf trusted; allocation failure not modelled)'
TRUSTED['bc_strdup_printf'] = b_strdup_printf


@builtin('printf')
def b_printf(eng, fr, st, vals, types, T, line, args):
    fmt_result(eng, st, vals[0], vals[1:], line, 'printf')
    return [(st, fresh('printf'))]


@builtin('fprintf')
def b_fprintf(eng, fr, st, vals, types, T, line, args):
    fmt_result(eng, st, vals[1], vals[2:], line, 'fprintf')
    return [(st, fresh('fprintf'))]


@builtin('puts fputs perror')
def b_puts(eng, fr, st, vals, types, T, line, args):
    return [(st, fresh('puts'))]


@builtin('tolower')
def b_tolower(eng, fr, st, vals, types, T, line, args):
    c = vals[0]
    if isinstance(c, int):
        return [(st, c + 32 if 65 <= c <= 90 else c)]
    return [(st, z3.If(z3.And(c >= 65, c <= 90), c + 32, c))]


@builtin('toupper')
def b_toupper(eng, fr, st, vals, types, T, line, args):
    c = vals[0]
    if isinstance(c, int):
        return [(st, c - 32 if 97 <= c <= 122 else c)]
    return [(st, z3.If(z3.And(c >= 97, c <= 122), c - 32, c))]


@builtin('abort exit _exit', note='abort/exit do not return')
def b_exit(eng, fr, st, vals, types, T, line, args):
    return []


def cstr_fresh(c):
    """result is a fresh heap string"""
    return And(c.isstr(c.result), ge(c.result.o, c.pre.nxt), Eq(c.result.f, 0), lt(c.result.o, c.st.nxt))
