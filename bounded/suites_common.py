"""Executable contracts for src/common, and the inputs they are run on."""
from .core import *

WS = b' \t\n\r\x0b\x0c'
ALPHA = [b'a', b'b', b'z', b'A', b'0', b' ', b'\t', b'\n', b'\r', b'\x0b', b'\x0c', b'\\', b"'", b'"', b'!', b'=', b',', b'-', b'_', b'/', b'.', b'\xc3\xa9', b'\xff', b'$', b'`', b'#', b';', b'[', b']', b'%', b'&', b'<', b'>', b'\x01', b'\x7f']


def rs(r, n, alpha=ALPHA):
    return b''.join(r.choice(alpha) for _ in range(r.randint(0, n)))


def drv():
    return Driver(B.build('common', 'common', 'common.c'))


# ---------------------------------------------------------------- strings
def o_string(ops):
    out, s = [], None
    s = b''
    null = True
    for op, a in ops:
        if op == b'a':
            if a is not None:
                s += a.split(b'\0')[0]
                null = False
        elif op == b'l':
            if a is not None:
                s += a
                null = False
        elif op == b'c':
            s += a[:1]
            null = False
        elif op == b'e':
            if a is not None:
                esc = False
                for ch in a.split(b'\0')[0]:
                    if ch == 0x5c and not esc:
                        esc = True
                        continue
                    esc = False
                    s += bytes([ch])
                    null = False
        elif op == b'p':
            s += a
            null = False
        out.append((len(s), null))
    return out, s


def strings(s, n):
    r = s.rng
    for _ in range(n):
        ops = []
        args = []
        k = r.randint(1, 12)
        for i in range(k):
            op = r.choice([b'a', b'l', b'c', b'e', b'p', b'd', b'a', b'c'])
            big = r.random() < .05
            a = rs(r, 300 if big else 9) if op not in (b'l', b'c') else rs(r, 400 if big else 9, ALPHA + [b'\0'])
            if op == b'c' and not a:
                a = b'x'
            if op in (b'a', b'e') and r.random() < .05:
                a = None
            if op == b'p':
                args += [op, a]
                ops.append((op, b'<' + (a.split(b'\0')[0]) + b'|%d>' % (2 * i)))
                continue
            args += [op, a]
            ops.append((op, a))
        lens, fin = o_string(ops)

        def chk(out, lens=lens, fin=fin):
            # per op: len, str[len]==0 (or -1 when no buffer), allocated > len
            i = 0
            for L, null in lens:
                if i + 3 > len(out):
                    return 'short output'
                if out[i] != L:
                    return 'length %d' % L
                if out[i + 1] == 0 or (L > 0 and out[i + 1] == -1):
                    return 'terminated buffer of length %d' % L
                if L > 0 and out[i + 2] != 1:
                    return 'capacity above length %d' % L
                i += 3
            if i + 1 != len(out):
                return 'string object must not move'
            if (out[i] or b'') != fin:
                return 'contents %r' % fin
        s.add('string', args, chk, 'growable string history')


# ---------------------------------------------------------------- trie
def tries(s, n):
    r = s.rng
    for _ in range(n):
        keys = [rs(r, 4, [b'a', b'b', b'ab', b'c', b'\xff', b'.', b'abc', b'A', b'\xe1', b'\xc1', b'\x01', b'!']) for _ in range(r.randint(1, 8))]
        ops, exp = [], []
        m, freed = {}, 0
        for _ in range(r.randint(1, 25)):
            k = r.choice(keys)
            if r.random() < .6:
                v = rs(r, 5)
                if k in m:
                    freed += 1
                m[k] = v
                ops += ['i', k, v]
                exp.append(freed)
            else:
                ops += ['l', k, '']
                exp.append(m.get(k))

        def chk(out, exp=exp, m=m):
            e = list(exp)
            if out[:len(e)] != e:
                return 'lookups/frees %r' % e
            rest = out[len(e):]
            if not rest or rest[0] != len(m):
                return 'size %d' % len(m)
            pairs = rest[1:-2]
            got = list(zip(pairs[0::2], pairs[1::2]))
            if sorted(got) != sorted(m.items()) or rest[-2] != len(m):
                return 'iteration over exactly %r' % sorted(m.items())
            if rest[-1] != len(m):
                return 'every value released once'
        s.add('trie', ops, chk, 'trie history')


# ---------------------------------------------------------------- lists
def slists(s, n):
    r = s.rng
    for _ in range(n):
        l, ops, exp = [], [], []
        for _ in range(r.randint(1, 14)):
            op = r.choice('aaappLs')
            v = rs(r, 3, [b'a', b'b', b'c', b'd', b'e', b'1', b'2'])
            if op == 'a':
                l.append(v)
            elif op == 'p':
                l.insert(0, v)
            elif op == 'L':
                l += [v] * len(v)
            else:
                l.sort(key=lambda x: x[:1] or b'\0')
            ops += [op, v]
            exp.append(len(l))
        s.add('slist', ops, exp + l, 'list history')
    for k in (40, 100, 300):
        v = [bytes([33 + (k - i) % 90]) + b'%d' % i for i in range(k)]
        s.add('slist', sum([['a', x] for x in v], []) + ['s', b''], list(range(1, k + 1)) + [k] + sorted(v, key=lambda x: x[:1]), 'long list')
    for _ in range(max(3, n // 50)):
        v = [rs(r, 3) for _ in range(r.randint(0, 9))]
        s.add('slist_free_full', v, [len(v)], 'list release')


# ---------------------------------------------------------------- helpers
def o_split(x, c, m):
    if x == b'':
        return []
    out, start, cnt = [], 0, 0
    return x.split(bytes([c]), m - 1 if m else -1)


def o_find(x, c):
    if c == 0:
        return len(x)
    i = 0
    while i < len(x):
        if x[i] == 0x5c:
            i += 2
            continue
        if x[i] == c:
            return i
        i += 1
    return -1


def o_bool(x):
    if x is None:
        return 0
    return 1 if x.lower() in (b'1', b'y', b'yes', b'true', b'on') else 0


def helpers(s, n):
    r = s.rng
    small = [b'a', b'b', b' ', b'\t', b'\n', b'\r', b'\x0b', b'\x0c', b',', b'\\', b'x', b'\xff']
    s.add('isspace', [], [1 if c in (9, 10, 11, 12, 13, 32) else 0 for c in range(-1, 256)])
    for w in (None, b'', b'1', b'y', b'Y', b'yes', b'YES', b'Yes', b't', b'T', b'true', b'True', b'on', b'ON', b'0', b'no', b'off', b'tru', b'truee', b'yess', b' yes', b'10', b'o', b'onn', b'2'):
        s.add('tobool', [w], [o_bool(w)])
    for c in ('lstrip', 'rstrip', 'strip', 'strdup'):
        s.add(c, [None], [None])
    for _ in range(n):
        x = rs(r, 8, small)
        s.add('lstrip', [x], [x.lstrip(WS)])
        s.add('rstrip', [x], [x.rstrip(WS)])
        s.add('strip', [x], [x.strip(WS)])
        s.add('strdup', [x], [x])
        k = r.randint(0, 10)
        s.add('strndup', [x, k], [x[:k]])
        c = r.choice([b',', b' ', b'a', b'\\', b'x'])
        m = r.choice([0, 0, 0, 1, 2, 3, 5])
        p = o_split(x, c[0], m)
        s.add('split', [x, c, m], [len(p)] + p)
        rep = rs(r, 3, small)
        if x:
            s.add('replace', [x, c, rep], [x.replace(c, rep)])
        s.add('find', [x, c], [o_find(x, c[0])])
        s.add('find', [x, b'\0'], [len(x)])
        y = rs(r, 3, small)
        s.add('starts', [x, y], [int(x.startswith(y))])
        s.add('ends', [x, y], [int(x.endswith(y))])
        s.add('starts', [x + y, x], [1])
        s.add('ends', [x + y, y], [1])
        v = [rs(r, 4, small) for _ in range(r.randint(0, 5))]
        s.add('join', [y] + v, [y.join(v), len(v)])
        s.add('tobool', [r.choice([x, b'yes'[:r.randint(0, 3)] + x[:1]])], lambda o: None)


# ---------------------------------------------------------------- shell quoting
def sh_words(text):
    """what a POSIX shell makes of the text: list of words (quotes and backslash only)"""
    words, cur, q, i = [], None, None, 0
    while i < len(text):
        c = text[i:i + 1]
        if q == b"'":
            if c == b"'":
                q = None
            else:
                cur += c
        elif q == b'"':
            if c == b'"':
                q = None
            elif c == b'\\' and text[i + 1:i + 2] in (b'$', b'`', b'"', b'\\'):
                i += 1
                cur += text[i:i + 1]
            elif c in b'$`':
                return None
            else:
                cur += c
        elif c == b"'" or c == b'"':
            q = c
            cur = cur or b''
        elif c == b'\\':
            i += 1
            cur = (cur or b'') + text[i:i + 1]
        elif c in b' \t\n':
            if cur is not None:
                words.append(cur)
            cur = None
        elif c in b'=%' and cur:      # ordinary inside a word
            cur += c
        elif c in b'|&;<>()$`*?[#~=%{}!' or c[0] >= 0x7f:
            return None
        else:
            cur = (cur or b'') + c
        i += 1
    if q:
        return None
    if cur is not None:
        words.append(cur)
    return words


def quoting(s, n):
    r = s.rng
    s.add('quote', [b''], [b"''"], 'empty string')

    def chk(x):
        def f(out):
            if len(out) != 1 or out[0] is None:
                return 'a quoted string'
            w = sh_words(out[0])
            if w != [x]:
                return 'one shell word equal to %r, the shell reads %r' % (x, w)
        return f
    for x in (None,):
        s.add('quote', [x], chk(b''), 'null')
    for _ in range(n):
        x = rs(r, 10, [b"'", b"'", b'!', b'!', b'a', b' ', b'"', b'\\', b'$(id)', b'`id`', b'\n', b';', b'*', b'~', b'\xff', b'-'])
        s.add('quote', [x], chk(x), 'shell quoting')


# ---------------------------------------------------------------- utf-8
def o_utf8(b):
    i = 0
    while i < len(b):
        c = b[i]
        if c < 0x80:
            i += 1
            continue
        if 0xc2 <= c <= 0xdf:
            n, lo, hi = 1, 0x80, 0xbf
        elif c == 0xe0:
            n, lo, hi = 2, 0xa0, 0xbf
        elif c == 0xed:
            n, lo, hi = 2, 0x80, 0x9f
        elif 0xe1 <= c <= 0xef:
            n, lo, hi = 2, 0x80, 0xbf
        elif c == 0xf0:
            n, lo, hi = 3, 0x90, 0xbf
        elif 0xf1 <= c <= 0xf3:
            n, lo, hi = 3, 0x80, 0xbf
        elif c == 0xf4:
            n, lo, hi = 3, 0x80, 0x8f
        else:
            return 0
        if i + n >= len(b) or not lo <= b[i + 1] <= hi:
            return 0
        for k in range(2, n + 1):
            if not 0x80 <= b[i + k] <= 0xbf:
                return 0
        i += n + 1
    return 1


def utf8(s, n):
    r = s.rng
    edge = [0, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbb, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xff]

    def add(x):
        s.add('utf8', [x], [o_utf8(x), 3 if x[:3] == b'\xef\xbb\xbf' else 0], 'utf-8 validation')
    for a in range(256):
        add(bytes([a]))
        for b in edge:
            add(bytes([a, b]))
    for a in edge:
        for b in edge:
            for c in (0x41, 0x7f, 0x80, 0xbf, 0xc0):
                add(bytes([a, b, c]))
                add(bytes([a, b, c, 0x80]))
    for _ in range(n):
        x = b''.join(r.choice([b'a', 'é'.encode(), '€'.encode(), '😀'.encode(), b'\xef\xbb\xbf', bytes([r.choice(edge)]), bytes([r.choice(edge), r.choice(edge)])]) for _ in range(r.randint(0, 6)))
        add(x)


# ---------------------------------------------------------------- error position
def o_pos(src, cur):
    line, pos, i, ls = 1, 1, 0, 0
    while i < len(src) and i < cur:
        two = src[i:i + 2]
        if two in (b'\r\n', b'\n\r'):
            i += 2
            line += 1
            pos = 1
            ls = i if i < len(src) else ls
        elif src[i:i + 1] in (b'\n', b'\r'):
            i += 1
            line += 1
            pos = 1
            ls = i if i < len(src) else ls
        else:
            i += 1
            pos += 1
    e = min([j for j in (src.find(b'\n', i), src.find(b'\r', i)) if j >= 0], default=len(src))
    return line, pos, src[ls:e] if e > ls else None


TYPES = {1: 'config-parser'}


def errpos(s, n):
    r = s.rng

    def chk(src, cur, msg):
        line, pos, text = o_pos(src, cur)

        def f(out):
            if len(out) != 2:
                return 'an error value'
            m = out[1]
            if m == msg:
                return None if text is None else 'the line is quoted'      # the line was empty
            pre = msg + b'\nError occurred near line %d, position %d: ' % (line, pos)
            if not m.startswith(pre):
                return repr(pre)
            if m[len(pre):] not in src:
                return 'the quoted text comes from the input'
            if text is not None and m[len(pre):] != text:
                return 'the quoted line is %r' % text
        return f
    for _ in range(n):
        src = rs(r, 20, [b'a', b'b', b'c', b'\n', b'\r', b'\r\n', b'x', b' '])
        cur = r.randint(0, len(src))
        s.add('errpos', [1, src, cur, b'msg'], chk(src, cur, b'msg'), 'error position')


def suite(fn, seed, n):
    s = Suite(drv(), seed)
    fn(s, n)
    return s
