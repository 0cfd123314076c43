"""Executable contract of the INI configuration parser (src/common/config-parser.c)."""
from .suites_common import *

SP = b' \t\n\r\x0b\x0c'
VAL = [b'a', b'b', b'foo', b'1', b' ', b'\t', b'\\', b'"', b'=', b'#', b';', b'[', b']', b'\xc3\xa9', b'%s', b'\x0b', b'\x0c', b"'", b'$', b',']


def word(r, n, alpha):
    return b''.join(r.choice(alpha) for _ in range(r.randint(0, n)))


def quoted(r, v):
    """v between double quotes, with the escapes it needs and some it does not"""
    out = b''
    for c in v:
        ch = bytes([c])
        out += b'\\' + ch if ch in b'"\\' or r.random() < .05 else ch
    return b'"' + out + b'"'


def plain(r, v):
    out = b''
    for i, c in enumerate(v):
        ch = bytes([c])
        need = ch == b'\\' or ch in b'\r\n' or (i == 0 and ch in b'" \t\x0b\x0c')
        out += b'\\' + ch if need or r.random() < .05 else ch
    return out


def blank(r, eol):
    return b''.join(r.choice([b'', b'  ', b'\t']) + r.choice([b'', b'#', b'; [x]', b'# a = b', b';;"']) + eol for _ in range(r.choice([0, 0, 0, 1, 2])))


def config(s, n):
    r = s.rng
    for _ in range(n):
        eol = r.choice([b'\n', b'\n', b'\r\n', b'\r'])
        pool = [b'global', b'settings', b's', b'posts', b'tags', b'S', b'a b', b'']
        lists = r.sample([b'posts', b'tags', b'copy', b's'], r.randint(0, 3))
        text, want, err = blank(r, eol), {}, None
        if r.random() < .04:
            text += r.choice([b'a=b', b'foo', b'"x"', b'=']) + r.choice([b'', eol])
            err = b'File must start with section.'
        k = r.randint(0, 4)
        last = False
        for i in range(k if err is None else 0):
            name = r.choice(pool) or word(r, 4, [b'x', b'-', b'[', b'"', b'#', b' ', b'=', b'\\']) or b'z'
            ind = r.choice([b'', b'', b' ', b'\t'])
            if r.random() < .02:
                text += ind + b'[' + r.choice([b'ab', b'', b'x']) + eol + b'c]' + eol
                err = b"Section names can't have new lines."
                break
            text += ind + b'[' + name + b']' + r.choice([b'', b'', eol, b' ' + eol, eol])
            islist = name in lists
            cur = want[name] = [] if islist else {}
            m = r.randint(0, 4)
            for j in range(m):
                if not (text.endswith(b'\n') or text.endswith(b'\r')):
                    text += eol
                text += blank(r, eol)
                v = word(r, 6, VAL)
                q = r.random() < .4
                if q and r.random() < .1:
                    v += b'\n'
                final = i == k - 1 and j == m - 1 and r.random() < .6      # the file ends with this entry
                key = word(r, 4, [b'a', b'B', b'_', b' ', b'k', b'\\', b'"', b'#', b']', b'.']).strip(SP)
                if key[:1] in (b'#', b';', b'['):
                    key = b'k' + key
                bad = r.random() < .03
                if islist:
                    if q:
                        body, val = quoted(r, v), v
                    else:
                        if not v.strip(SP) or v[:1] in b'#;[ \t\x0b\x0c':
                            v = b'i' + v
                        body, val = plain(r, v), v.strip(SP)
                    pre = b' ' * r.choice([0, 0, 1, 3])
                    line = pre + body
                else:
                    if q:
                        body, val = quoted(r, v), v
                    else:
                        body, val = plain(r, v), v.rstrip(SP)
                    line = r.choice([b'', b' ', b'\t']) + key + r.choice([b'', b' ', b'\t ']) + b'=' + r.choice([b'', b' ', b'\t', b' \x0b\x0c']) + body
                    if not key:
                        line = line.lstrip(b' \t')
                if not islist and bad and r.random() < .5 and key and b'=' not in key:
                    text += key + (b'' if final else eol)
                    err = b'Key without value: ' + key
                    break
                if q and bad:
                    if r.random() < .5:
                        text += line + r.choice([b'x', b' x', b'"', b'# c']) + (b'' if final else eol)
                        err = b'should not have anything after quotes'
                        if text.endswith(b'x') or True:
                            break
                    else:
                        text += line[:-1]
                        err = b'Missing closing quote.'
                        # nothing after it closes the quote
                        break
                (cur.append(val) if islist else cur.__setitem__(key, val))
                if q:
                    line += r.choice([b'', b'', b' ', b'\t\x0b'])
                elif b'' == b'' and r.random() < .2 and not line.endswith(b'\\') and not islist:
                    line += b' ' if line[-1:] not in (b'=',) else b''
                text += line + (b'' if final else eol)
                last = final
            if err:
                break
            if not last and not (text.endswith(b'\n') or text.endswith(b'\r')) and i < k - 1:
                text += r.choice([eol, b'', eol]) if not m else b''
        if r.random() < .2 and err is None and not last:
            text += blank(r, eol)

        def chk(out, want=want, err=err, lists=lists):
            if err is not None:
                return None if isinstance(out[0], int) and out[1] is not None and err in out[1] else 'the error %r' % err
            if out[0] is not None:
                return 'no error, %r' % want
            try:
                p = 1
                n = out[p]; p += 1
                secs = out[p:p + n]; p += n
                got = {}
                for sec in secs:
                    m = out[p]; p += 1
                    if m is None:
                        ks = None
                    else:
                        ks = out[p:p + m]; p += m
                        vals = out[p:p + m]; p += m
                    l = out[p]; p += 1
                    if l is not None:
                        items = out[p:p + l]; p += l
                    if (ks is None) == (l is None):
                        return 'section %r to be either a map or a list' % sec
                    if sec in got:
                        return 'section %r listed once' % sec
                    got[sec] = items if ks is None else dict(zip(ks, vals))
                    if ks is not None and len(set(ks)) != len(ks):
                        return 'every key once'
            except (IndexError, TypeError, ValueError):
                return 'well-formed output for %r' % want
            return None if got == want and out[p:] == [None, b'dflt'] else '%r' % want
        s.add('config', [text] + lists, chk, 'configuration')


def fuzz_config(s, n):
    """any bytes: no fault, and an error or a configuration, never both"""
    r = s.rng
    frag = [b'[', b']', b'[s]\n', b'[l]\n', b'=', b'a', b'k=v', b'\n', b'\r', b'\\', b'"', b' ', b'#', b';', b'\0', b'\xff', b'\x0c']
    for _ in range(n):
        t = b''.join(r.choice(frag) for _ in range(r.randint(0, 14)))

        def chk(out):
            if isinstance(out[0], int):
                return None if out[2:] == [None] or out[-1] is None else 'no configuration with an error'
            return None if out[-1] == b'dflt' else 'a configuration without an error'
        s.add('config', [t] + r.choice([[], [b'l']]), chk, 'any bytes')
