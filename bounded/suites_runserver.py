"""Executable contracts for src/blogc-runserver, on the functions and on the running server."""
import ctypes
import errno
import os
import shutil
import signal
import socket
import subprocess
import tempfile
import time
from .core import *
from .mime_table import MIME, INDEX
from .suites_common import rs

libc = ctypes.CDLL(None, use_errno=True)
libc.realpath.restype = ctypes.c_void_p
libc.free.argtypes = [ctypes.c_void_p]
libc.realpath.argtypes = [ctypes.c_char_p, ctypes.c_void_p]


def drv():
    return Driver(B.build('runserver', 'runserver', 'runserver.c'))


def o_hex(c):
    if 48 <= c <= 57:
        return c - 48
    if 97 <= c <= 102 or 65 <= c <= 70:
        return (c | 32) - 97 + 10
    return -1


def o_decode(s):
    """percent escapes and '+', then the C string it makes"""
    out, i = bytearray(), 0
    while i < len(s):
        if s[i] == 0x25 and i + 2 < len(s) and o_hex(s[i + 1]) >= 0 and o_hex(s[i + 2]) >= 0:
            out.append(o_hex(s[i + 1]) * 16 + o_hex(s[i + 2]))
            i += 3
            continue
        out.append(0x20 if s[i] == 0x2b else s[i])
        i += 1
    return bytes(out)


def cstr(b):
    return b.split(b'\0')[0]


def urldecode(s, n):
    r = s.rng
    for c in range(256):
        s.add('hextoi', [c if c < 128 else c - 256], [o_hex(c)], 'hex digit')
        s.add('urldecode', [b'%%%02x' % c], [cstr(o_decode(b'%%%02x' % c))], 'decode')
        s.add('urldecode', [b'a%%%02Xb' % c], [cstr(o_decode(b'a%%%02Xb' % c))], 'decode')
        if c:
            for x in (b'%' + bytes([c]) + b'1z', b'%1' + bytes([c]) + b'z', b'%' + bytes([c])):
                s.add('urldecode', [x], [cstr(o_decode(x))], 'decode')
    s.add('urldecode', [None], [None], 'decode')
    for _ in range(n):
        x = rs(r, 9, [b'%', b'%', b'%2', b'%2e', b'%2F', b'%00', b'%G0', b'%0g', b'+', b'a', b'4', b'1', b'F', b'f', b'/', b'.', b'\xc3', b'%c3%a9', b'?', b'%25', b'%ff'])
        e = cstr(o_decode(x))
        s.add('urldecode', [x], [e if e or x else None if False else e], 'decode')


def readline(s, n):
    r = s.rng
    for L in (0, 1, 2046, 2047, 2048, 2049, 4095, 4096, 4097, 6144):
        for tail in (b'', b'\r\n', b'\nrest', b'\0x', b'\r\n' + b'h' * 3000):
            x = b'a' * L + tail
            s.add('readline', [x], [_line(x)], 'request line')
    for _ in range(n // 4):
        x = rs(r, 12, [b'GET', b' ', b'/', b'\r\n', b'\n', b'\r', b'\0', b'\xff', b'x' * 500, b'y' * 2048, b'\x80'])
        s.add('readline', [x], [_line(x)], 'request line')


def _line(x):
    for i, c in enumerate(x):
        if c in (0, 10, 13):
            return x[:i]
    return x


def o_ext(f):
    i = len(f)
    while i > 0:
        c = f[i:i + 1]
        if c == b'.':
            return f[i + 1:]
        if c in (b'/', b'\\'):
            return None
        i -= 1
    return None


def o_mime(f):
    e = o_ext(f)
    return MIME.get((e or b'').decode('latin-1'), 'application/octet-stream').encode()


def mime(s, n):
    r = s.rng
    exts = [e.encode() for e in MIME]
    for e in exts:
        for x in (b'a.' + e, b'/d.x/f.' + e, b'f.' + e.upper(), b'f.' + e + b'x', b'f.' + e[:-1], b'.' + e, b'/.' + e, b'f.' + e + b'/g', b'f.tar.' + e, b'f.' + e + b'.', b'f' + e, b'f.html.' + e):
            s.add('ext', [x], [o_ext(x)], 'extension')
            s.add('mime', [x], [o_mime(x)], 'content type')
    for _ in range(n):
        x = rs(r, 6, [b'.', b'/', b'\\', b'a', b'html', b'txt', b'.css', b' ', b'\xff', b'.7z', b'..', b'.htm', b'.3gp', b'.jar'])
        s.add('ext', [x], [o_ext(x)], 'extension')
        s.add('mime', [x], [o_mime(x)], 'content type')


def realpath(p):
    ctypes.set_errno(0)
    q = libc.realpath(p, None)
    if not q:
        return None, ctypes.get_errno()
    v = ctypes.string_at(q)
    libc.free(q)
    return v, 0


def o_split(s, n):
    return s.split(b' ', n - 1) if s else []


REASON = {400: 'Bad Request', 403: 'Forbidden', 404: 'Not Found', 405: 'Method Not Allowed', 500: 'Internal Server Error'}


def o_error(code):
    m = REASON[code].encode()
    return (b'HTTP/1.0 %d %s\r\nContent-Type: text/html\r\nContent-Length: %d\r\nConnection: close\r\n\r\n<h1>%s</h1>\n' % (code, m, len(m) + 10, m))


def inside(root, p):
    return p == root or p.startswith(root.rstrip(b'/') + b'/')


def o_request(root, raw):
    """the response blogc-runserver owes to a request, for a document root"""
    line = _line(raw)
    if not line:
        return b''
    pieces = o_split(line, 3)
    if len(pieces) != 3:
        return o_error(400)
    if pieces[0] != b'GET':
        return o_error(405)
    target = pieces[1].split(b'?', 1)[0]
    if not pieces[1]:
        return o_error(400)
    path = cstr(o_decode(target))
    rp, e = realpath(root + b'/' + path)
    if rp is None:
        return o_error(404 if e == errno.ENOENT else 500)
    rr, _ = realpath(root)
    if rr is None:
        return o_error(500)
    if not inside(rr, rp):
        return o_error(404)
    slash = False
    if os.path.isdir(rp):
        for i in INDEX:
            if os.path.exists(rp + b'/' + i.encode()):
                break
        else:
            return o_error(403)
        slash = len(path) > 0 and not path.endswith(b'/')
        rp, e = realpath(rp + b'/' + i.encode())
        if rp is None or not inside(rr, rp):
            return o_error(404)
    if slash:
        return b'HTTP/1.0 302 Found\r\nLocation: %s/\r\nContent-Length: 0\r\nConnection: close\r\n\r\n' % path
    if os.path.isdir(rp):
        return o_error(500)
    body = open(rp, 'rb').read()
    return b'HTTP/1.0 200 OK\r\nContent-Type: %s\r\nContent-Length: %d\r\nConnection: close\r\n\r\n' % (o_mime(rp), len(body)) + body


def site(base):
    w = os.path.join(base, 'w')
    root = os.path.join(w, 'site')
    for d in ('', 'sub', 'sub/deep', 'empty', 'noindex', 'dir with space', 'link-index', 'dir.html', 'multi', 'sub/..x', 'badlink', 'idxdir', 'idxdir/index.html'):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for d in ('site-private', 'sitex', 'outside'):
        os.makedirs(os.path.join(w, d), exist_ok=True)
        for f in ('secret.txt', 'index.html'):
            open(os.path.join(w, d, f), 'w').write('SECRET %s %s\n' % (d, f))
    open(os.path.join(w, 'secret.txt'), 'w').write('SECRET top\n')
    files = {'index.html': b'<p>home</p>\n', 'a.css': b'b{}', 'nl.txt': b'', 'bin.bin': bytes(range(256)) * 9, 'sub/index.html': b'sub', 'sub/deep/index.txt': b'deep', 'noindex/x.txt': b'x',
             'dir with space/index.htm': b'sp', 'noext': b'noext', 'multi/index.txt': b't', 'multi/index.html': b'h', 'multi/index.xml': b'x', 'a+b.txt': b'plus', 'a b.txt': b'space', '100%.txt': b'pc',
             'utf\u00e9.html': b'u8', 'sub/a.tar.gz': b'tgz', 'q?x.txt': b'q', 'big.json': b'0123456789' * 9000, 'sub/..x/f.js': b'js', 'UP.HTML': b'up', 'x%41.txt': b'lit', 'xA.txt': b'dec', 'index.htm': b'second'}
    for f, c in files.items():
        open(os.path.join(root, f), 'wb').write(c)
    os.symlink('../../outside/index.html', os.path.join(root, 'link-index', 'index.html'))
    os.symlink('../outside', os.path.join(root, 'link-out'))
    os.symlink('../site-private', os.path.join(root, 'link-sib'))
    os.symlink('sub', os.path.join(root, 'link-in'))
    os.symlink('a.css', os.path.join(root, 'style.txt'))
    os.symlink('../secret.txt', os.path.join(root, 'link-file.txt'))
    os.symlink('nowhere', os.path.join(root, 'badlink', 'index.html'))
    os.symlink('loop2', os.path.join(root, 'loop1'))
    os.symlink('loop1', os.path.join(root, 'loop2'))
    os.symlink('site', os.path.join(w, 'siteln'))
    return w, root, list(files)


class Server:
    def __init__(self, exe, root, port, threads=4):
        self.port = port
        self.err = tempfile.TemporaryFile()
        # a cap on address space is not possible under ASan; the server only reads the scratch folder
        self.p = subprocess.Popen([exe, '-t', '127.0.0.1', '-p', str(port), '-m', str(threads), root], stdout=subprocess.DEVNULL, stderr=self.err, env=B.ENV, start_new_session=True)

    def wait(self):
        for _ in range(200):
            try:
                c = socket.create_connection(('127.0.0.1', self.port), timeout=5)
                c.close()
                return True
            except OSError:
                if self.p.poll() is not None:
                    return False
                time.sleep(0.05)
        return False

    def ask(self, raw, timeout=20):
        c = socket.create_connection(('127.0.0.1', self.port), timeout=timeout)
        try:
            c.sendall(raw)
            c.shutdown(socket.SHUT_WR)
            out = b''
            while True:
                d = c.recv(65536)
                if not d:
                    return out
                out += d
        finally:
            c.close()

    def stop(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        self.err.seek(0)
        return self.err.read().decode(errors='replace')


def free_port():
    s = socket.socket()
    s.bind(('127.0.0.1', 0))
    p = s.getsockname()[1]
    s.close()
    return p


def enc_path(r, p):
    out = b''
    for c in p:
        k = r.random()
        if k < 0.12:
            out += (b'%%%02x' if r.random() < .5 else b'%%%02X') % c
        elif c == 0x20:
            out += r.choice([b'+', b'%20'])
        elif c in b'+?%':
            out += b'%%%02x' % c
        else:
            out += bytes([c])
    return out


def requests(r, files, n):
    R = []

    def get(p):
        R.append(b'GET ' + p + b' HTTP/1.1\r\nHost: x\r\n\r\n')
    segs = [b'sub', b'deep', b'..', b'.', b'', b'empty', b'noindex', b'multi', b'link-out', b'link-in', b'link-sib', b'link-index', b'index.html', b'secret.txt', b'outside', b'site-private', b'sitex', b'site', b'..x', b'f.js', b'noext', b'a.css', b'dir with space', b'badlink', b'loop1', b'dir.html', b'idxdir', b'style.txt', b'link-file.txt']
    fixed = [b'/', b'', b'//', b'/sub', b'/sub/', b'/sub/deep', b'/sub/deep/', b'/../secret.txt', b'/%2e%2e/secret.txt', b'/..%2fsecret.txt', b'/../site-private/secret.txt', b'/../site-private', b'/../site-private/', b'/../sitex/secret.txt',
             b'/../site', b'/../site/', b'/../site/a.css', b'/../siteln/a.css', b'/..', b'/../', b'/../..', b'/link-out', b'/link-out/secret.txt', b'/link-sib/secret.txt', b'/link-sib/', b'/link-in', b'/link-in/', b'/link-index', b'/link-index/', b'/link-file.txt', b'/style.txt', b'/nope', b'/a.css/', b'/a.css/..',
             b'/empty', b'/empty/', b'/loop1', b'/badlink/', b'/idxdir/', b'/idxdir', b'/multi', b'/multi/', b'/?x', b'/a.css?x=y?z', b'?x', b'/a.css%3fx', b'/a+b.txt', b'/a%2bb.txt', b'/a%20b.txt', b'/a%', b'/100%25.txt', b'/100%.txt', b'/a.css%00', b'/a.css%00.txt', b'/%00', b'/x%41.txt', b'/x%2541.txt', b'/UP.HTML', b'/nl.txt', b'/big.json', b'/bin.bin', b'a.css', b'../secret.txt', b'../site-private/secret.txt', b'..', b'/' + b'a' * 3000, b'/' + b'a' * 300, b'/' + b'./' * 400 + b'a.css', b'/sub/../a.css', b'/sub//../a.css', b'/nope/../a.css', b'/sub/..x/f.js', b'/q?x.txt', b'/q%3fx.txt', b'/%c3%a9', b'/utf%c3%a9.html', 'utf\u00e9.html'.encode(), b'/%2e/a.css', b'/dir+with+space', b'/dir%20with%20space/']
    for p in fixed:
        get(p)
    for f in files:
        get(b'/' + enc_path(r, f.encode()))
    for _ in range(n):
        p = b'/' + b'/'.join(r.choice(segs) for _ in range(r.randint(1, 5)))
        get(enc_path(r, p) if r.random() < .6 else p.replace(b' ', b'+'))
    R += [b'', b'\r\n', b'GET', b'GET /', b'GET / ', b'GET  / HTTP/1.0', b' GET / HTTP/1.0', b'GET / HTTP/1.0', b'GET / HTTP/1.0\n', b'GET /a.css HTTP/1.0 extra words\r\n', b'POST / HTTP/1.1\r\n\r\n', b'HEAD / HTTP/1.1\r\n\r\n', b'get / HTTP/1.1\r\n\r\n', b'GET\t/ HTTP/1.1\r\n', b'\0GET / x', b'GET /\0 HTTP/1.0\r\n', b'GET /a.css x\0', b'GETX / y\r\n', b'GE / y\r\n', b'GET  \r\n', b'  \r\n', b'   \r\n', b'\xff\xfe / x\r\n', b'GET /' + b'a' * 2038 + b' H\r\n', b'GET /' + b'./' * 1500 + b'a.css H\r\n', b'GET / H\r\n' + b'X: y\r\n' * 1000]
    return R


def server(seed, n):
    """run the real server on the loopback interface, with a scratch document root"""
    r = random.Random(seed)
    exe = B.build('blogc-runserver', 'runserver', main=True)
    base = tempfile.mkdtemp(prefix='vsite')
    bad, cases = [], 0
    try:
        w, root, files = site(base)
        R = requests(r, files, n)
        roots = [(root, R), (root + '/', R[:40]), (os.path.join(w, 'siteln'), R[:90]), (os.path.join(w, 'sitex', '..', 'site', '.'), R[:40])]
        for ri, (rt, reqs) in enumerate(roots):
            sv = None
            for raw in reqs:
                if sv is None:
                    for _ in range(3):
                        sv = Server(exe, rt, free_port())
                        if sv.wait():
                            break
                        msg = sv.stop()
                        sv = None
                    if sv is None:
                        raise RuntimeError('the server does not start: ' + msg[-300:])
                exp = o_request(rt.encode(), raw)
                cases += 1
                try:
                    got = sv.ask(raw)
                    fail = None
                except OSError as x:
                    got, fail = b'', 'no answer (%s)' % x
                if fail is None and got == exp and sv.p.poll() is None:
                    continue
                time.sleep(0.3)
                if got == b'' and sv.p.poll() is None and exp != b'':
                    # a worker may be gone with the process still ending
                    time.sleep(1)
                if fail or sv.p.poll() is not None:
                    msg = sv.stop()
                    sv = None
                    sig = [l for l in msg.split('\n') if 'ERROR' in l or 'runtime error' in l]
                    fail = (fail or 'the server stopped') + ': ' + '; '.join(sig[:2])
                leak = [x for x in (b'SECRET',) if x in got]
                bad.append({'what': 'HTTP request' + (' (content from outside the document root)' if leak else ''), 'cmd': 'server', 'args': ['root=' + os.path.relpath(rt, base), show(raw[:300])],
                            'got': fail or show(got[:600]), 'expected': show(exp[:600]), 'key': 'http'})
                if len(bad) > 12:
                    break
            if sv is not None:
                sv.stop()
        samples = [{'cmd': 'server', 'args': [show(x[:80])]} for x in R[:3]]
        return {'cases': cases, 'bad': bad, 'samples': samples}
    finally:
        shutil.rmtree(base, ignore_errors=True)


def split_requests(seed, n):
    """request lines that arrive in two parts: every full answer is right; an answer to the first part alone is the known finding"""
    r = random.Random(seed)
    exe = B.build('blogc-runserver', 'runserver', main=True)
    base = tempfile.mkdtemp(prefix='vsite')
    bad, cases, sv = [], 0, None
    try:
        w, root, files = site(base)
        for _ in range(3):
            sv = Server(exe, root, free_port())
            if sv.wait():
                break
            sv.stop()
            sv = None
        if sv is None:
            raise RuntimeError('the server does not start')
        for i in range(n):
            raw = b'GET /' + enc_path(r, r.choice(files).encode()) + b' HTTP/1.1\r\n\r\n'
            k = r.randint(1, raw.index(b'\r') - 1)
            cases += 1
            c = socket.create_connection(('127.0.0.1', sv.port), timeout=20)
            got = b''
            try:
                c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                c.sendall(raw[:k])
                time.sleep(0.2)
                try:
                    c.sendall(raw[k:])
                    c.shutdown(socket.SHUT_WR)
                except OSError:
                    pass
                while True:
                    d = c.recv(65536)
                    if not d:
                        break
                    got += d
            except OSError:
                pass
            finally:
                c.close()
            exp = o_request(root.encode(), raw)
            if got != exp:
                part = o_request(root.encode(), raw[:k])
                dead = sv.p.poll() is not None
                bad.append({'what': 'HTTP request line in two parts', 'cmd': 'server', 'args': [show(raw[:k]), show(raw[k:])], 'got': 'the server stopped' if dead else show(got[:300]), 'expected': show(exp[:300]),
                            'key': 'split-request-line' if not dead and part.startswith(got) else 'http'})
                if dead:
                    break
        return {'cases': cases, 'bad': bad, 'samples': []}
    finally:
        if sv is not None:
            sv.stop()
        shutil.rmtree(base, ignore_errors=True)
