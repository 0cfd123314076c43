"""Executable contract of the file and standard input readers (src/common/file.c, stdin.c)."""
import os
import shutil
import subprocess
import tempfile
from .suites_common import *

BOM = b'\xef\xbb\xbf'
CHUNK = 1024


def blob(r):
    n = r.choice([0, 1, 2, 3, 4, 5, 7, 100, CHUNK - 4, CHUNK - 3, CHUNK - 2, CHUNK - 1, CHUNK, CHUNK + 1, CHUNK + 2, CHUNK + 3, 2 * CHUNK - 1, 2 * CHUNK, 2 * CHUNK + 1, 3 * CHUNK + 5])
    kind = r.choice(['text', 'text', 'nul', 'bytes', 'wide', 'bom'])
    if kind == 'text':
        b = bytes(r.choice(b'abc \n') for _ in range(n))
    elif kind == 'nul':
        b = bytes(r.choice(b'ab\0\n') for _ in range(n))
    elif kind == 'bytes':
        b = bytes(r.randrange(256) for _ in range(n))
    elif kind == 'wide':
        b = b'a' * r.choice([0, 1, 2]) + b'\xe2\x82\xac' * (n // 3) + r.choice([b'', b'\xe2\x82', b'\xff', b'x'])
    else:
        b = BOM * (n // 3 + 1)
    if r.random() < .3:
        b = BOM + b
    if r.random() < .1:
        b = BOM[:r.randint(1, 2)] + b
    if r.random() < .15:
        b = b[:CHUNK] + BOM + b[CHUNK:]
    return b


def o_file(b, utf8):
    if utf8:
        if b[:3] == BOM:
            b = b[3:]
        try:
            b.decode('utf-8')
        except UnicodeDecodeError:
            return None
    return b


def files(seed, n):
    d = tempfile.mkdtemp(prefix='verif-file-')
    try:
        s = Suite(drv(), seed)
        r = s.rng
        for i in range(n):
            b = blob(r)
            p = os.path.join(d, 'f%d' % i)
            with open(p, 'wb') as f:
                f.write(b)
            for utf8 in (0, 1):
                w = o_file(b, utf8)

                def chk(out, w=w, b=b, p=p):
                    if w is None:
                        return None if isinstance(out[0], int) and b'not valid UTF-8' in out[1] and p.encode() in out[1] and out[-1] is None else 'the error that the content is not valid UTF-8, for the content %r' % b
                    return None if out[0] is None and out[1] == len(w) and out[2] == w else 'the %d bytes %r' % (len(w), w)
                s.add('file', [p, utf8], chk, 'content of a file')
        for p in (os.path.join(d, 'missing'), os.path.join(d, 'f0', 'x'), d):
            for utf8 in (0, 1):
                s.add('file', [p, utf8], lambda out, p=p: None if isinstance(out[0], int) and b'Failed to ' in out[1] and p.encode() in out[1] and out[-1] is None else 'the error that the file could not be read', 'unreadable file')
        bad = s.run()
        return {'cases': len(s.cases), 'bad': bad, 'samples': [{'cmd': 'file', 'size': os.path.getsize(os.path.join(d, 'f%d' % i))} for i in range(2)]}
    finally:
        shutil.rmtree(d)


def stdin(seed, n):
    exe = B.build('stdinread', 'common', 'stdinread.c')
    r = random.Random(seed)
    bad = []
    for i in range(n):
        b = blob(r)
        p = subprocess.run([exe], input=b, capture_output=True, env=B.ENV, timeout=120)
        want = b'%d:' % len(b) + b
        if p.returncode or p.stdout != want:
            bad.append({'what': 'standard input', 'args': [show(b)], 'got': repr((p.returncode, p.stdout[:200], p.stderr[:300])), 'expected': repr(want[:200])})
    return {'cases': n, 'bad': bad, 'samples': []}
