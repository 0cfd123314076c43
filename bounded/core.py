"""Bounded stand-in checks: run the real code (ASan+UBSan) against executable contracts."""
import os
import random
import subprocess
import time
from . import build as B


class Crash(Exception):
    pass


def enc(x):
    if x is None:
        return None
    if isinstance(x, bytes):
        return x
    if isinstance(x, str):
        return x.encode('utf-8', 'surrogateescape')
    return str(x).encode()


def req(cmd, args):
    parts = ['%s %d\n' % (cmd, len(args))]
    out = [parts[0].encode()]
    for a in args:
        a = enc(a)
        if a is None:
            out.append(b'-1 \n')
        else:
            out.append(b'%d ' % len(a) + a + b'\n')
    return b''.join(out)


def parse_out(b):
    """driver output -> list of bytes|None|int"""
    r, i = [], 0
    while i < len(b):
        c = b[i:i + 1]
        if c == b'~':
            r.append(None); i += 1
        elif c == b'#':
            j = b.index(b';', i)
            r.append(int(b[i + 1:j])); i = j + 1
        else:
            j = b.index(b':', i)
            n = int(b[i:j])
            r.append(b[j + 1:j + 1 + n]); i = j + 1 + n
    return r


class Driver:
    def __init__(self, exe, cwd=None):
        self.exe, self.cwd = exe, cwd

    def batch(self, reqs, timeout=300):
        """-> list of outputs; a Crash object in place of a case that killed the driver"""
        res = []
        i = 0
        ncrash = 0
        while i < len(reqs):
            data = b''.join(req(c, a) for c, a in reqs[i:])
            p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=B.ENV, cwd=self.cwd)
            try:
                o, e = p.communicate(data, timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                o, e = p.communicate()
                e = b'TIMEOUT ' + e
            k = 0
            pos = 0
            while pos < len(o):
                j = o.find(b'\n', pos)
                if j < 0:
                    break
                n = int(o[pos:j])
                if j + 1 + n + 1 > len(o):
                    break
                res.append(parse_out(o[j + 1:j + 1 + n]))
                pos = j + 1 + n + 1
                k += 1
            i += k
            if i < len(reqs):
                msg = e.decode(errors='replace')
                sig = [l for l in msg.split('\n') if 'ERROR' in l or 'runtime error' in l or 'SUMMARY' in l]
                res.append(Crash('; '.join(sig[:3]) or ('exit %s %s' % (p.returncode, msg[:300]))))
                i += 1
                ncrash += 1
                if ncrash > 20:
                    res.extend([Crash('not run')] * (len(reqs) - i))
                    break
        return res


class Suite:
    """collects cases: (description, cmd, args, expected|callable)"""

    def __init__(self, drv, seed=1):
        self.drv = drv
        self.cases = []
        self.rng = random.Random(seed)
        self.keys = set()

    def add(self, cmd, args, expect, what=None):
        args = tuple(enc(a) for a in args)
        k = (cmd, args)
        if k in self.keys:
            return
        self.keys.add(k)
        self.cases.append((cmd, args, expect, what))

    def run(self):
        res = self.drv.batch([(c, a) for c, a, _, _ in self.cases])
        bad = []
        for (cmd, args, expect, what), r in zip(self.cases, res):
            if isinstance(r, Crash):
                if str(r) == 'not run':
                    continue
                bad.append({'what': what or cmd, 'cmd': cmd, 'args': [show(a) for a in args], 'got': 'crash: %s' % r, 'expected': 'no crash'})
                continue
            if callable(expect):
                m = expect(r)
                if m:
                    m, key = m if isinstance(m, tuple) else (m, None)
                    bad.append({'what': what or cmd, 'key': key, 'cmd': cmd, 'args': [show(a) for a in args], 'got': repr(r)[:2000], 'expected': m})
            else:
                ex = [enc(x) if not isinstance(x, int) else x for x in expect]
                if ex != r:
                    bad.append({'what': what or cmd, 'cmd': cmd, 'args': [show(a) for a in args], 'got': repr(r)[:2000], 'expected': repr(ex)[:2000]})
        return bad


def show(a):
    return None if a is None else a.decode('latin-1')
