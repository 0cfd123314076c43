"""Executable contracts for src/blogc-git-receiver."""
import os
import random
import shutil
import stat
import subprocess
import tempfile
from .core import *
from .suites_common import rs, sh_words


def drv():
    return Driver(B.build('git', 'git', 'git.c'))


CMDS = [b'git-receive-pack', b'git-upload-pack', b'git-upload-archive']


def o_command(s):
    """the repository a forced command names, or None when it is not acceptable"""
    cmd, sp, rest = s.partition(b' ')
    if not sp or cmd not in CMDS:
        return None
    out, i, n = bytearray(), 0, len(rest)
    while i < n:
        if rest[i] == 0x27:
            j = rest.find(b"'", i + 1)
            if j < 0:
                return None
            p = rest[i + 1:j]
            if not out and p[:1] == b'/':
                p = p[1:]
            out += p
            i = j + 1
        elif rest[i] == 0x5c:
            if i + 1 >= n or rest[i + 1] not in b"!'":
                return None
            out.append(rest[i + 1])
            i += 2
        else:
            return None
    if not out or b'..' in bytes(out).split(b'/'):
        return None
    return bytes(out)


def command(s, n):
    r = s.rng

    def add(x):
        s.add('command', [x], [o_command(x)], 'forced command')
        e = o_command(x)
        if e is not None:      # and it is what a shell reads (minus leading slashes)
            w = sh_words(x.partition(b' ')[2])
            assert w is not None and len(w) == 1 and w[0].lstrip(b'/') == e.lstrip(b'/'), (x, w, e)
    for c in CMDS + [b'git-receive-pac', b'git-upload-pack2', b'git', b'', b'git-upload-archiv', b'sh', b'git-receive-packX', b'Git-upload-pack', b'git upload-pack', b'git-upload-archive\t', b'xgit-upload-pack']:
        for a in (b'', b' ', b" ''", b" 'a'", b" 'a", b" a", b" 'a' ", b"  'a'", b" 'a'b", b" 'a'\\''b'", b" 'a'\\!'b'", b" 'a'\\x'b'", b" 'a'\\", b" '/a'", b" '//a'", b" ''/a", b" '''/a'", b" '../a'", b" 'a/../b'", b" '..'", b" 'a/..'", b" '...'", b" 'a..b/c'", b" '.'\\''./a'", b" '.''./a'", b" '/../a'", b" '\xff\xfe'", b" 'a;b'", b" \"a\"", b" '$(id)'", b" \\'", b" \\!\\'", b" '/'", b" '/''/a'", b";id 'a'", b" 'a'\n", b" 'a b'", b" '.''.'"):
            add(c + a)
    for _ in range(n):
        add(r.choice(CMDS + [b'git-x']) + b' ' + rs(r, 9, [b"'", b"'", b"'", b'\\', b"\\'", b'\\!', b'!', b'a', b'.', b'..', b'/', b' ', b'\xff', b'repo.git', b'-']))


def o_refs(b):
    """branch -> new id, from complete lines 'old new ref\\n' (fields of at least one byte)"""
    d, i, n = {}, 0, len(b)
    while True:
        p1 = b.find(b' ', i + 1)
        if i >= n or p1 < 0:
            return d
        p2 = b.find(b' ', p1 + 2)
        if p1 + 1 >= n or p2 < 0:
            return d
        p3 = b.find(b'\n', p2 + 2)
        if p2 + 1 >= n or p3 < 0:
            return d
        ref = b[p2 + 1:p3]
        if ref.startswith(b'refs/heads/') and len(ref) > 11:
            d[ref[11:]] = b[p1 + 1:p2]
        i = p3 + 1


def refs(s, n):
    r = s.rng

    def chk(x):
        d = o_refs(x)

        def f(out):
            if not d:
                return None if out == [None] else 'no branch'
            if len(out) < 2 or out[0] != len(d) or out[-1] != len(d) or dict(zip(out[1:-1:2], out[2:-1:2])) != d:
                return repr(d)
        return f

    def add(x):
        x = x.replace(b'\0', b'x')
        s.add('refs', [x], chk(x), 'ref list')
    h = [b'0' * 40, b'a' * 40, b'1234', b'f']
    names = [b'refs/heads/master', b'refs/heads/main', b'refs/heads/a', b'refs/heads/', b'refs/tags/v1', b'refs/heads/a/b', b'refs/heads', b'refs/heads/master2', b'refs/heads/m', b'refs/Heads/x', b'refs/heads/x y', b'refs/heads/\xc3\xa9', b'xrefs/heads/q']
    for nm in names:
        for t in (b'', b'\n', b'\r\n', b' \n'):
            add(b'o n ' + nm + t)
            add(h[0] + b' ' + h[1] + b' ' + nm + t + b'x y refs/heads/z\n')
    for _ in range(n):
        x = b''
        for _ in range(r.randint(0, 5)):
            x += r.choice(h) + b' ' + r.choice(h) + b' ' + r.choice(names) + r.choice([b'\n', b'\n', b'\n', b'\n', b'', b' \n', b'\n\n', b'\r\n'])
        if r.random() < .4 and x:
            i = r.randrange(len(x))
            x = x[:i] + r.choice([b'', b' ', b'\n', b'x']) + x[i + 1:]
        if r.random() < .2 and x:
            x = x[:r.randrange(len(x))]
        add(x)


# ---------------------------------------------------------------- the program, in a scratch home
def sh(path, text):
    open(path, 'w').write(text)
    os.chmod(path, 0o755)


def tree(d):
    out = {}
    for b, ds, fs in os.walk(d):
        for x in ds + fs:
            p = os.path.join(b, x)
            r = os.path.relpath(p, d)
            out[r] = 'L' + os.readlink(p) if os.path.islink(p) else ('D' if os.path.isdir(p) else open(p, 'rb').read().decode('latin-1'))
    return out


def shell(seed, n):
    """blogc-git-receiver -c COMMAND with recording stand-ins for git and git-shell, in a scratch home"""
    r = random.Random(seed)
    exe = B.build('blogc-git-receiver', 'git', main=True)
    base = tempfile.mkdtemp(prefix='vgit')
    bad, cases = [], 0
    cmds = [b"git-receive-pack 'a.git'", b"git-receive-pack '/a.git'", b"git-upload-pack 'a.git'", b"git-upload-archive 'a.git'", b"git-receive-pack '../a.git'", b"git-receive-pack 'x/../../../a'", b"git-receive-pack 'sp ace.git'", b"git-receive-pack 'q'\\''q.git'", b"git-receive-pack 'e'\\!'.git'", b"git-receive-pack '$(touch pwned)'", b"git-receive-pack '`touch pwned`;touch pwned'", b"git-receive-pack 'a", b"git-receive-pack a", b"sh -c id", b"", b"git-receive-pack ''", b"git-receive-pack '..'", b"git-upload-pack '..'", b"git-upload-pack '../../x'", b"git-receive-pack 'new\nline'", b"git-upload-pack 'x" + b'y' * 5000 + b"'", b"git-upload-pack '\"$(touch pwned)\"'"]
    for _ in range(n):
        cmds.append(r.choice(CMDS) + b' ' + rs(r, 7, [b"'", b"'", b"\\'", b'\\!', b'a', b'..', b'/', b' ', b'$(touch pwned)', b';touch pwned;', b'repo.git', b'-', b'\n', b'*']))
    try:
        for c in cmds:
            home = os.path.join(base, *'abcdefghijkl', 'home')       # deep: a few '..' stay inside the scratch folder
            shutil.rmtree(os.path.join(base, 'a'), ignore_errors=True)
            os.makedirs(os.path.join(home, 'repos'))
            os.makedirs(os.path.join(home, 'bin'))
            os.makedirs(os.path.join(base, 'log'), exist_ok=True)
            log = os.path.join(base, 'log', 'l')
            if os.path.exists(log):
                os.unlink(log)
            # stand-ins: record the arguments, one NUL-terminated word each; git init makes the folder
            sh(os.path.join(home, 'bin', 'git'), '#!/bin/sh\nprintf "git\\0" >> %s\nprintf "%%s\\0" "$@" >> %s\nif [ "$1" = init ]; then case "$3" in %s/*) mkdir -p "$3" ;; esac; fi\n' % (log, log, home))
            sh(os.path.join(home, 'bin', 'git-shell'), '#!/bin/sh\nprintf "git-shell\\0" >> %s\nprintf "%%s\\0" "$@" >> %s\n' % (log, log))
            env = dict(B.ENV, HOME=home, SHELL=exe, PATH=os.path.join(home, 'bin') + ':/usr/bin:/bin')
            env.pop('BLOGC_GIT_RECEIVER_BASE_DIR', None)
            env.pop('__VALGRIND_ENABLED', None)
            p = subprocess.run([exe.encode(), b'-c', c], env=env, cwd=home, capture_output=True, timeout=60)
            cases += 1
            got = open(log, 'rb').read().split(b'\0')[:-1] if os.path.exists(log) else []
            t = tree(home)
            repo = o_command(c)
            m = None
            if p.returncode == 77 or p.returncode < 0:
                m = 'crash: ' + p.stderr.decode(errors='replace')[:400]
            elif any('pwned' in k.split('/')[-1:] or k.endswith('/pwned') for k in t if not k.startswith('repos/')) or os.path.exists('pwned'):
                m = 'a command inside the repository name was run'
            elif repo is None:
                if got or p.returncode == 0:
                    m = 'refused; it ran %r with status %d' % (got, p.returncode)
            else:
                path = home.encode() + b'/repos/' + repo
                exp = []
                up = c.startswith(b'git-upload-')
                isd = repo.strip(b'/.') != b''
                if not up and not os.path.normpath(path) == home.encode() + b'/repos':
                    exp = [b'git', b'init', b'--bare', path]
                gs = [x for i, x in enumerate(got) if i >= len(exp)]
                word = got[got.index(b'git-shell') + 1:] if b'git-shell' in got else None
                if exp and got[:4] != exp:
                    m = 'git init --bare on %r; ran %r' % (path, got)
                elif word is None:
                    if len(path) < 3900 and p.returncode == 0:
                        m = 'git-shell run on the repository; ran %r' % got
                elif len(word) != 2 or word[0] != b'-c' or sh_words(word[1]) != [c.split(b' ')[0], path]:
                    m = 'git-shell -c with the command and the quoted path %r; ran %r' % (path, word)
                elif not up and isd and os.path.isdir(path):
                    for h in ('pre-receive', 'post-receive'):
                        if t.get('repos/' + os.path.normpath(repo.decode('latin-1')) + '/hooks/' + h, 'L' + exe) != 'L' + exe:
                            m = 'hook %s points to the receiver' % h
            if m:
                bad.append({'what': 'blogc-git-receiver -c', 'cmd': 'shell', 'args': [show(c)], 'got': '%r status %d %s' % (got, p.returncode, p.stderr[-200:]), 'expected': m})
        return {'cases': cases, 'bad': bad, 'samples': [{'cmd': 'shell', 'args': [show(c)]} for c in cmds[:3]]}
    finally:
        shutil.rmtree(base, ignore_errors=True)
