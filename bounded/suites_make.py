"""Executable contracts for src/blogc-make."""
import os
import random
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from .core import *
from .suites_common import rs, sh_words, ALPHA

WRAP = tuple('-Wl,--wrap=' + f for f in 'unlink rmdir remove rename read write system'.split())
SCRATCH = None


def drv():
    return Driver(B.build('make', 'make', 'make.c', defs=('-U_FORTIFY_SOURCE',), libs=('-lpthread', '-lm') + WRAP))


# ---------------------------------------------------------------- file names
def o_gen(d, g, p, f, e):
    g, p, f, e = g or b'', p or b'', f or b'', e or b''
    if not (g or p or f or e):
        return None
    out = d or b''
    if g:
        out += b'/' + g
    slash = e[:1] == b'/'
    if f == b'index' and slash and not p:
        return out + e
    if p or f or (e and not slash):
        out += b'/'
    out += p
    if f:
        if p and f[:1] != b'/':
            out += b'/'
        out += f
    elif e and not slash and not p:
        out += b'index'
    return out + e


def o_gen2(d, g, p, f, p2, f2, e):
    return o_gen(d, g, b'/'.join(x for x in (p or b'', f or b'', p2 or b'') if x), f2, e)


def names(s, n):
    r = s.rng
    D = [None, b'', b'_build', b'/tmp/out', b'a b']
    G = [None, b'', b'blog', b'a/b', b'%s']
    P_ = [None, b'', b'post', b'tag', b'page', b'x/y', b'/p']
    F = [None, b'', b'index', b'foo', b'/index', b'/foo', b'indexx', b'inde', b'1', b'\xc3\xa9', b'%d']
    E = [None, b'', b'/index.html', b'.html', b'/', b'.', b'html', b'.xml']
    for d in D[:3]:
        for g in G[:3]:
            for p in P_[:4]:
                for f in F[:8]:
                    for e in E:
                        s.add('gen', [d, g, p, f, e], [o_gen(d, g, p, f, e)], 'output name')
    for _ in range(4 * n):
        a = [r.choice(x + [rs(r, 5)]) for x in (D, G, P_, F, E)]
        s.add('gen', a, [o_gen(*a)], 'output name')
        a = [r.choice(x + [rs(r, 5)]) for x in (D, G, P_, F, P_, F, E)]
        s.add('gen2', a, [o_gen2(*a)], 'output name of a tag page')
    for _ in range(n // 4):
        p = r.choice([b'', b'/', b'//', b'.', b'..']) + rs(r, 8)
        cwd = r.choice([b'/', b'/tmp', b'/usr/lib'])
        w = p if p[:1] == b'/' else cwd + b'/' + p
        s.add('abspath', [p, cwd], [w, None], 'absolute path')
    # long working directories
    d = tempfile.mkdtemp(prefix='vf')
    long_ = os.path.join(d, *['d' * 200] * 5)
    os.makedirs(long_)
    s.add('abspath', [b'x', long_], [long_.encode() + b'/x', None], 'absolute path')
    s.tmp = d


def names_suite(seed, scale):
    s = Suite(drv(), seed)
    try:
        names(s, 600 * scale)
        bad = s.run()
        return {'cases': len(s.cases), 'bad': bad, 'samples': [{'cmd': c, 'args': [show(a) for a in x]} for c, x, _, _ in s.cases[:3]]}
    finally:
        shutil.rmtree(s.tmp, ignore_errors=True)


# ---------------------------------------------------------------- command lines
KEYS = [b'A', b'AUTHOR_NAME', b'K1', b'Z_9', b'SITE_TITLE', b'X', b'BASE_DOMAIN', b'AB', b'ABC']
NASTY = [b"'", b'"', b'\\', b'$(id)', b'`id`', b' ', b';', b'&', b'|', b'!', b'*', b'\n', b'#', b'a', b'b', b'=', b'%s', b'%', b'\xff', b'-', b'~', b'<', b'>', b'']


def val(r, nl=True):
    v = b''.join(r.choice(NASTY) for _ in range(r.randint(0, 5)))
    return v if nl else v.replace(b'\n', b'')


def trie_order(keys):
    return None


def groups(words, i, want):
    """want: list of dicts; -D bindings of each appear together in any order"""
    for w in want:
        got = set()
        for _ in range(len(w)):
            if words[i:i + 1] != [b'-D'] or i + 1 >= len(words):
                return None
            got.add(words[i + 1])
            i += 2
        if got != {k + b'=' + v for k, v in w.items()}:
            return None
    return i


def cmds(s, n):
    r = s.rng
    for _ in range(n):
        m = lambda: {k: val(r, False) for k in r.sample(KEYS, r.choice([0, 0, 1, 2, 4]))}
        bin_ = r.choice([b'blogc', b"'/x y/blogc'", b'./blogc'])
        has = r.random() < .85
        locale = r.choice([None, None, b'en_US.utf8', val(r)])
        tags = r.choice([None, None, [b't1'], [b't1', b't2'], [val(r, False) or b't' for _ in range(r.randint(1, 3))]])
        gl, gv, lv = m(), r.choice([None, m()]), r.choice([None, m()])
        pr = r.choice([None, None, b'LAST_PAGE'])
        lst, ent, tmpl, out = r.random() < .5, r.choice([None, val(r), b'e.txt', b'/x y;z/e']), r.choice([None, val(r), b't.tmpl', b'/a b/$(id)']), r.choice([None, val(r), b'o.html', b'/' + (val(r) or b''), b"/o u;t/it's"])
        dev, si = r.random() < .3, r.random() < .5
        pk = lambda d: None if d is None else b'\n'.join(k + b'=' + v for k, v in d.items())
        args = [bin_, int(has), locale, None if tags is None else b'\n'.join(tags), pk(gl), pk(gv), pk(lv), pr, int(lst), ent, tmpl, out, int(dev), int(si)]

        def chk(o, bin_=bin_, has=has, locale=locale, tags=tags, gl=gl, gv=gv, lv=lv, pr=pr, lst=lst, ent=ent, tmpl=tmpl, out=out, dev=dev, si=si):
            w = sh_words(o[0]) if o and isinstance(o[0], bytes) else None
            exp = []
            if has and locale is not None:
                exp.append(b'LC_ALL=' + locale)
            exp += sh_words(bin_)
            want = ([{b'MAKE_TAGS': b' '.join(tags)}] if has and tags is not None else []) + ([gl] if has else []) + [gv or {}, lv or {}]
            tail = []
            if dev:
                tail += [b'-D', b'MAKE_ENV_DEV=1', b'-D', b'MAKE_ENV=dev']
            if pr is not None:
                tail += [b'-p', pr]
            if lst:
                tail += [b'-l'] + ([b'-e', ent] if ent is not None else [])
            if tmpl is not None:
                tail += [b'-t', tmpl]
            if out is not None:
                tail += [b'-o', out]
            if si:
                tail += [b'-i']
            ok = w is not None and w[:len(exp)] == exp
            if ok:
                i = groups(w, len(exp), want)
                ok = i is not None and w[i:] == tail
            return None if ok else 'a command a shell reads as %r, -D %r, %r' % (exp, want, tail)
        s.add('cmd', args, chk, 'blogc command line')
    for _ in range(n // 4):
        host, port, th, od = (r.choice([None, b'0', val(r)]) for _ in range(4))
        od = od or b'_build'
        bin_ = r.choice([b'blogc-runserver', b"'/a b/blogc-runserver'"])

        def chk(o, host=host, port=port, th=th, od=od, bin_=bin_):
            exp = sh_words(bin_)
            for k, v in ((b'-t', host), (b'-p', port), (b'-m', th)):
                if v is not None:
                    exp += [k, v]
            exp.append(od)
            return None if isinstance(o[1], bytes) and sh_words(o[1]) == exp and o[0] == 0 else 'a command a shell reads as %r' % exp
        s.add('rscmd', [bin_, host, port, th, od], chk, 'server command line')
        e = r.choice([None, val(r) or b'x'])
        a0, b = r.choice([None, b'blogc-make', b'/no such dir/blogc-make', b'/bin/x', b"./q'/m"]), r.choice([b'blogc', b'sh', b'nope', b'true'])

        def chk(o, e=e, a0=a0, b=b):
            w = [b]
            if a0 is not None and b'/' in a0:
                c = os.path.dirname(a0) + b'/' + b
                if os.access(c, os.X_OK):
                    w = [c]
            if sh_words(o[0]) != w:
                return 'a command read as %r' % w
            return None if e is None or sh_words(o[1]) == [e] else 'a command read as %r' % [e]
        s.add('findbin', [a0, b, e], chk, 'program found')
    # the outcome of a command
    for cmd, inp, want in ((b'cat', b'a b\nc', (0, b'a b\nc', None)), (b'exit 3', None, (3, None, None)), (b'printf x; printf y >&2; exit 1', b'', (1, b'x', b'y')),
                           (b'head -c 5000 /dev/zero | tr "\\0" z', None, (0, b'z' * 5000, None)), (b'head -c 40000 /dev/zero | tr "\\0" e >&2; exit 77', None, (77, None, b'e' * 40000)),
                           (b'/nonexistent/x 2>/dev/null', None, (127, None, None)), (b'kill -TERM $$', None, (143, None, None)), (b'cat', b'q' * 3000, (0, b'q' * 3000, None)), (b"printf '%s' 'a\nb'", None, (0, b'a\nb', None))):
        s.add('exec', [cmd, inp], [*want, None], 'command outcome')
    # rule arguments
    for _ in range(n):
        t = r.choice([b':', b':', b':', b'', b'x']) + b''.join(r.choice([b'a', b'host', b'=', b'=', b',', b',', b'1', b'127.0.0.1', b' ', b':', b'%']) for _ in range(r.randint(0, 7)))

        def chk(o, t=t):
            d = {}
            if t[:1] != b':':
                d = None
            else:
                rest = t[1:]
                while d is not None:
                    k, eq, rest2 = rest.partition(b'=')
                    if not eq:
                        d = None
                        break
                    v, comma, rest = rest2.partition(b',')
                    d[k] = v
                    if not comma:
                        break
            if d is None:
                return None if o == [None] else 'no arguments'
            got = dict(zip(o[1:-1:2], o[2:-1:2])) if isinstance(o[0], int) else None
            return None if got == d and o[0] == len(d) else 'the arguments %r' % d
        s.add('args', [t], chk, 'rule arguments')


# ---------------------------------------------------------------- settings
DEF = {b'content_dir': b'content', b'template_dir': b'templates', b'main_template': b'main.tmpl', b'source_ext': b'.txt', b'pagination_prefix': b'page',
       b'posts_per_page': b'10', b'atom_posts_per_page': b'10', b'html_ext': b'/index.html', b'index_prefix': b'', b'post_prefix': b'post', b'tag_prefix': b'tag',
       b'html_order': b'DESC', b'atom_prefix': b'atom', b'atom_ext': b'.xml', b'atom_order': b'DESC', b'date_format': b'%b %d, %Y, %I:%M %p GMT'}
NODEF = [b'atom_template', b'listing_entry', b'posts_sort', b'blog_prefix', b'locale', b'run_from_make', b'atom_legacy_entry_id']
REQ = [b'AUTHOR_NAME', b'AUTHOR_EMAIL', b'SITE_TITLE', b'SITE_TAGLINE', b'BASE_DOMAIN']


def settings(s, n):
    r = s.rng
    for _ in range(n):
        sec = {}
        gname = r.choice([b'global'] * 4 + [b'environment'])
        g = {k: r.choice([b'v', b'x y', b"it's", b'$(id)', b'%s']) for k in REQ}
        why = None
        if r.random() < .2:
            k = r.choice(REQ)
            if r.random() < .5:
                del g[k]
            else:
                g[k] = b''
        for _ in range(r.randint(0, 3)):
            if r.random() < .75:
                k = r.choice([b'A', b'Z', b'Q', b'KEY']) + b''.join(r.choice([b'A', b'Z', b'0', b'9', b'_', b'B']) for _ in range(r.randint(0, 4)))
            else:
                k = r.choice([b'a', b'_A', b'1A', b'Aa', b'A-B', b'A B', b'A.', b'A/', b'A@', b'A[', b'A`', b'A:', b'@A', b'[A'[1:] + b'{', b'A$(x)', b'A\xc3\x89', b'AB\xff', b'AAAAAAAAAAAAa', b'A;', b''])
            g[k] = r.choice([b'v', b'', b'z z'])
        sections = []
        items = list(g.items())
        r.shuffle(items)
        if r.random() < .95:
            sections.append((gname, items))
        other = None
        if gname == b'environment' and r.random() < .3:
            other = {k: b'g' for k in REQ}
            sections.append((b'global', list(other.items())))
        st = {}
        for k in r.sample(list(DEF) + NODEF, r.choice([0, 0, 1, 3, 8])):
            st[k] = r.choice([b'', b'q', b'5', b'a/b', b'.html', b'asc', b'true'])
        if r.random() < .2:
            st[b'unknown'] = b'1'
        if st or r.random() < .3:
            sections.append((b'settings', list(st.items())))
        L = {}
        for k in (b'posts', b'pages', b'tags', b'copy', b'copy_files'):
            if r.random() < .45:
                L[k] = [r.choice([b'a', b'b', b'foo/bar', b'x y', b"q'"]) for _ in range(r.randint(0, 3))]
                sections.append((k, L[k]))
        r.shuffle(sections)
        t = b''
        for name, body in sections:
            t += b'[' + name + b']\n'
            for x in body:
                t += (x if isinstance(x, bytes) else x[0] + r.choice([b' = ', b'=']) + x[1]) + b'\n'
        has = {nm: b for nm, b in sections}
        gl = None
        if has.get(b'global'):
            gl = dict(has[b'global'])
        elif has.get(b'environment'):
            gl = dict(has[b'environment'])
        ok = gl is not None
        if ok:
            import re
            ok = all(re.fullmatch(rb'[A-Z][A-Z0-9_]*', k) for k in gl) and all(gl.get(k) for k in REQ)
        ws = {k: st.get(k, DEF.get(k)) for k in list(DEF) + [x for x in NODEF if x in st]}
        lst = lambda k: L.get(k)

        def chk(o, ok=ok, gl=gl, ws=ws, L=L):
            if not ok:
                return None if o[0] is None and isinstance(o[1], int) else 'an error and no settings'
            if o[0] is None or o[-1] is not None:
                return 'settings'
            i = 0
            for want in (gl, ws):
                k = o[i]
                got = dict(zip(o[i + 1:i + 1 + 2 * k:2], o[i + 2:i + 2 + 2 * k:2]))
                if got != want or o[i + 1 + 2 * k] != k:
                    return 'the bindings %r' % want
                i += 2 + 2 * k
            cp = L.get(b'copy')
            if cp is None:
                cp = L.get(b'copy_files')
            for nm, want in ((b'posts', L.get(b'posts')), (b'pages', L.get(b'pages')), (b'copy', cp), (b'tags', L.get(b'tags'))):
                if want is None:
                    got, i = o[i], i + 1
                else:
                    if not isinstance(o[i], int):
                        return 'the list %r of %r' % (want, nm)
                    k = o[i]
                    got, i = o[i + 1:i + 1 + k], i + 1 + k
                if got != want:
                    return 'the list %r of %r' % (want, nm)
            return None
        s.add('settings', [t], chk, 'settings')
    for t in (b'', b'[global', b'x', b'[global]\nA', b'[settings]\nhtml_ext=.x\n'):
        s.add('settings', [t], lambda o: None if o[0] is None and isinstance(o[1], int) else 'an error and no settings', 'settings')


# ---------------------------------------------------------------- rebuild decision
def rebuild(s, n):
    r = s.rng

    def f():
        if r.random() < .12:
            return None
        return (r.choice([0, 5, 5, 6, 7, 1700000000, 2**33]), r.choice([0, 1, 2, 999999999]), int(r.random() < .93))
    for _ in range(n):
        base = [f() for _ in range(4)]
        srcs = [f() for _ in range(r.choice([0, 1, 1, 2, 5, 12]))]
        if r.random() < .6:      # mostly old sources, one of them perhaps new
            o = base[3] = (6, 1, 1)
            old = lambda x: x if x is None else r.choice([(5, 2, 1), (6, 0, 1), (6, 1, 1), (5, 999999999, 1)])
            base[:3] = [old(x) for x in base[:3]]
            srcs = [old(x) or (5, 0, 1) for x in srcs]
            if srcs and r.random() < .5:
                srcs[r.randrange(len(srcs))] = r.choice([(6, 2, 1), (7, 0, 1), (5, 0, 0), None, (6, 1, 1)])
        only = int(r.random() < .4)
        st, le, tm, o = base
        if o is None or not o[2]:
            want = 1
        else:
            deps = [x for x in (st, tm, le) if x is not None] + (srcs[:1] if only else srcs)
            want = int(any(x is None or not x[2] or x[:2] > o[:2] for x in deps))
        e = lambda x: '-' if x is None else '%d.%d.%d' % x
        s.add('rebuild', [e(st), e(le), e(tm), e(o), only] + [e(x) for x in srcs], [want, len(srcs)], 'rebuild decision')


def changed(seed, scale):
    d = tempfile.mkdtemp(prefix='vf')
    try:
        s = Suite(drv(), seed)
        r = s.rng
        for i in range(40 * scale):
            p = os.path.join(d, 'f%d' % i)
            sec, ns = r.choice([5, 1000, 1700000000]), r.choice([0, 1, 500, 999999999])
            ex = r.random() < .9
            if ex:
                open(p, 'w').close()
                os.utime(p, ns=(sec * 10**9 + ns,) * 2)
            for _ in range(4):
                a, b = r.choice([0, sec - 1, sec, sec, sec + 1]), r.choice([0, ns, ns, ns + 1, max(0, ns - 1), 999999999])
                w = ex and (sec, ns) > (a, b)
                s.add('changed', [p, a, b], [int(w), sec if w else -7, ns if w else -7, int(w), sec if w else a, ns if w else b], 'changed file')
        for i in range(12 * scale):
            root = os.path.join(d, 'r%d' % i)
            os.makedirs(root + '/c')
            fl = set()
            for _ in range(r.randint(0, 6)):
                q = '/'.join(r.choice(['a', 'b', '.h', 'x y', '...']) for _ in range(r.randint(1, 3)))
                try:
                    os.makedirs(os.path.dirname(root + '/c/' + q), exist_ok=True)
                    open(root + '/c/' + q, 'w').close()
                    fl.add('c/' + q)
                except OSError:
                    pass

            def chk(o, fl=fl, root=root):
                got = {o[k]: (o[k + 1], o[k + 2]) for k in range(1, len(o), 3)}
                return None if o[0] == len(fl) == len(got) and got == {x.encode(): ((root + '/' + x).encode(), 1) for x in fl} else 'the files %r' % sorted(fl)
            s.add('newr', [root, 'c'], chk, 'copied directory')
            s.add('newr', [root, 'nope'], [0], 'copied directory')
        return {'cases': len(s.cases), 'bad': s.run(), 'samples': []}
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- copies
def copies(seed, scale):
    d = tempfile.mkdtemp(prefix='vf')
    try:
        s = Suite(drv(), seed)
        r = s.rng
        B.ENV['VF_SCRATCH'] = d
        out = []
        for i in range(150 * scale):
            n = r.choice([0, 1, 2, 1023, 1024, 1025, 2048, 2049, 5000, r.randint(0, 4000)])
            b = r.randbytes(n)
            src = os.path.join(d, 's%d' % i)
            if r.random() < .95:
                open(src, 'wb').write(b)
            else:
                b = None
            dst = os.path.join(d, 'o%d' % i, *[r.choice(['a', 'b c', "d'"]) for _ in range(r.randint(0, 3))], 'f')
            pre = r.random()
            if pre < .3:
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                open(dst, 'wb').write(b'old' * 3000)
            blocked = False
            if pre > .93:
                os.makedirs(dst)
                blocked = True
            elif pre > .88:
                open(os.path.join(d, 'o%d' % i), 'w').close()
                blocked = True
            sr, sw = r.choice([0, 0, 0, 1, 7, 500, 1023]), r.choice([0, 0, 0, 1, 7, 500, 1023])
            if n > 2500 and (sr == 1 or sw == 1):
                sr = sw = 0
            fr, fw = -1, -1
            if r.random() < .3:
                fr = r.choice([0, 1, 2, 3])
            elif r.random() < .3:
                fw = r.choice([0, 1, 2, 3])
            got = {}

            def chk(o, b=b, dst=dst, blocked=blocked, fr=fr, fw=fw, sr=sr, sw=sw):
                if o[1] != 1:
                    return 'no descriptor left open'
                reads = (-(-len(b) // (sr or 1024)) + 1) if b is not None else 0
                step = sr or 1024
                writes = 0
                if b is not None:
                    left = len(b)
                    while left:
                        k = min(step, left)
                        left -= k
                        writes += -(-k // sw) if sw else 1
                fail = b is None or blocked or (0 <= fr < reads) or (0 <= fw < writes)
                if fail:
                    return None if o[0] != 0 else 'a failure status'
                return None if o[0] == 0 and open(dst, 'rb').read() == b else 'the same %d bytes and status 0' % len(b)
            s.add('cp', [src, dst, 'x', fr, fw, sr, sw], chk, 'file copy')
        from_text = b'[global]\n' + b'\n'.join(k + b'=v' for k in REQ) + b'\n'
        good = s.drv.batch([('atom', [from_text])])[0]
        want = good[0] if isinstance(good, list) else None
        s.add('deploy', [from_text, -1, 0], lambda o: None if o[0] == 0 and o[1] == want and o[2] == 0 and o[3] == -1 else 'the deployed feed template, removed afterwards', 'feed template')
        s.add('deploy', [from_text, 0, 0], lambda o: None if o[0] == 1 and o[1] is None else 'an error', 'feed template')
        return {'cases': len(s.cases), 'bad': s.run(), 'samples': [{'cmd': c, 'args': [show(a) for a in x]} for c, x, _, _ in s.cases[:2]]}
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- removal
def tree(d):
    r = set()
    for a, ds, fs in os.walk(d):
        for x in ds + fs:
            r.add(os.path.relpath(os.path.join(a, x), d))
    return r


def removal(seed, scale):
    d = tempfile.mkdtemp(prefix='vf')
    try:
        B.ENV['VF_SCRATCH'] = d
        dv = drv()
        r = random.Random(seed)
        reqs, exps = [], []
        for i in range(120 * scale):
            root = os.path.join(d, 'r%d' % i)
            od = r.choice(['_build', 'out/put', 'a/b/c'])
            rel = '/'.join([r.choice(['post', 'x', 'y z', 'index']) for _ in range(r.randint(0, 3))] + ['f.html'])
            full = os.path.join(root, od, rel)
            os.makedirs(os.path.dirname(full))
            gone = r.random() < .05
            if not gone:
                open(full, 'w').close()
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                q = os.path.join(root, od, *[r.choice(['post', 'x', 'k']) for _ in range(r.randint(0, 2))], r.choice(['keep', '.keep', 'other']))
                try:
                    os.makedirs(os.path.dirname(q), exist_ok=True)
                    open(q, 'w').close()
                except OSError:
                    pass
            if r.random() < .2:
                os.makedirs(os.path.join(root, od, 'emptydir'), exist_ok=True)
            before = tree(root)
            want = set(before)
            if not gone:
                p = od + '/' + rel
                want.discard(p)
                while p != od and '/' in p:
                    p = p.rsplit('/', 1)[0]
                    if any(x.startswith(p + '/') for x in want):
                        break
                    want.discard(p)
                    if p == od:
                        break
                if '/' not in od and not any(x.startswith(od + '/') for x in want):
                    want.discard(od)
            absolute = r.random() < .3
            reqs.append(('rm', [os.path.join(root, od), full, full if absolute else od + '/' + rel]))
            exps.append((root, gone, want, before))
        bad = []
        for (c, a), (root, gone, want, before), o in zip(reqs, exps, dv.batch(reqs)):
            got = tree(root)
            m = None
            if isinstance(o, Crash):
                m = 'no crash'
            elif o[1] is not None:
                m = 'no removal outside of the output directory, but tried: ' + repr(o[1])
            elif (o[0] != 0) != gone:
                m = 'status %s' % ('1' if gone else '0')
            elif got != want:
                m = 'the files %r' % sorted(want)
            if m:
                bad.append({'what': 'removal of a built file', 'cmd': c, 'args': a, 'got': '%r, left %r' % (o, sorted(got)), 'expected': m})
        r2 = []
        for i, (mk, want) in enumerate([([], 1), (['a'], 0), (['.a'], 0), (['...'], 0), (['..a'], 0), ([' '], 0)]):
            e = os.path.join(d, 'e%d' % i)
            os.makedirs(e)
            for x in mk:
                open(os.path.join(e, x), 'w').close()
            r2.append((e, want))
        r2.append((os.path.join(d, 'missing'), 1))
        for (e, want), o in zip(r2, dv.batch([('empty', [e]) for e, _ in r2])):
            if isinstance(o, Crash) or o != [want, 0]:
                bad.append({'what': 'empty directory test', 'cmd': 'empty', 'args': [e], 'got': repr(o), 'expected': repr([want, 0])})
        return {'cases': len(reqs) + len(r2), 'bad': bad, 'samples': [{'cmd': c, 'args': a} for c, a in reqs[:2]]}
    finally:
        shutil.rmtree(d, ignore_errors=True)
