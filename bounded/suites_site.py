"""Whole sites built by the blogc-make program, compared with what the documentation says (bounded).
The programs run as an unprivileged user inside a scratch directory."""
import os
import random
import re
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from . import build as B
from .suites_make import o_gen, o_gen2, DEF

NOBODY = 65534
TMPL = ('R={{ MAKE_RULE }} T={{ MAKE_TYPE }} S={{ MAKE_SLUG }} G={{ FILTER_TAG }} P={{ FILTER_PAGE }} N={{ FILTER_PER_PAGE }} O={{ FILTER_SORT }}{{ FILTER_REVERSE }} '
        'K={{ MAKE_TAGS }} W={{ SITE_TITLE }} X={{ EXTRA }} E={{ MAKE_ENV }}{{ MAKE_ENV_DEV }} F={{ DATE_FORMAT }} I={{ IS_POST }}\n'
        '{% block entry %}e {{ FILENAME }} {{ TITLE }} {{ CONTENT }}{% endblock %}'
        '{% block listing_entry %}le {{ TITLE }}\n{% endblock %}'
        '{% block listing %}l {{ FILENAME }} {{ DATE_FORMATTED }}\n{% endblock %}')
ATOM_DATE = '%Y-%m-%dT%H:%M:%SZ'


def esc(x):
    return x.replace("'", '&#x27;').replace('/', '&#x2F;')


class Site:
    def __init__(self, r, root):
        self.r, self.root = r, root
        o = self.o = {}
        pick = lambda k, c, p=.5: o.__setitem__(k, r.choice(c)) if r.random() < p else None
        pick('posts_per_page', ['10', '2', '3', '1', '0', '-1', '2'], .8)
        pick('atom_posts_per_page', ['10', '2', '0', '-1', '1'], .6)
        pick('html_ext', ['/index.html', '.html', '.htm'])
        pick('html_order', ['ASC', 'DESC', 'asc', 'other'])
        pick('atom_order', ['ASC', 'DESC', 'asc'])
        pick('posts_sort', ['true', '1', 'false', 'yes', 'no'])
        pick('index_prefix', ['all', 'i/x'], .3)
        pick('blog_prefix', ['blog', 'b/c'], .3)
        pick('post_prefix', ['p', 'entry/x'], .3)
        pick('tag_prefix', ['t'], .3)
        pick('pagination_prefix', ['pp'], .3)
        pick('atom_prefix', ['feed'], .3)
        pick('atom_ext', ['.atom', '/feed.xml'], .3)
        pick('content_dir', ['src', 'c d'], .3)
        pick('template_dir', ['tm'], .3)
        pick('main_template', ['m.t'], .3)
        pick('source_ext', ['.md', '.text'], .3)
        pick('date_format', ['%d/%m/%Y'], .5)
        if r.random() < .4:
            o['atom_template'] = 'a.t'
        if r.random() < .3:
            o['listing_entry'] = 'intro'
        self.g = {'AUTHOR_NAME': "O'Hara & $(id)", 'AUTHOR_EMAIL': 'a@b', 'SITE_TITLE': r.choice(["it's `x`", 'T']), 'SITE_TAGLINE': 'l', 'BASE_DOMAIN': 'http://d'}
        if r.random() < .5:
            self.g['EXTRA'] = r.choice(['1', 'a "b"', '%s %n'])
        self.tags = r.sample(["t1", 't2', 'x', "q'"], r.randint(1, 3)) if r.random() < .6 else None
        n = r.choice([0, 1, 2, 3, 5, 7])
        self.posts = None
        if r.random() < .9:
            self.posts = r.sample(['a', 'b', 'foo', 'long-name', "it's", 'sp ace', 'z9', 'sub/k'], n)
        self.pages = r.sample(['about', 'sub/page', 'Q', '404'], r.randint(0, 3)) if r.random() < .7 else None
        self.copy = None
        if r.random() < .6:
            self.copy = r.sample(['robots.txt', 'assets', 'st/x.css'], r.randint(1, 3))
        self.date = {p: '2020-%02d-%02d' % (d // 28 + 1, d % 28 + 1) for p, d in zip(self.posts or [], r.sample(range(300), n))}
        self.ptags = {p: [t for t in (self.tags or []) if r.random() < .6] for p in self.posts or []}

    def s(self, k):
        v = self.o.get(k)
        return v if v is not None else DEF.get(k.encode(), b'').decode()

    def opt(self, k):
        return self.o.get(k)

    def name(self, *a):
        f = o_gen if len(a) == 5 else o_gen2
        return f(*[None if x is None else x.encode() for x in a]).decode()

    def src(self, kind, slug):
        if kind == 'post':
            return self.name(self.s('content_dir'), self.opt('blog_prefix'), self.s('post_prefix'), slug, self.s('source_ext'))
        if kind == 'entry':
            return self.name(self.s('content_dir'), self.opt('blog_prefix'), None, slug, self.s('source_ext'))
        return self.name(self.s('content_dir'), None, None, slug, self.s('source_ext'))

    def write(self, rel, text):
        p = os.path.join(self.root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(text)
        self.inputs.append(rel)

    def create(self):
        self.inputs = []
        t = '[global]\n' + ''.join('%s = %s\n' % x for x in self.g.items())
        t += '[settings]\n' + ''.join('%s = %s\n' % x for x in self.o.items())
        for k, l in (('posts', self.posts), ('pages', self.pages), ('tags', self.tags), ('copy', self.copy)):
            if l is not None:
                t += '[%s]\n' % k + ''.join(x + '\n' for x in l)
        self.write('blogcfile', t)
        self.write(self.s('template_dir') + '/' + self.s('main_template'), TMPL)
        if self.opt('atom_template'):
            self.write(self.s('template_dir') + '/a.t', TMPL)
        for p in self.posts or []:
            self.write(self.src('post', p), 'TITLE: t %s\nDATE: %s\nTAGS: %s\n------\nbody %s\n' % (p, self.date[p], ' '.join(self.ptags[p]), p))
        for p in self.pages or []:
            self.write(self.src('page', p), 'TITLE: t %s\n------\nbody %s\n' % (p, p))
        if self.opt('listing_entry'):
            self.write(self.src('entry', 'intro'), 'TITLE: intro\n------\nx\n')
        self.copies = []
        for c in self.copy or []:
            fs = [c] if c != 'assets' else ['assets/a.bin', 'assets/d/b', 'assets/d/.h'][:self.r.randint(0, 3)]
            if c == 'assets':
                os.makedirs(self.root + '/assets', exist_ok=True)
            for f in fs:
                self.write(f, 'data of %s\n' % f + 'x' * self.r.choice([0, 10, 3000]))
                self.copies.append(f)

    # ---- what the documentation promises: output -> (rule, text, inputs it depends on)
    def order(self, which, tag=None):
        l = [p for p in self.posts or [] if tag is None or tag in self.ptags[p]]
        asc = self.s(which).lower() == 'asc'
        sort = self.opt('posts_sort') in ('true', '1', 'yes', 'on') or (self.opt('posts_sort') or '').lower() in ('true', 'yes', 'on', '1')
        if sort:
            return sorted(l, key=lambda p: self.date[p], reverse=not asc), '1', '1' if asc else ''
        return (l if asc else l[::-1]), '', '' if asc else '1'

    def head(self, rule, typ, slug='', tag='', page='', per='', o='', fmt=None, post='', dev=False):
        return 'R=%s T=%s S=%s G=%s P=%s N=%s O=%s K=%s W=%s X=%s E=%s F=%s I=%s\n' % (
            rule, typ, slug, tag, page, per, o, ' '.join(self.tags) if self.tags is not None else '', self.g['SITE_TITLE'], self.g.get('EXTRA', ''), 'dev1' if dev else '', fmt, post)

    def listing(self, rule, typ, which, perkey, tag=None, page=None, fmt=None, entry=True, dev=False):
        l, so, rev = self.order(which, tag)
        per = self.s(perkey)
        n = int(per)
        pg = '1' if n >= 0 and page is None else '' if page is None else str(page)
        pn = per if n >= 0 or page is not None else ''
        if pg:
            l = l[(int(pg) - 1) * max(n, 0):][:max(n, 0)]
        t = self.head(rule, typ, tag=tag or '', page=pg, per=pn, o=so + rev, fmt=fmt, dev=dev)
        if entry and self.opt('listing_entry'):
            t += 'le intro\n'
        return t + ''.join('l %s %s\n' % (os.path.basename(p), self.fmt(p, fmt)) for p in l), l

    def fmt(self, p, fmt):
        return time.strftime(fmt, time.strptime(self.date[p], '%Y-%m-%d'))

    def outputs(self, dev=False):
        out = {}
        bd, bp, ext = '_build', self.opt('blog_prefix'), self.s('html_ext')
        df = self.s('date_format')
        main = self.s('template_dir') + '/' + self.s('main_template')
        posts = [self.src('post', p) for p in self.posts or []]
        ent = [self.src('entry', 'intro')] if self.opt('listing_entry') else []
        ldeps = ['blogcfile', main] + posts + ent
        adeps = ['blogcfile'] + posts + ([self.s('template_dir') + '/a.t'] if self.opt('atom_template') else [])

        def put(rule, name, text, deps):
            if name in out:
                raise KeyError(name)      # two rules claim one file: not a site of this suite
            out[name] = (rule, text, deps)

        def atom(rule, name, tag):
            text, l = self.listing(rule, 'atom', 'atom_order', 'atom_posts_per_page', tag, None, ATOM_DATE, entry=False, dev=dev)
            put(rule, name, text if self.opt('atom_template') else ('feed', tag, l), adeps)
        if self.posts is not None:
            pp, ap = int(self.s('posts_per_page')), int(self.s('atom_posts_per_page'))
            tags = self.tags or []
            if pp != 0:
                put('index', self.name(bd, bp, self.s('index_prefix'), None, ext), self.listing('index', 'post', 'html_order', 'posts_per_page', None, None, df, dev=dev)[0], ldeps)
            if ap != 0:
                atom('atom', self.name(bd, bp, self.s('atom_prefix'), None, self.s('atom_ext')), None)
                for t in tags:
                    atom('atom_tags', self.name(bd, bp, self.s('atom_prefix'), t, self.s('atom_ext')), t)
            if pp > 0:
                for i in range(-(-len(posts) // pp)):
                    put('pagination', self.name(bd, bp, self.s('pagination_prefix'), str(i + 1), ext), self.listing('pagination', 'post', 'html_order', 'posts_per_page', None, i + 1, df, dev=dev)[0], ldeps)
                for t in tags:
                    k = len([p for p in self.posts if t in self.ptags[p]])
                    for i in range(-(-k // pp)):
                        put('pagination_tags', self.name(bd, bp, self.s('tag_prefix'), t, self.s('pagination_prefix'), str(i + 1), ext), self.listing('pagination_tags', 'post', 'html_order', 'posts_per_page', t, i + 1, df, dev=dev)[0], ldeps)
            so = ''.join(self.order('html_order')[1:])
            for p in self.posts:
                put('posts', self.name(bd, bp, self.s('post_prefix'), p, ext),
                    self.head('posts', 'post', slug=p, fmt=df, post='1', o=so, dev=dev) + 'e %s t %s <p>body %s</p>\n' % (os.path.basename(p), p, esc(p)), ['blogcfile', main, self.src('post', p)])
            if pp != 0:
                for t in tags:
                    put('tags', self.name(bd, bp, self.s('tag_prefix'), t, ext), self.listing('tags', 'post', 'html_order', 'posts_per_page', t, None, df, dev=dev)[0], ldeps)
        for p in self.pages or []:
            put('pages', self.name(bd, None, None, p, ext), self.head('pages', 'page', slug=p, fmt=df, dev=dev) + 'e %s t %s <p>body %s</p>\n' % (os.path.basename(p), p, esc(p)), ['blogcfile', main, self.src('page', p)])
        for c in self.copies:
            put('copy', bd + '/' + c, open(self.root + '/' + c).read(), ['blogcfile', c])
        return out


def feed_ok(site, text, tag, l):
    ent = re.findall(r'<entry>\n    <title type="text">(.*?)</title>\n    <id>(.*?)</id>\n    <updated>(.*?)</updated>', text, re.S)
    want = []
    for p in l:
        u = 'http://d' + o_gen(None, (site.opt('blog_prefix') or '').encode() or None, site.s('post_prefix').encode(), os.path.basename(p).encode(), site.s('html_ext').encode()).decode()
        want.append(('t ' + p, u, site.fmt(p, ATOM_DATE)))
    u = ('/' + site.opt('blog_prefix') if site.opt('blog_prefix') else '') + '/' + site.s('atom_prefix') + ('/' + tag if tag else '') + site.s('atom_ext')
    m = re.search(r'<title type="text">(.*?)</title>\n  <id>(.*?)</id>', text, re.S)
    t = site.g['SITE_TITLE'] + (' - ' + tag if tag else '')
    return ent == want and m is not None and m.groups() == (t, 'http://d' + u)


def files(d):
    r = {}
    for a, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(a, f)
            r[os.path.relpath(p, d)] = p
    return r


def one(seed, base, exe, aspects):
    r = random.Random(seed)
    bad = []
    root = os.path.join(base, 's%d' % seed)
    os.mkdir(root)
    try:
        st = Site(r, root)
        st.create()
        try:
            dev = r.random() < .2
            outs = st.outputs(dev)
        except KeyError:
            return None
        env = dict(B.ENV, BLOGC=exe['blogc'], PATH='/usr/bin:/bin', OUTPUT_DIR='_build', LC_ALL='C')
        if r.random() < .5:
            del env['OUTPUT_DIR']

        def own():
            for a, ds, fs in os.walk(root):
                os.chown(a, NOBODY, NOBODY)
                for f in fs:
                    os.chown(os.path.join(a, f), NOBODY, NOBODY)

        def run(*rules):
            own()
            cwd, a = (root, []) if r.random() < .7 else (base, ['-f', 's%d/blogcfile' % seed])
            p = subprocess.run([exe['blogc-make']] + (['-D'] if dev else []) + a + list(rules), cwd=cwd, env=env, user=NOBODY, group=NOBODY, extra_groups=[], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
            return p

        def conf():
            return open(root + '/blogcfile').read()

        def fail(aspect, what, got, exp):
            if aspect in aspects:
                bad.append({'what': what, 'cmd': 'blogc-make', 'args': [conf()], 'got': repr(got)[:1500], 'expected': repr(exp)[:1500]})
        src0 = {k: open(v, 'rb').read() for k, v in files(root).items()}
        p = run()
        if b'ERROR: AddressSanitizer' in p.stderr or b'runtime error' in p.stderr:
            fail(next(iter(aspects)), 'a site build', p.stderr[p.stderr.find(b'ERROR'):][:900], 'no crash')
            return bad, 1
        if p.returncode:
            fail('names', 'a site build', (p.returncode, p.stderr[-500:]), 'status 0')
            return bad, 1
        got = {k: v for k, v in files(root).items() if k not in src0}
        if set(got) != set(outs):
            fail('names', 'the files built', sorted(got), sorted(outs))
            return bad, 1
        def contents(when):
            for k, (rule, text, deps) in outs.items():
                t = open(got[k]).read() if os.path.exists(got[k]) else None
                if isinstance(text, tuple):
                    if t is None or not feed_ok(st, t, text[1], text[2]):
                        fail('content', 'the feed %s%s' % (k, when), t, 'tag %r entries %r' % text[1:])
                elif t != text:
                    fail('copy' if rule == 'copy' else 'content', 'the file %s of rule %s%s' % (k, rule, when), t, text)
        contents('')
        if aspects & {'content', 'copy'} and not bad and outs and r.random() < .5:
            # some of the files are missing: the ones built again have their own content
            gone = [k for k in outs if r.random() < .4]
            for k in gone:
                os.unlink(got[k])
            p = run()
            contents(' (built again after the removal of %s)' % sorted(gone))
        cases = len(outs)
        # ---- rebuilds
        if aspects & {'rebuild'}:
            for _ in range(2):
                T = 1_700_000_000 * 10**9
                for k in st.inputs:
                    os.utime(root + '/' + k, ns=(T - r.randint(0, 5 * 10**9),) * 2)
                new = set(r.sample(st.inputs, min(len(st.inputs), r.choice([0, 1, 1, 2])))) if r.random() < .8 else set()
                if r.random() < .7:
                    new.discard('blogcfile')
                for k in new:
                    os.utime(root + '/' + k, ns=(T + 10**9 + r.choice([1, 500, 10**9]),) * 2)
                same = set(r.sample(st.inputs, min(1, len(st.inputs)))) - new
                for k in same:
                    os.utime(root + '/' + k, ns=(T + 10**9,) * 2)
                for k in outs:
                    os.utime(root + '/' + k, ns=(T + 10**9,) * 2)
                gone = set(k for k in outs if r.random() < .1)
                for k in gone:
                    os.unlink(root + '/' + k)
                rules = [] if r.random() < .6 else r.sample(['index', 'atom', 'atom_tags', 'pagination', 'pagination_tags', 'posts', 'tags', 'pages', 'copy'], r.randint(1, 3))
                if not rules and r.random() < .3:
                    rules = ['all']
                p = run(*rules)
                active = lambda rule: not rules or 'all' in rules or rule in rules
                want = {k for k, (rule, _, deps) in outs.items() if active(rule) and (k in gone or set(deps) & new)}
                have = {k for k in outs if os.path.exists(root + '/' + k) and os.stat(root + '/' + k).st_mtime_ns != T + 10**9}
                if p.returncode or have != want:
                    fail('rebuild', 'the files rebuilt by %s after touching %s and removing %s' % (rules or 'all', sorted(new), sorted(gone)), (p.returncode, sorted(have), p.stderr[-300:]), sorted(want))
                cases += len(outs)
                if gone - want:
                    run()
        # ---- failures are reported
        if aspects & {'errors'} and (st.posts or st.pages):
            k = r.choice([st.src('post', p) for p in st.posts or []] + [st.src('page', p) for p in st.pages or []])
            rule = 'posts' if k in [st.src('post', p) for p in st.posts or []] else 'pages'
            keep = open(root + '/' + k).read()
            how = r.randrange(3)
            if how == 0:
                os.unlink(root + '/' + k)
            else:
                open(root + '/' + k, 'w').write('TITLE' if how == 1 else 'no separator')
                os.utime(root + '/' + k, ns=(2_000_000_000 * 10**9,) * 2)
            p = run(*r.choice([[], [rule], ['all'], ['index', rule, 'clean'] if rule == 'pages' else [rule, 'copy']]))
            if p.returncode == 0:
                fail('errors', 'a build with the broken source %s' % k, (p.returncode, p.stderr[-300:]), 'a status other than 0')
            open(root + '/' + k, 'w').write(keep)
            p = run(*r.choice([['nosuchrule'], ['nosuchrule', 'copy'], ['copy', 'nosuchrule'], ['nosuchrule', 'all']]))
            if p.returncode == 0 or b'nosuchrule' not in p.stderr:
                fail('errors', 'an unknown rule', (p.returncode, p.stderr[-300:]), 'a status other than 0 and a message')
            cases += 2
        # ---- removal
        if aspects & {'clean'}:
            foreign = set()
            if r.random() < .6:
                dirs = sorted({os.path.dirname(k) for k in outs} | {'_build'})
                for _ in range(r.randint(1, 2)):
                    k = r.choice(dirs) + '/' + r.choice(['keep', '.keep', 'k/z'])
                    if k in outs or any(o.startswith(k + '/') for o in outs) or os.path.exists(root + '/' + k):
                        continue
                    try:
                        os.makedirs(os.path.dirname(root + '/' + k), exist_ok=True)
                        open(root + '/' + k, 'w').close()
                        foreign.add(k)
                    except OSError:
                        pass
            for k in list(outs):
                if r.random() < .1 and os.path.exists(root + '/' + k):
                    os.unlink(root + '/' + k)      # cleaning something already gone
            left = {k for k in outs if os.path.exists(root + '/' + k)}
            edirs = {os.path.relpath(a, root) for a, ds, fs in os.walk(root + '/_build') if not ds and not fs} if os.path.isdir(root + '/_build') else set()
            p = run('clean')
            now = {k: open(v, 'rb').read() for k, v in files(root).items()}
            if {k: v for k, v in now.items() if not k.startswith('_build/')} != src0:
                fail('clean', 'the sources after a clean', sorted(now), sorted(src0))
            g = {k for k in now if k.startswith('_build/')}
            if p.returncode or g != foreign:
                fail('clean', 'the files left by a clean', (p.returncode, sorted(g), p.stderr[-300:]), sorted(foreign))
            ed = {os.path.relpath(a, root) for a, ds, fs in os.walk(root + '/_build') if not ds and not fs} if os.path.isdir(root + '/_build') else set()
            if not ed <= edirs and left:
                fail('clean', 'the empty directories left by a clean', sorted(ed), sorted(edirs))
            cases += 1
        return bad, cases
    finally:
        shutil.rmtree(root, ignore_errors=True)


def sites(seed, n, aspects, build=None):
    base = tempfile.mkdtemp(prefix='vfs')
    try:
        os.chmod(base, 0o755)
        exe = {}
        for nm, st in (('blogc', 'blogc'), ('blogc-make', 'make')):
            b = B.build(nm, st, main=True)
            exe[nm] = os.path.join(base, nm + '-exe')
            shutil.copy(b, exe[nm])
            os.chmod(exe[nm], 0o755)
        with ThreadPoolExecutor(8) as ex:
            rr = list(ex.map(lambda i: one(seed * 100000 + i, base, exe, aspects), range(n)))
        rr = [x for x in rr if x]
        return {'cases': sum(c for _, c in rr), 'bad': [b for x, _ in rr for b in x], 'samples': []}
    finally:
        shutil.rmtree(base, ignore_errors=True)
