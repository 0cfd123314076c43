"""Executable contracts for src/blogc: text helpers, content, sources, templates, listings, the command line."""
import os
import re
import shutil
import string
import subprocess
import tempfile
from .core import *
from .suites_common import rs, WS


def drv():
    return Driver(B.build('blogc', 'blogc', 'blogc.c'))


ENT = {b'&': b'&amp;', b'<': b'&lt;', b'>': b'&gt;', b'"': b'&quot;', b"'": b'&#x27;', b'/': b'&#x2F;'}
UP, LO, DG = (x.encode() for x in (string.ascii_uppercase, string.ascii_lowercase, string.digits))


def bs(s):
    return [s[i:i + 1] for i in range(len(s))]


def o_slug(s):
    return b''.join(c.lower() if c in bs(UP) else c if c in bs(LO + DG) else b'-' for c in bs(s))


def o_ent(s):
    return b''.join(ENT.get(c, c) for c in bs(s))


def o_desc(s):
    return o_ent(b' '.join(l.strip(WS) for l in re.split(rb'[\r\n]+', s)).strip(WS))


def texts(s, n):
    """slugs, entities, descriptions"""
    r = s.rng
    olitems(s, n)
    for x in [b'', None, b'A', b'a b', b'\xc3\xa9', bytes(range(1, 256)), b'<script>alert("x/y")</script>', b"'&amp;'"]:
        s.add('slug', [x], [None if x is None else o_slug(x)])
        s.add('entities', [x], [None if x is None else o_ent(x)])
        s.add('fixdesc', [x], [None if x is None else o_desc(x)])
    for _ in range(n):
        x = rs(r, 14)
        if r.random() < .3:
            x = bytes(r.randint(1, 255) for _ in range(r.randint(0, 12)))
        s.add('slug', [x], [o_slug(x)])
        s.add('entities', [x], [o_ent(x)])
        x = rs(r, 12, [b'a', b'\n', b'\r', b'\r\n', b' ', b'\t', b'b<', b'&', b'"', b'\x0b', b'\xc3\xa9', b"'", b'/'])
        s.add('fixdesc', [x], [o_desc(x)])


def o_olitem(x, k):
    m = re.match(rb'[0-9]+\.', x)
    return int(bool(m and m.end() <= k < len(x) and not x[m.end():k].strip(b' \t')))


def o_filename(x):
    x = re.split(rb'[/\\]', x)[-1]
    return x.rpartition(b'.')[0] if b'.' in x else x


def o_filelist(x):
    return [l.strip(WS) for l in re.split(rb'[\r\n]', x) if l.lstrip(b' \t') and not l.lstrip(b' \t').startswith(b'#')]


def olitems(s, n):
    for x in [b'1. a', b'1.a', b'10. a', b'1.  a', b'1.', b'1', b'', b'. a', b'1. ', b'12.\t a', b'1 . a', b'a. a', b'1.\ta', b'1.\t\ta', b'1. \ta', b'1.\x0ba', b'123. a']:
        for k in range(7):
            s.add('olitem', [x, k], [o_olitem(x, k)])
    s.add('olitem', [None, 2], [0])
    for _ in range(n):
        x = rs(s.rng, 5, [b'1', b'2', b'.', b'. ', b' ', b'\t', b'a', b'0', b'1.\t', b'1. '])
        k = s.rng.randint(0, 6)
        s.add('olitem', [x, k], [o_olitem(x, k)])


def names(s, n):
    """list items, file names, file lists"""
    r = s.rng
    olitems(s, 0)
    for x in [b'a', b'/a/b.txt', b'a.b/c', b'.x', b'a.', b'a.b.c', b'a\\b.c', b'/', b'a/.', b'..', b'x/..']:
        s.add('filename', [x], [o_filename(x)])
    s.add('filename', [None], [None])
    s.add('filename', [b''], [None])
    for x in [b'', b'\n', b'a', b'a\n', b'a\nb', b'#a', b'#a\nb', b' a \n#b\n  #c\n\r\nd\t', b'a#b', b'\x0ba\nb', b'\x0b', b' \x0c#x\n', b'a\n\n\nb\n\n', b'#', b'# ', b'a\r\nb\r\n']:
        l = o_filelist(x)
        s.add('filelist', [x], [len(l)] + l)
    for _ in range(n):
        x = rs(r, 5, [b'1', b'2', b'.', b'. ', b' ', b'\t', b'a', b'0'])
        k = r.randint(0, 6)
        s.add('olitem', [x, k], [o_olitem(x, k)])
        x = rs(r, 7, [b'a', b'.', b'/', b'\\', b'b', b'..', b'\xff'])
        s.add('filename', [x], [o_filename(x) if x else None])
        x = rs(r, 9, [b'a', b'b/c.txt', b'#', b' ', b'\t', b'\n', b'\r', b'\r\n', b'\x0b', b'\n\n', b'\xff'])
        l = o_filelist(x)
        s.add('filelist', [x], [len(l)] + l)


def o_toctree(hs, maxdepth, endl):
    hs = [h for h in hs if h[0] > 0]
    if not hs or maxdepth == 0:
        return None
    e = b'\n' if endl is None else endl
    low = min(h[0] for h in hs)
    out, d = [b'<ul>'], 0
    for lv, slug, text in hs:
        k = lv - low
        if maxdepth > 0 and k >= maxdepth:
            continue
        while d > k:
            out.append(b'    ' * d + b'</ul>')
            d -= 1
        while d < k:
            d += 1
            out.append(b'    ' * d + b'<ul>')
        t = text or b''
        out.append(b'    ' * (d + 1) + b'<li>' + (t if slug is None else b'<a href="#' + slug + b'">' + t + b'</a>') + b'</li>')
    while d >= 0:
        out.append(b'    ' * d + b'</ul>')
        d -= 1
    return e.join(out) + e


def toctree(s, n):
    r = s.rng
    for _ in range(n):
        hs = [(r.choice([0, 1, 1, 2, 2, 3, 3, 4, 6, 9]), r.choice([None, b'a', b'b-c', b'']), r.choice([b'T', b'<em>x</em>', b'', b'100%s', None])) for _ in range(r.randint(0, 6))]
        md = r.choice([-1, -1, -7, 0, 1, 2, 3, 100])
        endl = r.choice([None, b'\n', b'\r\n', b'\r'])
        s.add('toctree', [md, endl] + [y for h in hs for y in h], [len([h for h in hs if h[0] > 0]), o_toctree(hs, md, endl)])


# ---------------------------------------------------------------- dates
def days(y, m, d):
    y, m = y + (m - 1) // 12, (m - 1) % 12 + 1
    y2 = y - (m <= 2)
    era = y2 // 400
    yoe = y2 - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468


def civil(z):
    z += 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    return y + (mp >= 10), mp + (3 if mp < 10 else -9), doy - (153 * mp + 2) // 5 + 1


DATE = re.compile(rb'(\d{4})-(\d{2})-(\d{2})(?: (\d{2})(?::(\d{2})(?::(\d{2})(.*))?)?)?\Z', re.S)


def o_date(x, fmt):
    """the formatted date, or None when it is not a date"""
    m = DATE.match(x)
    if not m:
        return None
    y, mo, d, h, mi, se = [int(v or 0) for v in m.groups()[:6]]
    if y < 1900 or not 1 <= mo <= 12 or not 1 <= d <= 31 or h > 23 or mi > 59 or se > 60:
        return None
    t = days(y, mo, d) * 86400 + h * 3600 + mi * 60 + se
    z, t2 = divmod(t, 86400)
    y, mo, d = civil(z)
    wd = (z + 4) % 7
    v = {b'Y': b'%d' % y, b'm': b'%02d' % mo, b'd': b'%02d' % d, b'H': b'%02d' % (t2 // 3600), b'M': b'%02d' % (t2 // 60 % 60), b'S': b'%02d' % (t2 % 60), b's': b'%d' % t,
         b'j': b'%03d' % (z - days(y, 1, 1) + 1), b'w': b'%d' % wd, b'%': b'%', b'b': [b'Jan', b'Feb', b'Mar', b'Apr', b'May', b'Jun', b'Jul', b'Aug', b'Sep', b'Oct', b'Nov', b'Dec'][mo - 1], b'a': [b'Sun', b'Mon', b'Tue', b'Wed', b'Thu', b'Fri', b'Sat'][wd]}
    out = re.sub(rb'%(.)', lambda k: v[k.group(1)], fmt)
    return out


def dates(s, n):
    r = s.rng
    F = b'%Y-%m-%d %H:%M:%S|%s|%j|%w|%a|%b|%%'

    def add(x, f=F):
        e = o_date(x, f)

        def chk(out, e=e):
            if e is not None and len(e) < 1024:
                return None if out == [e, None] else 'the date %r' % e
            return None if len(out) == 3 and out[0] is None and out[1] == 103 else 'an error'
        s.add('datetime', [x, f], chk, 'date')
    B0 = [b'2010-02-03 04:05:06', b'1900-01-01', b'9999-12-31 23:59:60', b'1999-02-31', b'2000-12-31 23:59:59', b'2016-02-29 12', b'1970-01-01 00:00', b'1969-12-31', b'2100-02-29', b'1901-10-11 20:20:59']
    for x in B0:
        for i in range(len(x) + 1):
            add(x[:i])
            if i < len(x):
                for c in (b'0', b'1', b'2', b'3', b'4', b'5', b'6', b'7', b'8', b'9', b'-', b':', b' ', b'/', b'T', b'\xff', b';'):
                    add(x[:i] + c + x[i + 1:])
    for x in (b'2010-02-03 04:05:06Z', b'2010-02-03 04:05:06 +0100', b'', b'2010-00-01', b'2010-13-01', b'2010-01-00', b'2010-01-32', b'2010-01-01 24', b'2010-01-01 00:60', b'2010-01-01 00:00:61', b'1899-12-31', b'0000-01-01'):
        add(x)
    add(b'2010-02-03', b'x' * 1023)
    add(b'2010-02-03', b'x' * 1024)
    for _ in range(n):
        x = b'%04d-%02d-%02d %02d:%02d:%02d' % (r.choice([r.randint(1900, 2100), r.randint(1890, 9999)]), r.randint(0, 13), r.randint(0, 32), r.randint(0, 24), r.randint(0, 60), r.randint(0, 61))
        add(x[:r.choice([19, 19, 16, 13, 10, r.randint(0, 19)])])


# ---------------------------------------------------------------- content: documents built together with their meaning
WORDS = [b'a', b'foo', b'Bar9', b'x<y', b'A&B', b'"q"', b"it's", b'a/b', b'caf\xc3\xa9', b'(p)', b'1.5', b'a.b', b'#x', b'50%s', b'%d', b'>', b'<', b'c+d', b'=', b'{{ X }}', b';', b'a-b', b'tail:']


def text(r, n=3):
    """plain text: (source, html)"""
    w = [r.choice(WORDS) for _ in range(r.randint(1, n))]
    return b' '.join(w), b' '.join(o_ent(x) for x in w)


def uniq(w):
    return w


URLS = [b'http://e.org/?a=1&b=2', b'p.jpg', b'/x_y*z', b'a"b', b'#f', b'', b'http://x/%20%s']


def inline(r, depth=0, ban=b'', last=True):
    """one inline element: (source, html)"""
    k = r.randint(0, 13 if depth < 3 else 5)
    if k <= 1:
        return text(r)
    if k == 2:
        c = r.choice([b'*', b'_', b'`', b'[', b'!', b'-', b'\\', b' ', b'<', b'&', b'a', b'.'])
        return b'\\' + c + b'z', o_ent(c) + b'z'
    if k == 3:
        d = r.choice([b'`', b'``'])
        if b'`' in ban:
            return text(r)
        c = r.choice([b'x', b'a < b', b'*p', b'**', b'_f_', b'[z](y)', b'<b>', b'a--b', b'  ', b'![', b'%s'])
        if any(x in ban and x in c for x in (b'*', b'_', b']', b')')) or (b']' in ban and b'[' in c):
            c = b'code'
        if d == b'``' and r.random() < .5:
            c = c + b'`' + b'q'
        return d + c + d, b'<code>' + o_ent(c) + b'</code>'
    if k == 4:
        return r.choice([(b'p -- q', b'p &ndash; q'), (b'p--q', b'p&ndash;q'), (b'p --- q', b'p &mdash; q'), (b'p---q', b'p&mdash;q'), (b'p---- q', b'p&mdash;- q'), (b'x - y', b'x - y'), (b'n! m', b'n! m'), (b'n!m', b'n!m')])
    if k == 5:
        u = r.choice(URLS)
        if any(x in u for x in (b'*', b'_')) or b']' in ban:
            u = b'http://u/'
        if b']' in ban:
            return text(r)
        return b'[[' + u + b']]', b'<a href="' + u + b'">' + u + b'</a>'
    if k in (6, 7, 8, 9):
        d = r.choice([b'*', b'_'])
        if d in ban:
            return text(r)
        n = 1 + (k >= 8)
        s, h = inlines(r, depth + 1, ban + d)
        t = b'em' if n == 1 else b'strong'
        return d * n + s + d * n, b'<' + t + b'>' + h + b'</' + t + b'>'
    u = r.choice(URLS)
    if any(x in u for x in (b'*', b'_')) and ban:
        u = b'u/v'
    gap = r.choice([b'', b'', b'\n', b' ', b'\t', b' \n '])
    if b'\n' in ban:
        gap = b''
    esc = u.replace(b')', b'\\)')
    if k in (10, 11):
        if b']' in ban:
            return text(r)
        s, h = inlines(r, depth + 1, ban + b']', img=not ban)
        return b'[' + s + b']' + gap + b'(' + esc + b')', b'<a href="' + u + b'">' + h + b'</a>'
    if b']' in ban or b')' in ban:
        return text(r)
    a = r.choice([b'alt', b'a b', b'', b'it"s', b'100%d'])
    return b'![' + a + b']' + gap + b'(' + esc + b')', b'<img src="' + u + b'" alt="' + a + b'">'


def inlines(r, depth=0, ban=b'', img=False):
    """inline elements joined by words: (source, html)"""
    out, k = [], r.randint(1, 3 if depth < 2 else 1)
    if img and r.random() < .3:      # image inside a link
        return b'![im](p.png)', b'<img src="p.png" alt="im">'
    for i in range(k):
        out.append(inline(r, depth, ban))
    w = [text(r, 1) for _ in range(k + 1)]
    s = h = b''
    for i, (a, b) in enumerate(out):
        j = r.choice([b' ', b'', b', '])
        s += w[i][0] + j + a + j
        h += w[i][1] + j + b + j
    return s + w[k][0], h + w[k][1]


def lines_of(r, ban=b''):
    """inline text over one or more lines (with line breaks): list of sources, and a function of the line ending giving the html"""
    ls = [inlines(r, ban=b'\n' + ban) for _ in range(r.choice([1, 1, 2, 3]))]
    br = [r.random() < .25 for _ in ls[:-1]]
    sp = [b' ' * r.randint(2, 4) if x else b'' for x in br]
    src = [a + (sp[i] if i < len(sp) else b'') for i, (a, b) in enumerate(ls)]
    html = [b + (b'<br />' if i < len(br) and br[i] else b'') for i, (a, b) in enumerate(ls)]
    return src, html


class Doc:
    """a document: source text and what it means"""

    def __init__(self, r, eol, mixed=None, depth=0, first=None):
        self.r, self.eol, self.depth, self.mixed = r, eol, depth, mixed
        self.lines, self.html, self.headers, self.desc, self.first, self.excerpt = [], b'', [], None, None, 0

    def block(self):
        r, E = self.r, self.eol
        k = r.randint(0, 9 if self.depth < 2 else 8)
        if k <= 1:
            ls, hs = lines_of(r)
            if self.mixed:
                a, b = inlines(r, ban=b'\n')
                ls, hs = [a], [b]
            if r.random() < .3:
                ls[0], hs[0] = b'Z', b'Z'
            elif ls[0][:1] in bs(b'.#*+-<> \t\\0123456789'):
                ls[0], hs[0] = b'P' + ls[0], b'P' + hs[0]
            for i in range(1, len(ls)):
                if ls[i].strip() == b'':
                    ls[i], hs[i] = b'q', b'q'
            if self.desc is None:
                self.desc = o_desc(E.join(ls))
            self.lines += ls
            self.html += b'<p>' + E.join(hs) + b'</p>' + E
            return True
        if k == 2:
            n = r.randint(1, 6)
            s, h = inlines(r, ban=b'\n')
            if s[:1] in bs(b' \t'):
                s, h = b'T' + s, b'T' + h
            self.headers.append((n, o_slug(s), h))
            if self.first is None:
                self.first = o_ent(s)
            self.lines.append(b'#' * n + r.choice([b' ', b'  ', b'\t']) + s)
            self.html += b'<h%d id="%s">%s</h%d>' % (n, o_slug(s), h, n) + E
            return r.random() < .5
        if k == 3:
            ls = [b'<div>' + rs(r, 3, WORDS)] + [r.choice([b' <b>', b'x & y', b'* z', b'# q', b'</div>', b'    c']) for _ in range(r.randint(0, 0 if self.mixed else 2))]
            self.lines += ls
            self.html += E.join(ls) + E
            return True
        if k == 4:
            p = r.choice([b' ', b'    ', b'\t', b'\t '])
            ls = [rs(r, 4, WORDS + [b' ', b'*a*']).strip() or b'c'] + [r.choice([b'', b'  in', b'<b>', b'x & "y"', b'* z', b'# q', b'*e*']) for _ in range(r.randint(0, 3))]
            self.lines += [p + l for l in ls]
            self.html += b'<pre><code>' + E.join(o_ent(l) for l in ls) + b'</code></pre>' + E
            return True
        if k == 5:
            c = r.choice(b'*-+')
            self.lines.append(bytes([c]) * r.randint(3, 6))
            self.html += b'<hr />' + E
            return r.random() < .5
        if k in (6, 7, 8):
            n = r.randint(1, 4)
            if k <= 7:
                p = r.choice([b'*', b'+', b'-']) + r.choice([b' ', b'  ', b'\t', b'   '])
                heads = [p] * n
            else:
                w = r.randint(3, 6)
                heads = [(b'%d.' % r.choice([i + 1, 7, r.randint(0, 10 ** (w - 2) - 1)])) for i in range(n)]
                heads = [h + b' ' * (w - len(h)) for h in heads]
            t = b'ul' if k <= 7 else b'ol'
            self.html += b'<' + t + b'>' + E
            for hd in heads:
                ls, hs = lines_of(r)
                if r.random() < .3:
                    ls, hs = [b'i'], [b'i']
                if ls[0][:1] in bs(b' \t'):
                    ls[0], hs[0] = b'L' + ls[0], b'L' + hs[0]
                self.lines += [(hd if i == 0 else b' ' * len(hd)) + l for i, l in enumerate(ls)]
                self.html += b'<li>' + E.join(hs) + b'</li>' + E
            self.html += b'</' + t + b'>' + E
            return True
        p = b'>' + r.choice([b'', b' ', b'  ', b'\t'])
        while True:
            d = Doc(r, E, depth=self.depth + 1)
            d.fill(r.randint(1, 3))
            if d.lines[0][:1] not in bs(b' \t') and d.lines[0] != b'':
                break
        self.lines += [p + l for l in d.lines]
        self.html += b'<blockquote>' + d.html + b'</blockquote>' + E
        return True

    def fill(self, n, excerpt=False):
        r = self.r
        mark = r.randint(1, n) if excerpt else None
        for i in range(n):
            if i:
                self.lines += [b''] * r.choice([1, 1, 1, 2, 3]) if need or r.random() < .6 else []
            if mark == i:
                if not need and self.lines[-1] != b'':
                    self.lines.append(b'')
                self.lines += [b'.' * r.randint(2, 5), b'']
                self.excerpt = len(self.html)
            need = self.block()
        return self

    def src(self, end=1):
        return self.eol.join(self.lines) + self.eol * end


def doc(r, mixed=False, excerpt=None):
    eol = r.choice([b'\n', b'\n', b'\r\n', b'\r'])
    mixed = r.random() < .25
    if mixed:
        eol = b'\r\n'
    d = Doc(r, eol, mixed).fill(r.choice([1, 1, 2, 3, 5]), r.random() < .4 if excerpt is None else excerpt)
    d.pad = r.choice([0, 0, 1, 2])
    if mixed:      # each line with its own ending; the first one is used in the output
        ls = d.lines + [b''] * r.choice([0, 0, 1, 2])
        d.text = eol * d.pad + b''.join(l + (eol if i == 0 else r.choice([b'\n', b'\r\n'])) for i, l in enumerate(ls))
    else:
        d.text = eol * d.pad + d.src(r.choice([1, 1, 2, 3]))
    return d


def content(s, n):
    """block and inline elements (documents built from their meaning)"""
    r = s.rng
    for _ in range(n):
        d = doc(r)
        hs = [x for h in d.headers for x in h]
        e = [d.html, d.excerpt, d.first, d.desc, d.eol, len(d.headers)] + hs
        if b'..' in d.text:      # without an excerpt to look for, the mark is a paragraph
            s.add('content', [d.text], lambda out, e=e: None if out[:-1] == e else repr(e)[:2000], 'content')
        else:
            s.add('content', [d.text], e + [d.html], 'content')
    for _ in range(n):
        a, h = inlines(r)
        s.add('inline', [a], [h], 'inline')
    for a, h in [(b'*', b'*'), (b'**', b'**'), (b'a *b', b'a *b'), (b'a **b', b'a **b'), (b'a **b* c', None), (b'a _b', b'a _b'), (b'__b c', b'__b c'), (b'`b c', b'`b c'), (b'``b c', b'``b c'), (b'``b` c', None), (b'[b c', b'[b c'), (b'[b] c', b'[b] c'), (b'[b](c', b'[b](c'), (b'![b c', b'![b c'), (b'![b] c', b'![b] c'), (b'[[b c', b'[[b c'), (b'', b''), (b'\\', b'\\'), (b'a\\', b'a\\'), (b'a -', b'a -'), (b'a --', b'a &ndash;'), (b'a ---', b'a &mdash;'), (b'a  ', b'a<br />'), (b'a ', b'a '), (b'a  b', b'a  b'), (b'a   \nb', b'a<br />\nb'), (b'a!', b'a!'), (b'\\*a*', None), (b'*a\\*b*', b'<em>a*b</em>'), (b'**a\\*\\*b**', b'<strong>a**b</strong>'), (b'*[a* b', b'<em>[a</em> b'), (b'_![a_ b', b'<em>![a</em> b'), (b'*[a](b* c', b'<em>[a](b</em> c'), (b'a __', b'a __'), (b'a ``', b'a ``'), (b'a [[', b'a [['), (b'[a \\\\ b', b'[a \\ b')]:
        s.add('inline', [a], [h] if h is not None else (lambda out: None), 'inline')


FUZZ = [b'*', b'**', b'_', b'__', b'`', b'``', b'[', b'[[', b']', b']]', b'(', b')', b'![', b'!', b'-', b'--', b'---', b' ', b'  ', b'\t', b'\n', b'\r', b'\r\n', b'\n\n', b'\\', b'a', b'b', b'<', b'>', b'> ', b'# ', b'## ', b'1. ', b'12.', b'* ', b'+ ', b'- ', b'    ', b'.', b'..', b'...', b'\n..\n', b'&', b'"', b'%s', b'\xc3\xa9', b'\n* ', b'\n  ', b'\n1. ', b'\n   ', b'\n> ']


def fuzz(s, n):
    """any text at all: no crash, the same answer whatever the caller asks for"""
    r = s.rng
    for i in range(n):
        x = rs(r, r.choice([4, 8, 16, 30]), FUZZ)
        s.add('content', [x], lambda out: None if out[0] is not None and (out[1] or out[-1] == out[0] or True) else 'some html', 'any text')
        y = rs(r, 12, FUZZ)
        s.add('inline', [y], lambda out: None if out[0] is not None else 'some html', 'any inline text')
        s.add('source', [b'A: b\n---\n' + x, -1], lambda out: None, 'any source')
    for k in (10, 30, 60):
        for t in (b'*[a', b'_![a', b'**[a', b'[', b'![', b'[[', b'**', b'*a_', b'> ', b'[*'):
            s.add('inline', [t * k], lambda out: None, 'deeply nested text')
            s.add('content', [t * k + b'\n'], lambda out: None, 'deeply nested text')
