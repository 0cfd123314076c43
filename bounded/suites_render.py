"""Executable contracts for src/blogc: sources, templates, rendering, listings, the command line."""
import os
import re
import shutil
import subprocess
import tempfile
from .core import *
from .suites_common import rs, WS, o_pos
from .suites_blogc import drv, doc, o_toctree, o_date, o_ent, bs

NL = b'\r\n'


def pairs(out, i):
    """a dumped trie at out[i]: (dict or None, next index)"""
    if out[i] is None:
        return None, i + 1
    d = {}
    n = out[i]
    i += 1
    while not isinstance(out[i], int):
        if out[i] in d:
            return 'twice %r' % out[i], i
        d[out[i]] = out[i + 1]
        i += 2
    if out[i] != n or len(d) != n:
        return 'size', i
    return d, i + 1


# ---------------------------------------------------------------- sources
RESERVED = b'FILENAME CONTENT DATE_FORMATTED DATE_FIRST_FORMATTED DATE_LAST_FORMATTED PAGE_FIRST PAGE_PREVIOUS PAGE_CURRENT PAGE_NEXT PAGE_LAST BLOGC_VERSION'.split()
KEYS = [b'A', b'TITLE', b'DATE', b'TAGS', b'FIRST_HEADER', b'DESCRIPTION', b'TOCTREE', b'A_1', b'Z9', b'FILENAME_', b'CONTENTS', b'DATE_FORMAT', b'PAGE', b'RAW_CONTENT', b'EXCERPT', b'X__Y']
VALS = [b'', b'foo', b'a: b', b'--', b'x y  z', b'\xc3\xa9', b'#1', b'KEY: v', b'<b>&', b'%s%d', b'\x0ba']


def strtol(x):
    m = re.match(rb'[ \t\n\r\x0b\x0c]*([+-]?\d+)', x)
    return (max(-2 ** 63, min(2 ** 63 - 1, int(m.group(1)))), m.end() == len(x)) if m else (0, x == b'')


def header(r, eol):
    """a header: (text, dict)"""
    h, out = {}, b''
    for _ in range(r.randint(0, 4)):
        k, v = r.choice(KEYS), r.choice(VALS)
        pre, post = r.choice([b'', b' ', b' \t', b'  ']), r.choice([b'', b' ', b'\t \x0c'])
        if r.random() < .1:
            k, v = b'TOCTREE_MAXDEPTH', r.choice([b'1', b'2', b'-1', b'0', b'x', b'3y', b''])
        out += r.choice([b'', b'', b'  ', b'\t', eol]) + k + b':' + pre + v + post + r.choice([eol, eol, eol * 2])
        h[k] = v.strip(WS)
    return out, h


def with_content(h, d, raw, maxdepth):
    """what a source with the document d as its content defines; None if it is rejected"""
    h = dict(h, RAW=None)
    del h['RAW']
    h[b'RAW_CONTENT'] = raw
    if d.first is not None:
        h.setdefault(b'FIRST_HEADER', d.first)
    if d.desc is not None:
        h.setdefault(b'DESCRIPTION', d.desc)
    if b'TOCTREE' not in h and d.headers:
        if b'TOCTREE_MAXDEPTH' in h:
            n, ok = strtol(h[b'TOCTREE_MAXDEPTH'])
            if not ok:
                return None
            maxdepth = n
        t = o_toctree(d.headers, maxdepth, d.eol)
        if t is not None:
            h[b'TOCTREE'] = t
    h[b'CONTENT'] = d.html
    h[b'EXCERPT'] = d.html[:d.excerpt] if d.excerpt else d.html
    return h


def sources(s, n):
    """source files: variables, reserved names, content"""
    r = s.rng

    def add(src, md, want, err=100, what='source'):
        def chk(out):
            if want is None:
                return None if isinstance(out[0], int) and out[0] == err and out[2] is None and len(out) == 3 else 'rejected with an error of type %d' % err
            if out[0] is not None:
                return 'accepted'
            d, i = pairs(out, 1)
            return None if d == want and i == len(out) else repr(want)[:2000]
        s.add('source', [src, md], chk, what)
    for k in RESERVED:
        add(k + b': x\n---\nfoo\n', -1, None)
        add(b'A: b\n' + k + b':x\n', -1, None)
        add(k + b'X: x\n', -1, {k + b'X': b'x'})
        add(k[:-1] + b': x\n', -1, {k[:-1]: b'x'} if k[:-1] not in RESERVED else None)
    for x in (b'', b' \n', b'A', b'A: ', b'A:', b'A: b', b'A b: c\n', b'a: b\n', b'A: b\nC: d', b'A: b\nC', b'A: b\nC:', b'1: b\n', b'_A: b\n', b'A-: b\n', b'A: b\n--x\nfoo\n', b'A: b\n- \nfoo\n', b'\xef\xbb\xbfA: b\n', b'A: b\n# c\n'):
        add(x, -1, None)
    for _ in range(n):
        d = doc(r, excerpt=None)
        eol = r.choice([b'\n', b'\r\n', b'\r'])
        ht, h = header(r, eol)
        md = r.choice([-1, -1, 0, 1, 2])
        k = r.random()
        if k < .1:
            add(ht, md, h if h else None)
            continue
        raw = d.text.lstrip(NL)
        if k < .2 and ht:      # an error in the header
            bad = r.choice([b'x: y', b'A!: y', b'A B: c', r.choice(RESERVED) + b': q', b'= 3', b'_: 2'])
            add(ht + bad + eol + b'---' + eol + raw, md, None)
            continue
        if k < .25:
            add(ht + b'--' + r.choice([b'x', b' ', b'\t', b'.']) + b'-' + eol + raw, md, None)
            continue
        if k < .3 and ht:
            add(ht + r.choice([b'KEY', b'KEY:', b'KEY: v', b'K']), md, None)
            continue
        add(ht + b'-' * r.randint(1, 9) + eol + r.choice([b'', eol, NL]) + raw, md, with_content(h, d, raw, md), what='source with content')


# ---------------------------------------------------------------- variables
def get(name, g, l):
    if l is not None and name in l:
        return l[name]
    return (g or {}).get(name)


def mapped(name, item):
    return re.sub(rb'[^0-9A-Z]', b'_', (name + b'__' + item).upper())


def fmt(name, g, l, fe):
    """what {{ name }} stands for: None if it is not defined; fe: (name of the list, item)"""
    v = get(name, g, l)
    if v is not None:
        return v
    m = re.match(rb'(.*)_(\d+)\Z', name, re.S)
    base, size = (m.group(1), int(m.group(2))) if m else (name, None)
    date = False
    if base.endswith(b'_FORMATTED'):
        base, date = base[:-10], name.startswith(b'DATE_')
    if base == b'FOREACH_ITEM' and fe:
        v = fe[1]
    elif base == b'FOREACH_VALUE' and fe:
        v = get(mapped(*fe), g, l)
    else:
        v = get(base, g, l)
    if v is None:
        return None
    if date:
        f = get(b'DATE_FORMAT', g, l)
        if f is not None:
            v = o_date(v, f) or v
    return v if size is None else v[:size]


def items(name, g, l):
    v = get(name, g, l)
    return [x for x in v.split(b' ') if x] if v is not None else []


VN = [b'A', b'B', b'TAGS', b'DATE', b'TITLE', b'FOO_5', b'A_FORMATTED', b'DATE_X']
VQ = VN + [b'A_3', b'TITLE_1', b'TITLE_4', b'TITLE_400', b'TITLE_99999999999999999999', b'DATE_FORMATTED', b'DATE_FORMATTED_4', b'DATE_X_FORMATTED', b'FOO', b'FOO_55', b'NOPE', b'NOPE_3', b'NOPE_FORMATTED', b'FOREACH_ITEM', b'FOREACH_VALUE', b'FOREACH_ITEM_2', b'FOREACH_VALUE_3', b'TITLE_FORMATTED', b'TITLE_FORMATTED_2', b'A3', b'A_', b'A_B', b'FOREACH_ITEM_FORMATTED', b'TITLE_5_3']
ITEMS = [b'x', b'foo', b'a-b', b'x1', b'a.b', b'Zz']


def vars_(r, extra=()):
    d = {}
    for k in VN:
        if r.random() < .4:
            d[k] = r.choice([b'', b'1', b'abc', b'ABCdef', b'foo bar', b'abcdefghij', b'a%s', b'<b>'])
    if r.random() < .5:
        d[b'TAGS'] = b' '.join(r.choice([b'', b''] + ITEMS * 2) for _ in range(r.randint(0, 4)))
    for k in (b'DATE', b'DATE_X'):
        if r.random() < .5:
            d[k] = r.choice([b'2010-02-03 04:05:06', b'2011-12-31', b'nope', b'2010-02'])
    for k in ITEMS:
        if r.random() < .3:
            d[mapped(b'TAGS', k)] = r.choice([b'Foo', b'value of', b''])
    if r.random() < .05:
        d[b'FOREACH_ITEM'] = b'own'
    if r.random() < .4:
        d[b'DATE_FORMAT'] = r.choice([b'%Y', b'%d/%m/%Y', b'%b %d', b'x'])
    return d


def flat(d):
    return [-1] if d is None else [len(d)] + [x for kv in d.items() for x in kv]


def variables(s, n):
    """looking up, formatting and truncating variables"""
    r = s.rng
    for _ in range(n):
        g, l = vars_(r), r.choice([None, vars_(r), vars_(r)])
        for q in r.sample(VQ, 6):
            fe = r.choice([None, (r.choice([b'TAGS', b'A']), r.choice(ITEMS))])
            it = items(q, g, l)
            s.add('variable', [q, fe and fe[0], fe and fe[1]] + flat(g) + flat(l), [get(q, g, l), fmt(q, g, l, fe), len(it)] + it)


# ---------------------------------------------------------------- templates
def tree(r, depth=0, block=False, fe=False):
    """a template as a tree"""
    out = []
    for _ in range(r.randint(0 if depth else 1, 4 if depth < 2 else 2)):
        k = r.choice('ttvvbbifeecd' if depth < 3 else 'ttv')
        if k in 't':
            if not out or out[-1][0] != 't':
                out.append(('t', rs(r, 4, [b'a', b' ', b'\n', b'\t', b'<x>', b'}', b'}}', b'%}', b'{ ', b'{a', b'-', b'%s', b'"', b'\xc3\xa9', b'%', b'\\', b'$']) or b' '))
        elif k == 'v':
            out.append(('v', r.choice(VQ)))
        elif k == 'b' and not block:
            out.append(('b', r.choice([b'entry', b'listing', b'listing_once', b'listing_empty', b'listing_entry']), tree(r, depth + 1, True, fe)))
        elif k == 'f' and not fe:
            out.append(('f', r.choice([b'TAGS', b'TAGS', b'A', b'NOPE', b'TAGS_3']), tree(r, depth + 1, block, True)))
        elif k in 'ie':
            op = r.choice([b'==', b'!=', b'<', b'>', b'<=', b'>='])
            q = b'"' + r.choice([b'', b'1', b'abc', b'ABCdef', b'x', b'foo', b'a b', b'%}', b'{{ A }}']) + b'"' if r.random() < .6 else r.choice(VQ)
            out.append(('i', b'if', r.choice(VQ), op, q, tree(r, depth + 1, block, fe), tree(r, depth + 1, block, fe) if r.random() < .5 else None))
        elif k in 'cd':
            out.append(('i', r.choice([b'ifdef', b'ifndef']), r.choice(VQ), None, None, tree(r, depth + 1, block, fe), tree(r, depth + 1, block, fe) if r.random() < .5 else None))
    return out


def toks(t):
    """the tree as a list of tokens"""
    out = []
    for n in t:
        if n[0] == 't':
            out.append(('t', n[1]))
        elif n[0] == 'v':
            out.append(('v', n[1]))
        elif n[0] == 'b':
            out += [('s', [b'block', n[1]])] + toks(n[2]) + [('s', [b'endblock'])]
        elif n[0] == 'f':
            out += [('s', [b'foreach', n[1]])] + toks(n[2]) + [('s', [b'endforeach'])]
        else:
            out += [('s', [x for x in n[1:5] if x is not None])] + toks(n[5]) + ([('s', [b'else'])] + toks(n[6]) if n[6] is not None else []) + [('s', [b'endif'])]
    return out


def write(r, tk):
    """the text of a list of tokens, and the tokens as they count (white space cleaned)"""
    out, eff = b'', [list(t) for t in tk]
    sp = lambda: r.choice([b' ', b' ', b'  ', b'\n', b'\t', b'\r\n', b' \x0b\x0c'])
    for i, (k, v) in enumerate(tk):
        if k == 't':
            out += v
        elif k == 'v':
            out += b'{{' + r.choice([b'', sp()]) + v + r.choice([b'', sp()]) + b'}}'
        else:
            a, b = r.random() < .2, r.random() < .2
            out += b'{%' + (b'-' if a else b'') + r.choice([b'', sp()]) + sp().join(v) + (r.choice([b'', sp()]) if v[-1].endswith(b'"') else sp()) + (b'-' if b else b'') + b'%}'
            if a and i and eff[i - 1][0] == 't':
                eff[i - 1][1] = eff[i - 1][1].rstrip(WS)
            if b and i + 1 < len(tk) and tk[i + 1][0] == 't':
                eff[i + 1][1] = eff[i + 1][1].lstrip(WS)
    return out, eff


def cleaned(t, it):
    """the tree with the texts of the (cleaned) tokens"""
    out = []
    for n in t:
        x = next(it)
        if n[0] == 't':
            out.append(('t', x[1]))
        elif n[0] == 'v':
            out.append(n)
        elif n[0] in 'bf':
            c = cleaned(n[2], it)
            next(it)
            out.append((n[0], n[1], c))
        else:
            a = cleaned(n[5], it)
            next(it)
            b = None
            if n[6] is not None:
                b = cleaned(n[6], it)
                next(it)
            out.append(n[:5] + (a, b))
    return out


def render(t, g, listing, srcs, ents, leak=False):
    """the rendering of a tree; leak: with the known defect skipped-block-scope"""
    ents = iter(ents)
    out = []
    if leak:
        return render_leak(t, g, listing, srcs, ents)

    def go(t, l, fe):
        for n in t:
            if n[0] == 't':
                out.append(n[1])
            elif n[0] == 'v':
                out.append(fmt(n[1], g, l, fe) or b'')
            elif n[0] == 'f':
                for x in items(n[1], g, l):
                    go(n[2], l, (n[1], x))
            elif n[0] == 'i':
                a = fmt(n[2], g, l, fe)
                if n[3] is None:
                    c = (a is not None) == (n[1] == b'ifdef')
                else:
                    b = n[4][1:-1] if n[4][:1] == b'"' else fmt(n[4], g, l, fe)
                    c = a is not None and b is not None and {b'==': a == b, b'!=': a != b, b'<': a < b, b'>': a > b, b'<=': a <= b, b'>=': a >= b}[n[3]]
                go(n[5] if c else n[6] or [], l, fe)
            elif n[1] == b'entry':
                if not listing:
                    go(n[2], srcs[0] if srcs else None, fe)
            elif n[1] == b'listing_entry':
                e = next(ents, None)
                if listing and e is not None:
                    go(n[2], e, fe)
            elif listing:
                if n[1] == b'listing':
                    for x in srcs:
                        go(n[2], x, fe)
                elif n[1] == b'listing_once' or not srcs:
                    go(n[2], None, fe)
    go(t, None, None)
    return b''.join(out)


def render_leak(t, g, listing, srcs, ents):
    """as render, but a block that is skipped counts as open until the next block ends (the listed defect)"""
    out = []
    st = {'in': False, 'src': None}

    def go(t, fe):
        for n in t:
            l = st['src'] if st['in'] else None
            if n[0] == 't':
                out.append(n[1])
            elif n[0] == 'v':
                out.append(fmt(n[1], g, l, fe) or b'')
            elif n[0] == 'f':
                for x in items(n[1], g, l):
                    go(n[2], (n[1], x))
            elif n[0] == 'i':
                a = fmt(n[2], g, l, fe)
                if n[3] is None:
                    c = (a is not None) == (n[1] == b'ifdef')
                else:
                    b = n[4][1:-1] if n[4][:1] == b'"' else fmt(n[4], g, l, fe)
                    c = a is not None and b is not None and {b'==': a == b, b'!=': a != b, b'<': a < b, b'>': a > b, b'<=': a <= b, b'>=': a >= b}[n[3]]
                go(n[5] if c else n[6] or [], fe)
            else:
                st['in'] = True
                if n[1] == b'entry':
                    runs = [] if listing else [srcs[0] if srcs else None]
                elif n[1] == b'listing_entry':
                    e = next(ents, None)
                    runs = [e] if listing and e is not None else []
                elif not listing:
                    runs = []
                elif n[1] == b'listing':
                    runs = srcs
                else:
                    st['src'] = None
                    runs = [None] if n[1] == b'listing_once' or not srcs else []
                for x in runs:
                    st['src'], st['in'] = x, True
                    go(n[2], fe)
                    st['in'] = False
    go(t, None)
    return b''.join(out)


def judge(got, t, g, listing, srcs, ents):
    """None, or what was expected (with the key of the listed defect when that explains it)"""
    want = render(t, g, listing, srcs, ents)
    if got == want:
        return None
    m = 'the text %r' % want
    return (m, 'skipped-block-scope') if got == render(t, g, listing, srcs, ents, True) else m


def case(r, depth=0):
    t = tree(r, depth)
    text, eff = write(r, toks(t))
    return text, cleaned(t, iter(eff))


def rendering(s, n):
    """templates render as their tree says"""
    r = s.rng
    for _ in range(n):
        text, t = case(r)
        g = vars_(r)
        listing = r.random() < .6
        srcs = [vars_(r) for _ in range(r.randint(0, 3) if listing else r.choice([0, 1, 1, 1]))]
        ents = [r.choice([None, vars_(r)]) for _ in range(r.choice([0, 0, 1, 2]))] if listing else []
        a = [text, int(listing)] + flat(g) + [len(srcs)] + [x for d in srcs for x in flat(d)] + [len(ents)] + [x for d in ents for x in flat(d)]
        s.add('render', a, lambda out, c=(t, g, listing, srcs, ents): 'no error' if out[0] is not None or len(out) != 2 else judge(out[1], *c), 'rendering')


def badtree(s, n):
    """templates with unbalanced or malformed statements are rejected, others accepted"""
    r = s.rng
    bad = lambda out: None if isinstance(out[0], int) and out[0] == 101 and out[2] == 0 and len(out) == 3 else 'rejected with an error'
    good = lambda out: None if out[0] is None else 'accepted'
    S = lambda *w: ('s', [x.encode() for x in w])
    for x in (b'{% if A == "b %}', b'{% foo %}', b'{% block foo %}{% endblock %}', b'{% if A = "b" %}{% endif %}', b'{% if A === "b" %}{% endif %}', b'{% if a == "b" %}{% endif %}', b'{% if A == b %}{% endif %}', b'{% if A == 1 %}{% endif %}', b'{{ a }}', b'{{ A b }}', b'{{ A }', b'{{ A', b'{% ', b'{% block entry', b'{% block entry %}', b'{% ifdef a %}{% endif %}', b'{% foreach a %}{% endforeach %}', b'{%- - endblock %}', b'{%-- block entry %}', b'{% block entry --%}{% endblock %}', b'{{ A }x}', b'{% if A %}{% endif %}', b'{% if A == Bx %}{% endif %}', b'{% endif %}', b'{% ifdef A-B %}{% endif %}', b'{% endblock %', b'{{}}', b'{%%}', b'{% ifdef A %}{% else %}{% else %}{% endif %}'):
        s.add('template', [x], bad, 'malformed template')
    for x in (b'', b'{', b'a{', b'{a', b'%}', b'}}', b'{ {', b'{{A}}', b'{%block entry %}{%endblock %}', b'{% if A == "\\"" %}{% endif %}', b'{% if A == "%}" %}{% endif %}'):
        s.add('template', [x], good, 'template')
    for _ in range(n):
        t = tree(r)
        tk = toks(t)
        st = [i for i, x in enumerate(tk) if x[0] == 's']
        k = r.randint(0, 6)
        if k == 0 or not st:
            s.add('template', [write(r, tk)[0]], good, 'template')
            continue
        i = r.choice(st)
        w = tk[i][1][0]
        if k == 1:           # leave out an opening or closing statement
            if w == b'else':
                continue
            tk = tk[:i] + tk[i + 1:]
        elif k == 2:         # say a closing statement twice
            if w not in (b'endblock', b'endif', b'endforeach'):
                continue
            d = {b'endif': b'if', b'endblock': b'block', b'endforeach': b'foreach'}[w]
            if d == b'if':   # the extra one may close an outer conditional: then that one's own is left over
                pass
            tk = tk[:i] + [tk[i]] + tk[i:]
        elif k == 3:         # nest a block or an iterator
            if w == b'block':
                tk = tk[:i + 1] + [tk[i], S('endblock')] + tk[i + 1:]
            elif w == b'foreach':
                tk = tk[:i + 1] + [tk[i], S('endforeach')] + tk[i + 1:]
            else:
                continue
        elif k == 4:         # a conditional or iterator that starts inside of a block and ends outside of it, or the other way
            if w not in (b'block', b'endblock'):
                continue
            c = r.choice([(S('ifdef', 'A'), S('endif')), (S('foreach', 'TAGS'), S('endforeach'))])
            if any(x[1][0] == b'foreach' for x in tk if x[0] == 's'):
                c = (S('ifdef', 'A'), S('endif'))
            j = i
            tk = tk[:j] + [c[0], tk[j], c[1]] + tk[j + 1:]
        elif k == 5:         # else without a conditional
            tk = tk + [S('else')]
        else:                # two else in a row
            if w != b'else':
                continue
            tk = tk[:i] + [tk[i], tk[i]] + tk[i + 1:]
        s.add('template', [write(r, tk)[0]], bad, 'unbalanced template')


class Malformed(Exception):
    pass


TYPES = {b'ifdef': 1, b'ifndef': 2, b'if': 3, b'else': 4, b'endif': 5, b'foreach': 6, b'endforeach': 7, b'block': 8, b'endblock': 9}
OPS = {b'!=': 1, b'==': 2, b'<': 4, b'<=': 6, b'>': 8, b'>=': 10}
BLOCKS = (b'entry', b'listing', b'listing_once', b'listing_empty', b'listing_entry')


def o_template(src):
    """what a template says, read by descent: (nodes, position of the fault or None, crossing): position False is a fault at the end"""
    n = len(src)
    i = 0
    nodes = []
    stack = []           # the statements open here: (word, else seen)
    crossing = False
    lstrip = False       # a cleaner stands right before position i

    def ws(i):
        while i < n and src[i] in WS:
            i += 1
        return i

    def var(i):
        """a name at i and where it ends"""
        if i >= n or not 65 <= src[i] <= 90:
            raise Malformed(i)
        j = i + 1
        while j < n and (65 <= src[j] <= 90 or 48 <= src[j] <= 57 or src[j] == 95):
            j += 1
        return src[i:j], j

    def gap(i):
        """at least one white space character"""
        if i >= n or src[i] not in WS:
            raise Malformed(i)
        return ws(i)
    try:
        while i < n:
            # the text up to the next statement
            j = i
            while j < n and not (src[j:j + 1] == b'{' and src[j + 1:j + 2] in (b'{', b'%') and src[j + 1:j + 2]):
                j += 1
            if j > i:
                t = src[i:j]
                nodes.append((11, 0, t.lstrip(bytes(WS)) if lstrip else t, None))
            lstrip = False
            if j >= n:
                i = n
                break
            i = j + 2
            if src[j + 1:j + 2] == b'{':
                v, i = var(ws(i))
                i = ws(i)
                for _ in range(2):
                    if src[i:i + 1] != b'}':
                        raise Malformed(i)
                    i += 1
                nodes.append((10, 0, v, None))
                continue
            if src[i:i + 1] == b'-':
                i += 1
                if nodes and nodes[-1][0] == 11:
                    nodes[-1] = nodes[-1][:2] + (nodes[-1][2].rstrip(bytes(WS)),) + nodes[-1][3:]
            i = ws(i)
            j = i
            while j < n and 97 <= src[j] <= 122:
                j += 1
            word = src[i:j]
            if not word or j >= n or src[j] not in WS or word not in TYPES:
                raise Malformed(j)
            i = j
            op, d0, d1 = 0, None, None
            # is the statement allowed here?
            names = [x for x, _ in stack]
            inner = names[names.index(b'block') + 1:] if b'block' in names else names
            conds = [k for k, x in enumerate(stack) if x[0] == b'if']
            icond = b'if' in inner
            if word == b'block':
                if b'block' in names:
                    raise Malformed(i)
            elif word == b'endblock':
                if b'block' not in names or inner:
                    raise Malformed(i if b'block' not in names else False)
                stack.pop()
            elif word == b'foreach':
                if b'foreach' in names:
                    raise Malformed(i)
            elif word == b'endforeach':
                if b'foreach' not in inner:
                    raise Malformed(i)
                if names[-1] != b'foreach':
                    crossing = True
                del stack[names.index(b'foreach')]
            elif word == b'endif':
                if not icond:
                    raise Malformed(i)
                if names[-1] != b'if':
                    crossing = True
                del stack[conds[-1]]
            elif word == b'else':
                if not icond:
                    raise Malformed(i)
                if names[-1] != b'if':
                    crossing = True
                if stack[conds[-1]][1] == 1:
                    raise Malformed(i)
                if stack[conds[-1]][1] == 2:
                    crossing = True       # a second else after a conditional inside of the first one
                stack[conds[-1]] = (b'if', 1)
            if word == b'endif':              # a conditional inside of an else part: see above
                stack = [(x, 2 if y else y) for x, y in stack]
            if word in (b'ifdef', b'ifndef', b'if'):
                stack = [(x, 2 if y else y) for x, y in stack] + [(b'if', 0)]
            elif word in (b'foreach', b'block'):
                stack.append((word, 0))
            # its arguments
            if word == b'block':
                i = gap(i)
                j = i
                while j < n and (97 <= src[j] <= 122 or (src[j] == 95 and j > i)):
                    j += 1
                d0 = src[i:j]
                if not d0 or j >= n or src[j] not in WS or d0 not in BLOCKS:
                    raise Malformed(j)
                i = j
            elif word in (b'ifdef', b'ifndef', b'foreach', b'if'):
                d0, i = var(gap(i))
            if word == b'if':
                o = i = gap(i)
                while i < n and src[i] not in WS:
                    i += 1
                opt = src[o:i]
                i = gap(i)
                if src[i:i + 1] == b'"':
                    q = i
                    i += 1
                    while i < n and not (src[i] == 34 and src[i - 1] != 92):
                        i += 1
                    if i >= n:
                        raise Malformed(q)
                    i += 1
                    d1 = src[q:i]
                else:
                    d1, i = var(i)
                    if i < n and src[i] not in WS:
                        raise Malformed(i)
                i = ws(i)
            else:
                i = gap(i)
            if src[i:i + 1] == b'-':
                lstrip = True
                i += 1
            for x in (b'%', b'}'):
                if src[i:i + 1] != x:
                    raise Malformed(i)
                if x == b'}' and word == b'if' and opt not in OPS:
                    raise Malformed(o)
                i += 1
            if word == b'if':
                op = OPS[opt]
            nodes.append((TYPES[word], op, d0, d1))
        if stack:
            raise Malformed(False)
    except Malformed as e:
        at = e.args[0]
        if at is not False and at >= n and stack:
            at = False       # an open statement is reported first
        return None, at, crossing
    return nodes, None, crossing


def accepts(s, n):
    """every template is either kept statement by statement, or rejected at the place of the fault"""
    r = s.rng

    def chk(src):
        nodes, at, crossing = o_template(src)

        def f(out):
            rej = isinstance(out[0], int)
            if rej and crossing:
                return None          # statements that cross: either way
            if nodes is None:
                if not (rej and out[0] == 101 and len(out) == 3 and out[2] == 0):
                    return 'rejected with an error'
                if at is not False:
                    line, pos, text = o_pos(src, at)
                    mark = b'\nError occurred near line %d, position %d: ' % (line, pos)
                    if mark not in out[1] and not (b'Error occurred near' not in out[1] and not text):
                        return 'the error at %r' % mark
                return None
            got = [tuple(out[2 + 4 * k:6 + 4 * k]) for k in range((len(out) - 2) // 4)]
            if rej or out[1] != len(nodes) or got != nodes:
                return 'the statements %r' % (nodes,)
        s.add('template', [src], f, 'template')
    frag = [b'{%', b'%}', b'{{', b'}}', b'{', b'}', b'%', b'-', b' ', b'\n', b'"', b'\\', b'\\"', b'a', b'A', b'A_1', b'0', b'_', b'==', b'=', b'<', b'block', b'endblock', b'entry', b'listing_', b'else', b'endif', b'if', b'foreach', b'endforeach', b'ifdef', b'\xff', b'{%-', b'-%}', b' A ']
    for x in (b'', b'{', b'{{', b'{%', b'{%-', b'a{', b'{a', b'{{A', b'{{A}', b'{{ A}}', b'{%-%}', b'{% else %}', b'{% ifdef A -%} {%- endif %}', b'{% ifdef A -%} {{A}} b{% endif %}', b'{% ifdef A -%}{{A}} b{% endif %}', b'{% ifdef A -%}{% endif %} b', b' {{A}}{%- ifdef A %}{% endif %}'):
        chk(x)
    for _ in range(n):
        src = write(r, toks(tree(r)))[0]
        if r.random() < .15:
            src = b' '.join(r.choice([b'{% ifdef A %}', b'{% if A == "b" %}', b'{% else %}', b'{% endif %}', b'{% foreach A %}', b'{% endforeach %}', b'{% block entry %}', b'{% endblock %}', b'{%- else -%}', b'{{ A }}']) for _ in range(r.randint(1, 7)))
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            i = r.randint(0, len(src))
            j = min(len(src), i + r.choice([1, 1, 1, 2, 4]))
            if r.random() < .6:            # near a statement
                c = [m.start() for m in re.finditer(rb'[{}%"-]', src)]
                if c:
                    i = min(len(src), max(0, r.choice(c) + r.randint(-1, 2)))
                    j = min(len(src), i + 1)
            k = r.randrange(4)
            src = src[:i] + (r.choice(frag) if k < 2 else src[i:j] * 2 if k == 2 else b'') + (src[i:] if k == 0 else src[j:])
        chk(src)


# ---------------------------------------------------------------- listings
def o_listing(conf, srcs):
    """srcs: list of (name, vars) -> (order, exported) or None if it is refused"""
    tr = lambda v: (v or b'').lower() in (b'1', b'y', b'yes', b'true', b'on')
    if any(b'DATE' in v for _, v in srcs) and not all(b'DATE' in v for _, v in srcs):
        return None
    l = list(srcs)
    if tr(conf.get(b'FILTER_SORT')):
        if not all(b'DATE' in v and o_date(v[b'DATE'], b'%s') for _, v in l):
            return None
        key = lambda x: int(o_date(x[1][b'DATE'], b'%s'))
        l = sorted(l, key=key, reverse=not tr(conf.get(b'FILTER_REVERSE')))
        if not tr(conf.get(b'FILTER_REVERSE')):     # sorted(reverse=True) keeps equal elements in order
            pass
    elif tr(conf.get(b'FILTER_REVERSE')):
        l = l[::-1]
    if b'FILTER_TAG' in conf:
        l = [x for x in l if conf[b'FILTER_TAG'] in [y for y in x[1].get(b'TAGS', b'').split(b' ') if y]]
    ex = {}
    if b'FILTER_PAGE' in conf:
        page, per = max(1, strtol(conf[b'FILTER_PAGE'])[0]), max(0, strtol(conf.get(b'FILTER_PER_PAGE', b'10'))[0])
        last = -(-len(l) // per) if per else 0
        l = l[(page - 1) * per:page * per]
        ex[b'CURRENT_PAGE'] = b'%d' % page
        if page > 1:
            ex[b'PREVIOUS_PAGE'] = b'%d' % (page - 1)
        if page < last:
            ex[b'NEXT_PAGE'] = b'%d' % (page + 1)
        if l:
            ex[b'FIRST_PAGE'] = b'1'
        if last:
            ex[b'LAST_PAGE'] = b'%d' % last
    if l:
        for k in (b'DATE', b'FILENAME'):
            for i, w in ((0, b'FIRST'), (-1, b'LAST')):
                if k in l[i][1]:
                    ex[k + b'_' + w] = l[i][1][k]
    return [x[0] for x in l], dict(conf, **{}) | ex


def mk_sources(r, d, n):
    """n source files in the directory d: list of (path, vars)"""
    out = []
    dated = r.random() < .8
    for i in range(n):
        name = b's%d.%s' % (i, r.choice([b'txt', b'md']))
        v = {}
        if dated != (r.random() < .02):
            v[b'DATE'] = r.choice([b'20%02d-%02d-%02d' % (r.randint(0, 30), r.randint(1, 12), r.randint(1, 28)), b'2010-01-01', b'2010-01-01 10:00', b'1900-01-01', b'9999-01-01'])
            if r.random() < .02:
                v[b'DATE'] = b'bad'
        if r.random() < .7:
            v[b'TAGS'] = r.choice([b'', b' ', b'a']) + b' '.join(r.choice([b'a', b'bb', b'ab', b'b', b'']) for _ in range(r.randint(0, 3)))
        v = {k: x.strip(WS) for k, x in v.items()}
        v[b'TITLE'] = b'T%d' % i
        with open(os.path.join(d, name.decode()), 'wb') as f:
            f.write(b''.join(k + b': ' + x + b'\n' for k, x in v.items()) + b'---\n' + b'body %d\n' % i)
        out.append((name, dict(v, FILENAME=None) and dict(v, **{}) | {b'FILENAME': b's%d' % i}))
    return out


def conf_(r):
    c = {}
    if r.random() < .4:
        c[b'FILTER_SORT'] = r.choice([b'1', b'yes', b'TRUE', b'0', b'no', b''])
    if r.random() < .4:
        c[b'FILTER_REVERSE'] = r.choice([b'1', b'y', b'on', b'0'])
    if r.random() < .4:
        c[b'FILTER_TAG'] = r.choice([b'a', b'bb', b'b', b'zz', b'ab', b''])
    if r.random() < .7:
        c[b'FILTER_PAGE'] = r.choice([b'1', b'1', b'2', b'3', b'4', b'0', b'-2', b'x', b'', b'2x', b'99', b'9223372036854775807', b'4611686018427387905'])
    if r.random() < .7:
        c[b'FILTER_PER_PAGE'] = r.choice([b'1', b'2', b'3', b'5', b'0', b'-1', b'', b'x', b'10', b'9223372036854775807', b'4', b'8'])
    return c


def with_dir(fn):
    def run(seed, scale):
        d = tempfile.mkdtemp(prefix='vf')
        try:
            s = Suite(drv(), seed)
            fn(s, scale, d)
            s.drv.cwd = d
            bad = s.run()
            return {'cases': len(s.cases), 'bad': bad, 'samples': [{'cmd': c, 'args': [show(a) for a in x]} for c, x, _, _ in s.cases[:3]]}
        finally:
            shutil.rmtree(d)
    return (fn.__name__, run)


def listings(s, scale, d):
    """listing order, filters, pages and the variables they export"""
    r = s.rng
    for k in range(60 * scale):
        sub = os.path.join(d, 'd%d' % k)
        os.mkdir(sub)
        srcs = mk_sources(r, sub, r.choice([0, 1, 2, 3, 5, 8, 12]))
        for _ in range(6):
            conf = conf_(r)
            l = r.sample(srcs, r.randint(max(0, len(srcs) - 2), len(srcs)))
            want = o_listing(conf, l)
            names = [b'd%d/' % k + x for x, _ in l]
            missing = r.random() < .02
            if missing:
                names.insert(r.randint(0, len(names)), b'd%d/nope' % k)
                want = None

            def chk(out, want=want, srcs=dict(srcs)):
                if want is None:
                    return None if isinstance(out[0], int) and out[2] == 0 else 'an error'
                if out[0] is not None:
                    return 'no error'
                n = out[1]
                got = [(out[2 + 2 * i], out[3 + 2 * i]) for i in range(n)]
                exp = [(x.split(b'.')[0], b'body ' + x.split(b'.')[0][1:] + b'\n') for x in want[0]]
                if got != exp:
                    return 'the sources %r' % exp
                c, i = pairs(out, 2 + 2 * n)
                return None if c == want[1] and i == len(out) else 'the variables %r' % want[1]
            s.add('files', flat(conf) + names, chk, 'listing')


listings_suite = with_dir(listings)


# ---------------------------------------------------------------- the command line
def cli(seed, scale):
    """the blogc program: options, -D validation, output"""
    import random
    r = random.Random(seed)
    exe = B.build('blogc', 'blogc', main=True)
    d = tempfile.mkdtemp(prefix='vf')
    bad, cases, samples = [], 0, []
    B_ = lambda x: x if isinstance(x, bytes) else x.encode()

    def run(args, inp=b''):
        p = subprocess.run([B_(exe)] + [B_(a) for a in args], input=inp, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=B.ENV, timeout=120)
        return p.returncode, p.stdout, p.stderr

    def fail(what, args, got, exp, key=None):
        bad.append({'key': key, 'what': what, 'cmd': 'blogc', 'args': [show(B_(a)) for a in args], 'got': repr(got)[:1500], 'expected': repr(exp)[:1500]})
    try:
        files = mk_sources(random.Random(3), d, 6)
        files = [f for f in files]
        src = dict(files)
        for k in range(40 * scale):
            text, t = case(r)
            with open(d + '/t.tmpl', 'wb') as f:
                f.write(text)
            conf = {k: v for k, v in list(vars_(r).items())[:5]}
            fl = conf_(r) if r.random() < .5 else {}
            conf.update(fl)
            listing = r.random() < .6
            l = r.sample(files, r.randint(0, 5)) if listing else [r.choice(files)]
            ents = [r.choice([None] + files) for _ in range(r.choice([0, 0, 1, 2]))] if listing else []
            w = o_listing(conf, l)
            args = []
            for kk, v in conf.items():
                args += r.choice([[b'-D', kk + b'=' + v], [b'-D' + kk + b'=' + v]])
            if listing:
                args.append('-l')
            for e in ents:
                args += ['-e', e[0] if e else b'']
            stdin = r.random() < .3
            inp = b''.join(r.choice([b'', b'# c\n', b'\n']) + x[0] + b'\n' for x in l) if stdin else b''
            out = r.choice([None, '-', 'out/%d/x.html' % k])
            args += ['-t', 't.tmpl'] if r.random() < .5 else ['-tt.tmpl']
            if out:
                args += ['-o', out]
            args += ['-i'] if stdin else [x[0] for x in l]
            rc, so, se = run(args, inp)
            cases += 1
            if len(samples) < 3:
                samples.append({'cmd': 'blogc', 'args': [show(B_(a)) for a in args], 'template': show(text)})
            if b'Sanitizer' in se or b'runtime error' in se:
                fail('crash', args, se, 'no crash')
            elif w is None:
                if rc == 0:
                    fail('refused listing', args, (rc, so), 'failure')
            else:
                full = lambda v: v   # templates only mention variables the oracle knows
                env = {x: dict(v) for x, v in files}
                c = (t, w[1], listing, [env[x] for x in w[0]], [env[e[0]] if e else None for e in ents])
                got = so
                if out and out != '-':
                    try:
                        got = open(os.path.join(d, out), 'rb').read()
                    except OSError as e2:
                        got = repr(e2)
                    if so:
                        fail('standard output', args, so, b'')
                m = judge(got, *c)
                if rc != 0 or m:
                    m, key = m if isinstance(m, tuple) else (m, None)
                    fail('rendering (template %s)' % show(text), args, (rc, got, se[-300:]), m, key if rc == 0 else None)
            q = r.choice(VQ + [b'LAST_PAGE', b'CURRENT_PAGE', b'FILENAME', b'TITLE'])
            if w is not None:
                a2 = [x for x in args if x not in ('-t', 't.tmpl', '-tt.tmpl')] if not out else args
                rc, so, se = run(a2 + ['-p', q], inp)
                cases += 1
                v = fmt(q, w[1], None if listing or not w[0] else src[w[0][0]], None)
                if (rc, so) != ((78, b'') if v is None else (0, v + b'\n')):
                    fail('-p', a2 + ['-p', q], (rc, so, se[-300:]), v)
        with open(d + '/p.tmpl', 'wb') as f:
            f.write(b'[{{ A_B9 }}]')
        for a, ok in [(b'A_B9=x', True), (b'A_B9=', True), (b'A_B9=a=b', True), (b'A_B9=\xc3\xa9', True), (b'A_B9', False), (b'=x', False), (b'', None), (b'a=x', False), (b'9=x', False), (b'_A=x', False), (b'A-B=x', False), (b'A b=x', False), (b'Ab=x', False), (b'A_B9=\xff', False), (b'A=\xc0\x80', False), (b'A\xc3\xa9=x', False), (b'A =x', False), (b'A=\xed\xa0\x80', False)]:
            for form in ([b'-D', a], [b'-D' + a]):
                if a == b'' and len(form) == 1:
                    continue
                rc, so, se = run(form + [b'-l', b'-t', b'p.tmpl'])
                cases += 1
                if ok is None:
                    ok = False
                want = (0, b'[' + a.partition(b'=')[2] + b']') if ok else (1, b'')
                if (rc, so) != want:
                    fail('-D', form, (rc, so, se[-300:]), want)
        for args, inp in [([], b''), (['-t', 'p.tmpl'], b''), (['-t', 'p.tmpl', 's0.txt', 's1.txt'], b''), (['-l'], b''), (['-l', '-t', 'nope'], b''), (['-l', '-t', 'p.tmpl', 'nope'], b''), (['-x'], b''), (['-l', '-t', 'p.tmpl', '-e', 'nope'], b''), (['-l', '-t', 'p.tmpl', '-o', 'p.tmpl/x'], b''), (['-l', '-t', 'p.tmpl', '-o', '/dev/full'], b'')]:
            rc, so, se = run(args, inp)
            cases += 1
            if rc != 1 or (so and not so.startswith(b'usage:')):
                fail('refused command line', args, (rc, so, se[-300:]), (1, b''))
    finally:
        shutil.rmtree(d)
    return {'cases': cases, 'bad': bad, 'samples': samples}
