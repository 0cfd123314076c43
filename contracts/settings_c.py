"""src/blogc-make/settings.c: what reading a blogcfile gives."""
from vc.sym import *
from vc.lib import C, fresh_string, lit_of
from . import client, jobs_c as J
from .jobs_c import NOKEYS, NOTEXT, lit, live_trie, t0
F = 'src/blogc-make/settings.c'
VIEW, USES = {}, dict(client.USES)
BUILTINS = dict(client.BUILTINS)
SET = 'S.bm_settings_t.'
EMPTY = z3.Empty(SEQ)

# what C08 proves bc_config_parse reads from a text
ACC = z3.Bool('config accepted')
HASK, NK = z3.Function('section has keys', SEQ, B), z3.Function('number of keys', SEQ, I)
KBYTES = z3.Function('bytes of key', SEQ, I, A1)
GIVEN, VALUE = z3.Function('value given', SEQ, SEQ, B), z3.Function('value', SEQ, SEQ, SEQ)
HASL = z3.Function('section has a list', SEQ, B)
GD, GS = z3.Function('globals bound', I, z3.ArraySort(SEQ, B)), z3.Function('globals texts', I, z3.ArraySort(SEQ, SEQ))
SD, SS = z3.Function('settings bound', I, z3.ArraySort(SEQ, B)), z3.Function('settings texts', I, z3.ArraySort(SEQ, SEQ))

DEFAULTS = [('content_dir', 'content'), ('template_dir', 'templates'), ('atom_template', None), ('main_template', 'main.tmpl'), ('source_ext', '.txt'), ('listing_entry', None), ('posts_sort', None),
            ('pagination_prefix', 'page'), ('posts_per_page', '10'), ('atom_posts_per_page', '10'), ('html_ext', '/index.html'), ('index_prefix', ''), ('post_prefix', 'post'), ('tag_prefix', 'tag'),
            ('html_order', 'DESC'), ('blog_prefix', None), ('atom_prefix', 'atom'), ('atom_ext', '.xml'), ('atom_order', 'DESC'), ('atom_legacy_entry_id', None),
            ('date_format', '%b %d, %Y, %I:%M %p GMT'), ('locale', None), ('run_from_make', None)]
REQUIRED = ['AUTHOR_NAME', 'AUTHOR_EMAIL', 'SITE_TITLE', 'SITE_TAGLINE', 'BASE_DOMAIN']


def b(name, maps=(), note=''):
    def d(f):
        f.maps, f.note = tuple(maps), note
        BUILTINS[name] = f
        return f
    return d


for _n in ('bc_trie_new', 'bc_trie_insert', 'bc_trie_free'):
    BUILTINS[_n] = J.BUILTINS[_n]


@b('bc_trie_lookup', maps=('$nxt',), note='client view of C02: the value bound to the key, or NULL')
def b_lookup(eng, fr, st, vals, types, T, line, args):
    t, k = vals
    live_trie(eng, st, t, line, 'bc_trie_lookup')
    eng.prove(st, eng.isstr(st, k), 'precondition', 'bc_trie_lookup: the key is a string', line)
    v = eng.cs(st, k)
    r = fresh_string(eng, st, z3.Select(t0(eng, st, 'TS', t), v))
    first_byte(eng, st, r)
    return [(st, P(z3.If(z3.Select(t0(eng, st, 'TD', t), v), zi(r.o), z3.IntVal(0)), 0))]


def first_byte(eng, st, r):
    x = eng.cs(st, r)
    st.assume((z3.Select(z3.Select(eng.gm(st, 'M8'), zi(r.o)), 0) == 0) == (z3.Length(x) == 0))


@b('bc_config_parse', maps=('P.o', 'P.f', '$nxt', 'LIVE', 'SIZE'), note='client view of C08: a configuration and no error, or none and an error')
def b_parse(eng, fr, st, vals, types, T, line, args):
    s, n, lists, err = vals
    eng.prove(st, And(ne0(err.o), z3.Select(z3.Select(eng.gm(st, 'P.o'), zi(err.o)), zi(err.f)) == 0), 'precondition', 'bc_config_parse: a place for the error', line)
    eng.prove(st, And(zi(s.o) == zi(eng.entry_args['content'].o), zi(s.f) == zi(eng.entry_args['content'].f), zi(n) == zi(eng.entry_args['content_len'])), 'precondition', 'bc_config_parse: the whole text', line)
    o, e = eng.newobj(st, 1), eng.newobj(st, 1)
    for m, v in (('P.o', z3.If(ACC, z3.IntVal(0), zi(e))), ('P.f', z3.IntVal(0))):
        mm = eng.gm(st, m)
        eng.modset_ok(st, m, err.o, line, fr)
        st.maps[m] = z3.Store(mm, zi(err.o), z3.Store(z3.Select(mm, zi(err.o)), zi(err.f), v))
    r = fresh('config')
    st.assume(r == z3.If(ACC, zi(o), z3.IntVal(0)))
    return [(st, P(r, 0))]


def config(eng, st, p, line, who):
    eng.prove(st, And(ne0(p.o), Eq(p.f, 0), z3.Select(eng.gm(st, 'LIVE'), zi(p.o))), 'precondition', who + ': the configuration is live', line)


def vec(c, v, s):
    return vecm(c.e, c.st, v, s)


def vecm(eng, st, v, s):
    """the keys of a section: a NULL-terminated array of strings"""
    g = lambda m: eng.gm(st, m)
    eng.name_maps(st)
    k = z3.Int('k')
    x, xf = [z3.Select(z3.Select(g(m), zi(v.o)), k) for m in ('P.o', 'P.f')]
    a, sl = KBYTES(s, k), eng.slen_f()
    n = NK(s)
    return And(z3.Select(g('LIVE'), zi(v.o)), Eq(v.f, 0), z3.Select(g('SIZE'), zi(v.o)) > n, n >= 0, n < MAXOBJ, z3.Select(z3.Select(g('P.o'), zi(v.o)), n) == 0,
               z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(x > 0, x < zi(st.nxt), xf == 0, z3.Select(g('LIVE'), x), sl(a, 0) >= 0, sl(a, 0) < z3.Select(g('SIZE'), x), z3.Select(a, sl(a, 0)) == 0, z3.Select(g('M8'), x) == a)), patterns=[x]))


@b('bc_config_list_keys', maps=('$nxt', 'LIVE', 'SIZE'), note='client view of C08: the keys of the section, NULL when it has none')
def b_keys(eng, fr, st, vals, types, T, line, args):
    config(eng, st, vals[0], line, 'bc_config_list_keys')
    s = fresh('section', SEQ)
    st.assume(s == eng.cs(st, vals[1]))
    o = fresh('keys')
    nn = fresh('nxt')
    st.assume(z3.And(o >= zi(st.nxt), nn > o))
    st.nxt = nn
    r = fresh('keys given')
    st.assume(r == z3.If(HASK(s), o, z3.IntVal(0)))
    st.assume(z3.Implies(HASK(s), zb(vecm(eng, st, P(o, 0), s))))
    return [(st, P(r, 0))]


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


@b('bc_config_get', maps=('$nxt',), note='client view of C08: the value of the key, or NULL')
def b_get(eng, fr, st, vals, types, T, line, args):
    config(eng, st, vals[0], line, 'bc_config_get')
    s, k = eng.cs(st, vals[1]), eng.cs(st, vals[2])
    r = fresh_string(eng, st, VALUE(s, k))
    return [(st, P(z3.If(GIVEN(s, k), zi(r.o), z3.IntVal(0)), 0))]


@b('bc_config_get_with_default', maps=('$nxt',), note='client view of C08: the value of the key, or the default')
def b_getd(eng, fr, st, vals, types, T, line, args):
    config(eng, st, vals[0], line, 'bc_config_get_with_default')
    s, k, d = eng.cs(st, vals[1]), eng.cs(st, vals[2]), vals[3]
    r = fresh_string(eng, st, VALUE(s, k))
    return [(st, P(z3.If(GIVEN(s, k), zi(r.o), zi(d.o)), z3.If(GIVEN(s, k), z3.IntVal(0), zi(d.f))))]


@b('bc_config_get_list', maps=('$nxt', 'LIVE', 'SIZE', 'DN'), note='client view of C08: the list of the section, NULL when it is not there')
def b_list(eng, fr, st, vals, types, T, line, args):
    config(eng, st, vals[0], line, 'bc_config_get_list')
    s = eng.cs(st, vals[1])
    o = eng.newobj(st, 1)
    st.maps['DN'] = z3.Store(eng.gm(st, 'DN'), zi(o), s)
    r = fresh('list')
    st.assume(r == z3.If(HASL(s), zi(o), z3.IntVal(0)))
    return [(st, P(r, 0))]


def release(who):
    def f(eng, fr, st, vals, types, T, line, args):
        p = vals[0]
        eng.prove(st, Or(Eq(p.o, 0), And(Eq(p.f, 0), gt(p.o, 0), z3.Select(eng.gm(st, 'LIVE'), zi(p.o)))), 'memory', who + ': released once', line)
        st.maps['LIVE'] = z3.Store(eng.gm(st, 'LIVE'), zi(p.o), z3.BoolVal(False))
        return [(st, None)]
    return f


b('bc_config_free', maps=('LIVE',), note='bc_config_free releases the configuration')(release('bc_config_free'))
b('bc_strv_free', maps=('LIVE',), note='bc_strv_free releases the array')(release('bc_strv_free'))


SEC = z3.Const('globals section', SEQ)


def sec():
    return SEC


def sec_is():
    return SEC == z3.If(HASK(lit('global')), lit('global'), z3.If(HASK(lit('environment')), lit('environment'), lit('global')))


def nkeys():
    return z3.If(HASK(sec()), NK(sec()), z3.IntVal(0))


def upper(x):
    return z3.And(x >= 65, x <= 90)


def word(x):
    return z3.Or(upper(x), z3.And(x >= 48, x <= 57), x == 95)


def valid(c, i):
    """a documented name: an upper case letter, then upper case letters, digits and underscores"""
    a = KBYTES(sec(), i)
    n = c.e.slen_f()(a, 0)
    j = z3.Int('j')
    return z3.And(n > 0, upper(z3.Select(a, 0)), z3.ForAll([j], z3.Implies(z3.And(j >= 1, j < n), word(z3.Select(a, j))), patterns=[z3.Select(a, j)]))


VALID = z3.Function('documented name', I, B)


def keytext(c, i):
    return c.e.cs_f()(KBYTES(sec(), zi(i)), 0)


def errv(c, st=None):
    p = c.a('err')
    return z3.Select(z3.Select(c.map('P.o', st), zi(p.o)), zi(p.f))


def active(c):
    return And(ne0(c.a('err').o), errv(c, c.pre) == 0, ne0(c.a('content').o))


def all_valid(n):
    i = z3.Int('i')
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(n)), VALID(i)), patterns=[VALID(i)])


def required(i):
    k = lit(REQUIRED[i])
    n = nkeys()
    return z3.And(z3.Select(GD(n), k), z3.Length(z3.Select(GS(n), k)) > 0)


def define_settings():
    """every documented setting: its value, or its default"""
    out = [SD(0) == NOKEYS, SS(0) == NOTEXT]
    for i, (k, d) in enumerate(DEFAULTS):
        g = GIVEN(lit('settings'), lit(k))
        on = z3.BoolVal(True) if d is not None else g
        v = z3.If(g, VALUE(lit('settings'), lit(k)), lit(d or ''))
        out += [SD(i + 1) == z3.If(on, z3.Store(SD(i), lit(k), z3.BoolVal(True)), SD(i)), SS(i + 1) == z3.If(on, z3.Store(SS(i), lit(k), v), SS(i))]
    return out


def fo(c, f, p=None):
    return z3.Select(c.map(SET + f + '.o'), zi((p or c.rv).o))


def ff(c, f, p=None):
    return z3.Select(c.map(SET + f + '.f'), zi((p or c.rv).o))


def trie(c, f, d, s):
    x = fo(c, f)
    return And(x > 0, x < zi(c.st.nxt), ff(c, f) == 0, z3.Select(c.map('LIVE'), x), z3.Select(c.map('TD'), x) == d, z3.Select(c.map('TS'), x) == s)


def state(c, g, s):
    """what is kept while reading"""
    g, s = zi(g), zi(s)
    return [('settings', And(c.live(c.rv), Eq(c.rv.f, 0), zi(c.rv.o) >= zi(c.pre.nxt), lt(c.rv.o, c.st.nxt))), ('no error', errv(c) == 0),
            ('config', And(c.live(c.config), Eq(c.config.f, 0), ne0(c.config.o), zi(c.config.o) >= zi(c.pre.nxt), zi(c.config.o) < zi(c.st.nxt))), ('accepted', ACC),
            ('section', And(c.isstr(c.section), c.cs(c.section) == sec())), ('tries', fo(c, 'global') != fo(c, 'settings')), ('apart', And(*[And(fo(c, f) != zi(c.rv.o), fo(c, f) != zi(c.config.o)) for f in ('global', 'settings')], Not(Eq(c.rv.o, c.config.o)))),
            ('global', trie(c, 'global', GD(g), GS(g))), ('values', trie(c, 'settings', SD(s), SS(s)))] + \
           [(x, fo(c, x) == 0) for x in ('posts', 'pages', 'copy', 'tags')]


def keys_kept(c):
    v = c.v('global')
    return [('keys', And(ne0(v.o), HASK(sec()), zb(vec(c, v, sec())), Not(Eq(v.o, c.rv.o)), Not(Eq(v.o, c.config.o)), zi(v.o) >= zi(c.pre.nxt), zi(v.o) < zi(c.st.nxt), *[fo(c, f) != zi(v.o) for f in ('global', 'settings')]))]


def step(c, i):
    """one more key: its value"""
    k = keytext(c, i)
    i = zi(i)
    on = GIVEN(sec(), k)
    return [GD(i + 1) == z3.If(on, z3.Store(GD(i), k, z3.BoolVal(True)), GD(i)), GS(i + 1) == z3.If(on, z3.Store(GS(i), k, VALUE(sec(), k)), GS(i)), VALID(i) == valid(c, i)]


def chars(c):
    a = KBYTES(sec(), zi(c.i))
    j = z3.Int('j')
    return And(Implies(c.j > 0, upper(z3.Select(a, 0))), z3.ForAll([j], z3.Implies(z3.And(j >= 1, j < zi(c.j)), word(z3.Select(a, j))), patterns=[z3.Select(a, j)]))


def klen(c):
    return c.e.slen_f()(KBYTES(sec(), zi(c.i)), 0)


def list_is(c, f, s):
    """the list read from section s (None: not there)"""
    x = fo(c, f, c.result)
    dn = z3.Select(c.map('DN'), x)
    first, *more = s
    want = lambda k: And(x != 0, dn == lit(k))
    if not more:
        return If(HASL(lit(first)), zb(want(first)), x == 0)
    return z3.If(HASL(lit(first)), zb(want(first)), z3.If(HASL(lit(more[0])), zb(want(more[0])), x == 0))


def result(c):
    r = c.result
    n = nkeys()
    out = [('nothing', Implies(Not(active(c)), Eq(r.o, 0))), ('rejected', Implies(And(active(c), Eq(r.o, 0)), And(errv(c) != 0, Or(Not(ACC), Not(all_valid(n)), *[Not(required(i)) for i in range(len(REQUIRED))])))),
           ('accepted', Implies(ne0(r.o), And(active(c), ACC, errv(c) == 0, all_valid(n))))]
    out += [('required ' + k, Implies(ne0(r.o), required(i))) for i, k in enumerate(REQUIRED)]
    sel = lambda m, f: z3.Select(c.map(m), fo(c, f, r))
    out += [('global variables', Implies(ne0(r.o), And(sel('TD', 'global') == GD(n), sel('TS', 'global') == GS(n)))), ('settings', Implies(ne0(r.o), And(sel('TD', 'settings') == SD(len(DEFAULTS)), sel('TS', 'settings') == SS(len(DEFAULTS)))))]
    out += [(f, Implies(ne0(r.o), list_is(c, f, s))) for f, s in (('posts', ['posts']), ('pages', ['pages']), ('tags', ['tags']), ('copy', ['copy', 'copy_files']))]
    return out


ND_ = len(DEFAULTS)


def rows(c):
    """one setting more"""
    x = fo(c, 'settings')
    return [('%s %s' % (m, k), Implies(c.v('i.3') == i + 1, z3.Select(c.map(m), x) == f(i + 1))) for i, (k, _) in enumerate(DEFAULTS) for m, f in (('TD', SD), ('TS', SS))]


c_ = VIEW['bm_settings_parse'] = C('bm_settings_parse', 'content content_len err', file=F, maps=('TD', 'TS', 'LIVE', 'SIZE', 'DN', 'M8', 'P.o', 'P.f') + tuple(SET + f + x for f in ('global', 'settings', 'posts', 'pages', 'copy', 'tags') for x in ('.o', '.f')),
    requires=lambda c: [('text', Or(Eq(c.a('content').o, 0), c.isstr(c.a('content')))), ('error', Or(Eq(c.a('err').o, 0), And(c.valid(c.a('err'), 1), gt(c.a('err').o, 0), lt(c.a('err').o, c.st.nxt))))],
    entry=lambda c: [sec_is(), GD(0) == NOKEYS, GS(0) == NOTEXT] + define_settings(),
    modifies=lambda c: {'P.o': [c.a('err').o], 'P.f': [c.a('err').o], 'P': [c.a('err').o]},
    ensures=result,
    loops={0: Loop(inv=lambda c: state(c, c.i, 0) + keys_kept(c) + [('at', And(c.i >= 0, c.i <= NK(sec()), all_valid(c.i)))], facts=lambda c: step(c, c.i), decreases=lambda c: NK(sec()) - c.i),
           1: Loop(inv=lambda c: state(c, c.i, 0) + keys_kept(c) + [('at', And(c.i >= 0, c.i < NK(sec()), all_valid(c.i))), ('chars', And(c.j >= 0, c.j <= klen(c), chars(c)))], decreases=lambda c: klen(c) - c.j),
           2: Loop(inv=lambda c: state(c, nkeys(), 0) + [('at', And(c.v('i.2') >= 0, c.v('i.2') <= len(REQUIRED), all_valid(nkeys()), *[Implies(c.v('i.2') > k, required(k)) for k in range(len(REQUIRED))]))], decreases=lambda c: len(REQUIRED) - c.v('i.2')),
           3: Loop(inv=lambda c: state(c, nkeys(), c.v('i.3')) + [('at', And(c.v('i.3') >= 0, c.v('i.3') <= ND_, all_valid(nkeys()), *[required(k) for k in range(len(REQUIRED))]))], asserts=rows, decreases=lambda c: ND_ - c.v('i.3'))})
c_.view = True
c_.nocand, c_.feas_ms = True, 100
c_.exit_asserts = lambda c: [('all settings %d' % r, Implies(ne0(c.rv.o), c.v('i.3') != r)) for r in range(ND_)] + [('all settings', Implies(ne0(c.rv.o), c.v('i.3') == ND_))] if c.has('i.3') else []
c_.shards = 4
c_.hide = ('bc_trie_new', 'bc_trie_insert', 'bc_trie_lookup', 'bc_trie_free', 'bc_strv_free', 'bc_config_parse', 'bc_config_list_keys', 'bc_config_get', 'bc_config_get_with_default', 'bc_config_get_list', 'bc_config_free')
