"""src/blogc-make/exec.c: the command lines that are run."""
from vc.sym import *
from vc.lib import C, lit_of, fmt_lit
from . import client
from .abs import alive, buf, nonul, nonul_axioms, trie_ok, trie_live, tsel, trie_has, town, SB_, SS_
F = 'src/blogc-make/exec.c'
VIEW, USES = {}, dict(client.USES)
BUILTINS = dict(client.BUILTINS)
EMPTY = z3.Empty(SEQ)
QUOTE = z3.Function('quoted', SEQ, SEQ)            # what C06 proves bc_shell_quote returns: a single word that the shell reads back as the argument
JOIN = z3.Function('joined', I, SEQ)               # what C04 proves bc_strv_join returns
VARS = z3.Function('variables', SB_, SS_, SEQ)     # ' -D key=quoted value' for every binding


def b(name, maps=(), note=''):
    def d(f):
        f.maps, f.note = tuple(maps), note
        BUILTINS[name] = f
        return f
    return d


@b('bc_shell_quote', maps=('LIVE', 'SIZE', '$nxt'), note='client view of C06: bc_shell_quote returns a fresh string, the argument as one shell word')
def b_quote(eng, fr, st, vals, types, T, line, args):
    p = vals[0]
    if lit_of(eng, p) is None:
        eng.prove(st, Or(Eq(p.o, 0), eng.isstr(st, p)), 'precondition', 'bc_shell_quote: the argument is a string', line)
    return [(st, client.newstr(eng, st, z3.If(zi(p.o) == 0, seq_lit(b"''"), QUOTE(eng.cs(st, p)))))]


@b('bc_strv_join', maps=('LIVE', 'SIZE', '$nxt'), note='client view of C04: bc_strv_join returns a fresh string, the pieces joined')
def b_join(eng, fr, st, vals, types, T, line, args):
    eng.prove(st, And(ne0(vals[0].o), z3.Select(eng.gm(st, 'LIVE'), zi(vals[0].o))), 'precondition', 'bc_strv_join: the vector is live', line)
    eng.prove(st, lit_of(eng, vals[1]) == b' ', 'precondition', 'tags are separated by spaces', line)
    return [(st, client.newstr(eng, st, JOIN(zi(vals[0].o))))]


@b('bc_trie_foreach', maps=('SV', 'STRB', 'M8', 'LIVE', 'SIZE', '$nxt'), note='bc_trie_foreach calls the function once for every binding, in the order of the trie; over it the appended texts are one text (definition)')
def b_foreach(eng, fr, st, vals, types, T, line, args):
    t, fn, u = vals
    eng.prove(st, isinstance(fn, FN) and fn.name == 'list_variables', 'precondition', 'bc_trie_foreach: the function whose contract is proved here', line)
    eng.prove(st, Or(Eq(t.o, 0), And(z3.Select(eng.gm(st, 'LIVE'), zi(t.o)), Eq(t.f, 0))), 'precondition', 'bc_trie_foreach: the trie is live', line)
    from .abs import ABS
    td, ts = z3.Select(eng.gm(st, 'TD'), zi(t.o)), z3.Select(eng.gm(st, 'TS'), zi(t.o))
    p = client.newstr(eng, st, z3.If(zi(t.o) == 0, EMPTY, VARS(td, ts)))
    return [(s2, None) for s2, _ in eng.apply_contract(fr, st, ABS['bc_string_append'], [u, p], types[2:3] + types[2:3], types[2], line, args[:2])]


def fld(c, t, f, o, st=None):
    return P(z3.Select(c.map('S.%s.%s.o' % (t, f), st), zi(o)), z3.Select(c.map('S.%s.%s.f' % (t, f), st), zi(o)))


SET = 'bm_settings_t'
c_ = VIEW['list_variables'] = C('list_variables', 'key value str', file=F, maps=('SV', 'STRB', 'M8', 'LIVE', 'SIZE'),
    requires=lambda c: [('key', c.isstr(c.a('key'))), ('value', c.isstr(c.a('value'))), ('string', And(alive(c, c.a('str')), Not(Eq(c.a('key').o, buf(c, c.a('str')))), Not(Eq(c.a('value').o, buf(c, c.a('str'))))))],
    modifies=lambda c: {'SV': [c.a('str').o], 'STRB': [c.a('str').o], 'M8': [buf(c, c.a('str'), c.pre)], 'LIVE': [buf(c, c.a('str'), c.pre)]},
    entry=lambda c: [nonul_axioms(c.e) or True],
    ensures=lambda c: [('binding', Eq(c.sv(c.a('str')), cat(c.sv(c.a('str'), c.pre), fmt_lit(b' -D '), c.cs(c.a('key'), c.pre), b'=', QUOTE(c.cs(c.a('value'), c.pre))))), ('string', alive(c, c.a('str')))])
c_.view = True


def settings_ok(c):
    s = c.a('settings').o
    a, g, t = fld(c, SET, 'settings', s), fld(c, SET, 'global', s), fld(c, SET, 'tags', s)
    return And(c.valid(c.a('settings'), 1), Eq(c.a('settings').f, 0), trie_ok(c, a), Or(Eq(g.o, 0), trie_live(c, g)), Or(Eq(t.o, 0), And(c.live(t), t.o > 0, t.o < zi(c.st.nxt), town(c, t.o) == 0)))


def vars_of(c, t):
    return VARS(tsel(c, 'TD', t, c.pre), tsel(c, 'TS', t, c.pre))


CMD = [z3.Const('cmd.%d' % i, SEQ) for i in range(12)]


def words(c):
    """[(condition, texts)]: the parts of the command, in order"""
    t = lambda n: c.cs(c.a(n), c.pre)
    q = lambda n: QUOTE(t(n))
    on = lambda n: ne0(c.a(n).o)
    s = c.a('settings').o
    a, g, tg = fld(c, SET, 'settings', s, c.pre), fld(c, SET, 'global', s, c.pre), fld(c, SET, 'tags', s, c.pre)
    k = fmt_or(b'locale')
    return [(And(ne0(s), trie_has(c, a, k, c.pre)), [fmt_lit(b'LC_ALL='), QUOTE(z3.Select(tsel(c, 'TS', a, c.pre), k)), b' ']), (on('blogc_bin'), [t('blogc_bin')]),
            (And(ne0(s), ne0(tg.o)), [fmt_lit(b' -D MAKE_TAGS='), QUOTE(JOIN(zi(tg.o)))]), (And(ne0(s), ne0(g.o)), [vars_of(c, g)]),
            (on('global_variables'), [vars_of(c, c.a('global_variables'))]), (on('local_variables'), [vars_of(c, c.a('local_variables'))]),
            (ne0(c.a('dev')), [fmt_or(b" -D MAKE_ENV_DEV=1 -D MAKE_ENV='dev'")]), (on('print'), [b' -p ', t('print')]), (ne0(c.a('listing')), [fmt_or(b' -l')]),
            (And(ne0(c.a('listing')), on('listing_entry')), [b' -e ', q('listing_entry')]), (on('template'), [b' -t ', q('template')]), (on('output'), [b' -o ', q('output')]), (ne0(c.a('sources_stdin')), [fmt_or(b' -i')])]


def fmt_or(x):
    from vc.sym import lit_text
    return lit_text(x, 24)


def parts(c):
    """the command after each part"""
    w = words(c)
    out, t = [], EMPTY
    for i, (k, x) in enumerate(w):
        n = z3.Const('cmd.%d' % i, SEQ)
        out += [Implies(k, n == cat(t, *x)), Implies(Not(k), n == t)]
        t = n
    return out, t


ARGS = 'blogc_bin settings global_variables local_variables print listing listing_entry template output dev sources_stdin'
STR = ('blogc_bin', 'print', 'listing_entry', 'template', 'output')
c_ = VIEW['bm_exec_build_blogc_cmd'] = C('bm_exec_build_blogc_cmd', ARGS, file=F, maps=('TD', 'TV', 'TS', 'TOWN', 'TKEY'),
    requires=lambda c: [(n, c.nullstr(c.a(n))) for n in STR] + [(n, Or(Eq(c.a(n).o, 0), trie_live(c, c.a(n)))) for n in ('global_variables', 'local_variables')] + [('settings', Or(Eq(c.a('settings').o, 0), settings_ok(c)))],
    entry=lambda c: [nonul_axioms(c.e) or True] + parts(c)[0],
    modifies=lambda c: {},
    ensures=lambda c: [('fresh', And(ge(c.result.o, c.pre.nxt), Eq(c.result.f, 0), c.live(c.result))), ('command', holds_(c, c.result, parts(c)[1]))],
    exit_asserts=lambda c: [('command', Eq(c.sv(c.rv), parts(c)[1]))] if c.has('rv') else [])
c_.view = True
c_.nocand, c_.feas_ms = True, 100


def below(c, m):
    """the blocks of the caller are as given"""
    c.e.name_maps(c.st)
    o = z3.Int('o')
    x = z3.Select(c.map(m), o)
    return z3.ForAll([o], z3.Implies(o < zi(c.pre.nxt), x == z3.Select(c.map(m, c.pre), o)), patterns=[x])


def joins(c):
    """what is kept where ways meet: how much of the command is there"""
    if not c.has('rv'):
        return None
    return [('blocks', below(c, 'LIVE')), ('bytes', below(c, 'M8')), ('newer', c.st.nxt >= zi(c.pre.nxt)), ('string', And(alive(c, c.rv), c.rv.o >= c.pre.nxt, zi(c.rv.o) < zi(c.st.nxt), buf(c, c.rv) >= zi(c.pre.nxt)))] + \
           ([('locale', And(Eq(c.v('locale').f, 0), Eq(c.v('locale').o, If(words(c)[0][0], z3.Select(tsel(c, 'TV', fld(c, SET, 'settings', c.a('settings').o, c.pre), c.pre), fmt_or(b'locale')), 0))))] if c.has('locale') else []) + \
           [('cmd %d' % i, c.sv(c.rv) == z3.Const('cmd.%d' % i, SEQ)) for i in range(13)]


c_.joins = joins


def holds_(c, p, v):
    from .abs import holds_f
    return And(holds_f(c.e)(c.arr(p), zi(p.f), v), Eq(c.byte(p, z3.Length(v)), 0))
