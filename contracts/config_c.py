"""src/common/config-parser.c: sections of a configuration."""
from vc.sym import *
from vc.lib import C
from . import client
from .abs import trie_live, trie_has, tsel, town
F = 'src/common/config-parser.c'
VIEW, USES = {}, dict(client.USES)
BUILTINS = dict(client.BUILTINS)
SEC = 'bc_configparser_section_t'


def pfld(c, t, f, o, st=None):
    return P(z3.Select(c.map('S.%s.%s.o' % (t, f), st), zi(o)), z3.Select(c.map('S.%s.%s.f' % (t, f), st), zi(o)))


def root(c):
    return pfld(c, 'bc_config_t', 'root', c.a('config').o)


def section_of(c, name):
    return z3.Select(tsel(c, 'TV', root(c)), name)


def typ(c, o):
    return z3.Select(c.map('S.%s.type' % SEC), zi(o))


def config_ok(c):
    cf = c.a('config')
    k = z3.Const('k', SEQ)
    o = section_of(c, k)
    d = pfld(c, SEC, 'data', o)
    ok = z3.And(o > 0, o < zi(c.st.nxt), z3.Select(c.map('LIVE'), o), z3.Select(c.map('SIZE'), o) >= 1, z3.Or(typ(c, o) == 1, typ(c, o) == 2),
                z3.Implies(typ(c, o) == 1, z3.And(d.o > 0, d.f == 0, d.o < zi(c.st.nxt), z3.Select(c.map('LIVE'), d.o), z3.Select(c.map('TOWN'), d.o) == 0)))
    return And(c.valid(cf, 1), Eq(cf.f, 0), trie_live(c, root(c)), z3.ForAll([k], z3.Implies(z3.Select(tsel(c, 'TD', root(c)), k), ok), patterns=[o]))


def lookup(c):
    """the value bound to the key in the section, an object or 0"""
    s = c.cs(c.a('section'), c.pre)
    o = section_of(c, s)
    d = pfld(c, SEC, 'data', o)
    k = c.cs(c.a('key'), c.pre)
    on = And(ne0(c.a('config').o), ne0(c.a('section').o), ne0(c.a('key').o), trie_has(c, root(c), s), Eq(typ(c, o), 1), z3.Select(z3.Select(c.map('TD'), zi(d.o)), k))
    return If(on, z3.Select(z3.Select(c.map('TV'), zi(d.o)), k), 0)


REQ = lambda c: [('config', Or(Eq(c.a('config').o, 0), config_ok(c))), ('section', c.nullstr(c.a('section'))), ('key', c.nullstr(c.a('key')))]
MAPS_ = ('TD', 'TV', 'TOWN')
c_ = VIEW['bc_config_get'] = C('bc_config_get', 'config section key', file=F, maps=MAPS_, allocates=False, requires=REQ, modifies=lambda c: {},
    ensures=lambda c: [('bound', And(Eq(c.result.o, lookup(c)), Eq(c.result.f, 0)))])
c_.view = True
c_ = VIEW['bc_config_get_with_default'] = C('bc_config_get_with_default', 'config section key default_', file=F, maps=MAPS_, allocates=False, requires=REQ, modifies=lambda c: {},
    ensures=lambda c: [('bound or default', If(Eq(lookup(c), 0), Eq(c.result, c.a('default_')), And(Eq(c.result.o, lookup(c)), Eq(c.result.f, 0))))])
c_.view = True
