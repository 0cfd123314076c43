"""src/blogc/template-parser.c: which templates are accepted, and what is kept of them."""
from vc.sym import *
from vc.lib import C, fmt_result
from vc.sym import TN
from . import client
from .abs import sub_f
F = 'src/blogc/template-parser.c'
VIEW, USES = {}, dict(client.USES)
BUILTINS = dict(client.BUILTINS)
INTLIM = (1 << 31) - 2
ND = 'S.blogc_template_node_t.'
RSTRIP, LSTRIP = z3.Function('rstripped', SEQ, SEQ), z3.Function('lstripped', SEQ, SEQ)
(IFDEF, IFNDEF, IF_, ELSE_, ENDIF, FOREACH, ENDFOREACH, BLOCK, ENDBLOCK, VARIABLE, CONTENT) = range(1, 12)


def b(name, maps=(), note=''):
    def d(f):
        f.maps, f.note = tuple(maps), note
        BUILTINS[name] = f
        return f
    return d


USES['bc_str_rstrip'] = r_ = C('bc_str_rstrip', 'str', file='src/common/utils.c', maps=('M8',), allocates=False,
    requires=lambda c: [('str', And(c.isstr(c.a('str')), gt(c.a('str').o, 0)))],
    modifies=lambda c: {'M8': [c.a('str').o]},
    ensures=lambda c: [('same', And(Eq(c.result.o, c.a('str').o), Eq(c.result.f, c.a('str').f), c.isstr(c.result))), ('text', c.cs(c.result) == RSTRIP(c.cs(c.a('str'), c.pre)))])
r_.view = True
USES['bc_str_lstrip'] = l_ = C('bc_str_lstrip', 'str', file='src/common/utils.c', maps=(), allocates=False,
    requires=lambda c: [('str', And(c.isstr(c.a('str')), gt(c.a('str').o, 0)))],
    ensures=lambda c: [('inside', And(Eq(c.result.o, c.a('str').o), ge(c.result.f, c.a('str').f), c.isstr(c.result))), ('text', c.cs(c.result) == LSTRIP(c.cs(c.a('str'), c.pre)))])
l_.view = True


def seterr(f, pos):
    def g(eng, fr, st, vals, types, T, line, args):
        rs = f(eng, fr, st, vals, types, T, line, args)
        for s, r in rs:
            s.maps['EPOS'] = z3.Store(eng.gm(s, 'EPOS'), 0, zi(pos(vals)))
        return rs
    g.maps, g.note = tuple(f.maps) + ('EPOS',), f.note
    return g


for _n, _p in (('bc_error_parser', lambda v: v[3]), ('bc_error_new', lambda v: z3.IntVal(-1)), ('bc_error_new_printf', lambda v: z3.IntVal(-1))):
    BUILTINS[_n] = seterr(client.BUILTINS[_n], _p)


# the list kept so far: TINIT is all but the newest node (which cannot change any more), TLAST the newest, TAST the list
def nodeval(eng, st, o):
    g = lambda m: z3.Select(eng.gm(st, ND + m), zi(o))
    p = [felt(eng, st, o, i) for i in (0, 1)]
    t = [z3.If(zi(x.o) == 0, z3.Empty(SEQ), eng.cs(st, x)) for x in p]
    return [g('type'), g('op'), zi(p[0].o) != 0, t[0], zi(p[1].o) != 0, t[1]]


def felt(eng, st, o, i):
    return eng.felt_load(st, P(o, 0), 'blogc_template_node_t', 'data', i, ('ptr', ('int', 8, True)))


def listval(eng, st, last):
    return z3.If(zi(last) == 0, TN.nil, TN.snoc(z3.Select(eng.gm(st, 'TINIT'), 0), *nodeval(eng, st, last)))


G = lambda c, m, st=None: z3.Select(c.map(m, st), 0)


@b('bc_slist_append', maps=('TINIT', 'TLAST', 'TAST', 'LIVE', 'SIZE', '$nxt'), note='client view of C03: the list gains the node at its end (here the list is the one being built; a node that is not the newest any more is not reachable for change, its texts are not changed through other names)')
def b_app(eng, fr, st, vals, types, T, line, args):
    l, d = vals
    g = lambda m: z3.Select(eng.gm(st, m), 0)
    eng.prove(st, zi(l.o) == g('TAST'), 'precondition', 'bc_slist_append: the list being built', line)
    eng.prove(st, And(ne0(d.o), z3.Select(eng.gm(st, 'LIVE'), zi(d.o)), zi(d.o) != g('TLAST')), 'precondition', 'bc_slist_append: a new node', line)
    v = fresh('list', TN)
    st.assume(v == listval(eng, st, g('TLAST')))
    old = g('TLAST')
    st.maps['LIVE'] = z3.Store(eng.gm(st, 'LIVE'), old, z3.BoolVal(False))
    o = eng.newobj(st, 1)
    for m, x in (('TINIT', v), ('TLAST', zi(d.o)), ('TAST', z3.If(zi(l.o) == 0, zi(o), zi(l.o)))):
        st.maps[m] = z3.Store(eng.gm(st, m), 0, x)
    return [(st, P(g('TAST'), 0))]


@b('blogc_template_free_ast', maps=('FREED',), note='blogc_template_free_ast releases the list')
def b_free(eng, fr, st, vals, types, T, line, args):
    eng.prove(st, zi(vals[0].o) == z3.Select(eng.gm(st, 'TAST'), 0), 'precondition', 'blogc_template_free_ast: the list being built', line)
    return [(st, None)]


OUT = z3.Datatype('Template')
OUT.declare('mk', ('ok', B), ('nodes', TN), ('pos', I))
OUT = OUT.create()
CT = z3.Datatype('Open')      # what is open: conditionals, those when the block began, an else just seen, a loop, a loop when the block began, a block
CT.declare('mk', ('ifc', I), ('bifc', I), ('els', B), ('fe', B), ('bfe', B), ('blk', B))
CT = CT.create()
ST = z3.Datatype('Statement')     # type, then where its argument, operator and operand are
ST.declare('mk', ('ty', I), ('s', I), ('e', I), ('os', I), ('oe', I), ('s2', I), ('e2', I))
ST = ST.create()
STATES = 'START OPEN_BRACKET BLOCK_START_WHITESPACE_CLEANER BLOCK_START BLOCK_TYPE BLOCK_BLOCK_TYPE_START BLOCK_BLOCK_TYPE BLOCK_IF_START BLOCK_IF_VARIABLE BLOCK_IF_OPERATOR_START BLOCK_IF_OPERATOR BLOCK_IF_OPERAND_START BLOCK_IF_STRING_OPERAND BLOCK_IF_VARIABLE_OPERAND BLOCK_FOREACH_START BLOCK_FOREACH_VARIABLE BLOCK_END_WHITESPACE_CLEANER BLOCK_END VARIABLE_START VARIABLE VARIABLE_END CLOSE_BRACKET'.split()
SIG = (A1, I, I, CT, B, TN, ST, I, OUT)
T_ = {n: z3.Function('tmpl.' + n, *SIG) for n in STATES}


def src(c):
    p = c.a('src')
    return c.arr(p, c.pre), zi(p.f), zi(c.a('src_len'))


def at(c, k):
    a, b_, n = src(c)
    return z3.Select(a, b_ + zi(k))


def piece(c, i, j):
    a, b_, n = src(c)
    return sub_f(c.e)(a, b_ + zi(i), b_ + zi(j))


def word(c, i, j, w):
    return And(zi(j) - zi(i) == len(w), *[at(c, zi(i) + n) == x for n, x in enumerate(w)])


EMPTY = z3.Empty(SEQ)
FALSE, TRUE = z3.BoolVal(False), z3.BoolVal(True)


def run(c, name, K, lst, L, R, k):
    return T_[name](*src(c), K, lst, L, R, zi(k))


def rec(ty=0, s=0, e=0, os=0, oe=0, s2=0, e2=0):
    return ST.mk(*[zi(x) for x in (ty, s, e, os, oe, s2, e2)])


def bad(pos):
    return OUT.mk(FALSE, TN.nil, zi(pos))


def opening(K):
    return z3.Or(CT.ifc(K) != 0, CT.blk(K), CT.fe(K))


def rstrip_last(L):
    return z3.If(z3.And(TN.is_snoc(L), TN.ty(L) == CONTENT), TN.snoc(TN.init(L), TN.ty(L), TN.op(L), TN.h0(L), RSTRIP(TN.t0(L)), TN.h1(L), TN.t1(L)), L)


def content(c, L, lst, i, j):
    t = piece(c, i, j)
    return TN.snoc(L, z3.IntVal(CONTENT), z3.IntVal(0), TRUE, z3.If(lst, LSTRIP(t), t), FALSE, EMPTY)


def upd(K, **kw):
    return CT.mk(*[kw.get(f, getattr(CT, f)(K)) for f in ('ifc', 'bifc', 'els', 'fe', 'bfe', 'blk')])


def step(c, name, K, lst, L, R, k):
    """what a template says from position k on"""
    k = zi(k)
    n = src(c)[2]
    x = at(c, k)
    I_ = z3.If
    ws = z3.Or(x == 32, z3.And(x >= 9, x <= 13))
    up = z3.And(x >= 65, x <= 90)
    low = z3.And(x >= 97, x <= 122)
    nm = z3.Or(up, z3.And(x >= 48, x <= 57), x == 95)
    go = lambda name2, K=K, lst=FALSE, L=L, R=rec(), k=k + 1: run(c, name2, K, lst, L, R, k)
    fin = lambda L: I_(opening(K), bad(-1), OUT.mk(TRUE, L, z3.IntVal(0)))
    g = {f: getattr(ST, f)(R) for f in ('ty', 's', 'e', 'os', 'oe', 's2', 'e2')}
    r = lambda **kw: rec(**dict(g, **kw))
    stay = lambda: run(c, name, K, lst, L, R, k + 1)
    unfinished = I_(opening(K), bad(-1), bad(n))
    B_ = lambda p=k: bad(p)
    inblk = z3.Or(z3.And(CT.blk(K), CT.ifc(K) > CT.bifc(K)), z3.And(z3.Not(CT.blk(K)), CT.ifc(K) > 0))
    if name == 'START':
        # k < n here
        e = I_(k == n - 1, fin(content(c, L, lst, g['s'], n)), I_(x == 123, go('OPEN_BRACKET', lst=lst, R=rec(s=g['s'], e=k)), go('START', lst=lst, R=R)))
        return I_(k >= n, fin(L), e)
    if name == 'OPEN_BRACKET':
        L2 = I_(g['e'] > g['s'], content(c, L, lst, g['s'], g['e']), L)
        return I_(k >= n, fin(L), I_(x == 37, go('BLOCK_START_WHITESPACE_CLEANER', L=L2), I_(x == 123, go('VARIABLE_START', L=L2), go('START', lst=lst, R=rec(s=g['s']), k=k))))
    if name == 'BLOCK_START_WHITESPACE_CLEANER':
        e = I_(x == 45, go('BLOCK_START', L=rstrip_last(L)), go('BLOCK_START', k=k))
    elif name == 'BLOCK_START':
        e = I_(ws, stay(), I_(low, go('BLOCK_TYPE', R=rec(s=k)), B_()))
    elif name == 'BLOCK_TYPE':
        w = lambda t: word(c, g['s'], k, t)
        opn = lambda t: go('BLOCK_IF_START', K=upd(K, ifc=CT.ifc(K) + 1, els=FALSE), R=rec(ty=t))
        end = lambda t, **kw: go('BLOCK_END_WHITESPACE_CLEANER', K=upd(K, **kw), R=rec(ty=t))
        cases = [(b'block', I_(CT.blk(K), B_(), go('BLOCK_BLOCK_TYPE_START', K=upd(K, bifc=CT.ifc(K), bfe=CT.fe(K))))),
                 (b'endblock', I_(CT.blk(K), I_(z3.Or(CT.ifc(K) != CT.bifc(K), z3.And(z3.Not(CT.bfe(K)), CT.fe(K))), bad(-1), end(ENDBLOCK, blk=FALSE)), B_())),
                 (b'ifdef', opn(IFDEF)), (b'ifndef', opn(IFNDEF)), (b'if', opn(IF_)),
                 (b'else', I_(z3.And(inblk, z3.Not(CT.els(K))), end(ELSE_, els=TRUE), B_())),
                 (b'endif', I_(inblk, end(ENDIF, ifc=CT.ifc(K) - 1, els=FALSE), B_())),
                 (b'foreach', I_(CT.fe(K), B_(), go('BLOCK_FOREACH_START', K=upd(K, fe=TRUE)))),
                 (b'endforeach', I_(z3.And(CT.fe(K), z3.Not(z3.And(CT.blk(K), CT.bfe(K)))), end(ENDFOREACH, fe=FALSE), B_()))]
        e2 = B_()
        for t, y in reversed(cases):
            e2 = I_(w(t), y, e2)
        e = I_(low, stay(), I_(ws, e2, B_()))
    elif name == 'BLOCK_BLOCK_TYPE_START':
        e = I_(ws, stay(), I_(low, go('BLOCK_BLOCK_TYPE', R=rec(s=k)), B_()))
    elif name == 'BLOCK_BLOCK_TYPE':
        w = z3.Or(*[word(c, g['s'], k, t) for t in (b'entry', b'listing', b'listing_once', b'listing_empty', b'listing_entry')])
        e = I_(z3.Or(low, x == 95), stay(), I_(z3.And(ws, w), go('BLOCK_END_WHITESPACE_CLEANER', K=upd(K, blk=TRUE), R=rec(ty=BLOCK, s=g['s'], e=k)), B_()))
    elif name == 'BLOCK_IF_START':
        e = I_(ws, stay(), I_(up, go('BLOCK_IF_VARIABLE', R=r(s=k)), B_()))
    elif name == 'BLOCK_IF_VARIABLE':
        e = I_(nm, stay(), I_(ws, I_(g['ty'] == IF_, go('BLOCK_IF_OPERATOR_START', R=r(e=k)), go('BLOCK_END_WHITESPACE_CLEANER', R=r(e=k))), B_()))
    elif name == 'BLOCK_IF_OPERATOR_START':
        e = I_(ws, stay(), go('BLOCK_IF_OPERATOR', R=r(os=k)))
    elif name == 'BLOCK_IF_OPERATOR':
        e = I_(ws, go('BLOCK_IF_OPERAND_START', R=r(oe=k)), stay())
    elif name == 'BLOCK_IF_OPERAND_START':
        e = I_(ws, stay(), I_(up, go('BLOCK_IF_VARIABLE_OPERAND', R=r(s2=k)), I_(x == 34, go('BLOCK_IF_STRING_OPERAND', R=r(s2=k)), B_())))
    elif name == 'BLOCK_IF_STRING_OPERAND':
        unfinished = bad(g['s2'])
        e = I_(z3.And(x == 34, at(c, k - 1) != 92), go('BLOCK_END_WHITESPACE_CLEANER', R=r(e2=k + 1)), stay())
    elif name == 'BLOCK_IF_VARIABLE_OPERAND':
        e = I_(nm, stay(), I_(ws, go('BLOCK_END_WHITESPACE_CLEANER', R=r(e2=k)), B_()))
    elif name == 'BLOCK_FOREACH_START':
        e = I_(ws, stay(), I_(up, go('BLOCK_FOREACH_VARIABLE', R=rec(s=k)), B_()))
    elif name == 'BLOCK_FOREACH_VARIABLE':
        e = I_(nm, stay(), I_(ws, go('BLOCK_END_WHITESPACE_CLEANER', R=rec(ty=FOREACH, s=g['s'], e=k)), B_()))
    elif name == 'BLOCK_END_WHITESPACE_CLEANER':
        e = I_(ws, stay(), I_(x == 45, go('BLOCK_END', lst=TRUE, R=R), go('BLOCK_END', R=R, k=k)))
    elif name == 'BLOCK_END':
        e = I_(x == 37, go('CLOSE_BRACKET', lst=lst, R=R), B_())
    elif name == 'VARIABLE_START':
        e = I_(ws, stay(), I_(up, go('VARIABLE', R=rec(s=k)), B_()))
    elif name == 'VARIABLE':
        R2 = rec(ty=VARIABLE, s=g['s'], e=k)
        e = I_(nm, stay(), I_(ws, go('VARIABLE_END', R=R2), I_(x == 125, go('CLOSE_BRACKET', R=R2), B_())))
    elif name == 'VARIABLE_END':
        e = I_(ws, stay(), I_(x == 125, go('CLOSE_BRACKET', R=R), B_()))
    elif name == 'CLOSE_BRACKET':
        w = lambda t: word(c, g['os'], g['oe'], t)
        op = z3.IntVal(0)
        for t, v in ((b'<', 4), (b'>', 8), (b'<=', 6), (b'>=', 10), (b'==', 2), (b'!=', 1)):
            op = I_(w(t), z3.IntVal(v), op)
        has = g['oe'] > g['os']
        node = lambda o: TN.snoc(L, g['ty'], o, g['e'] > g['s'], I_(g['e'] > g['s'], piece(c, g['s'], g['e']), EMPTY), g['e2'] > g['s2'], I_(g['e2'] > g['s2'], piece(c, g['s2'], g['e2']), EMPTY))
        nxt = lambda o: go('START', lst=lst, L=node(o), R=rec(s=k + 1))
        e = I_(x == 125, I_(has, I_(op == 0, bad(g['os']), nxt(op)), nxt(z3.IntVal(0))), B_())
    return I_(k >= n, unfinished, e)


def zb(x):
    return x if z3.is_bool(x) else zi(x) != 0


def ctl(c, v=None):
    v = v or (lambda n: c.v(n))
    return CT.mk(zi(v('if_count')), zi(v('block_if_count')), zb(v('else_open')), zb(v('foreach_open')), zb(v('block_foreach_open')), zb(v('block_open')))


def cur(c, st=None):
    return listval(c.e, st or c.st, G(c, 'TLAST', st))


def target(c):
    return run(c, 'START', CT.mk(zi(0), zi(0), FALSE, FALSE, FALSE, FALSE), FALSE, TN.nil, rec(), 0)


# which of start, end, ... count in a state
USED = {'START': 's', 'OPEN_BRACKET': 's e', 'BLOCK_TYPE': 's', 'BLOCK_BLOCK_TYPE': 's', 'BLOCK_IF_START': 'ty', 'BLOCK_IF_VARIABLE': 'ty s', 'BLOCK_IF_OPERATOR_START': 'ty s e', 'BLOCK_IF_OPERATOR': 'ty s e os',
        'BLOCK_IF_OPERAND_START': 'ty s e os oe', 'BLOCK_IF_STRING_OPERAND': 'ty s e os oe s2', 'BLOCK_IF_VARIABLE_OPERAND': 'ty s e os oe s2', 'BLOCK_FOREACH_VARIABLE': 's', 'BLOCK_END_WHITESPACE_CLEANER': 'ALL', 'BLOCK_END': 'ALL',
        'VARIABLE': 's', 'VARIABLE_END': 'ALL', 'CLOSE_BRACKET': 'ALL'}
VARS = dict(ty='type', s='start', e='end', os='op_start', oe='op_end', s2='start2', e2='end2')


def recof(c, name, v):
    u = USED.get(name, '').split()
    d = {f: v(x) for f, x in VARS.items()}
    if u == ['ALL']:
        # an argument that is not there: its places do not matter
        hase, haso, has2 = zi(d['e']) > zi(d['s']), zi(d['oe']) > zi(d['os']), zi(d['e2']) > zi(d['s2'])
        z = lambda h, x: z3.If(h, zi(x), z3.IntVal(0))
        return rec(d['ty'], z(hase, d['s']), z(hase, d['e']), z(haso, d['os']), z(haso, d['oe']), z(has2, d['s2']), z(has2, d['e2']))
    return rec(**{f: d[f] for f in u})


LSTS = ('START', 'OPEN_BRACKET', 'BLOCK_END', 'CLOSE_BRACKET')


def errv(c, st=None):
    p = c.a('err')
    return z3.Select(z3.Select(c.map('P.o', st), zi(p.o)), zi(p.f))


def active(c):
    return And(ne0(c.a('err').o), errv(c, c.pre) == 0)


def ownstr(c, o, f, node):
    p = P(o, f)
    return And(c.isstr(p), Eq(f, 0), o >= zi(c.pre.nxt), o < zi(c.st.nxt), o != zi(node), o != G(c, 'TAST'))


def inv(c):
    e, st = c.e, c.st
    k, n = zi(c.current), src(c)[2]
    en = c.frame.F.unit.enumconst
    S = lambda x: Eq(c.state, en['TEMPLATE_' + x])
    K, L, T = ctl(c), cur(c), target(c)
    lst = zb(c.lstrip_next)
    pv = c.previous
    p0, p1 = felt(e, st, pv.o, 0), felt(e, st, pv.o, 1)
    t = zi(c.type)
    post = Or(*[S(x) for x in ('BLOCK_END_WHITESPACE_CLEANER', 'BLOCK_END', 'CLOSE_BRACKET')])
    intag = Not(Or(S('START'), S('OPEN_BRACKET')))
    ops = Or(*[S(x) for x in ('BLOCK_IF_OPERATOR', 'BLOCK_IF_OPERAND_START', 'BLOCK_IF_STRING_OPERAND', 'BLOCK_IF_VARIABLE_OPERAND')])
    r = [('range', And(k >= 0, k <= n)), ('states', Or(*[S(x) for x in STATES])), ('error', And(errv(c) == 0, c.valid(c.a('err'), 1))),
         ('source', Eq(c.arr(c.a('src')), c.arr(c.a('src'), c.pre))),
         ('no node', Eq(c.node.o, 0)),
         ('list', Eq(c.ast.o, G(c, 'TAST'))), ('list2', Eq(c.ast.f, 0)), ('list3', G(c, 'TAST') >= 0), ('list4', G(c, 'TAST') < zi(c.st.nxt)), ('list5', Iff(G(c, 'TAST') == 0, Eq(pv.o, 0))),
         ('newest', And(Eq(pv.o, G(c, 'TLAST')), Implies(ne0(pv.o), And(c.live(pv), Eq(pv.f, 0), ge(pv.o, c.pre.nxt), lt(pv.o, c.st.nxt), Not(Eq(pv.o, c.ast.o)))))),
         ('its texts', Implies(ne0(pv.o), And(Or(Eq(p0.o, 0), ownstr(c, zi(p0.o), zi(p0.f), pv.o)), Or(Eq(p1.o, 0), ownstr(c, zi(p1.o), zi(p1.f), pv.o)), Or(Eq(p1.o, 0), Not(Eq(p0.o, p1.o))),
                                              Implies(z3.Select(c.map(ND + 'type'), zi(pv.o)) == CONTENT, ne0(p0.o))))),
         ('block name', Implies(zb(c.block_open), Or(And(post, t == BLOCK), And(c.isstr(c.block_type), c.block_type.o >= c.pre.nxt, c.block_type.o < c.st.nxt, Eq(c.block_type.f, 0), Not(Eq(c.block_type.o, pv.o)))))),
         ('type', And(Implies(Or(S('START'), S('OPEN_BRACKET')), t == CONTENT), Implies(Or(S('BLOCK_BLOCK_TYPE_START'), S('BLOCK_BLOCK_TYPE')), t == BLOCK), Implies(Or(S('BLOCK_FOREACH_START'), S('BLOCK_FOREACH_VARIABLE')), t == FOREACH),
                      Implies(Or(S('VARIABLE'), S('VARIABLE_END')), t == VARIABLE), Implies(Or(post, *[S(x) for x in STATES if x.startswith('BLOCK_IF')]), And(t != CONTENT, t >= 1, t <= VARIABLE)),
                      Implies(Or(*[S(x) for x in STATES if x.startswith('BLOCK_IF_OPER') or x.endswith('_OPERAND')]), t == IF_))),
         ('cleaner', Implies(Not(Or(*[S(x) for x in LSTS])), Not(lst))),
         ('word after text', Implies(S('BLOCK_TYPE'), zi(c.end) <= zi(c.start))),
         ('argument', Implies(Or(*[S(x) for x in ('VARIABLE_END', 'BLOCK_IF_OPERATOR_START', 'BLOCK_IF_OPERATOR', 'BLOCK_IF_OPERAND_START', 'BLOCK_IF_STRING_OPERAND', 'BLOCK_IF_VARIABLE_OPERAND')]), zi(c.end) > zi(c.start))),
         ('in an operator', Implies(S('BLOCK_IF_OPERATOR'), zi(c.op_start) < k)), ('operator', Implies(Or(*[S(x) for x in ('BLOCK_IF_OPERAND_START', 'BLOCK_IF_STRING_OPERAND', 'BLOCK_IF_VARIABLE_OPERAND')]), zi(c.op_end) > zi(c.op_start))),
         ('no operator', Implies(Not(Or(ops, And(post, t == IF_))), And(Eq(c.op_start, 0), Eq(c.op_end, 0)))), ('no operator end', Implies(S('BLOCK_IF_OPERATOR'), Eq(c.op_end, 0))),
         ('no operand', Implies(Not(Or(S('BLOCK_IF_STRING_OPERAND'), S('BLOCK_IF_VARIABLE_OPERAND'), And(post, t == IF_))), And(Eq(c.start2, 0), Eq(c.end2, 0)))),
         ('operand', Implies(And(post, t == IF_), And(zi(c.end2) > zi(c.start2), zi(c.op_end) > zi(c.op_start), zi(c.end) > zi(c.start)))),
         ('block type', Implies(And(post, t == BLOCK), zi(c.end) > zi(c.start))),
         ('in a word', Implies(Or(*[S(x) for x in ('BLOCK_TYPE', 'BLOCK_BLOCK_TYPE', 'VARIABLE', 'BLOCK_IF_VARIABLE', 'BLOCK_FOREACH_VARIABLE')]), zi(c.start) < k)),
         ('open', And(zi(c.if_count) >= 0, zi(c.if_count) <= k, zi(c.block_if_count) >= 0, zi(c.block_if_count) <= k)),
         ('start', And(zi(c.start) >= 0, zi(c.start) <= k)), ('end', And(zi(c.end) >= 0, zi(c.end) <= k)),
         ('in the operand', Implies(Or(S('BLOCK_IF_STRING_OPERAND'), S('BLOCK_IF_VARIABLE_OPERAND')), zi(c.start2) < k)), ('operator places', And(zi(c.op_start) >= 0, zi(c.op_end) >= 0, zi(c.op_end) <= k, zi(c.op_start) <= k)), ('operand places', And(zi(c.start2) >= 0, zi(c.end2) >= 0, zi(c.end2) <= k, zi(c.start2) <= k)),
         ]
    for x in STATES:
        f = run(c, x, K, lst if x in LSTS else FALSE, L, recof(c, x, c.v), k)
        r.append(('reads on ' + x, Implies(S(x), f == T)))
    return r


def heads(c):
    return lambda n: c.head.vars[c.frame.prefix + n] if (c.frame.prefix + n) in c.head.vars else c.head.vars[n]


def between(c):
    """the state a cleaner state falls into without reading"""
    v = heads(c)
    a = (ctl(c, v), FALSE, cur(c, c.head), recof(c, 'BLOCK_END', v), v('current'))
    return [run(c, 'BLOCK_END', *a) == step(c, 'BLOCK_END', *a)]


def allsteps(c, v, st, names=STATES):
    out = []
    L = cur(c, st)
    K = ctl(c, v)
    for x in names:
        a = (K, zb(v('lstrip_next')) if x in LSTS else FALSE, L, recof(c, x, v), v('current'))
        out.append(run(c, x, *a) == step(c, x, *a))
    return out


def nonul_in(c):
    a, b_, n = src(c)
    k = z3.Int('k')
    return z3.ForAll([k], z3.Implies(z3.And(k >= b_, k < b_ + n), z3.Select(a, k) != 0), patterns=[z3.Select(a, k)])


c_ = VIEW['blogc_template_parse'] = C('blogc_template_parse', 'src src_len err', file=F, maps=('M8', 'P.o', 'P.f', 'TINIT', 'TLAST', 'TAST', 'EPOS', 'LIVE', 'SIZE'), maxstates=600,
    requires=lambda c: [('source', Or(Eq(c.a('src_len'), 0), c.valid(c.a('src'), c.a('src_len')))), ('string', c.isstr(c.a('src'))), ('size', And(c.a('src_len') >= 0, c.a('src_len') <= INTLIM)), ('text', nonul_in(c)),
                        ('error', Or(Eq(c.a('err').o, 0), And(c.valid(c.a('err'), 1), gt(c.a('err').o, 0), lt(c.a('err').o, c.st.nxt)))), ('start', And(G(c, 'TLAST') == 0, G(c, 'TAST') == 0))],
    modifies=lambda c: {'P.o': [c.a('err').o], 'P.f': [c.a('err').o], 'P': [c.a('err').o], 'TINIT': [0], 'TLAST': [0], 'TAST': [0], 'EPOS': [0]},
    ensures=lambda c: [('off', Implies(Not(active(c)), Eq(c.result.o, 0))),
                       ('accepted', Implies(active(c), Iff(OUT.ok(target(c)), errv(c) == 0))),
                       ('kept', Implies(And(active(c), errv(c) == 0), And(Eq(c.result.o, G(c, 'TAST')), cur(c) == OUT.nodes(target(c))))),
                       ('rejected', Implies(And(active(c), errv(c) != 0), And(Eq(c.result.o, 0), G(c, 'EPOS') == OUT.pos(target(c)))))],
    loops={0: Loop(inv=inv, lemmas=lambda c: allsteps(c, heads(c), c.head) + allsteps(c, c.v, c.st, ('START', 'OPEN_BRACKET')) + between(c), facts=lambda c: allsteps(c, c.v, c.st), decreases=lambda c: 2 * (c.a('src_len') - c.current) + If(Eq(c.state, c.frame.F.unit.enumconst['TEMPLATE_OPEN_BRACKET']), 1, 0))})
c_.view = True
c_.nocand, c_.feas_ms, c_.shards = True, 20, 8
c_.hide = ('bc_slist_append', 'blogc_template_free_ast', 'bc_error_parser', 'bc_error_new', 'bc_error_new_printf')
c_.litmax = 13
