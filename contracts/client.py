"""What callers see of the error functions (their own contracts are discharged by C07)."""
from vc.sym import *
from vc.lib import fmt_result, fresh_string, lit_of
BUILTINS, USES = {}, {}


def b(name, maps=(), note=''):
    def d(f):
        f.maps = tuple(maps)
        f.note = note
        for n in name.split():
            BUILTINS[n] = f
        return f
    return d


EMAPS = ('LIVE', 'SIZE', '$nxt', 'S.bc_error_t.type')


def fresh_error(eng, st, typ):
    o = eng.newobj(st, 1)
    m = eng.gm(st, 'S.bc_error_t.type')
    st.maps['S.bc_error_t.type'] = z3.Store(m, zi(o), zi(typ))
    return P(o, 0)


@b('bc_error_new_printf', maps=EMAPS, note='bc_error_new_printf returns a fresh error of the given type (formats like bc_strdup_printf)')
def b_enp(eng, fr, st, vals, types, T, line, args):
    fmt_result(eng, st, vals[1], vals[2:], line, 'bc_error_new_printf')
    return [(st, fresh_error(eng, st, vals[0]))]


@b('bc_error_new', maps=EMAPS, note='client view of C07: bc_error_new returns a fresh error of the given type')
def b_en(eng, fr, st, vals, types, T, line, args):
    p = vals[1]
    if lit_of(eng, p) is None:
        eng.prove(st, Or(Eq(p.o, 0), eng.isstr(st, p)), 'precondition', 'bc_error_new message is a string', line)
    return [(st, fresh_error(eng, st, vals[0]))]


@b('bc_error_parser', maps=EMAPS, note='client view of C07: bc_error_parser reads only the source it is given and returns a fresh error of the given type')
def b_ep(eng, fr, st, vals, types, T, line, args):
    s, n, cur = vals[1], vals[2], vals[3]
    eng.prove(st, Or(And(gt(n, 0), ne0(s.o), z3.Select(eng.gm(st, 'LIVE'), zi(s.o)), ge(s.f, 0), le(add(s.f, n), z3.Select(eng.gm(st, 'SIZE'), zi(s.o)))), eng.isstr(st, s)), 'precondition', 'bc_error_parser: the source is readable', line)
    fmt_result(eng, st, vals[4], vals[5:], line, 'bc_error_parser')
    return [(st, fresh_error(eng, st, vals[0]))]


def newstr(eng, st, seq=None):
    """a fresh heap string that belongs to nobody"""
    eng.unowned(st)
    st.maps['SIZE'] = eng.gm(st, 'SIZE')
    return fresh_string(eng, st, seq)


def maybe(eng, st, p):
    """p or NULL"""
    b_ = z3.Bool(str(fresh('given')))
    return P(z3.If(b_, zi(p.o), 0), 0)


def out(eng, st, p, v, T, line, what):
    """*p = v"""
    eng.prove(st, And(ne0(p.o), z3.Select(eng.gm(st, 'LIVE'), zi(p.o)), ge(p.f, 0), lt(p.f, z3.Select(eng.gm(st, 'SIZE'), zi(p.o)))), 'precondition', what + ' is writable', line)
    eng.raw_store(st, p, v, T)


# ---- linked lists: LT[l] is the list of the texts of the elements when they were appended; LIST_OF(o) is the head of
# the list the node o was made for (the head is the first node of a list that only grows by appending)
LIST_OF = z3.Function('list_of', I, I)


def list_axiom(eng):
    o = z3.Int('o')
    eng.ax('list_of', z3.ForAll([o], z3.Implies(LIST_OF(o) != 0, o >= LIST_OF(o)), patterns=[LIST_OF(o)]))


def ltext(c, l, st=None):
    return z3.If(zi(l.o) == 0, TL.none, z3.Select(c.map('LT', st), zi(l.o)))


def llist(c, l):
    return Or(And(Eq(l.o, 0), Eq(l.f, 0)), And(c.live(l), Eq(l.f, 0), LIST_OF(zi(l.o)) == zi(l.o), gt(l.o, 0), lt_(l.o, c.st.nxt)))


def lt_(a, b_):
    return zi(a) < zi(b_)


NEXTS = ('S.bc_slist_t.next', 'S.bc_slist_t.next*')
USES['bc_slist_append'] = a_ = __import__('vc.lib', fromlist=['C']).C('bc_slist_append', 'l data', file='src/common/utils.c', maps=('LT',) + NEXTS,
    requires=lambda c: [list_axiom(c.e) or ('list', llist(c, c.a('l')))],
    modifies=lambda c: dict({m: [lambda o: And(ne0(c.a('l').o), LIST_OF(zi(o)) == zi(c.a('l').o))] for m in NEXTS}, LT=[c.a('l').o]),
    ensures=lambda c: [('head', If(Eq(c.a('l').o, 0), And(ge(c.result.o, c.pre.nxt), Eq(c.result.f, 0)), Eq(c.result, c.a('l')))), ('list', And(ne0(c.result.o), llist(c, c.result))),
                       ('appended', z3.Select(c.map('LT'), zi(c.result.o)) == TL.snoc(ltext(c, c.a('l'), c.pre), c.cs(c.a('data'), c.pre)))])
a_.view = True


@b('bc_string_append_printf', maps=('SV', 'STRB', 'M8', 'LIVE', '$nxt', 'SIZE'), note='bc_string_append_printf appends exactly the formatted text (vsnprintf trusted)')
def b_sap(eng, fr, st, vals, types, T, line, args):
    from .abs import ABS
    seq = fmt_result(eng, st, vals[1], vals[2:], line, 'bc_string_append_printf')
    p = fresh_string(eng, st, seq)
    return eng.apply_contract(fr, st, ABS['bc_string_append'], [vals[0], p], types[:2], T, line, args[:2])
