"""Forward symbolic execution of the lowered C, producing proof obligations.

Loops are cut at their heads by inductive invariants (check on entry, havoc,
assume, check on every back edge); calls to functions under contract use the
contract only; calls to repository functions without a contract are inlined.
"""
import time, itertools, subprocess, zlib, os, hashlib
import z3
from .cast import Unsupported, node_type, parse_type, VOID, BOOL, CHAR, INT, SIZE_T, Ptr, _enum_value
from . import cfg as CFG, rename

I = z3.IntSort()
A1 = z3.ArraySort(I, I)
A2 = z3.ArraySort(I, A1)
SEQ = z3.SeqSort(I)
B = z3.BoolSort()
AB = z3.ArraySort(I, B)
ASEQ = z3.ArraySort(I, SEQ)

MAXOBJ = (1 << 63) - 1


class P:
    """pointer value: object id and element offset"""
    __slots__ = ('o', 'f')

    def __init__(self, o, f=0):
        self.o = o
        self.f = f

    def __repr__(self):
        return 'P(%s,%s)' % (self.o, self.f)


class FN:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Opaque:
    """value the logic does not track (floating point, va_list, whole structs)"""
    def __init__(self, why=''):
        self.why = why


def isz(x):
    return isinstance(x, z3.ExprRef)


def And(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return a == b


def If(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, P):
        return P(If(c, a.o, b.o), If(c, a.f, b.f))
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and a == b:
        return a
    if isz(a) and isz(b) and a.eq(b):
        return a
    if isinstance(a, bool):
        a = z3.BoolVal(a)
    if isinstance(b, bool):
        b = z3.BoolVal(b)
    return z3.If(c, zi(a), zi(b))


def zi(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def Eq(a, b):
    if isinstance(a, P) and isinstance(b, P):
        return And(Eq(a.o, b.o), Eq(a.f, b.f))
    if not isz(a) and not isz(b):
        return a == b
    if isz(a) and isz(b) and a.eq(b):
        return True
    return zi(a) == zi(b)


def seq_unit(x):
    return z3.Unit(zi(x))


def seq_lit(bs):
    us = [z3.Unit(z3.IntVal(b - 256 if b > 127 else b)) for b in bs]
    if not us:
        return z3.Empty(SEQ)
    if len(us) == 1:
        return us[0]
    return z3.Concat(*us)


def lit_text(bs, most=24):
    """text of a literal; a long one is a named constant (equal text, equal constant)"""
    return seq_lit(bs) if len(bs) <= most else z3.Const('text"%s"' % bs.decode('latin-1'), SEQ)


def cat(*xs):
    out = []
    for x in xs:
        if isinstance(x, (bytes, bytearray)):
            if not x:
                continue
            x = seq_lit(x)
        out.append(x)
    if not out:
        return z3.Empty(SEQ)
    return out[0] if len(out) == 1 else z3.Concat(*out)


_fresh = itertools.count(1)


def fresh(name, sort=I):
    return z3.Const('%s!%d' % (name, next(_fresh)), sort)


MAPSORT = {'M8': A2, 'LIVE': AB, 'SIZE': A1, 'P.o': A2, 'P.f': A2, 'SV': ASEQ, 'STRB': A1,
           'TD': z3.ArraySort(I, z3.ArraySort(SEQ, B)), 'TV': z3.ArraySort(I, z3.ArraySort(SEQ, I)), 'TS': z3.ArraySort(I, z3.ArraySort(SEQ, SEQ)),
           'TOWN': A1, 'TKEY': ASEQ, 'FPOS': A1, 'FEOF': AB, 'FERR': AB, 'LN': A1, 'LA': A2, 'LO': A1, 'LI': A1, 'DN': ASEQ, 'ERRNO': A1, 'UNL': A1, 'DONE': A1, 'RP': A1, 'WP': A1, 'REOF': A1, 'FDK': A1, 'RM': A1, 'MKD': A1, 'LASTRM': ASEQ}


TL = z3.Datatype('Texts')        # a list of texts, newest last
TL.declare('none')
TL.declare('snoc', ('init', TL), ('last', SEQ))
TL = TL.create()
MAPSORT['LT'] = z3.ArraySort(I, TL)
TN = z3.Datatype('Nodes')        # a list of template nodes, newest last: type, operator, and two texts that may be absent
TN.declare('nil')
TN.declare('snoc', ('init', TN), ('ty', I), ('op', I), ('h0', B), ('t0', SEQ), ('h1', B), ('t1', SEQ))
TN = TN.create()
MAPSORT['TINIT'] = z3.ArraySort(I, TN)
MAPSORT['TLAST'] = MAPSORT['TAST'] = MAPSORT['EPOS'] = A1
MAPSORT['NAMES'] = z3.ArraySort(I, ASEQ)


def mapsort(name):
    if name in MAPSORT:
        return MAPSORT[name]
    if name.startswith('S.'):
        return A1
    if name.startswith('SE.') or name.startswith('I'):
        return A2
    if name.startswith('G.'):
        return None
    raise Unsupported('map ' + name)


class State:
    __slots__ = ('vars', 'maps', 'ghost', 'nxt', 'pc', 'facts', 'trace', 'brs')

    def __init__(self):
        self.vars = {}
        self.maps = {}
        self.ghost = {}
        self.nxt = None
        self.pc = []
        self.facts = set()
        self.trace = ()
        self.brs = ()          # branch conditions taken

    def copy(self):
        s = State()
        s.vars = dict(self.vars)
        s.maps = dict(self.maps)
        s.ghost = dict(self.ghost)
        s.nxt = self.nxt
        s.pc = list(self.pc)
        s.facts = set(self.facts)
        s.trace = self.trace
        s.brs = self.brs
        return s

    def assume(self, f):
        if f is True:
            return
        if f is False:
            f = z3.BoolVal(False)
        k = f.get_id() if isz(f) else f
        if k in self.facts:
            return
        self.facts.add(k)
        self.pc.append(f)


def within(objs, o):
    """o is one of the declared objects (an item is an object id or a predicate on object ids)"""
    return [zi(x(o)) if callable(x) else Eq(o, x) for x in objs]


def outside(objs, o):
    return [z3.Not(zi(x(o))) if callable(x) else o != zi(x) for x in objs]


class GiveUp(Exception):
    """enough obligations of this function failed"""


BLUR = z3.Function('any.function', SEQ, I)


def blur(phi):
    """phi with x == y over sequences replaced by BLUR(x) == BLUR(y), BLUR otherwise unconstrained: phi follows from its validity (take BLUR injective)"""
    memo = {}

    def go(e):
        k = e.get_id()
        if k in memo:
            return memo[k]
        r = e
        if z3.is_app(e):
            if z3.is_eq(e) and e.arg(0).sort() == SEQ:
                r = BLUR(e.arg(0)) == BLUR(e.arg(1))
            elif e.num_args() and z3.is_bool(e) and e.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_IMPLIES, z3.Z3_OP_NOT, z3.Z3_OP_ITE, z3.Z3_OP_EQ, z3.Z3_OP_IFF) and (e.decl().kind() not in (z3.Z3_OP_EQ,) or z3.is_bool(e.arg(0))):
                ch = [go(x) for x in e.children()]
                if any(a is not b_ for a, b_ in zip(ch, e.children())) and any(a.get_id() != b_.get_id() for a, b_ in zip(ch, e.children())):
                    r = e.decl()(*ch)
        memo[k] = r
        return r
    r = go(phi)
    return r if r.get_id() != phi.get_id() else phi


def check(s):
    """a solver that gives up by raising has no answer"""
    try:
        return s.check()
    except z3.Z3Exception:
        return z3.unknown


class Failure:
    def __init__(self, func, kind, label, line, status, model=None, smt=None):
        self.func, self.kind, self.label, self.line, self.status = func, kind, label, line, status
        self.model, self.smt = model, smt

    def name(self):
        return '%s:%s:%s' % (self.func, self.kind, self.label)


class Frame:
    """activation of one function"""

    def __init__(self, F, prefix, contract, pre=None, args=None):
        self.F, self.prefix, self.contract = F, prefix, contract
        self.pre, self.args = pre, args


class Ctx:
    """what a contract sees"""
    is_body = False

    def __init__(self, eng, st, pre, args, result=None, frame=None, entry=None, loop_pre=None):
        self.e, self.st, self.pre, self.args, self.result = eng, st, pre, args, result
        self.frame = frame
        self.entry = entry
        self.lp = loop_pre

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return self.v(n)

    def v(self, n, st=None):
        st = st or self.st
        if self.frame is not None:
            key = self.frame.prefix + n
            if key in st.vars:
                if n in self.frame.F.memlocals:
                    T = self.frame.F.locals[n]
                    if T[0] in ('arr', 'struct'):
                        return st.vars[key]
                    return self.e.raw_load(st, st.vars[key], T)
                return st.vars[key]
            if n in self.frame.F.memlocals or n in self.frame.F.locals:
                raise KeyError('local %s not live' % n)
        if n in self.args:
            return self.args[n]
        raise KeyError('no variable %r' % n)

    def has(self, n):
        try:
            self.v(n)
            return True
        except KeyError:
            return False

    def a(self, n):
        return self.args[n]

    # -- memory access in the current / pre state
    def byte(self, p, i=0, st=None):
        st = st or self.st
        return self.e.rd8(st, p.o, add(p.f, i))

    def arr(self, p, st=None):
        st = st or self.st
        return z3.Select(self.e.gm(st, 'M8'), zi(p.o))

    def fld(self, p, s, f, st=None):
        return self.e.raw_field(st or self.st, p, s, f)

    def map(self, name, st=None):
        return self.e.gm(st or self.st, name)

    def live(self, p, st=None):
        return z3.Select(self.e.gm(st or self.st, 'LIVE'), zi(p.o))

    def size(self, p, st=None):
        return z3.Select(self.e.gm(st or self.st, 'SIZE'), zi(p.o))

    def sv(self, p, st=None):
        return z3.Select(self.e.gm(st or self.st, 'SV'), zi(p.o))

    def slen(self, p, st=None):
        return self.e.slen(st or self.st, p)

    def cs(self, p, st=None):
        return self.e.cs(st or self.st, p)

    def isstr(self, p, st=None):
        return self.e.isstr(st or self.st, p)

    def nullstr(self, p, st=None):
        return Or(Eq(p.o, 0), self.e.isstr(st or self.st, p))

    def valid(self, p, n=1, st=None):
        """p points to at least n live elements"""
        st = st or self.st
        return And(ne0(p.o), z3.Select(self.e.gm(st, 'LIVE'), zi(p.o)), ge(p.f, 0),
                   le(add(p.f, n), z3.Select(self.e.gm(st, 'SIZE'), zi(p.o))))

    def g(self, name, st=None):
        return (st or self.st).ghost[name]


def ne0(o):
    return Not(Eq(o, 0))


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, int) and a == 0:
        return b
    return a + b


def sub_(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    if isz(a) and isz(b) and a.eq(b):
        return 0
    return a - b


def _cmp(op, a, b):
    if not isz(a) and not isz(b):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    a, b = zi(a), zi(b)
    return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]


def lt(a, b): return _cmp('<', a, b)
def le(a, b): return _cmp('<=', a, b)
def gt(a, b): return _cmp('>', a, b)
def ge(a, b): return _cmp('>=', a, b)


class Loop:
    """loop contract: inv(c) -> list of formulas or (label, formula)"""

    def __init__(self, inv=None, decreases=None, lemmas=None, modifies=None, unroll=None, facts=None, asserts=None, ghosts=(), ghost_step=None):
        self.ghosts, self.ghost_step = ghosts, ghost_step
        self.asserts = asserts
        self.inv, self.decreases, self.lemmas, self.modifies = inv, decreases, lemmas, modifies
        self.unroll = unroll
        self.facts = facts


class Contract:
    def __init__(self, name, requires=None, ensures=None, modifies=None, loops=None, file=None,
                 trusted=False, allocates=True, ghosts=(), exit_lemmas=None, note='', variadic=False,
                 maxstates=24, entry=None, pure=False, lemma=None, covers=True, inline=(), ghost_apply=None,
                 concrete=False, noreturn=False, rets=None, body_requires=None, decreases=None, exit_asserts=None):
        self.exit_asserts = exit_asserts
        self.name, self.requires, self.ensures, self.modifies = name, requires, ensures, modifies
        self.loops = loops or {}
        self.file, self.trusted, self.allocates = file, trusted, allocates
        self.ghosts, self.exit_lemmas, self.note = ghosts, exit_lemmas, note
        self.variadic, self.maxstates, self.entry, self.pure = variadic, maxstates, entry, pure
        self.lemma = lemma
        self.covers = covers
        self.inline = inline
        self.ghost_apply = ghost_apply
        self.concrete = concrete
        self.noreturn = noreturn
        self.body_requires = body_requires
        self.decreases = decreases


def labelled(xs, base):
    out = []
    for i, x in enumerate(xs or []):
        if isinstance(x, tuple):
            out.append(x)
        else:
            out.append(('%s%d' % (base, i), x))
    return out


class Engine:
    def __init__(self, prog, contracts, builtins, timeout_ms=10000, feas_ms=400, second=None, abstract=True):
        self.prog = prog
        self.contracts = contracts
        self.builtins = builtins
        self.timeout_ms, self.feas_ms = timeout_ms, feas_ms
        self.second = second
        self.lowered = {}
        self.axioms = [z3.Not(z3.Select(z3.Const("LIVE!0", AB), 0))]
        self.axkeys = set()
        self.failures = []
        self.nob = 0
        self.shard = None
        self.by = {'simplifier': 0, 'z3': 0, 'cvc5': 0}
        self.kinds = {}
        self.solver_s = 0.0
        self.calls_used = set()
        self.inlined = set()
        self.dropped = set()
        self.literals = {}
        self.litax, self._ints, self.memkeys = {}, {}, set()
        self.litmem = {}
        self.globobj = {}
        self.curfn = None
        self.abstract = abstract
        self.record = True
        self.cover_ok = 0
        self.terms = {}
        self.maxq = 0
        self.covers = {}
        self.callsites = []
        self._fc = {}
        self.dead_covers = []
        self.houdini = {}
        self.max_fail = 4       # after this many failed obligations the rest of the function is not attempted
        self.dump = None

    # ------------------------------------------------------------ solver
    def ax(self, key, f):
        if key not in self.axkeys:
            self.axkeys.add(key)
            self.axioms.append(f)

    def lits(self, f):
        """literal objects mentioned in a formula"""
        if not isz(f):
            return frozenset()
        k = f.get_id()
        r = self._ints.get(k)
        if r is None:
            out, seen, todo = set(), set(), [f]
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_quantifier(x):
                    todo.append(x.body())
                elif z3.is_int_value(x):
                    v = x.as_long()
                    if v in self.litax:
                        out.add(v)
                else:
                    todo.extend(x.children())
            r = self._ints[k] = (frozenset(out), f)
        return r[0]

    def background(self, st, phi):
        """axioms for a query; facts of string literals the query does not mention are left out"""
        need = set(self.lits(phi))
        for f in st.pc:
            need |= self.lits(f)
        for f in self.axioms:
            need |= self.lits(f)
        out = list(self.axioms)
        for o in sorted(need):
            out += self.litax[o]
        return out

    def _solver(self, ms):
        s = z3.SimpleSolver()
        s.set('timeout', ms)
        s.set('smt.mbqi', False)
        s.set('auto_config', False)
        s.set('smt.random_seed', 0)
        return s

    def feasible(self, st, cond=True):
        if cond is False:
            return False
        if cond is True:
            c = None
        else:
            c = z3.simplify(cond)
            if z3.is_false(c):
                return False
            if z3.is_true(c):
                return True
        t0 = time.time()
        s = self._solver(self.feas_ms)
        for a in self.background(st, c):
            s.add(a)
        for f in st.pc:
            s.add(f)
        if c is not None:
            s.add(c)
        r = check(s)
        self.solver_s += time.time() - t0
        return r != z3.unsat

    def entails(self, st, phi, ms=None):
        """quick internal entailment (no obligation recorded)"""
        if phi is True:
            return True
        if phi is False:
            return False
        c = z3.simplify(phi)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = (phi.get_id(), len(st.pc), st.pc[-1].get_id() if st.pc else 0)
        if key in self._fc:
            return self._fc[key][0]
        t0 = time.time()
        s = self._solver(ms or self.feas_ms)
        for a in self.background(st, phi):
            s.add(a)
        for f in st.pc:
            s.add(f)
        s.add(z3.Not(phi))
        r = check(s) == z3.unsat
        self.solver_s += time.time() - t0
        self._fc[key] = (r, phi, list(st.pc[-1:]))
        return r

    def _query(self, st, phi):
        b = blur(phi) if getattr(self.target, 'blur', False) else phi
        if b is not phi:
            # sequence equalities in the goal, seen through an arbitrary function: valid for every function means equal
            t0 = time.time()
            for ms, g in ((600, phi), (self.timeout_ms // 3, b)):
                s = self._solver(ms)
                for a in self.background(st, phi):
                    s.add(a)
                for f in st.pc:
                    s.add(f)
                s.add(z3.Not(g))
                r = check(s)
                if r == z3.unsat:
                    break
            dt = time.time() - t0
            self.solver_s += dt
            self.maxq = max(self.maxq, dt)
            if r == z3.unsat:
                return 'z3', None, s
        t0 = time.time()
        s = self._solver(self.timeout_ms)
        bg = self.background(st, phi)
        for a in bg:
            s.add(a)
        for f in st.pc:
            s.add(f)
        s.add(z3.Not(phi))
        r = check(s)
        dt = time.time() - t0
        self.solver_s += dt
        self.maxq = max(self.maxq, dt)
        if r == z3.unsat:
            return 'z3', None, s
        model = None
        try:
            model = s.model()
        except z3.Z3Exception:
            pass
        # retries with other configurations of the same solver
        for kind in (('tactic', 'arith2', 'process') if not self.failures else ('process',)):
            t0 = time.time()
            if kind == 'process':
                r2 = self.z3_process(s)
            else:
                s2 = z3.Solver()
                s2.set('timeout', self.timeout_ms)
                s2.set('smt.mbqi', False)
                s2.set('auto_config', False)
                s2.set('smt.random_seed', 7)
                if kind == 'arith2':
                    s2.set('smt.arith.solver', 2)
                for a in bg:
                    s2.add(a)
                for f in st.pc:
                    s2.add(f)
                s2.add(z3.Not(phi))
                r2 = check(s2)
            self.solver_s += time.time() - t0
            if r2 == z3.unsat:
                if os.environ.get('VC_SLOW'):
                    print('RETRY', kind, flush=True)
                return 'z3', None, s
        if self.second:
            t0 = time.time()
            ok = self.second(s)
            self.solver_s += time.time() - t0
            if ok:
                return 'cvc5', None, s
        return ('sat' if r == z3.sat else 'unknown'), model, s

    def z3_process(self, s):
        """the z3 binary on the printed query, memory and time limited"""
        try:
            txt = '(set-option :smt.mbqi false)\n(set-option :auto_config false)\n' + s.to_smt2()
            r = subprocess.run(['z3-new', '-in', '-T:%d' % max(2, self.timeout_ms // 1000), '-memory:3000'], input=txt, capture_output=True, text=True, timeout=self.timeout_ms / 1000 + 5)
            return z3.unsat if r.stdout.split('\n')[0].strip() == 'unsat' else z3.unknown
        except (subprocess.TimeoutExpired, OSError):
            return z3.unknown

    def mine(self, st, kind, label, line):
        """with shards: is this obligation discharged by this worker (another one discharges it otherwise)"""
        if self.shard is None:
            return True
        w, k = self.shard
        return zlib.crc32(repr((kind, label, line, [str(x) for x in st.trace])).encode()) % k == w

    def prove(self, st, phi, kind, label, line=None, whole=False):
        """one obligation; returns True if discharged. The fact is assumed afterwards."""
        if not self.record:
            st.assume(phi)
            return True
        if not whole and not self.mine(st, kind, label, line):
            if phi is not True:
                st.assume(z3.BoolVal(False) if phi is False else phi)
            return True
        self.nob += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        if phi is True:
            self.by['simplifier'] += 1
            return True
        if len(self.failures) >= self.max_fail:
            raise GiveUp()
        if phi is not False:
            s = z3.simplify(phi)
            if z3.is_true(s):
                self.by['simplifier'] += 1
                return True
            k = phi.get_id()
            if k in st.facts:
                self.by['simplifier'] += 1
                return True
        else:
            phi = z3.BoolVal(False)
        t0 = time.time()
        who, model, solver = self._query(st, phi)
        if os.environ.get('VC_SLOW') and time.time() - t0 > 1:
            print('SLOW %.1f %s %s %s line %s -> %s' % (time.time() - t0, self.curfn, kind, label, line, who), flush=True)
        if who in ('z3', 'cvc5'):
            self.by[who] += 1
            st.assume(phi)
            return True
        fl = Failure(self.curfn, kind, label, line, who, model)
        fl.path = list(st.trace)
        fl.formula = str(phi)[:2000]
        fl.inputs = self._model_inputs(model) if model is not None else None
        if self.dump:
            fl.smt = solver.to_smt2()
        self.failures.append(fl)
        st.assume(phi)
        return False

    def prove_all(self, st, items, kind, line=None):
        """batch: try the conjunction first, split on failure"""
        items = [(l, f) for l, f in items]
        if self.record and not self.mine(st, kind, [l for l, _ in items], line):
            for _, f in items:
                if f is not True:
                    st.assume(z3.BoolVal(False) if f is False else f)
            return True
        todo = []
        for l, f in items:
            if f is True:
                self.nob += 1; self.kinds[kind] = self.kinds.get(kind, 0) + 1
                self.by['simplifier'] += 1
            else:
                todo.append((l, f))
        if not todo:
            return True
        if len(todo) > 1 and self.record and all(f is not False for _, f in todo):
            conj = z3.And(*[f for _, f in todo])
            t0 = time.time()
            s = self._solver(max(self.timeout_ms // 4, 1500))
            for a in self.background(st, conj):
                s.add(a)
            for f in st.pc:
                s.add(f)
            s.add(z3.Not(conj))
            r = check(s)
            dt = time.time() - t0
            self.solver_s += dt
            if os.environ.get('VC_SLOW') and dt > 1:
                print('SLOW %.1f %s %s batch %s line %s -> %s' % (dt, self.curfn, kind, [l for l, _ in todo], line, r), flush=True)
            if r == z3.unsat:
                self.nob += len(todo)
                self.kinds[kind] = self.kinds.get(kind, 0) + len(todo)
                self.by['z3'] += len(todo)
                for _, f in todo:
                    st.assume(f)
                return True
        if len(self.failures) >= self.max_fail:
            raise GiveUp()
        ok = True
        for l, f in todo:
            ok &= self.prove(st, f, kind, l, line, whole=True)
        return ok

    def _model_inputs(self, model):
        out = {}
        try:
            pre = self.entry_state
            for n, v in self.entry_args.items():
                if isinstance(v, P):
                    o = model.eval(zi(v.o), True).as_long()
                    f = model.eval(zi(v.f), True).as_long()
                    out[n] = {'obj': o, 'off': f}
                    if o > 0 and 'M8' in pre.maps:
                        bs = []
                        sz = model.eval(z3.Select(self.gm(pre, 'SIZE'), zi(v.o)), True).as_long()
                        for k in range(0, min(max(sz - f, 0), 64)):
                            x = model.eval(z3.Select(z3.Select(pre.maps['M8'], zi(v.o)), zi(f + k)), True)
                            bs.append(x.as_long() & 255)
                        out[n]['bytes'] = bs
                        out[n]['size'] = sz
                elif isz(v):
                    out[n] = str(model.eval(v, True))
                else:
                    out[n] = str(v)
        except Exception as e:  # a partial model is still useful
            out['_error'] = str(e)
        return out

    # ------------------------------------------------------------ memory
    def gm(self, st, name, sort=None):
        m = st.maps.get(name)
        if m is None:
            m = z3.Const(name + '!0', sort or mapsort(name))
            st.maps[name] = m
            if name == 'SIZE':
                self.size_ax(m)
        return m

    def name_maps(self, st):
        """give every map that is a compound term a name (keeps quantifier patterns matchable)"""
        for k, m in list(st.maps.items()):
            if z3.is_app(m) and m.num_args() > 0:
                c = fresh(k, m.sort())
                st.assume(c == m)
                st.maps[k] = c

    def size_ax(self, m):
        """no object exceeds PTRDIFF_MAX elements (a larger request makes the allocator fail)"""
        o = z3.Int('o')
        self.ax(('size', m.get_id()), z3.ForAll([o], z3.Select(m, o) <= MAXOBJ, patterns=[z3.Select(m, o)]))
        self.terms[('keep', m.get_id())] = m

    def sel2(self, m, o, f):
        return z3.Select(z3.Select(m, zi(o)), zi(f))

    def rd8(self, st, o, f):
        m = self.gm(st, 'M8')
        x = self.sel2(m, o, f)
        st.assume(z3.And(x >= -128, x <= 127))
        return x

    def slen_f(self):
        f = z3.Function('slen', A1, I, I)
        a, i, j = z3.Const('a', A1), z3.Int('i'), z3.Int('j')
        # definition: least k>=0 with a[i+k]==0 whenever some such k exists
        self.ax('slen', z3.ForAll([a, i, j], z3.Implies(z3.And(j >= i, z3.Select(a, j) == 0),
                z3.And(f(a, i) >= 0, f(a, i) <= j - i, z3.Select(a, i + f(a, i)) == 0)),
                patterns=[z3.MultiPattern(f(a, i), z3.Select(a, j))]))
        return f

    def slen(self, st, p):
        f = self.slen_f()
        a = z3.Select(self.gm(st, 'M8'), zi(p.o))
        return f(a, zi(p.f))

    def strfacts(self, st, p):
        """consequences of 'p is a NUL-terminated string' """
        f = self.slen_f()
        a = z3.Select(self.gm(st, 'M8'), zi(p.o))
        n = f(a, zi(p.f))
        k = z3.Int('k')
        return z3.And(n >= 0, z3.Select(a, zi(p.f) + n) == 0,
                      z3.ForAll([k], z3.Implies(z3.And(k >= zi(p.f), k < zi(p.f) + n), z3.Select(a, k) != 0),
                                patterns=[z3.Select(a, k)]))

    def isstr(self, st, p):
        if isinstance(p.o, int) and p.o in self.litmem:
            return True
        f = self.slen_f()
        a = z3.Select(self.gm(st, 'M8'), zi(p.o))
        n = f(a, zi(p.f))
        sz = z3.Select(self.gm(st, 'SIZE'), zi(p.o))
        return And(ne0(p.o), z3.Select(self.gm(st, 'LIVE'), zi(p.o)), ge(p.f, 0), n >= 0,
                   zi(p.f) + n < sz, z3.Select(a, zi(p.f) + n) == 0)

    def slen_min(self, st, p):
        """definition fact: below slen no byte is NUL (always true by definition of slen)"""
        f = self.slen_f()
        a = z3.Const('a', A1)
        i, k = z3.Ints('i k')
        self.ax('slenmin', z3.ForAll([a, i, k], z3.Implies(z3.And(k >= i, k < i + f(a, i)), z3.Select(a, k) != 0),
                patterns=[z3.MultiPattern(f(a, i), z3.Select(a, k))]))

    def cs_f(self):
        f = z3.Function('cs', A1, I, SEQ)
        sl = self.slen_f()
        a, i = z3.Const('a', A1), z3.Int('i')
        self.ax('cslen', z3.ForAll([a, i], z3.Implies(sl(a, i) >= 0, z3.Length(f(a, i)) == sl(a, i)),
                patterns=[f(a, i)]))
        return f

    def cs(self, st, p):
        f = self.cs_f()
        if isinstance(p.o, int) and p.o in self.litmem and p.f == 0:
            return lit_text(self.litmem[p.o].split(b'\0')[0], getattr(self.target, 'litmax', 24))
        a = z3.Select(self.gm(st, 'M8'), zi(p.o))
        return f(a, zi(p.f))

    def unowned(self, st):
        """objects not allocated yet belong to no trie (only insertion changes ownership, and only of existing objects)"""
        if getattr(self.target, 'tries', False):
            self.name_maps(st)
            o = z3.Int('o')
            t = z3.Select(self.gm(st, 'TOWN'), o)
            st.assume(z3.ForAll([o], z3.Implies(o >= zi(st.nxt), t == 0), patterns=[t]))

    def newobj(self, st, size):
        o = st.nxt
        st.nxt = add(o, 1)
        if not isinstance(o, int):
            no = fresh('obj')
            st.assume(no == o)
            o = no
            nn = fresh('nxt')
            st.assume(nn == o + 1)
            st.nxt = nn
        if isz(size):
            st.assume(size <= MAXOBJ)
        st.maps['LIVE'] = z3.Store(self.gm(st, 'LIVE'), zi(o), z3.BoolVal(True))
        st.maps['SIZE'] = z3.Store(self.gm(st, 'SIZE'), zi(o), zi(size))
        return o

    def literal(self, st, text):
        if text not in self.literals:
            o = -(len(self.literals) + 2)
            self.literals[text] = o
            self.litmem[o] = text
            ax = self.litax[o] = []
            a = z3.Select(z3.Const('M8!0', A2), z3.IntVal(o))
            if len(text) <= 48:
                for i, c in enumerate(text + b'\0'):
                    ax.append(z3.Select(a, i) == (c - 256 if c > 127 else c))
            else:
                ax.append(z3.Select(a, len(text)) == 0)
            t = text.split(b'\0')[0]
            if b'\0' in text[:]:
                pass
            f = self.slen_f()
            ax.append(f(a, 0) == len(t))
            ax.append(self.cs_f()(a, 0) == lit_text(t))
            ax.append(z3.Select(z3.Const('SIZE!0', A1), o) == len(text) + 1)
            ax.append(z3.Select(z3.Const('LIVE!0', AB), o))
            ax.append(z3.Const('nxt0', I) > 0)
        return P(self.literals[text], 0)

    def not_local(self, st, o):
        return And(*[Not(Eq(o, v.o)) for v in (st.vars.get(k) for k in sorted(self.memkeys)) if isinstance(v, P)])

    def modset_ok(self, st, mapname, o, line, frame):
        """store permission: object is fresh (allocated since entry) or in the contract's modifies"""
        if self.target_mod is None:
            return
        allowed = self.target_mod.get(mapname, ())
        if allowed == 'ANY':
            return
        nx0 = self.entry_state.nxt
        phi = Or(Eq(o, 0), ge(o, nx0), *within(allowed, o))
        self.prove(st, phi, 'frame', 'writes-only-declared(%s)' % mapname, line)

    def elemmap(self, T):
        if T[0] == 'int' and T[1] == 8:
            return 'M8'
        if T[0] == 'int':
            return 'I%d' % T[1]
        if T[0] == 'bool':
            return 'Ibool'
        if T[0] == 'ptr':
            return 'P'
        if T[0] == 'float':
            return 'Ifloat'
        raise Unsupported('element type %r' % (T,))

    def convert_loaded(self, st, x, T):
        if T[0] == 'int' and T[1] == 8:
            st.assume(z3.And(x >= -128, x <= 127))
            if not T[2]:
                return z3.If(x < 0, x + 256, x)
            return x
        if T[0] == 'int':
            lo, hi = rng(T)
            st.assume(z3.And(x >= lo, x <= hi))
            return x
        if T[0] == 'bool':
            st.assume(z3.And(x >= 0, x <= 1))
            return x
        return x

    def wfptr(self, st, p):
        """type invariant of loaded pointers: null, a literal, or an allocated object"""
        if isz(p.o):
            st.assume(z3.And(p.o < zi(st.nxt), z3.Implies(p.o == 0, zi(p.f) == 0)))
        return p

    def isrec(self, T):
        """pointers to records point at the start of an object (checked where they are stored)"""
        return T[0] == 'ptr' and T[1][0] == 'struct'

    def recbase(self, st, v, T, line):
        if self.isrec(T) and isinstance(v, P) and not (isinstance(v.f, int) and v.f == 0):
            self.prove(st, Eq(v.f, 0), 'memory', 'record pointer at object start', line)
            return P(v.o, 0)
        return v

    def raw_load(self, st, p, T):
        m = self.elemmap(T)
        if m == 'P':
            v = P(self.sel2(self.gm(st, 'P.o'), p.o, p.f), 0 if self.isrec(T) else self.sel2(self.gm(st, 'P.f'), p.o, p.f))
            return self.wfptr(st, v)
        if m == 'Ifloat':
            return Opaque('float')
        x = self.sel2(self.gm(st, m), p.o, p.f)
        return self.convert_loaded(st, x, T)

    def access(self, st, p, what, line):
        sz = z3.Select(self.gm(st, 'SIZE'), zi(p.o))
        lv = z3.Select(self.gm(st, 'LIVE'), zi(p.o))
        self.prove(st, And(ne0(p.o), lv, ge(p.f, 0), lt(p.f, sz)), 'memory', what, line)

    def raw_store(self, st, p, v, T):
        m = self.elemmap(T)
        if m == 'P':
            if isinstance(v, FN):
                v = P(fresh('fnp'), 0)
                st.assume(z3.And(v.o > 0, v.o < zi(st.nxt)))
            for k, x in (('P.o', v.o), ('P.f', v.f)):
                mm = self.gm(st, k)
                st.maps[k] = z3.Store(mm, zi(p.o), z3.Store(z3.Select(mm, zi(p.o)), zi(p.f), zi(x)))
            return
        if m == 'Ifloat':
            return
        x = v
        if T[0] == 'int' and T[1] == 8 and not T[2]:
            x = (v - 256 if v > 127 else v) if isinstance(v, int) else z3.If(v > 127, v - 256, v)
        mm = self.gm(st, m)
        st.maps[m] = z3.Store(mm, zi(p.o), z3.Store(z3.Select(mm, zi(p.o)), zi(p.f), zi(x)))

    def fieldmap(self, s, f):
        return 'S.%s.%s' % (s.lstrip('_').replace('struct ', ''), f)

    def fieldtype(self, s, f):
        u = self.curunit
        recs = u.records.get(s) or u.records.get(s.lstrip('_'))
        if recs is None:
            raise Unsupported('record ' + s)
        for n, fd in recs:
            if n == f:
                return node_type(fd, u)
        raise Unsupported('field %s.%s' % (s, f))

    def canon(self, s):
        """canonical struct name: typedef'd and tag names of the same record coincide"""
        return s[1:] if s.startswith('_') else s

    def raw_field(self, st, p, s, f, T=None):
        s = self.canon(s)
        if self.abstract and s == 'bc_string_t':
            if f == 'len':
                n = z3.Length(z3.Select(self.gm(st, 'SV'), zi(p.o)))
                st.assume(n < MAXOBJ)
                return n
            if f == 'str':
                return self.strbuf(st, p)
        T = T or self.fieldtype(s, f)
        base = self.fieldmap(s, f)
        o = zi(add(p.o, p.f)) if not (isinstance(p.f, int) and p.f == 0) else zi(p.o)
        if T[0] == 'ptr':
            v = P(z3.Select(self.gm(st, base + '.o'), o), 0 if self.isrec(T) else z3.Select(self.gm(st, base + '.f'), o))
            return self.wfptr(st, v)
        if T[0] in ('float',):
            return Opaque('float')
        if T[0] in ('struct', 'arr'):
            return self.subobj(st, p, s, f, T)
        x = z3.Select(self.gm(st, base), o)
        return self.convert_loaded(st, x, T)

    def subobj(self, st, p, s, f, T):
        """embedded struct/array field: its own object id, an injective function of the parent's.
        Ids below -1000000 so they never collide with heap objects or literals."""
        fn = z3.Function('sub.%s.%s' % (s, f), I, I)
        o = fn(zi(p.o))
        n = T[2] if T[0] == 'arr' else 1
        st.assume(z3.And(o < -1000000, z3.Select(self.gm(st, 'SIZE'), o) == n,
                         z3.Select(self.gm(st, 'LIVE'), o) == z3.Select(self.gm(st, 'LIVE'), zi(p.o))))
        return P(o, 0)

    def strbuf(self, st, p):
        """abstract growable string: s->str is a live buffer holding exactly the view plus NUL"""
        o = z3.Select(self.gm(st, 'STRB'), zi(p.o))
        v = z3.Select(self.gm(st, 'SV'), zi(p.o))
        a = z3.Select(self.gm(st, 'M8'), o)
        k = z3.Int('k')
        n = z3.Length(v)
        st.assume(z3.And(o > 0, o < zi(st.nxt), z3.Select(self.gm(st, 'LIVE'), o), z3.Select(self.gm(st, 'SIZE'), o) > n,
                         z3.Select(a, n) == 0))
        st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(a, k) == v[k]), patterns=[z3.Select(a, k)]))
        if 'nonul0' in self.axkeys:
            st.assume(z3.Implies(z3.Function('nonul', SEQ, B)(v), z3.And(self.cs_f()(a, 0) == v, self.slen_f()(a, 0) == n)))
        return P(o, 0)

    def raw_field_store(self, st, p, s, f, v, T, line):
        s = self.canon(s)
        if self.abstract and s == 'bc_string_t':
            raise Unsupported('direct write to growable string field ' + f)
        base = self.fieldmap(s, f)
        o = zi(add(p.o, p.f))
        if T[0] == 'ptr':
            if isinstance(v, FN):
                v = P(fresh('fnp'), 0)
                st.assume(z3.And(v.o > 0, v.o < zi(st.nxt)))
            st.maps[base + '.o'] = z3.Store(self.gm(st, base + '.o'), o, zi(v.o))
            st.maps[base + '.f'] = z3.Store(self.gm(st, base + '.f'), o, zi(v.f))
        elif T[0] == 'float':
            pass
        elif T[0] in ('struct', 'arr'):
            raise Unsupported('aggregate store')
        else:
            x = v
            if T[0] == 'int' and T[1] == 8 and not T[2]:
                x = z3.If(zi(v) > 127, zi(v) - 256, zi(v))
            st.maps[base] = z3.Store(self.gm(st, base), o, zi(x))

    # ------------------------------------------------------------ evaluation
    def norm(self, x):
        if isz(x):
            if z3.is_int_value(x):
                return x.as_long()
        return x

    def ev(self, st, e, fr, line):
        k = e[0]
        if k == 'const':
            return e[1]
        if k == 'null':
            return P(0, 0) if e[1][0] == 'ptr' else 0
        if k == 'str':
            return self.literal(st, e[1])
        if k == 'fn':
            return FN(e[1])
        if k == 'float':
            return Opaque('float')
        if k == 'anyint':
            return self.havoc_val(st, e[1], 'flt')
        if k == 'sizeof':
            return self.sizeof(e[1])
        if k == 'var':
            return self.rdvar(st, e[1], fr, line)
        if k == 'load':
            return self.load(st, e[1], e[2], fr, line)
        if k == 'lv':
            return Opaque('struct value')
        if k == 'addr':
            return self.addr(st, e[1], fr, line)
        if k == 'decay':
            return self.addr(st, e[1], fr, line, decay=True)
        if k == 'cast':
            return self.cast(st, self.ev(st, e[1], fr, line), e[1][-1], e[2], line)
        if k == 'tobool':
            return self.b2i(self.truth(st, self.ev(st, e[1], fr, line)))
        if k == 'un':
            v = self.ev(st, e[2], fr, line)
            if e[1] == '!':
                return self.b2i(Not(self.truth(st, v)))
            if isinstance(v, Opaque):
                return v
            if e[1] == '-':
                return self.wrap(st, sub_(0, v), e[3], line, 'negation')
            if e[1] == '~':
                return self.wrap(st, sub_(-1, v), e[3], line, 'complement')
        if k == 'bin':
            return self.binop(st, e[1], e[2], e[3], e[4], fr, line)
        raise Unsupported('expr ' + k)

    def b2i(self, b):
        if isinstance(b, bool):
            return int(b)
        return z3.If(b, z3.IntVal(1), z3.IntVal(0))

    def truth(self, st, v):
        if isinstance(v, P):
            return Not(Eq(v.o, 0))
        if isinstance(v, FN):
            return True
        if isinstance(v, Opaque):
            return fresh('float_truth', B)
        if isinstance(v, int):
            return v != 0
        # undo b2i
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            c, a, b = v.children()
            if z3.is_int_value(a) and z3.is_int_value(b):
                x, y = a.as_long(), b.as_long()
                if x and not y:
                    return c
                if not x and y:
                    return z3.Not(c)
        return v != 0

    def cond(self, st, e, fr, line):
        if e[0] == 'un' and e[1] == '!':
            return Not(self.cond(st, e[2], fr, line))
        if e[0] == 'tobool':
            return self.cond(st, e[1], fr, line)
        return self.truth(st, self.ev(st, e, fr, line))

    def rdvar(self, st, name, fr, line):
        key = fr.prefix + name
        T = fr.F.locals[name]
        if name in fr.F.memlocals:
            p = st.vars.get(key)
            if p is None:
                raise Unsupported('use of %s before declaration' % name)
            return self.raw_load(st, p, T)
        v = st.vars.get(key)
        if v is None:
            if getattr(self, 'undef_check', True):
                self.prove(st, False if not name.startswith('$') else True, 'memory', 'initialised(%s)' % name, line)
            v = self.havoc_val(st, T, name)
            st.vars[key] = v
        return v

    def havoc_val(self, st, T, name='h'):
        if T[0] == 'ptr':
            p = P(fresh(name + '.o'), 0 if T[1][0] in ('struct', 'func') else fresh(name + '.f'))
            return self.wfptr(st, p)
        if T[0] == 'int':
            x = fresh(name)
            lo, hi = rng(T)
            st.assume(z3.And(x >= lo, x <= hi))
            return x
        if T[0] == 'bool':
            x = fresh(name)
            st.assume(z3.And(x >= 0, x <= 1))
            return x
        return Opaque(str(T))

    def sizeof(self, T):
        if T[0] == 'int':
            return T[1] // 8
        if T[0] == 'bool':
            return 1
        if T[0] == 'ptr':
            return 8
        if T[0] == 'arr':
            return T[2] * self.sizeof(T[1])
        if T[0] == 'struct':
            return ('sizeof', T[1])
        if T[0] == 'float':
            return 8
        raise Unsupported('sizeof %r' % (T,))

    def lvptr(self, st, lv, fr, line):
        """deref lvalue -> P"""
        p = self.ev(st, lv[1], fr, line)
        if not isinstance(p, P):
            raise Unsupported('deref of non-pointer')
        return p

    def addr(self, st, lv, fr, line, decay=False):
        k = lv[0]
        if k == 'lvar':
            key = fr.prefix + lv[1]
            p = st.vars.get(key)
            if p is None:
                raise Unsupported('address of undeclared ' + lv[1])
            return p
        if k == 'deref':
            return self.lvptr(st, lv, fr, line)
        if k == 'gvar':
            return self.globaladdr(st, lv, fr)
        if k == 'field':
            p = self.ev(st, lv[1], fr, line)
            T = lv[4]
            if T[0] in ('arr', 'struct'):
                self.access(st, p, 'field ' + lv[3], line)
                return self.subobj(st, p, self.canon(lv[2]), lv[3], T)
            raise Unsupported('address of scalar field ' + lv[3])
        if k == 'felt':
            raise Unsupported('address of array field element')
        if k == 'strlv':
            return self.literal(st, lv[1])
        raise Unsupported('addr ' + k)

    def globaladdr(self, st, lv, fr):
        name, T = lv[1], lv[2]
        gid = lv[3]
        key = (fr.F.unit.path, gid)
        if key not in self.globobj:
            o = -(100000 + 1000 * len(self.globobj))
            self.globobj[key] = o
            node = fr.F.unit.globals_by_id.get(gid)
            self._global_axioms(fr.F.unit, node, o, T)
        return P(self.globobj[key], 0)

    def _global_axioms(self, unit, node, o, T):
        """contents of constant tables (string/uint8 tables, arrays of structs)"""
        q = node['type']['qualType'] if node else ''
        n = T[2] if T[0] == 'arr' else 1
        et = T[1] if T[0] == 'arr' else T
        self.axioms.append(z3.Const('nxt0', I) > 0)
        if et[0] != 'struct':
            self.axioms.append(z3.Select(z3.Const('SIZE!0', A1), o) == n)
            self.axioms.append(z3.Select(z3.Const('LIVE!0', AB), o))
        if node is None or 'const' not in q:
            return
        init = [c for c in node.get('inner', []) if c.get('kind', '').endswith(('Expr', 'Literal', 'Cast')) or c.get('kind') in ('InitListExpr', 'ImplicitCastExpr', 'StringLiteral')]
        if not init:
            return
        e = init[0]
        if T[0] == 'arr' and et[0] == 'int' and e['kind'] == 'InitListExpr':
            items = e.get('inner', [])
            a = z3.Select(z3.Const(('M8' if et[1] == 8 else 'I%d' % et[1]) + '!0', A2), o)
            vals = []
            for i, x in enumerate(items):
                v = self._constint(x, unit)
                if v is None:
                    raise Unsupported('table initialiser')
                vals.append(v - 256 if et[1] == 8 and v > 127 else v)
            if len(vals) <= 16:
                for i, v in enumerate(vals):
                    self.axioms.append(z3.Select(a, i) == v)
            else:       # run-length: one fact per run of equal entries
                k = z3.Int('k')
                runs, i = [], 0
                while i < len(vals):
                    j = i
                    while j < len(vals) and vals[j] == vals[i]:
                        j += 1
                    runs.append(z3.Implies(z3.And(k >= i, k < j) if j > i + 1 else k == i, z3.Select(a, k) == vals[i]))
                    i = j
                self.axioms.append(z3.ForAll([k], z3.And(*runs), patterns=[z3.Select(a, k)]))
            return
        if T[0] == 'arr' and et[0] == 'struct' and e['kind'] == 'InitListExpr':
            recs = unit.records.get(et[1]) or []
            k = z3.Int('k')
            inr = z3.And(k >= o, k < o + len(e.get('inner', [])))
            for a, v in ((z3.Const('SIZE!0', A1), 1), (z3.Const('LIVE!0', AB), True)):
                self.axioms.append(z3.ForAll([k], z3.Implies(inr, z3.Select(a, k) == v), patterns=[z3.Select(a, k)]))
            for j, (fname, fd) in enumerate(recs):      # every row's text is NULL or a literal
                if node_type(fd, unit)[0] == 'ptr' and all(len(r.get('inner', [])) > j and (self._strlit(r['inner'][j]) is not None or self._isnull(r['inner'][j])) for r in e.get('inner', [])):
                    base = self.fieldmap(self.canon(et[1]), fname)
                    po, pf = z3.Select(z3.Const(base + '.o!0', A1), k), z3.Select(z3.Const(base + '.f!0', A1), k)
                    a = z3.Select(z3.Const('M8!0', A2), po)
                    n_ = self.slen_f()(a, 0)
                    self.axioms.append(z3.ForAll([k], z3.Implies(inr, z3.And(pf == 0, z3.Or(po == 0, z3.And(po < 0, z3.Select(z3.Const('LIVE!0', AB), po), n_ >= 0, n_ < z3.Select(z3.Const('SIZE!0', A1), po), z3.Select(a, n_) == 0)))), patterns=[po]))
            for i, row in enumerate(e.get('inner', [])):
                oi = o - i if False else o + i
                for (fname, fd), x in zip(recs, row.get('inner', [])):
                    ft = node_type(fd, unit)
                    base = self.fieldmap(self.canon(et[1]), fname)
                    if ft[0] == 'ptr':
                        s = self._strlit(x)
                        if s is None:
                            p = P(0, 0) if self._isnull(x) else None
                            if p is None:
                                continue
                        else:
                            p = self.literal(None, s)
                        self.axioms.append(z3.Select(z3.Const(base + '.o!0', A1), oi) == p.o)
                        self.axioms.append(z3.Select(z3.Const(base + '.f!0', A1), oi) == p.f)
                    else:
                        v = self._constint(x, unit)
                        if v is not None:
                            self.axioms.append(z3.Select(z3.Const(base + '!0', A1), oi) == v)
            return
        if T[0] == 'arr' and et[0] == 'ptr' and e['kind'] == 'InitListExpr':
            for i, x in enumerate(e.get('inner', [])):
                s = self._strlit(x)
                p = self.literal(None, s) if s is not None else (P(0, 0) if self._isnull(x) else None)
                if p is None:
                    continue
                self.axioms.append(z3.Select(z3.Select(z3.Const('P.o!0', A2), o), i) == p.o)
                self.axioms.append(z3.Select(z3.Select(z3.Const('P.f!0', A2), o), i) == p.f)

    def _constint(self, n, unit):
        k = n.get('kind')
        if k in ('IntegerLiteral', 'CharacterLiteral'):
            return int(n['value'])
        if k == 'ConstantExpr' and 'value' in n:
            return int(n['value'])
        if k == 'DeclRefExpr' and n['referencedDecl']['kind'] == 'EnumConstantDecl':
            return unit.enumconst[n['referencedDecl']['name']]
        if k in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr'):
            return self._constint(n['inner'][0], unit)
        if k == 'UnaryOperator' and n['opcode'] == '-':
            v = self._constint(n['inner'][0], unit)
            return -v if v is not None else None
        return None

    def _strlit(self, n):
        while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr'):
            n = n['inner'][0]
        return CFG.decode_str(n) if n.get('kind') == 'StringLiteral' else None

    def _isnull(self, n):
        while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr'):
            n = n['inner'][0]
        return (n.get('kind') == 'IntegerLiteral' and int(n['value']) == 0) or n.get('kind') == 'ImplicitValueInitExpr'

    def load(self, st, lv, T, fr, line):
        k = lv[0]
        if k == 'lvar':
            return self.rdvar(st, lv[1], fr, line)
        if k == 'deref':
            p = self.lvptr(st, lv, fr, line)
            self.access(st, p, 'read', line)
            return self.raw_load(st, p, T)
        if k == 'field':
            p = self.ev(st, lv[1], fr, line)
            self.fieldaccess(st, p, 'read field ' + lv[3], line)
            return self.raw_field(st, p, lv[2], lv[3], lv[4])
        if k == 'felt':
            p = self.ev(st, lv[1], fr, line)
            i = self.ev(st, lv[4], fr, line)
            self.fieldaccess(st, p, 'read field ' + lv[3], line)
            FT = self.fieldtype_in(fr.F.unit, lv[2], lv[3])
            self.prove(st, And(ge(i, 0), lt(i, FT[2])), 'memory', 'index of ' + lv[3], line)
            return self.felt_load(st, p, lv[2], lv[3], i, T)
        if k == 'gvar':
            p = self.globaladdr(st, lv, fr)
            if T[0] in ('int', 'bool', 'ptr'):
                return self.raw_load(st, p, T)
            raise Unsupported('global load')
        raise Unsupported('load ' + k)

    def fieldtype_in(self, unit, s, f):
        old = self.curunit
        self.curunit = unit
        try:
            return self.fieldtype(s, f)
        finally:
            self.curunit = old

    def felt_load(self, st, p, s, f, i, T):
        base = 'SE.' + self.canon(s) + '.' + f
        if T[0] == 'ptr':
            return self.wfptr(st, P(self.sel2(self.gm(st, base + '.o'), p.o, i), self.sel2(self.gm(st, base + '.f'), p.o, i)))
        return self.convert_loaded(st, self.sel2(self.gm(st, base), p.o, i), T)

    def felt_store(self, st, p, s, f, i, v, T):
        base = 'SE.' + self.canon(s) + '.' + f
        parts = ((base + '.o', v.o), (base + '.f', v.f)) if T[0] == 'ptr' else ((base, v),)
        for k, x in parts:
            mm = self.gm(st, k)
            st.maps[k] = z3.Store(mm, zi(p.o), z3.Store(z3.Select(mm, zi(p.o)), zi(i), zi(x)))

    def fieldaccess(self, st, p, what, line):
        if isinstance(p, Opaque):
            raise Unsupported('opaque deref')
        o = add(p.o, p.f)
        lv = z3.Select(self.gm(st, 'LIVE'), zi(o))
        self.prove(st, And(ne0(p.o), lv), 'memory', what, line)

    def store(self, st, lv, v, fr, line):
        k = lv[0]
        if k in ('deref', 'field', 'felt'):
            FT = {'deref': lambda: lv[2], 'field': lambda: lv[4], 'felt': lambda: lv[5]}[k]()
            v = self.recbase(st, v, FT, line)
        if k == 'lvar':
            name, T = lv[1], lv[2]
            key = fr.prefix + name
            if name in fr.F.memlocals:
                p = st.vars[key]
                if T[0] in ('struct', 'arr'):
                    raise Unsupported('aggregate assign')
                self.raw_store(st, p, self.tobool_if(st, v, T), T)
                return
            st.vars[key] = self.norm(self.tobool_if(st, v, T))
            return
        if k == 'deref':
            p = self.lvptr(st, lv, fr, line)
            T = lv[2]
            self.access(st, p, 'write', line)
            m = self.elemmap(T)
            self.modset_ok(st, m, p.o, line, fr)
            self.raw_store(st, p, v, T)
            return
        if k == 'field':
            p = self.ev(st, lv[1], fr, line)
            self.fieldaccess(st, p, 'write field ' + lv[3], line)
            base = self.fieldmap(self.canon(lv[2]), lv[3])
            self.modset_ok(st, base, add(p.o, p.f), line, fr)
            self.raw_field_store(st, p, lv[2], lv[3], v, lv[4], line)
            return
        if k == 'felt':
            p = self.ev(st, lv[1], fr, line)
            i = self.ev(st, lv[4], fr, line)
            self.fieldaccess(st, p, 'write field ' + lv[3], line)
            FT = self.fieldtype_in(fr.F.unit, lv[2], lv[3])
            self.prove(st, And(ge(i, 0), lt(i, FT[2])), 'memory', 'index of ' + lv[3], line)
            self.modset_ok(st, 'SE.' + self.canon(lv[2]) + '.' + lv[3], p.o, line, fr)
            self.felt_store(st, p, lv[2], lv[3], i, v, lv[5])
            return
        if k == 'gvar':
            raise Unsupported('write to global ' + lv[1])
        raise Unsupported('store ' + k)

    def tobool_if(self, st, v, T):
        if isinstance(v, FN):
            return v
        return v

    def cast(self, st, v, F, T, line):
        if isinstance(v, (Opaque, FN)):
            return v
        if T[0] == 'void':
            return 0
        if T[0] == 'ptr':
            if isinstance(v, P):
                a = F[1] if F[0] in ('ptr', 'arr') else VOID
                b = T[1]
                if a[0] == 'void' and b[0] == 'struct':
                    if not (isinstance(v.f, int) and v.f == 0):
                        self.assumed_casts = getattr(self, 'assumed_casts', 0) + 1
                        st.assume(v.f == 0)
                    return P(v.o, 0)
                if a[0] == 'void' or b[0] == 'void' or a == b:
                    return v
                if a[0] == 'int' and b[0] == 'int' and a[1] == b[1]:
                    return v
                if a[0] == 'struct' and b[0] == 'struct':
                    return v
                if a[0] == 'ptr' and b[0] == 'ptr':
                    return v
                if a[0] == 'func' or b[0] == 'func':
                    return v
                raise Unsupported('pointer cast %r -> %r' % (F, T))
            raise Unsupported('int to pointer')
        if isinstance(v, P):
            raise Unsupported('pointer to int')
        if T[0] == 'bool':
            return self.b2i(self.truth(st, v))
        if T[0] == 'float':
            return Opaque('float')
        return self.wrap(st, v, T, line, 'cast', cast=True, F=F)

    def wrap(self, st, v, T, line, what, cast=False, F=None):
        if T[0] == 'bool':
            return self.b2i(self.truth(st, v))
        if T[0] != 'int':
            return v
        lo, hi = rng(T)
        if isinstance(v, int):
            if lo <= v <= hi:
                return v
            if T[2] and not cast:
                self.prove(st, False, 'overflow', what, line)
            return CFG.wrap_const(v, T)
        if cast and F is not None and F[0] == 'int':
            flo, fhi = rng(F)
            if lo <= flo and fhi <= hi:
                return v
        if cast and F is not None and F[0] == 'bool':
            return v
        inrange = z3.And(v >= lo, v <= hi)
        if T[2] and not cast:
            self.prove(st, inrange, 'overflow', 'no signed overflow in ' + what, line)
            return v
        if self.entails(st, inrange):
            return v
        m = hi - lo + 1
        if T[2]:
            return z3.simplify((v - lo) % m + lo)
        # single wrap is enough for add/sub of in-range operands
        if what in ('+', '-'):
            return z3.If(v < 0, v + m, z3.If(v > hi, v - m, v))
        return v % m

    def binop(self, st, op, ea, eb, T, fr, line):
        a = self.ev(st, ea, fr, line)
        b = self.ev(st, eb, fr, line)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if T[0] == 'float':
                return Opaque('float')
            return self.havoc_val(st, T, 'fcmp') if T[0] != 'int' or op not in ('<', '>', '<=', '>=', '==', '!=') else self.b2i(fresh('fc', B))
        Ta, Tb = ea[-1], eb[-1]
        if isinstance(a, tuple) or isinstance(b, tuple):   # symbolic sizeof(struct)
            if op == '*':
                n, s = (a, b) if isinstance(b, tuple) else (b, a)
                return ('nsizeof', n, s[1]) if not isinstance(n, tuple) else None
            raise Unsupported('sizeof arithmetic')
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if isinstance(a, FN) or isinstance(b, FN):
                raise Unsupported('function pointer compare')
            if isinstance(a, P) or isinstance(b, P):
                if not isinstance(a, P):
                    a = P(0, 0)
                if not isinstance(b, P):
                    b = P(0, 0)
                if op in ('==', '!='):
                    if (a.o == 0 if isinstance(a.o, int) else False):
                        r = Eq(b.o, 0)
                    elif (b.o == 0 if isinstance(b.o, int) else False):
                        r = Eq(a.o, 0)
                    else:
                        r = Eq(a, b)
                    return self.b2i(r if op == '==' else Not(r))
                self.prove(st, And(Eq(a.o, b.o), ne0(a.o)), 'memory', 'pointer comparison within one object', line)
                return self.b2i(_cmp(op, a.f, b.f))
            if op == '==':
                return self.b2i(Eq(a, b))
            if op == '!=':
                return self.b2i(Not(Eq(a, b)))
            return self.b2i(_cmp(op, a, b))
        if isinstance(a, P) and isinstance(b, P) and op == '-':
            self.prove(st, And(Eq(a.o, b.o), ne0(a.o)), 'memory', 'pointer difference within one object', line)
            return sub_(a.f, b.f)
        if isinstance(a, P) or isinstance(b, P):
            if isinstance(b, P):
                a, b = b, a
            d = b if op == '+' else sub_(0, b)
            # size_t arithmetic used as an index that is negative after wrapping is not supported: treat
            # the offset as the mathematical value (in-range obligations follow at the access)
            if not (isinstance(d, int) and d == 0):
                sz = z3.Select(self.gm(st, 'SIZE'), zi(a.o))
                et = ea[-1][1] if ea[-1][0] == 'ptr' else None
                if et is None or et[0] != 'struct':
                    self.prove(st, And(ne0(a.o), ge(add(a.f, d), 0), le(add(a.f, d), sz)), 'memory',
                               'pointer arithmetic stays in object', line)
            return P(a.o, add(a.f, d))
        if op == '+':
            return self.wrap(st, add(a, b), T, line, '+')
        if op == '-':
            return self.wrap(st, sub_(a, b), T, line, '-')
        if op == '*':
            r = a * b
            return self.wrap(st, r, T, line, '*')
        if op in ('/', '%'):
            self.prove(st, Not(Eq(b, 0)), 'arith', 'division by zero', line)
            if isinstance(a, int) and isinstance(b, int) and b != 0:
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                return q if op == '/' else a - q * b
            a, b = zi(a), zi(b)
            if T[0] == 'int' and not T[2]:
                return a / b if op == '/' else a % b
            if self.entails(st, z3.And(a >= 0, b > 0)):
                return a / b if op == '/' else a % b
            q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
            return q if op == '/' else a - q * b
        if op in ('&', '|', '^', '<<', '>>'):
            return self.bitop(st, op, a, b, T, line)
        raise Unsupported('binop ' + op)

    def bitop(self, st, op, a, b, T, line):
        w = T[1]
        if isinstance(a, int) and isinstance(b, int):
            m = (1 << w) - 1
            r = {'&': a & b, '|': a | b, '^': a ^ b, '<<': (a << b) if 0 <= b < w else 0, '>>': a >> b if 0 <= b < w else 0}[op]
            return CFG.wrap_const(r, T)
        if op in ('<<', '>>') and isinstance(b, int):
            if op == '<<':
                r = a * (1 << b)
                if T[2]:
                    self.prove(st, ge(a, 0), 'arith', 'shift of negative value', line)
                return self.wrap(st, r, T, line, '<<')
            return zi(a) / (1 << b)
        if op == '&' and isinstance(b, int) and b >= 0 and ((b + 1) & b) == 0:
            return zi(a) % (b + 1)
        if op == '&' and isinstance(a, int) and a >= 0 and ((a + 1) & a) == 0:
            return zi(b) % (a + 1)
        if op in ('<<', '>>'):
            self.prove(st, And(ge(b, 0), lt(b, w)), 'arith', 'shift amount in range', line)
        if op == '&' and (isinstance(a, int) or isinstance(b, int)):
            # masking with another constant: an uninterpreted function of the
            # operand and the mask, bounded by the mask (bit-vector theory is not
            # needed for any obligation and slows every query down)
            x, k = (b, a) if isinstance(a, int) else (a, b)
            if k >= 0:
                f = z3.Function('bitand%d' % w, z3.IntSort(), z3.IntSort(), z3.IntSort())
                r = f(zi(x), z3.IntVal(k))
                st.assume(z3.And(r >= 0, r <= k))
                return r
        x, y = z3.Int2BV(zi(a), w), z3.Int2BV(zi(b), w)
        r = {'&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y, '<<': lambda: x << y,
             '>>': lambda: (x >> y) if T[2] else z3.LShR(x, y)}[op]()
        return z3.BV2Int(r, is_signed=bool(T[2]))

    # ------------------------------------------------------------ execution
    def lowerfn(self, unit, fn):
        key = (unit.path, fn['name'])
        if key not in self.lowered:
            rename.undo(unit.path, fn)
            self.lowered[key] = CFG.lower(unit, fn)
        return self.lowered[key]

    def run(self, fr, st):
        """execute a CFG from its entry; returns [(state, retval)]"""
        F = fr.F
        pend = {b: [] for b in F.rpo}
        pend[0].append(st)
        outs = []
        contract = fr.contract
        maxst = contract.maxstates if contract is not None else 24
        headinfo = {}
        for b in F.rpo:
            states = pend.pop(b)
            if not states:
                continue
            blk = F.blocks[b]
            if b in F.loops:
                if len(states) > 1:
                    states = [self.merge(states, fr)]
                states = self.loop_head(fr, b, states[0], headinfo)
            elif len(states) > 1 and getattr(contract, 'joins', None) is not None and all(contract.joins(Ctx(self, s, fr.pre, fr.args, frame=fr)) is not None for s in states):
                states = [self.meet(states, fr, contract.joins)]
            elif len(states) > maxst:
                states = [self.merge(states, fr)]
            for s in states:
                self.run_block(fr, b, s, pend, outs, headinfo)
        return outs

    def run_block(self, fr, b, s, pend, outs, headinfo):
        F = fr.F
        blk = F.blocks[b]
        cur = [s]
        for ins in blk.instrs:
            nxt = []
            for x in cur:
                nxt.extend(self.instr(fr, x, ins))
            cur = nxt
            if not cur:
                return
        t = blk.term
        for x in cur:
            if t[0] == 'goto':
                self.flow(fr, b, t[1], x, pend, headinfo)
            elif t[0] == 'br':
                c = self.cond(x, t[1], fr, t[4])
                if isz(c):
                    c = z3.simplify(c)
                    if z3.is_true(c):
                        c = True
                    elif z3.is_false(c):
                        c = False
                if c is True:
                    self.flow(fr, b, t[2], x, pend, headinfo)
                elif c is False:
                    self.flow(fr, b, t[3], x, pend, headinfo)
                else:
                    y = x.copy()
                    if self.feasible(x, c):
                        x.assume(c)
                        x.trace = x.trace + ((t[4], True),)
                        x.brs = x.brs + (c,)
                        self.flow(fr, b, t[2], x, pend, headinfo)
                    if self.feasible(y, Not(c)):
                        y.assume(Not(c))
                        y.trace = y.trace + ((t[4], False),)
                        y.brs = y.brs + (Not(c),)
                        self.flow(fr, b, t[3], y, pend, headinfo)
            elif t[0] == 'ret':
                v = None
                if t[1] is not None:
                    v = self.ev(x, t[1], fr, t[2])
                outs.append((x, v, t[2]))
            elif t[0] == 'stop':
                pass

    def flow(self, fr, src, dst, st, pend, headinfo):
        if (src, dst) in fr.F.back:
            self.back_edge(fr, dst, st, headinfo)
        else:
            pend[dst].append(st)

    # ---- merging
    def meet(self, states, fr, cands):
        """join that keeps only the common history, the values that agree and the candidate facts entailed on every way in"""
        keep = None
        for s in states:
            cx = Ctx(self, s, fr.pre, fr.args, frame=fr)
            ok = set()
            for l, f in cands(cx):
                if f is True or (f is not False and (keep is None or l in keep) and self.entails(s, f, self.timeout_ms // 2)):
                    ok.add(l)
            keep = ok if keep is None else keep & ok
        m = self.merge(states, fr, forget=True)
        ways = [And(*[b for b in s.brs if not (isz(b) and b.get_id() in m.facts)]) for s in states]
        m.assume(Or(*ways))
        m.brs = tuple(b for b in states[0].brs if isz(b) and b.get_id() in m.facts)
        cx = Ctx(self, m, fr.pre, fr.args, frame=fr)
        for l, f in cands(cx):
            if l in keep and f is not True and f is not False:
                m.assume(f)
        self.kinds['join'] = self.kinds.get('join', 0) + len(keep)
        return m

    def merge(self, states, fr, forget=False):
        states = [s for s in states if self.feasible(s)]
        if not states:
            s = State()
            s.nxt = z3.Int('nxt_dead')
            s.pc = [z3.BoolVal(False)]
            return s
        if len(states) == 1:
            return states[0]
        n = min(len(s.pc) for s in states)
        k = 0
        while k < n and all(s.pc[k].eq(states[0].pc[k]) for s in states[1:]):
            k += 1
        m = State()
        m.pc = list(states[0].pc[:k])
        m.facts = {f.get_id() for f in m.pc}
        guards = [fresh('g', B) for _ in states]
        if not forget:
            m.assume(z3.Or(*guards))
        defs = [[] for _ in states]

        def join(vals, sortname):
            if all(same(v, vals[0]) for v in vals[1:]):
                return vals[0]
            if any(v is None for v in vals):
                return None
            if any(isinstance(v, (Opaque, FN, tuple)) for v in vals):
                return Opaque('merged')
            if any(isinstance(v, P) for v in vals):
                vals = [v if isinstance(v, P) else P(0, 0) for v in vals]
                return P(join([v.o for v in vals], sortname + '.o'), join([v.f for v in vals], sortname + '.f'))
            z = [zi(v) for v in vals]
            x = fresh(sortname, z[0].sort())
            for i, v in enumerate(z):
                defs[i].append(x == v)
            return x
        keys = set(states[0].vars)
        for s in states[1:]:
            keys &= set(s.vars)
        for key in sorted(keys):
            v = join([s.vars[key] for s in states], key)
            if v is not None:
                m.vars[key] = v
        for name in sorted(set().union(*[set(s.maps) for s in states])):
            m.maps[name] = join([self.gm(s, name) for s in states], name)
        for name in sorted(set().union(*[set(s.ghost) for s in states])):
            m.ghost[name] = join([s.ghost[name] for s in states], name)
        m.nxt = join([s.nxt for s in states], 'nxt')
        for g, s, d in zip(guards, states, defs) if not forget else ():
            rest = s.pc[k:] + d
            if rest:
                m.assume(z3.Implies(g, z3.And(*rest) if len(rest) > 1 else rest[0]))
        m.trace = states[0].trace
        return m

    # ---- loops
    def loop_spec(self, fr, h):
        n = fr.F.loopnum[h]
        if fr.contract is not None:
            L = fr.contract.loops
            if callable(L):
                return L(n)
            if n in L:
                return L[n]
            if '*' in L:
                return L['*']
            return None
        c = self.contracts.get('inline:' + fr.F.name)
        if c is not None:
            return c.loops.get(n)
        return None

    def modified(self, fr, h):
        """variables and maps possibly modified by the loop with head h (syntactic, transitive)"""
        key = ('mod', fr.F.unit.path, fr.F.name, h)
        if key in self._fc:
            return self._fc[key]
        vs, ms, gh = set(), set(), set()
        for b in fr.F.loops[h]:
            for i in fr.F.blocks[b].instrs:
                self.mod_instr(fr.F, i, vs, ms, gh, set())
        self._fc[key] = (vs, ms, gh)
        return vs, ms, gh

    def mod_lv(self, F, lv, vs, ms):
        k = lv[0]
        if k == 'lvar':
            if lv[1] in F.memlocals:
                for m in self.mapsof(self.elemmap(lv[2])):
                    ms.add(m)
            else:
                vs.add(lv[1])
        elif k == 'deref':
            for m in self.mapsof(self.elemmap(lv[2])):
                ms.add(m)
        elif k == 'field':
            b = self.fieldmap(self.canon(lv[2]), lv[3])
            if lv[4][0] == 'ptr':
                ms.add(b + '.o'); ms.add(b + '.f')
            else:
                ms.add(b)
        elif k == 'felt':
            b = 'SE.' + self.canon(lv[2]) + '.' + lv[3]
            if lv[5][0] == 'ptr':
                ms.add(b + '.o'); ms.add(b + '.f')
            else:
                ms.add(b)

    def mapsof(self, m):
        return ('P.o', 'P.f') if m == 'P' else (m,)

    def mod_instr(self, F, i, vs, ms, gh, seen):
        if i[0] == 'assign':
            self.mod_lv(F, i[1], vs, ms)
        elif i[0] == 'decl':
            vs.add(i[1])
            if i[1] in F.memlocals:
                ms.update(('LIVE', 'SIZE', '$nxt'))
        elif i[0] == 'call':
            if i[1]:
                vs.add(i[1])
            self.mod_call(F, i[2], ms, gh, seen, i[3])

    def mod_call(self, F, name, ms, gh, seen, args=()):
        if name is None:
            fpm = getattr(self, 'fnptr_mods', None)
            ms.update(fpm or ())
            return
        c = self.contracts.get(name)
        if c is not None:
            mm = c.modifies_maps if hasattr(c, 'modifies_maps') else None
            for m in (getattr(c, 'maps', None) or ()):
                ms.update(self.expandmap(m))
            if c.allocates:
                ms.add('$nxt')
            gh.update(c.ghosts)
            return
        b = self.builtins.get(name)
        if b is not None:
            for m in getattr(b, 'maps', ()):
                ms.update(self.expandmap(m))
            gh.update(getattr(b, 'ghosts', ()))
            return
        r = self.prog.find(name, F.unit)
        if r is None:
            raise Unsupported('call to unknown function %s' % name)
        u, fn = r
        if (u.path, name) in seen:
            return
        seen.add((u.path, name))
        G = self.lowerfn(u, fn)
        for b in G.rpo:
            for i in G.blocks[b].instrs:
                self.mod_instr(G, i, set(), ms, gh, seen)
        ms.update(('$nxt',)) if any(True for _ in G.memlocals) else None

    def expandmap(self, m):
        """map name in a modifies clause -> concrete z3 maps"""
        if m == 'P':
            return ('P.o', 'P.f')
        if m.startswith('S.') or m.startswith('SE.'):
            if m.endswith('*'):
                return (m[:-1] + '.o', m[:-1] + '.f')
        return (m,)

    def loop_ctx(self, fr, st, info=None):
        return Ctx(self, st, fr.pre, fr.args, frame=fr, loop_pre=info['pre'] if info else st)

    def loop_head(self, fr, h, st, headinfo):
        spec = self.loop_spec(fr, h)
        if not self.feasible(st):
            return []
        if spec is not None and spec.unroll:
            raise Unsupported('unroll')
        n = fr.F.loopnum[h]
        tag = '%sloop%d' % ('' if fr.prefix == '' else fr.F.name + '.', n)
        self.name_maps(st)
        pre = st.copy()
        info = {'pre': pre, 'spec': spec, 'tag': tag}
        cands = self.candidates(fr, h, st, info)
        info['cands'] = cands
        if spec is not None and spec.inv is not None:
            c = self.loop_ctx(fr, st, info)
            items = labelled(spec.inv(c), 'inv')
            self.prove_all(st, [(tag + '.' + l, f) for l, f in items], 'inv-init', fr.F.blocks[h].loop)
        vs, ms, gh = self.modified(fr, h)
        s = st.copy()
        havocked = {}
        for v in sorted(vs):
            key = fr.prefix + v
            if v in fr.F.memlocals:
                # declared inside the loop: a new object each iteration
                continue
            if key in s.vars:
                s.vars[key] = self.havoc_val(s, fr.F.locals[v], v)
            # inlined temporaries are recreated on use
        nx_old = s.nxt
        if '$nxt' in ms or 'LIVE' in ms:
            nn = fresh('nxt')
            s.assume(nn >= zi(nx_old))
            s.nxt = nn
        o = z3.Int('o')
        entry = self.entry_state
        for name in sorted(ms):
            if name == '$nxt':
                continue
            srt = mapsort(name)
            old = self.gm(s, name)
            new = fresh(name, srt)
            s.maps[name] = new
            if name == 'SIZE':
                self.size_ax(new)
            base = name[:-2] if name.endswith(('.o', '.f')) else name
            if name in ('LIVE', 'SIZE'):
                # only fresh objects change SIZE; LIVE changes are limited to the declared frees
                if name == 'SIZE':
                    s.assume(z3.ForAll([o], z3.Implies(o < zi(nx_old), z3.Select(new, o) == z3.Select(old, o)), patterns=[z3.Select(new, o)]))
                else:
                    fs = self.loop_frees(fr, spec, pre, info)
                    if fs == 'ANY':
                        nx0 = entry.nxt
                        allowed = (self.target_mod or {}).get('LIVE', ())
                        if allowed != 'ANY':
                            s.assume(z3.ForAll([o], z3.Implies(z3.And(o < zi(nx0), *outside(allowed, o)), z3.Select(new, o) == z3.Select(entry.maps.get('LIVE', z3.Const('LIVE!0', AB)), o)), patterns=[z3.Select(new, o)]))
                    else:
                        s.assume(z3.ForAll([o], z3.Implies(z3.And(o < zi(nx_old), *outside(fs, o)), z3.Select(new, o) == z3.Select(old, o)), patterns=[z3.Select(new, o)]))
                continue
            lm = None
            if spec is not None and spec.modifies is not None:
                lm = spec.modifies(self.loop_ctx(fr, pre, info)).get(base)
                info.setdefault('lmods', {})[base] = lm if lm is not None else []
                lm = lm if lm is not None else []
            if lm is not None and lm != 'ANY':
                s.assume(z3.ForAll([o], z3.Implies(z3.And(o < zi(nx_old), *outside(lm, o)), z3.Select(new, o) == z3.Select(old, o)), patterns=[z3.Select(new, o)]))
            else:
                allowed = (self.target_mod or {}).get(base, ())
                if allowed != 'ANY':
                    e0 = self.gm(entry, name)
                    s.assume(z3.ForAll([o], z3.Implies(z3.And(o < zi(entry.nxt), *outside(allowed, o)), z3.Select(new, o) == z3.Select(e0, o)), patterns=[z3.Select(new, o)]))
        if 'LIVE' in ms:        # automatic objects stay live (free never releases them)
            for key in sorted(self.memkeys):
                v = s.vars.get(key)
                if isinstance(v, P) and not (key.startswith(fr.prefix) and key[len(fr.prefix):] in vs):
                    s.assume(z3.Select(self.gm(s, 'LIVE'), zi(v.o)))
        if 'TOWN' in ms:
            self.unowned(s)
        for g in sorted(set(gh) | set(spec.ghosts if spec is not None else ())):
            if g in s.ghost:
                s.ghost[g] = fresh('G.' + g, zi(s.ghost[g]).sort())
        info['start'] = s.copy()
        if spec is not None and spec.inv is not None:
            c = self.loop_ctx(fr, s, info)
            for l, f in labelled(spec.inv(c), 'inv'):
                s.assume(f)
        for l, fnc in cands:
            s.assume(fnc(s))
        if spec is not None and spec.facts is not None:
            for f in spec.facts(self.loop_ctx(fr, s, info)):
                s.assume(f)
        info['start'] = s.copy()
        if spec is not None and spec.decreases is not None:
            info['measure'] = spec.decreases(self.loop_ctx(fr, s, info))
        headinfo[h] = info
        if self.record and fr.prefix == '':
            ok = self.feasible(s)
            self.covers[(fr.F.name, tag)] = self.covers.get((fr.F.name, tag), False) or ok
        return [s]

    def loop_frees(self, fr, spec, pre, info):
        if spec is not None and spec.modifies is not None:
            m = spec.modifies(self.loop_ctx(fr, pre, info)).get('LIVE')
            r = m if m is not None else []
            info.setdefault('lmods', {})['LIVE'] = r
            return r
        return 'ANY'

    def candidates(self, fr, h, st, info):
        """automatic candidate invariants (Houdini: unproved ones are dropped and the run repeated)"""
        key0 = (fr.prefix, fr.F.name, fr.F.loopnum[h])
        vs, ms, gh = self.modified(fr, h)
        ints = [v for v in sorted(vs) if fr.F.locals.get(v, VOID)[0] == 'int' and v not in fr.F.memlocals and not v.startswith('$') and (fr.prefix + v) in st.vars]
        ptrs = [v for v in sorted(vs) if fr.F.locals.get(v, VOID)[0] == 'ptr' and v not in fr.F.memlocals and not v.startswith('$') and (fr.prefix + v) in st.vars]
        out = []

        def add_c(label, f, init_ok=True):
            k = key0 + (label,)
            if k in self.dropped:
                return
            r = f(st)
            if r is None:
                return
            if not self.entails(st, r):
                self.dropped.add(k)
                return
            out.append((k, f))
        if 'TOWN' in ms:
            for key in sorted(self.memkeys):
                add_c('&%s unowned' % key, lambda s, key=key: z3.Select(self.gm(s, 'TOWN'), zi(s.vars[key].o)) == 0 if isinstance(s.vars.get(key), P) else True)
        if fr.contract is not None and getattr(fr.contract, 'nocand', False):
            return out
        fixed = [v for v, T in fr.F.locals.items() if T[0] == 'int' and T[1] >= 32 and v not in vs and v not in fr.F.memlocals and not v.startswith('$') and isz(st.vars.get(fr.prefix + v))]
        px = fr.prefix
        for v in ints:
            iv = st.vars[px + v]
            add_c('%s>=init' % v, lambda s, v=v, iv=iv: ge(s.vars[px + v], iv))
            for w in fixed:
                add_c('%s<=%s' % (v, w), lambda s, v=v, w=w: le(s.vars[px + v], s.vars[px + w]))
            for w in ints:
                if w != v and fr.F.locals[w] == fr.F.locals[v]:
                    add_c('%s<=%s' % (v, w), lambda s, v=v, w=w: le(s.vars[px + v], s.vars[px + w]) if px + w in s.vars else None)
        for v in ptrs:
            iv = st.vars[px + v]
            if isinstance(iv, P) and fr.F.locals[v][1][0] != 'func':
                add_c('%s same object' % v, lambda s, v=v, iv=iv: Eq(s.vars[px + v].o, iv.o))
                add_c('%s non-null' % v, lambda s, v=v: ne0(s.vars[px + v].o))
                add_c('%s fresh' % v, lambda s, v=v: ge(s.vars[px + v].o, self.entry_state.nxt))
                if fr.F.locals[v][1][0] == 'struct':
                    add_c('%s live' % v, lambda s, v=v: z3.Select(self.gm(s, 'LIVE'), zi(s.vars[px + v].o)))
                    add_c('%s null-or-live' % v, lambda s, v=v: Or(Eq(s.vars[px + v].o, 0), z3.Select(self.gm(s, 'LIVE'), zi(s.vars[px + v].o))))
                    add_c('%s base' % v, lambda s, v=v: Eq(s.vars[px + v].f, 0))
        if self.abstract and 'STRB' in ms:
            strs = [v for v, T in fr.F.locals.items() if T[0] == 'ptr' and T[1][0] == 'struct' and self.canon(T[1][1]) == 'bc_string_t'
                    and v not in fr.F.memlocals and isinstance(st.vars.get(px + v), P)]
            for v in strs:
                def al(s, v=v):
                    p = s.vars.get(px + v)
                    if not isinstance(p, P):
                        return None
                    b = z3.Select(self.gm(s, 'STRB'), zi(p.o))
                    return And(ne0(p.o), Eq(p.f, 0), gt(p.o, 0), z3.Select(self.gm(s, 'LIVE'), zi(p.o)), b > 0, b < zi(s.nxt),
                               z3.Select(self.gm(s, 'LIVE'), b), b != zi(p.o))
                add_c('%s alive' % v, al)
                add_c('%s null or alive' % v, lambda s, v=v, al=al: Or(Eq(s.vars[px + v].o, 0), al(s)) if isinstance(s.vars.get(px + v), P) else None)
                if 'TOWN' in ms:
                    add_c('%s unowned' % v, lambda s, v=v: Or(Eq(s.vars[px + v].o, 0), And(z3.Select(self.gm(s, 'TOWN'), zi(s.vars[px + v].o)) == 0, z3.Select(self.gm(s, 'TOWN'), z3.Select(self.gm(s, 'STRB'), zi(s.vars[px + v].o))) == 0)))
                add_c('%s own' % v, lambda s, v=v: And(ge(s.vars[px + v].o, self.entry_state.nxt), z3.Select(self.gm(s, 'STRB'), zi(s.vars[px + v].o)) >= zi(self.entry_state.nxt)))
                for w in strs:
                    if w < v:
                        add_c('%s/%s disjoint' % (v, w), lambda s, v=v, w=w: And(Not(Eq(s.vars[px + v].o, s.vars[px + w].o)),
                              z3.Select(self.gm(s, 'STRB'), zi(s.vars[px + v].o)) != z3.Select(self.gm(s, 'STRB'), zi(s.vars[px + w].o))))
        return out

    def back_edge(self, fr, h, st, headinfo):
        info = headinfo[h]
        spec = info['spec']
        tag = info['tag']
        if not self.feasible(st):
            return
        self.name_maps(st)
        for v in self.modified(fr, h)[0]:
            T = fr.F.locals.get(v)
            if T is not None and self.isrec(T) and isinstance(st.vars.get(fr.prefix + v), P):
                st.vars[fr.prefix + v] = self.recbase(st, st.vars[fr.prefix + v], T, fr.F.blocks[h].loop)
        for k, f in info['cands']:
            r = f(st)
            if r is None or not self.entails(st, r, self.timeout_ms // 4):
                self.dropped.add(k)
                self.houdini_again = True
        if spec is not None and spec.ghost_step is not None:
            c = self.loop_ctx(fr, st, info)
            c.head = info['start']
            for g, v in spec.ghost_step(c).items():
                x = fresh('G.' + g, v.sort())
                st.assume(x == v)
                st.ghost[g] = x
        if spec is not None and spec.lemmas is not None:
            c = self.loop_ctx(fr, st, info)
            c.head = info['start']
            for f in spec.lemmas(c):
                st.assume(f)
        if spec is not None and spec.asserts is not None:
            c = self.loop_ctx(fr, st, info)
            c.head = info['start']
            for l, f in labelled(spec.asserts(c), 'hint'):
                self.prove(st, f, 'assertion', tag + '.' + l, fr.F.blocks[h].loop)
        if spec is not None and spec.inv is not None:
            c = self.loop_ctx(fr, st, info)
            c.head = info['start']
            items = labelled(spec.inv(c), 'inv')
            self.prove_all(st, [(tag + '.' + l, f) for l, f in items], 'inv-preserved', fr.F.blocks[h].loop)
        for base, objs in (info.get('lmods') or {}).items():
            if objs == 'ANY':
                continue
            k = fresh('lfo')
            guard = z3.And(k < zi(info['pre'].nxt), *outside(objs, k))
            for mm in self.expandmap(base):
                a, b = self.gm(st, mm), self.gm(info['pre'], mm)
                if not a.eq(b):
                    self.prove(st, z3.Implies(guard, z3.Select(a, k) == z3.Select(b, k)), 'frame',
                               '%s.loop writes only declared (%s)' % (tag, base), fr.F.blocks[h].loop)
        if spec is not None and spec.decreases is not None:
            c = self.loop_ctx(fr, st, info)
            m1, m0 = spec.decreases(c), info['measure']
            if isinstance(m1, tuple):
                lex = False
                for i in reversed(range(len(m1))):
                    lex = Or(And(lt(m1[i], m0[i]), ge(m0[i], 0)), And(Eq(m1[i], m0[i]), lex))
                self.prove(st, lex, 'termination', tag + '.decreases', fr.F.blocks[h].loop)
            else:
                self.prove(st, And(lt(m1, m0), ge(m0, 0)), 'termination', tag + '.decreases', fr.F.blocks[h].loop)
            self.terms[tag if fr.prefix else fr.F.name + '.' + tag] = True
        else:
            self.terms.setdefault(tag if fr.prefix else fr.F.name + '.' + tag, False)

    # ---- instructions
    def instr(self, fr, st, ins):
        k = ins[0]
        if k == 'assign':
            lv, e, line = ins[1], ins[2], ins[3]
            v = self.ev(st, e, fr, line)
            if isinstance(v, tuple) and v and v[0] in ('sizeof', 'nsizeof'):
                if lv[0] == 'lvar':
                    st.vars[fr.prefix + lv[1]] = v
                    return [st]
                raise Unsupported('sizeof struct stored')
            self.store(st, lv, v, fr, line)
            return [st]
        if k == 'decl':
            name, T = ins[1], ins[2]
            key = fr.prefix + name
            if name in fr.F.memlocals:
                n = T[2] if T[0] == 'arr' else 1
                if T[0] == 'arr' and T[1][0] == 'arr':
                    raise Unsupported('2-d array')
                st.vars[key] = P(self.newobj(st, n), 0)
                self.memkeys.add(key)
            else:
                st.vars.pop(key, None)
            return [st]
        if k == 'call':
            return self.do_call(fr, st, ins)
        raise Unsupported('instr ' + k)

    def do_call(self, fr, st, ins):
        _, dst, fname, args, T, line, fexpr = ins
        vals = [self.ev(st, a, fr, line) for a in args]
        types = [a[-1] for a in args]
        if fname is None:
            h = getattr(self, 'fnptr_handler', None)
            fv = self.ev(st, fexpr, fr, line)
            if isinstance(fv, FN):
                fname = fv.name
            elif h is not None:
                outs = h(self, fr, st, fv, vals, types, T, line, fexpr)
                return self.finish_call(fr, outs, dst, T)
            else:
                raise Unsupported('call through function pointer')
        outs = self.call(fr, st, fname, vals, types, T, line, args)
        return self.finish_call(fr, outs, dst, T)

    def finish_call(self, fr, outs, dst, T):
        res = []
        for s, v in outs:
            if dst is not None:
                if v is None:
                    v = self.havoc_val(s, T, 'ret')
                s.vars[fr.prefix + dst] = v
            res.append(s)
        return res

    def call(self, fr, st, fname, vals, types, T, line, args=None):
        c = self.contracts.get(fname)
        if c is not None:
            self.calls_used.add(fname)
            return self.apply_contract(fr, st, c, vals, types, T, line, args)
        b = self.builtins.get(fname)
        if b is not None:
            self.calls_used.add(fname)
            return b(self, fr, st, vals, types, T, line, args)
        r = self.prog.find(fname, fr.F.unit)
        if r is None:
            raise Unsupported('call to %s (no contract, no body)' % fname)
        u, fn = r
        return self.inline(fr, st, u, fn, vals, line)

    def inline(self, fr, st, u, fn, vals, line):
        F = self.lowerfn(u, fn)
        if fr.prefix.count('>') > 6:
            raise Unsupported('inlining too deep (recursion?) at %s' % fn['name'])
        self.inlined.add(fn['name'])
        prefix = fr.prefix + fn['name'] + '>'
        nf = Frame(F, prefix, None, pre=fr.pre, args=fr.args)
        nf.args = dict(fr.args)
        for (p, pt), v in zip(F.params, vals):
            if p in F.memlocals:
                o = self.newobj(st, 1)
                self.memkeys.add(prefix + p)
                st.vars[prefix + p] = P(o, 0)
                self.raw_store(st, P(o, 0), v, pt)
            else:
                st.vars[prefix + p] = v
        outs = self.run(nf, st)
        res = []
        for s, v, ln in outs:
            for key in [k for k in s.vars if k.startswith(prefix)]:
                del s.vars[key]
            res.append((s, v))
        if len(res) > 6:
            # keep path count in check: merge states with their return values
            for s, v in res:
                s.vars[prefix + '$ret'] = v if v is not None else 0
            m = self.merge([s for s, _ in res], fr)
            v = m.vars.pop(prefix + '$ret', None)
            return [(m, v)]
        return res

    # ---- contracts at call sites
    def argmap(self, c, vals):
        names = c.params if hasattr(c, 'params') else []
        d = {}
        for i, v in enumerate(vals):
            if i < len(names):
                d[names[i]] = v
            else:
                d['$%d' % i] = v
        return d

    def apply_contract(self, fr, st, c, vals, types, T, line, args):
        vals = [self.recbase(st, v, t, line) if isinstance(v, P) else v for v, t in zip(vals, types)] + list(vals[len(types):])
        amap = self.argmap(c, vals)
        self.name_maps(st)
        pre = st.copy()
        cx = Ctx(self, st, pre, amap)
        cx.vals, cx.types, cx.argexprs, cx.line, cx.caller = vals, types, args, line, fr
        if c.requires is not None:
            items = labelled(c.requires(cx), 'pre')
            self.prove_all(st, [('%s.%s' % (c.name, l), f) for l, f in items], 'precondition', line)
        if c.noreturn:
            return []
        mods = c.modifies(cx) if c.modifies is not None else {}
        for m in mods:
            if m not in c.maps:
                raise Unsupported('contract of %s: %s not in maps' % (c.name, m))
        nx_old = st.nxt
        if c.allocates:
            nn = fresh('nxt')
            st.assume(nn >= zi(nx_old))
            st.nxt = nn
        o = z3.Int('o')
        for m, objs in mods.items():
            if objs != 'ANY':
                for x in objs:
                    if callable(x):
                        if self.target_mod is not None and self.target_mod.get(m, ()) != 'ANY':
                            k = fresh('mo')
                            self.prove(st, z3.Implies(x(k), zi(Or(ge(k, self.entry_state.nxt), *within(self.target_mod.get(m, ()), k)))), 'frame', 'callee %s writes only declared (%s)' % (c.name, m), line)
                        continue
                    self.modset_ok(st, m, x, line, fr)
                for li in self.active_loop_mods(fr):
                    pass
            elif self.target_mod is not None and self.target_mod.get(m) != 'ANY':
                self.prove(st, False, 'frame', 'callee %s may modify any %s' % (c.name, m), line)
            for mm in self.expandmap(m):
                old = self.gm(st, mm)
                if mm == 'SIZE':
                    raise Unsupported('contract changes object sizes')
                if objs == 'ANY':
                    st.maps[mm] = fresh(mm, old.sort())
                elif any(callable(x) for x in objs):
                    new = fresh(mm, old.sort())
                    st.assume(z3.ForAll([o], z3.Implies(z3.And(z3.BoolVal(True), *outside(objs, o)), z3.Select(new, o) == z3.Select(old, o)), patterns=[z3.Select(new, o)]))
                    st.maps[mm] = new
                else:
                    for x in objs:
                        old = z3.Store(old, zi(x), fresh(mm + '.v', old.sort().range()))
                    st.maps[mm] = old
        for g in c.ghosts:
            if g in st.ghost:
                st.ghost[g] = fresh('G.' + g, zi(st.ghost[g]).sort())
        res = None
        if T != VOID:
            res = self.havoc_val(st, T, c.name)
        cx.st = st
        cx.result = res
        if 'TOWN' in mods:
            self.unowned(st)
        if c.ensures is not None:
            for l, f in labelled(c.ensures(cx), 'post'):
                st.assume(f)
        if c.ghost_apply is not None:
            c.ghost_apply(cx)
        return [(st, cx.result)]

    def active_loop_mods(self, fr):
        return ()

    # ------------------------------------------------------------ top level
    def verify(self, c):
        """verify one function against its contract"""
        self.curfn = c.name
        self.target = c
        u = self.prog.unit(c.file) if c.file else None
        r = None
        if u is not None and c.name in u.functions:
            r = (u, u.functions[c.name])
        else:
            r = self.prog.find(c.name)
        if r is None:
            raise Unsupported('function %s not found in the repository' % c.name)
        u, fn = r
        self.curunit = u
        F = self.lowerfn(u, fn)
        for rnd in range(8):
            self.failures = []
            self.nob = 0
            self.by = {'simplifier': 0, 'z3': 0, 'cvc5': 0}
            self.kinds = {}
            self.covers = {}
            self.axioms, self.axkeys = [], set()
            self.literals, self.litmem, self.globobj = {}, {}, {}
            self.memkeys = set()
            self.litax = {}
            self._ints = {}
            self.houdini_again = False
            self._fc = {k: v for k, v in self._fc.items() if k[0] == 'mod'}
            try:
                self._verify_once(c, F, u)
            except GiveUp:
                break
            if not self.houdini_again:
                break
        return self

    def _verify_once(self, c, F, u):
        st = State()
        st.nxt = z3.Const('nxt0', I)
        st.assume(st.nxt > 0)
        for g, init in (getattr(c, 'ghost_init', None) or {}).items():
            st.ghost[g] = init()
        args = {}
        fr = Frame(F, '', c)
        names = [p for p, _ in F.params]
        if getattr(c, 'params', None) and len(c.params) != len(names):
            raise Unsupported('signature of %s changed' % c.name)
        cnames = getattr(c, 'params', None) or names
        for (p, T), cn in zip(F.params, cnames):
            if T[0] == 'ptr' and T[1][0] == 'func':
                v = P(z3.Int(p + '.fn'), 0)
                st.assume(z3.And(v.o >= 0, v.o < zi(st.nxt)))
            else:
                v = self.havoc_named(st, T, p)
            args[cn] = v
            st.vars[p] = v
        self.entry_args = args
        fr.args = args
        pre = st.copy()
        self.entry_state = pre
        cx = Ctx(self, st, pre, args, frame=fr)
        cx.is_body = True
        self.target_mod = None
        self.unowned(st)
        reqs = labelled(c.requires(cx), 'pre') if c.requires is not None else []
        if c.body_requires is not None:
            reqs += labelled(c.body_requires(cx), 'bodypre')
        for l, f in reqs:
            st.assume(f)
        if c.entry is not None:
            for f in c.entry(cx) or []:
                st.assume(f)
        # address-taken parameters live in memory
        self.entry_state = st.copy()
        fr.pre = self.entry_state
        mods = c.modifies(cx) if c.modifies is not None else {}
        self.target_mod = {}
        for m, objs in mods.items():
            self.target_mod[m] = objs
            if m.endswith('*'):
                self.target_mod[m[:-1]] = objs
        self.target_mod_maps = set(mods)
        for (p, T) in F.params:
            if p in F.memlocals:
                v = st.vars[p]
                o = self.newobj(st, 1)
                self.memkeys.add(p)
                st.vars[p] = P(o, 0)
                self.raw_store(st, P(o, 0), v, T)
        self.covers[(c.name, 'entry')] = self.feasible(st)
        outs = self.run(fr, st)
        nret = 0
        for s, v, line in outs:
            if not self.feasible(s):
                continue
            nret += 1
            self.name_maps(s)
            cx = Ctx(self, s, self.entry_state, args, result=v, frame=fr)
            cx.is_body = True
            if c.exit_lemmas is not None:
                for f in c.exit_lemmas(cx):
                    s.assume(f)
            if c.exit_asserts is not None:
                for l, f in labelled(c.exit_asserts(cx), 'hint'):
                    self.prove(s, f, 'assertion', l, line)
            if c.ensures is not None:
                items = labelled(c.ensures(cx), 'post')
                self.prove_all(s, items, 'postcondition', line)
        self.covers[(c.name, 'return')] = nret > 0 or c.noreturn
        self.nreturns = nret

    def havoc_named(self, st, T, name):
        if T[0] == 'ptr':
            p = P(z3.Int(name + '.o'), 0 if T[1][0] == 'struct' else z3.Int(name + '.f'))
            return self.wfptr(st, p)
        if T[0] in ('int', 'bool'):
            x = z3.Int(name)
            lo, hi = rng(T) if T[0] == 'int' else (0, 1)
            st.assume(z3.And(x >= lo, x <= hi))
            return x
        return Opaque(str(T))


def same(a, b):
    if a is b:
        return True
    if isinstance(a, P) and isinstance(b, P):
        return same(a.o, b.o) and same(a.f, b.f)
    if isz(a) and isz(b):
        return a.eq(b)
    if type(a) is type(b) and isinstance(a, (int, bool)):
        return a == b
    if isinstance(a, FN) and isinstance(b, FN):
        return a.name == b.name
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return True
    return False


def rng(T):
    if T[0] == 'bool':
        return 0, 1
    if T[2]:
        return -(1 << (T[1] - 1)), (1 << (T[1] - 1)) - 1
    return 0, (1 << T[1]) - 1
