"""Lower a clang function AST to a control-flow graph of simple instructions.

Expressions in instructions are pure trees (loads allowed); every side effect
is an instruction of its own.  Nothing is approximated here: a construct that
is not covered raises Unsupported.
"""
from .cast import Unsupported, node_type, parse_type, strip_quals, VOID, BOOL, CHAR, INT, SIZE_T, Ptr

# ---- pure expressions:
#  ('const', v, T) ('null', T) ('str', text, T) ('fn', name, T) ('var', name, T)
#  ('load', lval, T) ('bin', op, a, b, T) ('un', op, a, T) ('cast', a, T)
#  ('addr', lval, T) ('garr', name, T)  ('float', T)
# ---- lvalues:
#  ('lvar', name, T) ('deref', ptrExpr, T) ('field', ptrExpr, struct, field, T)
#  ('felt', ptrExpr, struct, field, idx, T)
# ---- instrs: ('assign', lval, expr, line) ('call', dstvar|None, fname, args, T, line, fexpr)
#  ('decl', name, T, line)
# ---- terminators: ('goto', b) ('br', cond, bt, bf, line) ('ret', expr|None, line) ('stop',)


class Block:
    __slots__ = ('id', 'instrs', 'term', 'loop')

    def __init__(self, id):
        self.id = id
        self.instrs = []
        self.term = None
        self.loop = None

    def succs(self):
        t = self.term
        if t is None:
            return []
        if t[0] == 'goto':
            return [t[1]]
        if t[0] == 'br':
            return [t[2], t[3]]
        return []


class Func:
    def __init__(self, name, unit):
        self.name = name
        self.unit = unit
        self.params = []
        self.locals = {}
        self.memlocals = set()
        self.blocks = []
        self.rettype = VOID
        self.variadic = False


def pure_has_load(e):
    if not isinstance(e, tuple):
        return False
    if e[0] in ('load', 'ptrderef'):
        return True
    return any(pure_has_load(x) for x in e if isinstance(x, tuple))


class Lower:
    def __init__(self, unit, fn):
        self.u = unit
        self.f = Func(fn['name'], unit)
        self.f.node = fn
        self.names = {}
        self.used = {}
        self.tmpn = 0
        self.cur = None
        self.brk = []
        self.cont = []
        self.labels = {}
        self.statics = {}
        self._taken = set()
        self.f.line = fn.get('_line')
        q = fn['type']['qualType']
        self.f.variadic = '...' in q
        self.f.rettype = parse_type(q[:q.index('(')].strip() if '(' in q else q, unit)
        rt = fn['type'].get('desugaredQualType')
        if rt:
            # return type of desugared function type (prefix up to the parameter list)
            depth = 0
            for i in range(len(rt) - 1, -1, -1):
                if rt[i] == ')':
                    depth += 1
                elif rt[i] == '(':
                    depth -= 1
                    if depth == 0:
                        break
            self.f.rettype = parse_type(rt[:i].strip(), unit)

    # ------------------------------------------------------------ utils
    def newblock(self):
        b = Block(len(self.f.blocks))
        self.f.blocks.append(b)
        return b

    def goto(self, b):
        if self.cur is not None and self.cur.term is None:
            self.cur.term = ('goto', b.id)

    def start(self, b):
        self.cur = b

    def emit(self, *i):
        if self.cur is None:
            self.cur = self.newblock()   # unreachable code
        self.cur.instrs.append(i)

    def tmp(self, T):
        self.tmpn += 1
        n = '$t%d' % self.tmpn
        self.f.locals[n] = T
        return n

    def declare(self, node, T):
        n = node.get('name', '$anon')
        if n in self.used:
            self.used[n] += 1
            nm = '%s.%d' % (n, self.used[n])
        else:
            self.used[n] = 1
            nm = n
        self.names[node['id']] = nm
        self.f.locals[nm] = T
        return nm

    # ------------------------------------------------------------ driver
    def run(self):
        fn = self.f.node
        body = None
        for c in fn.get('inner', []):
            if c.get('kind') == 'ParmVarDecl':
                T = node_type(c, self.u)
                if T[0] == 'arr':
                    T = Ptr(T[1])
                if 'name' not in c:
                    c['name'] = '$p%d' % len(self.f.params)
                self.f.params.append((self.declare(c, T), T))
            elif c.get('kind') == 'CompoundStmt':
                body = c
        self._scan_addr(body)
        entry = self.newblock()
        self.start(entry)
        self.stmt(body)
        if self.cur is not None and self.cur.term is None:
            self.cur.term = ('ret', None, fn['range']['end'].get('_line'))
        for name, (blk, defd) in self.labels.items():
            if not defd:
                raise Unsupported('label ' + name)
        for b in self.f.blocks:
            if b.term is None:
                b.term = ('stop',)
        self.f.memlocals = {self.names[i] for i in self._taken if i in self.names}
        for n, T in self.f.locals.items():
            if T[0] in ('arr', 'struct'):
                self.f.memlocals.add(n)
        self._analyse()
        return self.f

    def _scan_addr(self, n):
        stack = [n]
        while stack:
            x = stack.pop()
            if x.get('kind') == 'UnaryOperator' and x.get('opcode') == '&':
                y = x['inner'][0]
                while y.get('kind') in ('ParenExpr',):
                    y = y['inner'][0]
                if y.get('kind') == 'DeclRefExpr':
                    self._taken.add(y['referencedDecl']['id'])
            for c in x.get('inner', []) or []:
                if isinstance(c, dict):
                    stack.append(c)

    # ------------------------------------------------------------ statements
    def stmt(self, n):
        k = n.get('kind')
        if k is None:
            return
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n)
        # expression statement
        self.ex(n, discard=True)

    def s_CompoundStmt(self, n):
        for c in n.get('inner', []):
            self.stmt(c)

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for c in n.get('inner', []):
            if c.get('kind') != 'VarDecl':
                continue
            T = node_type(c, self.u)
            if c.get('storageClass') == 'static':
                self.u.globals_by_id[c['id']] = c
                self.statics[c['id']] = c
                continue
            nm = self.declare(c, T)
            self.emit('decl', nm, T, c.get('_line'))
            inits = [x for x in c.get('inner', []) if 'kind' in x and not x['kind'].endswith('Attr')]
            if c.get('init') and inits:
                self.init(('lvar', nm, T), inits[0], T, c.get('_line'))

    def init(self, lv, e, T, line):
        if e.get('kind') == 'InitListExpr':
            inner = e.get('inner', [])
            if T[0] == 'struct':
                recs = self.u.records.get(T[1])
                if recs is None:
                    raise Unsupported('init of struct ' + T[1])
                base = ('addr', lv, Ptr(T))
                for (fname, fd), x in zip(recs, inner):
                    ft = node_type(fd, self.u)
                    self.init(('field', base, T[1], fname, ft), x, ft, line)
                return
            if T[0] == 'arr':
                base = ('decay', lv, Ptr(T[1]))
                filler = None
                items = inner
                if 'array_filler' in e:
                    filler = e['array_filler'][0]
                    items = e['array_filler'][1:]
                for i, x in enumerate(items):
                    self.init(('deref', ('bin', '+', base, ('const', i, INT), Ptr(T[1])), T[1]), x, T[1], line)
                if filler is not None:
                    for i in range(len(items), T[2]):
                        self.emit('assign', ('deref', ('bin', '+', base, ('const', i, INT), Ptr(T[1])), T[1]),
                                  ('const', 0, T[1]) if T[1][0] != 'ptr' else ('null', T[1]), line)
                return
            if len(inner) == 1:
                return self.init(lv, inner[0], T, line)
            raise Unsupported('initlist')
        if e.get('kind') == 'ImplicitValueInitExpr':
            if T[0] == 'ptr':
                self.emit('assign', lv, ('null', T), line)
            elif T[0] in ('int', 'bool'):
                self.emit('assign', lv, ('const', 0, T), line)
            return
        if e.get('kind') == 'StringLiteral' and T[0] == 'arr':
            s = decode_str(e)
            base = ('decay', lv, Ptr(T[1]))
            for i in range(T[2]):
                v = s[i] if i < len(s) else 0
                v = v - 256 if v > 127 else v
                self.emit('assign', ('deref', ('bin', '+', base, ('const', i, INT), Ptr(T[1])), T[1]), ('const', v, T[1]), line)
            return
        v = self.ex(e)
        self.emit('assign', lv, v, line)

    def s_IfStmt(self, n):
        inner = n['inner']
        bt, be = self.newblock(), self.newblock()
        has_else = n.get('hasElse')
        bf = self.newblock() if has_else else be
        self.cond(inner[0], bt, bf)
        self.start(bt)
        self.stmt(inner[1])
        self.goto(be)
        if has_else:
            self.start(bf)
            self.stmt(inner[2])
            self.goto(be)
        self.start(be)

    def const_cond(self, n):
        """value of a constant condition, or None"""
        while n.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'ConstantExpr', 'CStyleCastExpr'):
            n = n['inner'][0]
        if n.get('kind') == 'IntegerLiteral':
            return int(n['value']) != 0
        return None

    def s_WhileStmt(self, n):
        c, body = n['inner'][0], n['inner'][-1]
        if self.const_cond(c) is False:
            return
        head, bb, be = self.newblock(), self.newblock(), self.newblock()
        head.loop = n.get('_line')
        self.goto(head)
        self.start(head)
        self.cond(c, bb, be)
        self.start(bb)
        self.brk.append(be); self.cont.append(head)
        self.stmt(body)
        self.brk.pop(); self.cont.pop()
        self.goto(head)
        self.start(be)

    def s_DoStmt(self, n):
        body, c = n['inner'][0], n['inner'][1]
        bb, bc, be = self.newblock(), self.newblock(), self.newblock()
        if self.const_cond(c) is not False:
            bb.loop = n.get('_line')
        self.goto(bb)
        self.start(bb)
        self.brk.append(be); self.cont.append(bc)
        self.stmt(body)
        self.brk.pop(); self.cont.pop()
        self.goto(bc)
        self.start(bc)
        self.cond(c, bb, be)
        self.start(be)

    def s_ForStmt(self, n):
        init, _, c, inc, body = n['inner']
        if init.get('kind'):
            self.stmt(init)
        head, bb, bi, be = self.newblock(), self.newblock(), self.newblock(), self.newblock()
        head.loop = n.get('_line')
        self.goto(head)
        self.start(head)
        if c.get('kind'):
            self.cond(c, bb, be)
        else:
            self.goto(bb)
        self.start(bb)
        self.brk.append(be); self.cont.append(bi)
        self.stmt(body)
        self.brk.pop(); self.cont.pop()
        self.goto(bi)
        self.start(bi)
        if inc.get('kind'):
            self.ex(inc, discard=True)
        self.goto(head)
        self.start(be)

    def s_SwitchStmt(self, n):
        v = self.ex(n['inner'][0])
        T = v[-1]
        t = self.tmp(T)
        self.emit('assign', ('lvar', t, T), v, n.get('_line'))
        be = self.newblock()
        disp = self.cur
        cases = []
        default = [None]
        self.cur = None
        self.swstack = getattr(self, 'swstack', [])
        self.swstack.append((cases, default))
        self.brk.append(be)
        self.stmt(n['inner'][-1])
        self.goto(be)
        self.brk.pop()
        self.swstack.pop()
        # dispatch chain
        self.cur = disp
        for (val, hi, blk) in cases:
            nb = self.newblock()
            if hi is None:
                c = ('bin', '==', ('var', t, T), ('const', val, T), INT)
                self.cur.term = ('br', c, blk.id, nb.id, n.get('_line'))
            else:
                c1 = ('bin', '>=', ('var', t, T), ('const', val, T), INT)
                c2 = ('bin', '<=', ('var', t, T), ('const', hi, T), INT)
                mid = self.newblock()
                self.cur.term = ('br', c1, mid.id, nb.id, n.get('_line'))
                mid.term = ('br', c2, blk.id, nb.id, n.get('_line'))
            self.cur = nb
        self.goto(default[0] if default[0] is not None else be)
        self.start(be)

    def s_CaseStmt(self, n):
        inner = n['inner']
        val = self.constval(inner[0])
        hi = None
        if n.get('isGNURange'):
            hi = self.constval(inner[1])
        b = self.newblock()
        self.goto(b)
        self.start(b)
        self.swstack[-1][0].append((val, hi, b))
        self.stmt(inner[-1])

    def s_DefaultStmt(self, n):
        b = self.newblock()
        self.goto(b)
        self.start(b)
        self.swstack[-1][1][0] = b
        self.stmt(n['inner'][-1])

    def constval(self, n):
        if n.get('kind') == 'ConstantExpr' and 'value' in n:
            return int(n['value'])
        e = self.ex(n)
        if e[0] == 'const':
            return e[1]
        raise Unsupported('non-constant case')

    def s_BreakStmt(self, n):
        self.goto(self.brk[-1])
        self.cur = self.newblock()
        self.cur.term = None

    def s_ContinueStmt(self, n):
        self.goto(self.cont[-1])
        self.cur = self.newblock()

    def s_ReturnStmt(self, n):
        e = self.ex(n['inner'][0]) if n.get('inner') else None
        if self.cur is None:
            self.cur = self.newblock()
        self.cur.term = ('ret', e, n.get('_line'))
        self.cur = self.newblock()

    def label(self, lid):
        if lid not in self.labels:
            self.labels[lid] = [self.newblock(), False]
        return self.labels[lid]

    def s_GotoStmt(self, n):
        self.goto(self.label(n['targetLabelDeclId'])[0])
        self.cur = self.newblock()

    def s_LabelStmt(self, n):
        l = self.label(n['declId'])
        l[1] = True
        self.goto(l[0])
        self.start(l[0])
        self.stmt(n['inner'][0])

    # ------------------------------------------------------------ conditions
    def cond(self, n, bt, bf):
        k = n.get('kind')
        if k == 'ParenExpr' or (k == 'ImplicitCastExpr' and n.get('castKind') in ('IntegralToBoolean', 'PointerToBoolean', 'LValueToRValue') and n['inner'][0].get('kind') in ('BinaryOperator', 'UnaryOperator', 'ParenExpr') and n.get('castKind') != 'LValueToRValue'):
            if k == 'ParenExpr':
                return self.cond(n['inner'][0], bt, bf)
        if k == 'UnaryOperator' and n['opcode'] == '!':
            return self.cond(n['inner'][0], bf, bt)
        if k == 'BinaryOperator' and n['opcode'] in ('&&', '||'):
            mid = self.newblock()
            if n['opcode'] == '&&':
                self.cond(n['inner'][0], mid, bf)
            else:
                self.cond(n['inner'][0], bt, mid)
            self.start(mid)
            return self.cond(n['inner'][1], bt, bf)
        if k == 'ImplicitCastExpr' and n.get('castKind') == 'IntegralToBoolean':
            return self.cond(n['inner'][0], bt, bf)
        e = self.ex(n)
        if self.cur is None:
            self.cur = self.newblock()
        if e[0] == 'const':
            self.goto(bt if e[1] else bf)
        else:
            self.cur.term = ('br', e, bt.id, bf.id, n.get('_line'))

    # ------------------------------------------------------------ expressions
    def mat(self, e, line=None):
        """materialise into a temporary (fixes evaluation point)"""
        if e[0] in ('const', 'null', 'str', 'fn'):
            return e
        T = e[-1]
        t = self.tmp(T)
        self.emit('assign', ('lvar', t, T), e, line)
        return ('var', t, T)

    def ninstr(self):
        return (self.cur.id if self.cur else -1, len(self.cur.instrs) if self.cur else 0)

    def ex(self, n, discard=False):
        k = n.get('kind')
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression kind %s at line %s' % (k, n.get('_line')))
        if k in ('CallExpr', 'BinaryOperator', 'UnaryOperator', 'ConditionalOperator', 'CompoundAssignOperator', 'ParenExpr', 'CStyleCastExpr'):
            return m(n, discard)
        return m(n)

    def T(self, n):
        return node_type(n, self.u)

    def e_ParenExpr(self, n, discard=False):
        return self.ex(n['inner'][0], discard)

    def e_ConstantExpr(self, n):
        return self.ex(n['inner'][0])

    def e_IntegerLiteral(self, n):
        return ('const', int(n['value']), self.T(n))

    def e_CharacterLiteral(self, n):
        return ('const', int(n['value']), self.T(n))

    def e_FloatingLiteral(self, n):
        return ('float', self.T(n))

    def e_StringLiteral(self, n):
        return ('str', decode_str(n), Ptr(CHAR))

    def e_PredefinedExpr(self, n):
        return ('str', b'', Ptr(CHAR))

    def e_ImplicitValueInitExpr(self, n):
        T = self.T(n)
        return ('null', T) if T[0] == 'ptr' else ('const', 0, T)

    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') != 'sizeof':
            raise Unsupported(n.get('name'))
        if 'argType' in n:
            q = n['argType'].get('desugaredQualType') or n['argType']['qualType']
            t = parse_type(q, self.u)
        else:
            t = self.T(n['inner'][0])
            x = n['inner'][0]
            while x.get('kind') == 'ParenExpr':
                x = x['inner'][0]
            if x.get('kind') == 'StringLiteral':
                return ('const', len(decode_str(x)) + 1, SIZE_T)
        return ('sizeof', t, SIZE_T)

    def e_DeclRefExpr(self, n):
        d = n['referencedDecl']
        T = self.T(n)
        if d['kind'] == 'EnumConstantDecl':
            return ('const', self.u.enumconst[d['name']], INT)
        if d['kind'] == 'FunctionDecl':
            return ('fn', d['name'], T)
        if d['id'] in self.names:
            return ('lv', ('lvar', self.names[d['id']], self.f.locals[self.names[d['id']]]), T)
        g = self.u.globals_by_id.get(d['id'])
        return ('lv', ('gvar', d['name'], T if T[0] != 'void' else T, d['id']), T)

    def lval(self, n):
        k = n.get('kind')
        if k == 'ParenExpr':
            return self.lval(n['inner'][0])
        if k == 'DeclRefExpr':
            e = self.e_DeclRefExpr(n)
            if e[0] != 'lv':
                raise Unsupported('lvalue of ' + e[0])
            return e[1]
        if k == 'UnaryOperator' and n['opcode'] == '*':
            p = self.ex(n['inner'][0])
            return ('deref', p, self.T(n))
        if k == 'ArraySubscriptExpr':
            a, b = n['inner']
            if self.T(a)[0] not in ('ptr', 'arr'):
                a, b = b, a
            # embedded array field of a struct
            base = a
            while base.get('kind') in ('ParenExpr',) or (base.get('kind') == 'ImplicitCastExpr' and base.get('castKind') == 'ArrayToPointerDecay'):
                base = base['inner'][0]
            if base.get('kind') == 'MemberExpr' and self.T(base)[0] == 'arr':
                fl = self.lval(base)
                s0 = self.ninstr()
                i = self.ex(b)
                if self.ninstr() != s0:
                    fl = (fl[0], fl[1]) + fl[2:]
                return ('felt', fl[1], fl[2], fl[3], i, self.T(n))
            p = self.ex(a)
            s0 = self.ninstr()
            save = len(self.cur.instrs) if self.cur else 0
            i = self.ex(b)
            if self.ninstr() != s0 and p[0] != 'var':
                pass  # base is an lvalue-to-rvalue of a variable unaffected by the index in this code base
            return ('deref', ('bin', '+', p, i, p[-1]), self.T(n))
        if k == 'MemberExpr':
            b = n['inner'][0]
            name = n['name']
            if n.get('isArrow'):
                p = self.ex(b)
            else:
                lv = self.lval(b)
                if lv[0] == 'field':      # a field of an embedded struct is a field of the outer one
                    return ('field', lv[1], lv[2], lv[3] + '.' + name, self.T(n))
                p = ('addr', lv, Ptr(self.T(b)))
            st = p[-1][1]
            if st[0] != 'struct':
                raise Unsupported('member of %r' % (st,))
            return ('field', p, st[1], name, self.T(n))
        if k == 'StringLiteral':
            return ('strlv', decode_str(n), self.T(n))
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            raise Unsupported('cast lvalue')
        if k == 'CompoundLiteralExpr':
            T = self.T(n)
            t = self.tmp(T)
            self.init(('lvar', t, T), n['inner'][0], T, n.get('_line'))
            return ('lvar', t, T)
        raise Unsupported('lvalue kind %s' % k)

    def e_MemberExpr(self, n):
        return ('lv', self.lval(n), self.T(n))

    def e_ArraySubscriptExpr(self, n):
        return ('lv', self.lval(n), self.T(n))

    def e_ImplicitCastExpr(self, n):
        return self.cast(n)

    def e_CStyleCastExpr(self, n, discard=False):
        if n.get('castKind') == 'ToVoid':
            self.ex(n['inner'][0], True)
            return ('const', 0, INT)
        return self.cast(n)

    def cast(self, n):
        ck = n.get('castKind')
        sub = n['inner'][0]
        T = self.T(n)
        if ck == 'LValueToRValue':
            lv = self.lval(sub)
            if lv[0] == 'lvar':
                return ('var', lv[1], lv[2])
            return ('load', lv, T)
        if ck == 'ArrayToPointerDecay':
            x = sub
            while x.get('kind') == 'ParenExpr':
                x = x['inner'][0]
            if x.get('kind') in ('StringLiteral',):
                return ('str', decode_str(x), T)
            if x.get('kind') == 'PredefinedExpr':
                return ('str', b'', T)
            return ('decay', self.lval(x), T)
        if ck == 'FunctionToPointerDecay':
            return self.ex(sub)
        if ck == 'NullToPointer':
            return ('null', T)
        if ck in ('NoOp', 'BuiltinFnToFnPtr'):
            return self.ex(sub)
        if ck == 'BitCast':
            e = self.ex(sub)
            return ('cast', e, T)
        if ck in ('IntegralCast', 'BooleanToSignedIntegral'):
            e = self.ex(sub)
            if e[0] == 'const' and T[0] == 'int':
                return ('const', wrap_const(e[1], T), T)
            return ('cast', e, T)
        if ck in ('IntegralToBoolean', 'PointerToBoolean'):
            e = self.ex(sub)
            return ('tobool', e, BOOL)
        if ck in ('IntegralToFloating', 'FloatingCast'):
            self.ex(sub)
            return ('float', T)
        if ck == 'FloatingToIntegral':
            self.ex(sub)
            return ('anyint', T)
        if ck == 'IntegralToPointer':
            e = self.ex(sub)
            if e == ('const', 0, e[-1]):
                return ('null', T)
            raise Unsupported('IntegralToPointer')
        if ck == 'ToVoid':
            self.ex(sub, True)
            return ('const', 0, INT)
        raise Unsupported('cast kind %s' % ck)

    def e_UnaryOperator(self, n, discard=False):
        op = n['opcode']
        sub = n['inner'][0]
        T = self.T(n)
        if op in ('++', '--'):
            lv = self.lval(sub)
            old = ('var', lv[1], lv[2]) if lv[0] == 'lvar' else ('load', lv, T)
            if n.get('isPostfix') and not discard:
                old = self.mat(old, n.get('_line'))
            one = ('const', 1, INT) if T[0] == 'ptr' else ('const', 1, T)
            new = self.arith('+' if op == '++' else '-', old, one, T)
            self.emit('assign', lv, new, n.get('_line'))
            if n.get('isPostfix'):
                return old if not discard else ('const', 0, INT)
            return ('var', lv[1], lv[2]) if lv[0] == 'lvar' else ('load', lv, T)
        if op == '&':
            x = sub
            while x.get('kind') == 'ParenExpr':
                x = x['inner'][0]
            if x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['kind'] == 'FunctionDecl':
                return ('fn', x['referencedDecl']['name'], T)
            lv = self.lval(sub)
            if lv[0] == 'deref':
                return lv[1]
            return ('addr', lv, T)
        if op == '*':
            return ('lv', self.lval(n), T)
        if op == '!':
            e = self.ex(sub)
            return ('un', '!', e, INT)
        if op in ('-', '~', '+'):
            e = self.ex(sub)
            if op == '+':
                return e
            if e[0] == 'const' and op == '-':
                return ('const', wrap_const(-e[1], T), T)
            return ('un', op, e, T)
        if op == '__extension__':
            return self.ex(sub, discard)
        raise Unsupported('unary ' + op)

    def arith(self, op, a, b, T):
        """promote (char-sized) operands the way C does for ++/+= on narrow types"""
        if T[0] == 'int' and T[1] < 32:
            r = ('bin', op, ('cast', a, INT), ('cast', b, INT) if b[0] != 'const' else ('const', b[1], INT), INT)
            return ('cast', r, T)
        return ('bin', op, a, b, T)

    def e_BinaryOperator(self, n, discard=False):
        op = n['opcode']
        a, b = n['inner']
        T = self.T(n)
        line = n.get('_line')
        if op == '=':
            lv = self.lval(a)
            v = self.ex(b)
            if T[0] == 'struct':
                raise Unsupported('struct assignment')
            self.emit('assign', lv, v, line)
            if discard:
                return ('const', 0, INT)
            return ('var', lv[1], lv[2]) if lv[0] == 'lvar' else ('load', lv, T)
        if op == ',':
            self.ex(a, True)
            return self.ex(b, discard)
        if op in ('&&', '||'):
            bt, bf, be = self.newblock(), self.newblock(), self.newblock()
            t = self.tmp(INT)
            self.cond(n, bt, bf)
            self.start(bt)
            self.emit('assign', ('lvar', t, INT), ('const', 1, INT), line)
            self.goto(be)
            self.start(bf)
            self.emit('assign', ('lvar', t, INT), ('const', 0, INT), line)
            self.goto(be)
            self.start(be)
            return ('var', t, INT)
        x = self.ex(a)
        s0 = self.ninstr()
        # keep a's value fixed if evaluating b has side effects
        blk, ln = self.cur, len(self.cur.instrs) if self.cur else 0
        y = self.ex(b)
        if self.ninstr() != s0 and x[0] not in ('const', 'null', 'str', 'fn') and not (x[0] == 'var' and x[1].startswith('$t')):
            t = self.tmp(x[-1])
            blk.instrs.insert(ln, ('assign', ('lvar', t, x[-1]), x, line))
            x = ('var', t, x[-1])
        return ('bin', op, x, y, T)

    def e_CompoundAssignOperator(self, n, discard=False):
        op = n['opcode'][:-1]
        a, b = n['inner']
        T = self.T(n)
        CT = parse_type((n.get('computeResultType') or {}).get('desugaredQualType') or (n.get('computeResultType') or {}).get('qualType') or 'int', self.u)
        y = self.ex(b)
        lv = self.lval(a)
        old = ('var', lv[1], lv[2]) if lv[0] == 'lvar' else ('load', lv, T)
        if T[0] == 'ptr':
            r = ('bin', op, old, y, T)
        elif CT[0] == 'float':
            r = ('anyint', T)
        else:
            r = ('bin', op, ('cast', old, CT), y, CT)
            r = ('cast', r, T)
        self.emit('assign', lv, r, n.get('_line'))
        return ('var', lv[1], lv[2]) if lv[0] == 'lvar' else ('load', lv, T)

    def e_ConditionalOperator(self, n, discard=False):
        c, a, b = n['inner']
        T = self.T(n)
        bt, bf, be = self.newblock(), self.newblock(), self.newblock()
        self.cond(c, bt, bf)
        t = None if T == VOID else self.tmp(T)
        for blk, x in ((bt, a), (bf, b)):
            self.start(blk)
            v = self.ex(x)
            if t is not None:
                self.emit('assign', ('lvar', t, T), v, n.get('_line'))
            self.goto(be)
        self.start(be)
        return ('var', t, T) if t is not None else ('const', 0, INT)

    def e_StmtExpr(self, n):
        raise Unsupported('statement expression')

    def e_VAArgExpr(self, n):
        raise Unsupported('va_arg')

    def e_CompoundLiteralExpr(self, n):
        return ('lv', self.lval(n), self.T(n))

    def e_CallExpr(self, n, discard=False):
        callee = self.ex(n['inner'][0])
        args = []
        pos = []
        for c in n['inner'][1:]:
            pos.append((self.cur, len(self.cur.instrs) if self.cur else 0, self.ninstr()))
            args.append(self.ex(c))
        # evaluation order of arguments with side effects: left-to-right snapshot
        T = self.T(n)
        line = n.get('_line')
        if callee[0] == 'fn':
            fname, fexpr = callee[1], None
        else:
            fname, fexpr = None, callee
        dst = None
        if not (discard or T == VOID):
            dst = self.tmp(T)
        rt = T
        self.emit('call', dst, fname, args, rt, line, fexpr)
        return ('var', dst, T) if dst else ('const', 0, INT)

    # ------------------------------------------------------------ loop analysis
    def _analyse(self):
        f = self.f
        # prune unreachable
        seen = set()
        stack = [0]
        while stack:
            b = stack.pop()
            if b in seen:
                continue
            seen.add(b)
            stack.extend(f.blocks[b].succs())
        f.reach = seen
        # RPO
        order, state = [], {}

        def dfs(root):
            st = [(root, iter(f.blocks[root].succs()))]
            state[root] = 1
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in state:
                        state[s] = 1
                        st.append((s, iter(f.blocks[s].succs())))
                        break
                    elif state[s] == 1:
                        back.add((b, s))
                else:
                    state[b] = 2
                    order.append(b)
                    st.pop()
        back = set()
        dfs(0)
        order.reverse()
        f.rpo = order
        f.back = back
        preds = {b: [] for b in seen}
        for b in seen:
            for s in f.blocks[b].succs():
                preds[s].append(b)
        f.preds = preds
        loops = {}
        for (t, h) in back:
            body = loops.setdefault(h, {h})
            st = [t]
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st.extend(preds[x])
        f.loops = loops
        # source order numbering of loops
        heads = sorted(loops, key=lambda h: (min((self._line_of(x) for x in loops[h]), default=0), -len(loops[h])))
        # outer before inner, then source order
        f.loopnum = {}
        heads = sorted(loops, key=lambda h: (f.blocks[h].loop or self._line_of(h) or 0, -len(loops[h])))
        for i, h in enumerate(heads):
            f.loopnum[h] = i
        # RPO must put loop bodies before loop exits: order by (position) is fine
        # for reducible graphs when exits come after; enforce by stable sort
        f.rpo = self._loop_aware_order(order, loops, back)

    def _line_of(self, b):
        blk = self.f.blocks[b]
        for i in blk.instrs:
            for x in reversed(i):
                if isinstance(x, int) and not isinstance(x, bool):
                    return x
        t = blk.term
        if t and t[0] in ('br', 'ret') and isinstance(t[-1], int):
            return t[-1]
        return 1 << 30

    def _loop_aware_order(self, order, loops, back):
        """topological order (back edges removed) in which a loop's body is
        finished before blocks after it, so pending states merge well."""
        f = self.f
        idx = {b: i for i, b in enumerate(order)}
        succ = {b: [s for s in f.blocks[b].succs() if (b, s) not in back] for b in order}
        indeg = {b: 0 for b in order}
        for b in order:
            for s in succ[b]:
                indeg[s] += 1
        depth = {b: sum(1 for h in loops if b in loops[h]) for b in order}
        import heapq
        ready = [(-depth[b], idx[b], b) for b in order if indeg[b] == 0]
        heapq.heapify(ready)
        out = []
        while ready:
            _, _, b = heapq.heappop(ready)
            out.append(b)
            for s in succ[b]:
                indeg[s] -= 1
                if indeg[s] == 0:
                    heapq.heappush(ready, (-depth[s], idx[s], s))
        if len(out) != len(order):
            raise Unsupported('irreducible control flow')
        return out


def wrap_const(v, T):
    if T[0] == 'bool':
        return int(v != 0)
    if T[0] != 'int':
        return v
    m = 1 << T[1]
    v %= m
    if T[2] and v >= m // 2:
        v -= m
    return v


def decode_str(n):
    v = n['value']
    # clang prints the literal in C syntax, adjacent literals already joined
    assert v[0] == '"', v
    body = v[1:-1]
    out = bytearray()
    i = 0
    simple = {'n': 10, 't': 9, 'r': 13, '\\': 92, '"': 34, "'": 39, 'a': 7, 'b': 8, 'f': 12, 'v': 11, '?': 63}
    while i < len(body):
        c = body[i]
        if c != '\\':
            out += c.encode('utf-8')
            i += 1
            continue
        c = body[i + 1]
        if c in simple:
            out.append(simple[c]); i += 2
        elif c == 'x':
            out.append(int(body[i + 2:i + 4], 16)); i += 4
        elif c in '01234567':
            j = i + 1
            while j < len(body) and j < i + 4 and body[j] in '01234567':
                j += 1
            out.append(int(body[i + 1:j], 8)); i = j
        else:
            raise Unsupported('escape ' + c)
    return bytes(out)


def lower(unit, fn):
    return Lower(unit, fn).run()
