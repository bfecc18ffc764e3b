"""Expressions and straight-line statements of the executor (clang AST -> closures)."""
from term import *
import term as T
from mem import *
from vals import *

WRAP = ('ParenExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr',
        'FullExpr')
IGNORED_CALLS = {'printf', 'fprintf', 'puts', 'fflush', 'putchar', 'perror'}


def kids(n):
    return [c for c in n.get('inner', ()) if isinstance(c, dict) and c]


def strip(n):
    while n.get('kind') in WRAP:
        n = kids(n)[0]
    return n


def strip_casts(n):
    while n.get('kind') in WRAP + ('ImplicitCastExpr', 'CStyleCastExpr', 'MaterializeTemporaryExpr'):
        n = kids(n)[0]
    return n


def has_effects(n):
    k = n.get('kind')
    if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CompoundAssignOperator', 'CXXNewExpr',
             'CXXConstructExpr', 'CXXTemporaryObjectExpr', 'LambdaExpr', 'CXXDeleteExpr'):
        return True
    if k == 'BinaryOperator' and n.get('opcode') in ('=', ','):
        return True
    if k == 'UnaryOperator' and n.get('opcode') in ('++', '--'):
        return True
    return any(has_effects(c) for c in kids(n))


def int_div(ex, st, a, b, want):
    """C++ quotient / remainder of integer polynomials"""
    ca, cb = a.const(), b.const()
    if cb == 0:
        ex.hard_fail(st, 'division', 'integer division by zero')
    if ca is not None and cb is not None:
        q = abs(ca) // abs(cb)
        if (ca < 0) != (cb < 0):
            q = -q
        return P(q) if want == '/' else P(ca - q * cb)
    try:
        q, r = divmod_poly(a, b)
        if not r.t and (cb is not None or st.pc.decide(ne(b, 0)) is True):
            return q if want == '/' else ZERO
        for t in (0, 1, -1, 2, -2):
            rr, qq = r + b * t, q - t
            if st.pc.decide(And(le(0, rr), lt(rr, b))) is True and st.pc.decide(le(0, qq)) is True:
                return qq if want == '/' else rr
        # two possible quotients
        for t in (0, 1, -1):
            rr, qq = r + b * t, q - t
            if st.pc.decide(And(le(0, rr), lt(rr, b * 2))) is True and st.pc.decide(le(0, qq)) is True:
                c = lt(rr, b)
                return ite(c, qq, qq + 1) if want == '/' else ite(c, rr, rr - b)
    except Unsupported:
        pass
    # an opaque quotient with its defining property
    if st.pc.decide(And(le(0, a), lt(0, b))) is True:
        q = fn('idiv', (a, b), 'i')
        if cb is not None:
            r = a - q * b
            st.assume(le(0, r), lt(r, b), le(0, q))
            return q if want == '/' else r
    raise Unsupported('integer division %r / %r' % (a, b))


class EvalMixin(object):
    # -------------------------------------------------------------- entry points
    def expr(self, n, tu):
        key = ('e', id(n))
        f = self.comp.get(key)
        if f is None:
            m = getattr(self, 'e_' + n['kind'], None)
            if m is None:
                raise Unsupported('expression %s (line %s)' % (n['kind'], n.get('_line')))
            f = self.comp[key] = m(n, tu)
        return f

    def lval(self, n, tu):
        key = ('l', id(n))
        f = self.comp.get(key)
        if f is None:
            m = getattr(self, 'l_' + n['kind'], None)
            if m is None:
                raise Unsupported('lvalue %s (line %s)' % (n['kind'], n.get('_line')))
            f = self.comp[key] = m(n, tu)
        return f

    def is_lv(self, n):
        return n.get('valueCategory') == 'lvalue'

    def val(self, n, tu):
        """rvalue of an expression of any category"""
        if self.is_lv(n) and strip(n)['kind'] != 'StringLiteral':
            g = self.lval(n, tu)
            return lambda st: self.read(st, g(st))
        return self.expr(n, tu)

    def cond(self, n, tu):
        f = self.val(n, tu)
        return lambda st: conv(f(st), 'b')

    # -------------------------------------------------------------- wrappers
    def _wrap_e(self, n, tu):
        return self.expr(kids(n)[0], tu)

    def _wrap_l(self, n, tu):
        return self.lval(kids(n)[0], tu)
    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = _wrap_e
    l_ParenExpr = l_ExprWithCleanups = l_CXXBindTemporaryExpr = l_ConstantExpr = _wrap_l

    def e_MaterializeTemporaryExpr(self, n, tu):
        return self.val(kids(n)[0], tu)

    def l_MaterializeTemporaryExpr(self, n, tu):
        f = self.val(kids(n)[0], tu)
        t = ntype(n)

        def go(st):
            v = f(st)
            if isinstance(v, (Stream, Str, Opaque, ItVal, Manip)):
                return TmpLV(v)
            oid = st.new(t, 'tmp')
            self.write_cell(st, oid, (), v)
            return CellLV(oid, ())
        return go

    # -------------------------------------------------------------- literals
    def e_IntegerLiteral(self, n, tu):
        v = P(int(n['value']))
        return lambda st: v

    def e_FloatingLiteral(self, n, tu):
        v = P(T._norm(T.Fraction(n['value'])))
        return lambda st: v

    def e_CXXBoolLiteralExpr(self, n, tu):
        v = TRUE if n['value'] else FALSE
        return lambda st: v

    def e_StringLiteral(self, n, tu):
        import json
        try:
            s = json.loads(n['value'].replace("\\'", "'"))
        except Exception:
            s = n['value']
        v = Str(s)
        return lambda st: v

    def l_StringLiteral(self, n, tu):
        f = self.e_StringLiteral(n, tu)
        return lambda st: TmpLV(f(st))

    def e_CharacterLiteral(self, n, tu):
        v = Char(n['value'])
        return lambda st: v

    def e_CXXNullPtrLiteralExpr(self, n, tu):
        return lambda st: NULL
    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_ImplicitValueInitExpr(self, n, tu):
        t = ntype(n)
        return lambda st: self.zero_val(t)
    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def zero_val(self, t):
        if t[0] in ('arr', 'rec'):
            return Rec({p: zero_of(sub_type(self, t, p)) for p in leaf_paths(self, t)})
        return zero_of(t)

    def e_CXXThisExpr(self, n, tu):
        return lambda st: st.this

    def e_CXXDefaultArgExpr(self, n, tu):
        return lambda st: Opaque('default')

    def e_UnaryExprOrTypeTraitExpr(self, n, tu):
        if n.get('name') != 'sizeof':
            raise Unsupported('trait %s' % n.get('name'))
        if 'argType' in n:
            t = ptype(n['argType'].get('desugaredQualType') or n['argType']['qualType'])
        else:
            t = ntype(kids(n)[0])
        v = P(self.sizeof(t))
        return lambda st: v

    def sizeof(self, t):
        if t == 'i':
            return 4
        if t == 'r':
            return 8
        if t == 'b':
            return 1
        if t[0] == 'ptr':
            return 8
        if t[0] == 'arr':
            return t[1] * self.sizeof(t[2])
        raise Unsupported('sizeof %r' % (t,))

    # -------------------------------------------------------------- variables
    def l_DeclRefExpr(self, n, tu):
        d = n['referencedDecl']
        i, name = d['id'], d.get('name')
        if name in ('cout', 'cerr', 'clog'):
            s = TmpLV(Stream(name))
            return lambda st: s
        line = n.get('_line')
        if name in ('app', 'trunc', 'ate', 'binary', 'out', 'in') and 'penmode' in str(d.get('type', {})):
            m = TmpLV(Opaque('mode', (name,)))
            return lambda st: m

        def go(st):
            lv = st.env.get(i)
            if lv is not None:
                return lv
            oid = 'g:%s' % name
            if oid in st.mem:
                return CellLV(oid, ())
            g = self.prog.statics.get(name)
            if g is not None:
                t = ntype(g)
                init = kids(g)
                st.mem[oid] = Cells(t, name, st.token)
                st.mem[oid].zero = True
                if not is_const(g):
                    raise Unsupported('mutable global %s' % name)
                if init:
                    self.init_var(st, CellLV(oid, ()), t, init[-1], g.get('_tu') or tu)
                    self.all_const(st, oid, name)
                return CellLV(oid, ())
            raise Unsupported('variable %s' % name)
        return go

    def e_DeclRefExpr(self, n, tu):
        d = n['referencedDecl']
        if d.get('kind') == 'EnumConstantDecl':
            return lambda st: Opaque('enum ' + d.get('name', ''))
        if d.get('kind') in ('FunctionDecl', 'CXXMethodDecl'):
            v = FnRef(d.get('name'), d.get('id'))
            return lambda st: v
        f = self.l_DeclRefExpr(n, tu)
        return lambda st: self.read(st, f(st))

    def e_MemberExpr(self, n, tu):
        f = self.l_MemberExpr(n, tu)
        return lambda st: self.read(st, f(st))

    def l_MemberExpr(self, n, tu):
        name = n['name']
        base = kids(n)[0]
        if n.get('isArrow'):
            f = self.val(base, tu)

            def go(st):
                return self.member(self.deref(st, f(st), '->' + name), name)
        else:
            if self.is_lv(base):
                g = self.lval(base, tu)
                return lambda st: self.member(g(st), name)
            f = self.expr(base, tu)

            def go(st):
                v = f(st)
                if isinstance(v, Rec):
                    return TmpLV(v.d[(name,)])
                return self.member(v, name)
        return go

    def member(self, lv, name):
        if isinstance(lv, CellLV):
            return CellLV(lv.o, lv.p + (name,))
        if isinstance(lv, RecLV):
            return RecLV(lv.o, lv.pos, lv.p + (name,))
        raise Unsupported('member %s of %r' % (name, lv))

    def deref(self, st, p, what=''):
        if isinstance(p, ItVal):
            rl = st.mem[p.o]
            rng = And(le(0, p.pos), lt(p.pos, rl.size))
            if st.pc.decide(rng) is not True:
                self.bound_fail(st, rng, 'iterator of %s' % rl.name)
            LOG.ok('in-bounds')
            return RecLV(p.o, p.pos, ())
        if not isinstance(p, Ptr):
            raise Unsupported('dereference of %r' % (p,))
        if p.null.op != 'false':
            d = st.pc.decide(p.null)
            if d is None:
                # look through the values merged at earlier joins, in the condition and in the facts
                cx = st.pc.extend(*[deep(f, st.pc, 'ite') for f in list(st.pc.fs)[-4:]])
                d = cx.decide(deep(p.null, cx, 'ite'))
            if d is not False:
                if d is True:
                    self.hard_fail(st, 'null-deref', what)
                m = self.counterexample(st.pc, p.null)
                LOG.fail('null-deref', what, m is not None, m)
                raise Refuted('null-deref') if m is not None else Unsupported('null-deref')
            LOG.ok('null-deref')
        if p.lv is None:
            raise Unsupported('dereference of an unknown pointer')
        return p.lv

    def offset(self, lv, k):
        """lvalue k elements further"""
        if isinstance(lv, ArrLV):
            return ArrLV(lv.o, lv.pre, lv.off + k)
        if isinstance(lv, CellLV):
            c = k.const()
            if c == 0:
                return lv
            if lv.p and (isinstance(lv.p[-1], int) or isinstance(lv.p[-1], Poly)):
                j = P(lv.p[-1]) + k
                jc = j.const()
                return CellLV(lv.o, lv.p[:-1] + ((jc if jc is not None else j),))
            return CellLV(lv.o, lv.p + ((c if c is not None else k),))
        if isinstance(lv, RecLV):
            c = k.const()
            if c == 0:
                return lv
            if lv.p and isinstance(lv.p[-1], (int, Poly)) and not isinstance(lv.p[-1], bool):
                j = P(lv.p[-1]) + k
                jc = j.const()
                return RecLV(lv.o, lv.pos, lv.p[:-1] + ((jc if jc is not None else j),))
        raise Unsupported('pointer arithmetic on %r' % (lv,))

    def l_ArraySubscriptExpr(self, n, tu):
        a, b = kids(n)
        ta = ntype(a)
        if ta in ('i',):
            a, b = b, a
        fa, fb = self.val(a, tu), self.val(b, tu)
        line = n.get('_line')

        def go(st):
            p = fa(st)
            k = fb(st)
            if isinstance(k, Formula):
                k = ind(k)
            LOG.line = line
            return self.offset(self.deref(st, p, 'subscript'), k)
        return go

    def e_ArraySubscriptExpr(self, n, tu):
        f = self.l_ArraySubscriptExpr(n, tu)
        return lambda st: self.read(st, f(st))

    # -------------------------------------------------------------- casts
    def e_ImplicitCastExpr(self, n, tu):
        ck = n['castKind']
        sub = kids(n)[0]
        if ck == 'LValueToRValue':
            g = self.lval(sub, tu)
            line = n.get('_line')

            def go(st):
                lv = g(st)
                LOG.line = line
                return self.read(st, lv)
            return go
        if ck == 'ArrayToPointerDecay':
            if strip(sub)['kind'] == 'StringLiteral':
                return self.expr(sub, tu)
            g = self.lval(sub, tu)

            def go(st):
                lv = g(st)
                if isinstance(lv, CellLV):
                    return Ptr(CellLV(lv.o, lv.p + (0,)))
                if isinstance(lv, RecLV):
                    return Ptr(RecLV(lv.o, lv.pos, lv.p + (0,)))
                if isinstance(lv, TmpLV):
                    return lv.v
                raise Unsupported('decay of %r' % (lv,))
            return go
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return self.expr(sub, tu)
        if ck == 'NullToPointer':
            return lambda st: NULL
        if ck in ('PointerToBoolean', 'MemberPointerToBoolean'):
            f = self.val(sub, tu)
            return lambda st: conv(f(st), 'b')
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            f = self.val(sub, tu)
            return lambda st: conv(f(st), 'b')
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingCast', 'BooleanToSignedIntegral'):
            f = self.val(sub, tu)
            t = ntype(n)

            def go(st):
                v = f(st)
                if isinstance(v, Formula):
                    return ind(v)
                return v
            return go
        if ck == 'FloatingToIntegral':
            f = self.val(sub, tu)

            def go(st):
                v = f(st)
                c = v.const()
                if c is None:
                    if T.is_int_poly(v):
                        return v
                    raise Unsupported('double to int')
                import math
                return P(math.trunc(c))
            return go
        if ck in ('NoOp', 'BitCast', 'DerivedToBase', 'UncheckedDerivedToBase', 'ConstructorConversion',
                  'UserDefinedConversion', 'ToVoid', 'Dependent'):
            f = self.val(sub, tu)
            t = ntype(n)
            if ck == 'BitCast' or t[0] == 'ptr':
                def go(st):
                    v = f(st)
                    if isinstance(v, Raw) and t[0] == 'ptr':
                        return self.allocate(st, v, t[1])
                    return v
                return go
            return f
        raise Unsupported('cast %s' % ck)
    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = \
        e_CXXReinterpretCastExpr = e_ImplicitCastExpr

    def l_ImplicitCastExpr(self, n, tu):
        if n['castKind'] in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'LValueBitCast'):
            return self.lval(kids(n)[0], tu)
        raise Unsupported('lvalue cast %s' % n['castKind'])
    l_CStyleCastExpr = l_CXXStaticCastExpr = l_CXXConstCastExpr = l_ImplicitCastExpr

    def allocate(self, st, raw, t):
        if t == ('rec', 'void'):
            return raw
        sz = self.sizeof(t)
        cnt = Poly({m: T._norm(T.Fraction(c) / sz) for m, c in raw.nbytes.t.items()})
        if not T.is_int_poly(cnt):
            raise Unsupported('allocation size %r' % raw.nbytes)
        c = cnt.const()
        name = 'heap@%s' % getattr(LOG, 'line', '')
        if c is not None:
            oid = st.new(('arr', c, t), name)
            st.mem[oid].zero = raw.zero
            st.allocs = st.allocs + (oid,)
            return Ptr(CellLV(oid, (0,)))
        f = self.factor(cnt)
        if f is None:
            raise Unsupported('allocation shape %r' % cnt)
        grid, ns = f
        nm = fresh_name('heap')
        base = Base(nm, (lambda s, co, cx, mode: ZERO) if raw.zero else None)
        base.uninit = not raw.zero
        a = Arr(nm, grid, ns, t if t in ('i', 'r', 'b') else 'r', base)
        oid = st.newarr(a)
        st.allocs = st.allocs + (oid,)
        return Ptr(ArrLV(oid, (), ZERO))

    # -------------------------------------------------------------- operators
    def e_UnaryOperator(self, n, tu):
        op = n['opcode']
        sub = kids(n)[0]
        if op in ('++', '--'):
            g = self.lval(sub, tu)
            post = n.get('isPostfix')
            d = P(1 if op == '++' else -1)

            def go(st):
                lv = g(st)
                old = self.read(st, lv)
                new = self.plus(old, d)
                self.write(st, lv, new)
                return old if post else new
            return go
        if op == '&':
            s = strip(sub)
            g = self.lval(sub, tu)
            return lambda st: Ptr(g(st))
        if op == '*':
            f = self.l_UnaryOperator(n, tu)
            return lambda st: self.read(st, f(st))
        f = self.val(sub, tu)
        if op == '!':
            return lambda st: Not(conv(f(st), 'b'))
        if op == '-':
            return lambda st: -conv(f(st), 'r')
        if op in ('+', '__extension__'):
            return f
        raise Unsupported('unary %s' % op)

    def plus(self, v, d):
        if isinstance(v, Poly):
            return v + d
        if isinstance(v, Formula):
            return ind(v) + d
        if isinstance(v, ItVal):
            return ItVal(v.o, v.pos + d)
        if isinstance(v, Ptr):
            if v.lv is None:
                raise Unsupported('arithmetic on an unknown pointer')
            return Ptr(self.offset(v.lv, d), v.null)
        raise Unsupported('addition to %r' % (v,))

    def l_UnaryOperator(self, n, tu):
        op = n['opcode']
        sub = kids(n)[0]
        if op == '*':
            f = self.val(sub, tu)
            return lambda st: self.deref(st, f(st), '*')
        if op in ('++', '--'):
            e = self.e_UnaryOperator(n, tu)
            g = self.lval(sub, tu)

            def go(st):
                e(st)
                return g(st)
            return go
        if op in ('__extension__',):
            return self.lval(sub, tu)
        raise Unsupported('lvalue unary %s' % op)

    def e_BinaryOperator(self, n, tu):
        op = n['opcode']
        a, b = kids(n)
        if op == '=':
            g = self.l_BinaryOperator(n, tu)
            return lambda st: self.read(st, g(st))
        if op == ',':
            fa, fb = self.disc(a, tu), self.val(b, tu)

            def go(st):
                fa(st)
                return fb(st)
            return go
        if op in ('&&', '||'):
            fa, fb = self.cond(a, tu), self.cond(b, tu)
            eff = has_effects(b)
            is_and = op == '&&'

            def go(st):
                x = fa(st)
                d = st.pc.decide(x)
                if d is False:
                    return FALSE if is_and else fb(st)
                if d is True:
                    return fb(st) if is_and else TRUE
                ev = x if is_and else Not(x)
                if not eff:
                    sv = st.pc
                    st.pc = sv.extend(ev)
                    y = fb(st)
                    st.pc = sv
                    return And(x, y) if is_and else Or(x, y)
                r = self.branch_value(st, ev, fb, lambda s: FALSE if is_and else TRUE)
                return r
            return go
        fa, fb = self.val(a, tu), self.val(b, tu)
        if op in ('+', '-'):
            sg = P(1 if op == '+' else -1)

            def go(st):
                x, y = fa(st), fb(st)
                if isinstance(x, Poly) and isinstance(y, Poly):
                    return x + y if op == '+' else x - y
                if isinstance(x, (Ptr, ItVal)):
                    if isinstance(y, (Ptr, ItVal)):
                        return self.ptr_diff(x, y)
                    return self.plus(x, conv(y, 'i') * sg)
                if isinstance(y, (Ptr, ItVal)):
                    return self.plus(y, conv(x, 'i'))
                x, y = conv(x, 'r'), conv(y, 'r')
                return x + y if op == '+' else x - y
            return go
        if op == '*':
            return lambda st: conv(fa(st), 'r') * conv(fb(st), 'r')
        if op in ('/', '%'):
            isint = ntype(n) == 'i'

            def go(st):
                x, y = conv(fa(st), 'r'), conv(fb(st), 'r')
                if isint:
                    return int_div(self, st, x, y, op)
                c = y.const()
                if c == 0:
                    # IEEE: not an error in itself (dz of a 2D cell); the value is opaque
                    return fn('div0', (x,), 'r')
                return div(x, y)
            return go
        if op in ('<', '<=', '>', '>=', '==', '!='):
            isint = ntype(a) in ('i', 'b')

            def go(st):
                x, y = fa(st), fb(st)
                return self.compare(st, op, x, y)
            return go
        if op in ('&', '|', '<<', '>>', '^'):
            def go(st):
                x, y = fa(st), fb(st)
                if isinstance(x, Formula) and isinstance(y, Formula) and op in '&|':
                    return And(x, y) if op == '&' else Or(x, y)
                cx, cy = conv(x, 'i'), conv(y, 'i')
                k1, k2 = cx.const(), cy.const()
                # booleans promoted to int: both 0/1
                if op in '&|' and k1 is None or k2 is None:
                    bx, by = self.as_bool(cx), self.as_bool(cy)
                    if bx is not None and by is not None:
                        return ind(And(bx, by) if op == '&' else Or(bx, by))
                    if op == '<<' and k2 is not None:
                        return cx * (1 << k2)
                    raise Unsupported('bit operation')
                if k1 is None or k2 is None:
                    raise Unsupported('bit operation')
                return P({'&': k1 & k2, '|': k1 | k2, '^': k1 ^ k2, '<<': k1 << max(k2, 0), '>>': k1 >> max(k2, 0)}[op])
            return go
        raise Unsupported('operator %s' % op)

    def as_bool(self, p):
        """formula f with p == ind(f), or None"""
        c = p.const()
        if c in (0, 1):
            return TRUE if c else FALSE
        at = p.atoms()
        if all(ATOMS[a].kind == 'ind' for a in at) and len(at) <= 4:
            f = eq(p, 1)
            if ind(f) == p or not any(True for _ in ()):
                g = Or(eq(p, 0), eq(p, 1))
                if g.op == 'true':
                    return f
        return None

    def ptr_diff(self, x, y):
        if isinstance(x, ItVal) and isinstance(y, ItVal) and x.o == y.o:
            return x.pos - y.pos
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            a, b = x.lv, y.lv
            if isinstance(a, ArrLV) and isinstance(b, ArrLV) and a.o == b.o and a.pre == b.pre:
                return a.off - b.off
            if isinstance(a, CellLV) and isinstance(b, CellLV) and a.o == b.o and a.p[:-1] == b.p[:-1]:
                return P(a.p[-1]) - P(b.p[-1])
        raise Unsupported('pointer difference')

    def compare(self, st, op, x, y):
        if isinstance(x, (Ptr, ItVal)) or isinstance(y, (Ptr, ItVal)):
            if isinstance(x, Poly) and x.const() == 0:
                x = NULL
            if isinstance(y, Poly) and y.const() == 0:
                y = NULL
            if isinstance(x, ItVal) and isinstance(y, ItVal) and x.o == y.o:
                return {'==': eq, '!=': ne, '<': lt, '<=': le, '>': gt, '>=': ge}[op](x.pos, y.pos)
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                if y.null.op == 'true' or x.null.op == 'true':
                    f = x.null if y.null.op == 'true' else y.null
                    if op == '==':
                        return f
                    if op == '!=':
                        return Not(f)
                if x.null.op == 'false' and y.null.op == 'false':
                    if same_lv(x.lv, y.lv):
                        return TRUE if op in ('==', '<=', '>=') else FALSE
                    try:
                        d = self.ptr_diff(x, y)
                        return {'==': eq, '!=': ne, '<': lt, '<=': le, '>': gt, '>=': ge}[op](d, 0)
                    except Unsupported:
                        if op == '==':
                            return FALSE
                        if op == '!=':
                            return TRUE
            raise Unsupported('pointer comparison')
        if isinstance(x, Formula) and isinstance(y, Formula):
            if op == '==':
                return Iff(x, y)
            if op == '!=':
                return Not(Iff(x, y))
        if isinstance(x, Formula) and isinstance(y, Poly) and y.const() in (0, 1) and op in ('==', '!='):
            return x if (y.const() == 1) == (op == '==') else Not(x)
        x, y = conv(x, 'r'), conv(y, 'r')
        if op in ('==', '!='):
            bx, by = self.as_bool(x), self.as_bool(y)
            if bx is not None and by is not None and (bx.op not in ('true', 'false') or by.op not in ('true', 'false')):
                return Iff(bx, by) if op == '==' else Not(Iff(bx, by))
        return self.cmp(op, x, y, st.pc)

    def l_BinaryOperator(self, n, tu):
        op = n['opcode']
        a, b = kids(n)
        if op == '=':
            g, f = self.lval(a, tu), self.val(b, tu)
            t = ntype(a)
            line = n.get('_line')

            def go(st):
                v = f(st)
                lv = g(st)
                LOG.line = line
                self.write(st, lv, self.coerce(st, v, t))
                return lv
            return go
        if op == ',':
            fa, g = self.disc(a, tu), self.lval(b, tu)

            def go(st):
                fa(st)
                return g(st)
            return go
        raise Unsupported('lvalue %s' % op)

    def coerce(self, st, v, t):
        if isinstance(v, Raw):
            if t[0] == 'ptr':
                return v if t[1] == ('rec', 'void') else self.allocate(st, v, t[1])
        if t in ('i', 'r', 'b') and isinstance(v, (Poly, Formula, Ptr)):
            return conv(v, t)
        return v

    def e_CompoundAssignOperator(self, n, tu):
        g = self.l_CompoundAssignOperator(n, tu)
        return lambda st: self.read(st, g(st))

    def l_CompoundAssignOperator(self, n, tu):
        op = n['opcode'][:-1]
        a, b = kids(n)
        g, f = self.lval(a, tu), self.val(b, tu)
        isint = ntype(a) == 'i'
        isb = ntype(a) == 'b'
        line = n.get('_line')

        def go(st):
            y = f(st)
            lv = g(st)
            LOG.line = line
            x = self.read(st, lv)
            if isb or op in '|&':
                if op not in '|&':
                    raise Unsupported('compound ' + op)
                if isinstance(x, Formula):
                    y = conv(y, 'b') if isinstance(y, Formula) or self.as_bool(y) is None else self.as_bool(y)
                    v = Or(x, y) if op == '|' else And(x, y)
                else:
                    bx, by = self.as_bool(conv(x, 'i')), self.as_bool(conv(y, 'i'))
                    if bx is None or by is None:
                        raise Unsupported('bit operation')
                    v = ind(Or(bx, by) if op == '|' else And(bx, by))
            elif isinstance(x, (Ptr, ItVal)):
                k = conv(y, 'i')
                v = self.plus(x, k if op == '+' else -k)
            else:
                x, y = conv(x, 'r'), conv(y, 'r')
                if op == '+':
                    v = x + y
                elif op == '-':
                    v = x - y
                elif op == '*':
                    v = x * y
                elif op == '/':
                    v = int_div(self, st, x, y, '/') if isint else (div(x, y) if y.const() != 0 else fn('div0', (x,)))
                elif op == '%':
                    v = int_div(self, st, x, y, '%')
                else:
                    raise Unsupported('compound ' + op)
            self.write(st, lv, v)
            return lv
        return go

    def e_ConditionalOperator(self, n, tu):
        c, a, b = kids(n)
        fc = self.cond(c, tu)
        if calls_abort(b) or calls_abort(a):
            neg = not calls_abort(b)
            other = self.disc(a if not neg else b, tu)

            def go(st):
                f = fc(st)
                if neg:
                    f = Not(f)
                if st.pc.decide(f) is True:
                    LOG.ok('assert')
                else:
                    st.assume(f)
                return None
            return go
        fa, fb = self.val(a, tu), self.val(b, tu)
        eff = has_effects(a) or has_effects(b)

        def go(st):
            f = fc(st)
            d = st.pc.decide(f)
            if d is True:
                return fa(st)
            if d is False:
                return fb(st)
            if eff:
                return self.branch_value(st, f, fa, fb)
            sv = st.pc
            st.pc = sv.extend(f)
            x = fa(st)
            st.pc = sv.extend(Not(f))
            y = fb(st)
            st.pc = sv
            return mix(f, x, y)
        return go

    def l_ConditionalOperator(self, n, tu):
        c, a, b = kids(n)
        fc = self.cond(c, tu)
        fa, fb = self.lval(a, tu), self.lval(b, tu)

        def go(st):
            f = fc(st)
            d = st.pc.decide(f)
            if d is None:
                raise Unsupported('conditional lvalue')
            return fa(st) if d else fb(st)
        return go

    def branch_value(self, st, f, fa, fb):
        base = st.pc
        s1, s2 = st.copy(), st.copy()
        s1.assume(f)
        s2.assume(Not(f))
        x, y = fa(s1), fb(s2)
        m = self.merge2(s1, s2, base)
        env, this, ret = st.env, st.this, st.ret
        self.adopt(st, m)
        st.env, st.this, st.ret = env, this, ret
        return mix(f, x, y)

    # -------------------------------------------------------------- calls
    def disc(self, n, tu):
        """evaluate for effects"""
        k = strip(n)['kind']
        m = strip(n)
        if k in ('BinaryOperator', 'CompoundAssignOperator') and (k[0] == 'C' or m['opcode'] == '='):
            return self.lval(m, tu)
        if k == 'UnaryOperator' and m['opcode'] in ('++', '--'):
            return self.e_UnaryOperator(m, tu)
        if self.is_lv(m) and k in ('DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr'):
            return self.lval(m, tu)
        if self.is_lv(m) and k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            return self.expr(m, tu)
        if m['kind'] in ('CStyleCastExpr', 'ImplicitCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr') \
                and m.get('castKind') == 'ToVoid':
            return self.disc(kids(m)[0], tu)
        return self.val(m, tu)

    def callee(self, n):
        return strip_casts(kids(n)[0])

    def arg_closures(self, params, args, tu):
        out = []
        for i, a in enumerate(args):
            t = ptype(params[i]) if i < len(params) else None
            if t is not None and t[0] == 'ref' and (self.is_lv(a) or strip(a)['kind'] == 'MaterializeTemporaryExpr'):
                out.append(self.lval(a, tu))
            else:
                f = self.val(a, tu)
                if t in ('i', 'r', 'b'):
                    out.append(lambda st, f=f, t=t: self.coerce(st, f(st), t))
                else:
                    out.append(f)
        return out

    def fn_params(self, qt):
        """parameter types out of a function type"""
        i = qt.rindex(')')
        depth = 0
        j = i
        while j >= 0:
            if qt[j] == ')':
                depth += 1
            elif qt[j] == '(':
                depth -= 1
                if depth == 0:
                    break
            j -= 1
        inner = qt[j + 1:i]
        out, depth, cur = [], 0, ''
        for ch in inner:
            if ch in '(<[':
                depth += 1
            elif ch in ')>]':
                depth -= 1
            if ch == ',' and depth == 0:
                out.append(cur.strip())
                cur = ''
            else:
                cur += ch
        if cur.strip() and cur.strip() != 'void':
            out.append(cur.strip())
        return out

    def e_CallExpr(self, n, tu):
        c = self.callee(n)
        args = kids(n)[1:]
        if c['kind'] != 'DeclRefExpr':
            raise Unsupported('call through %s' % c['kind'])
        d = c['referencedDecl']
        name = d.get('name', '')
        mangled = tu.mangled.get(d['id'])
        if mangled not in self.prog.funcs:
            # declared in this TU, defined in another
            fd = tu.by_id.get(d['id'])
            if fd is not None and fd.get('mangledName') in self.prog.funcs:
                mangled = fd['mangledName']
        if mangled in self.prog.funcs:
            fs = self.arg_closures(self.fn_params(d['type']['qualType']), args, tu)
            line = n.get('_line')

            def go(st):
                vals = [f(st) for f in fs]
                return self.call(mangled, st, None, vals, n)
            return go
        return self.builtin(name, n, args, tu)

    def l_CallExpr(self, n, tu):
        f = self.e_CallExpr(n, tu)

        def go(st):
            v = f(st)
            if isinstance(v, (CellLV, ArrLV, RecLV, TmpLV)):
                return v
            return TmpLV(v)
        return go

    def builtin(self, name, n, args, tu):
        name = name.replace('__builtin_', '')
        if name in IGNORED_CALLS:
            return lambda st: ZERO
        if name in ('malloc', 'calloc'):
            fs = [self.val(a, tu) for a in args]

            def go(st):
                vs = [conv(f(st), 'i') for f in fs]
                LOG.line = n.get('_line')
                return Raw(vs[0], False) if name == 'malloc' else Raw(vs[0] * vs[1], True)
            return go
        if name == 'free':
            f = self.val(args[0], tu)

            def go(st):
                self.do_free(st, f(st))
            return go
        if name in ('sqrt', 'sqrtf', 'fabs', 'abs', 'fmin', 'fmax', 'min', 'max', 'pow'):
            fs = [self.val(a, tu) for a in args]

            def go(st):
                vs = [conv(f(st), 'r') for f in fs]
                if name.startswith('sqrt'):
                    return T.sqrt(vs[0])
                if name in ('fabs', 'abs'):
                    v = vs[0]
                    if v.const() is None and T.is_int_poly(v):
                        return ite(le(0, v), v, -v)
                    return T.absval(v)
                if name in ('fmin', 'min', 'fmax', 'max'):
                    c = lt(vs[1], vs[0]) if 'min' in name else lt(vs[0], vs[1])
                    d = st.pc.decide(c)
                    if d is not None:
                        return vs[1] if d else vs[0]
                    return ite(c, vs[1], vs[0])
                e = vs[1].const()
                if e is not None and e == int(e) and 0 <= e <= 8:
                    return vs[0] ** int(e)
                if e == T.Fraction(1, 2):
                    return T.sqrt(vs[0])
                raise Unsupported('pow')
            return go
        if name in ('memset',):
            fs = [self.val(a, tu) for a in args]

            def go(st):
                p, v, nb = [f(st) for f in fs]
                if conv(v, 'i').const() != 0:
                    raise Unsupported('memset value')
                self.bulk(st, p, conv(nb, 'i'), None, bytes_=True)
                return p
            return go
        if name in ('memcpy', 'memmove'):
            fs = [self.val(a, tu) for a in args]

            def go(st):
                p, s, nb = [f(st) for f in fs]
                self.bulk(st, p, conv(nb, 'i'), s, bytes_=True)
                return p
            return go
        if name in ('fill', 'fill_n', 'copy', 'copy_n'):
            fs = [self.val(a, tu) for a in args]

            def go(st):
                a, b, c = [f(st) for f in fs]
                if name == 'fill':
                    self.bulk(st, a, self.ptr_diff(b, a), None, value=c)
                elif name == 'fill_n':
                    self.bulk(st, a, conv(b, 'i'), None, value=c)
                elif name == 'copy':
                    self.bulk(st, c, self.ptr_diff(b, a), a)
                else:
                    self.bulk(st, c, conv(b, 'i'), a)
                return a
            return go
        if name == 'swap' and len(args) == 2:
            gs = [self.lval(a, tu) for a in args]

            def go(st):
                a, b = [g(st) for g in gs]
                x, y = self.read(st, a), self.read(st, b)
                self.write(st, a, y)
                self.write(st, b, x)
            return go
        if name in ('setw', 'setprecision', 'setfill'):
            return lambda st: Manip(name)
        if name in ('__assert_fail', 'abort', 'exit'):
            def go(st):
                st.assume(FALSE)
            return go
        if name in ('nan', 'nanf', 'inf', 'huge_val'):
            return lambda st: sym('NAN', 'r')
        if name in ('begin', 'end') and args:
            f = self.lval(args[0], tu)
            return lambda st: self.list_it(st, f(st), name)
        if name in ('to_string',):
            f = self.val(args[0], tu)
            return lambda st: Opaque('str', (f(st),))
        if name in ('move', 'forward'):
            return self.val(args[0], tu)
        raise Unsupported('call of %s' % name)

    def bulk(self, st, dst, count, src, bytes_=False, value=None):
        """memset 0 / memcpy / fill of count elements"""
        lv = self.deref(st, dst, 'bulk')
        slv = self.deref(st, src, 'bulk') if src is not None else None
        if isinstance(lv, CellLV):
            t = sub_type(self, st.mem[lv.o].type, tuple(c for c in lv.p))
        elif isinstance(lv, RecLV):
            t = sub_type(self, ('rec', st.mem[lv.o].rec), lv.p)
        else:
            t = st.mem[lv.o].sort
        n = count
        if bytes_:
            if t[0] in ('rec', 'arr'):
                paths = list(leaf_paths(self, t))
                for p in paths:
                    self.write(st, CellLV(lv.o, lv.p + p), zero_of(sub_type(self, t, p)) if slv is None else
                               self.read(st, CellLV(slv.o, slv.p + p)))
                return
            sz = self.sizeof(t)
            n = Poly({m: T._norm(T.Fraction(c) / sz) for m, c in count.t.items()})
            if not T.is_int_poly(n):
                raise Unsupported('byte count')
        zero = value if value is not None else zero_of(t)
        c = n.const()
        if c is not None:
            for i in range(c):
                self.write(st, self.offset(lv, P(i)), zero if slv is None else self.read(st, self.offset(slv, P(i))))
            return
        f = self.factor(n)
        if f is None:
            raise Unsupported('bulk count %r' % n)
        grid, ns = f
        q = tuple((mk_atom('sym', (fresh_name('q'),), 'i'), g) for g in grid)
        flat = ZERO
        for a, g in q:
            flat = flat * g + P(a)
        sv = st.pc
        st.pc = sv.extend(*[And(le(0, P(a)), lt(P(a), g)) for a, g in q])
        evs = []
        for s in range(ns):
            off = flat * ns + s
            v = zero if slv is None else self.read(st, self.offset(slv, off))
            arr, co, slot = self.locate(st, self.offset(lv, off))
            evs.append((arr, slot, co, v))
        for arr, slot, co, v in evs:
            arr.write(slot, co, conv(v, arr.sort), TRUE, q)
        st.pc = sv

    def do_free(self, st, p):
        if isinstance(p, Raw):
            return
        if not isinstance(p, Ptr):
            raise Unsupported('free of %r' % (p,))
        if p.null.op == 'true':
            return
        lv = p.lv
        if lv is None:
            raise Unsupported('free of an unknown pointer')
        tok = None
        if isinstance(lv, ArrLV) and not lv.pre:
            a = st.mem[lv.o]
            if lv.off.const() != 0:
                self.hard_fail(st, 'free', 'free of an interior pointer of %s' % a.name)
            if a.alive is not True:
                self.hard_fail(st, 'free', 'double free of %s' % a.name)
            a.alive = False
            tok = ('free', lv.o, p.null)
        elif isinstance(lv, ArrLV):
            tok = ('freerec', lv.o, lv.pre, p.null)
        elif isinstance(lv, CellLV):
            if ('freed', lv.o) in st.ghost:
                self.hard_fail(st, 'free', 'double free')
            st.ghost[('freed', lv.o)] = TRUE
            tok = ('free', lv.o, p.null)
        LOG.ok('free')
        st.traces['$free'] = st.traces.get('$free', ()) + (tok,)

    # -------------------------------------------------------------- members, lists, streams
    def list_it(self, st, lv, which):
        o = self.list_of(st, lv)
        if o is None:
            if isinstance(lv, CellLV):
                t = sub_type(self, st.mem[lv.o].type, lv.p)
                if t[0] == 'arr':
                    return Ptr(CellLV(lv.o, lv.p + ((0 if which == 'begin' else t[1]),)))
            raise Unsupported('begin/end')
        rl = st.mem[o]
        return ItVal(o, ZERO if which == 'begin' else rl.size)

    def list_of(self, st, lv):
        if isinstance(lv, CellLV):
            v = st.mem[lv.o].cells.get(lv.p)
            if isinstance(v, ListRef):
                return v.o
        return None

    def e_CXXMemberCallExpr(self, n, tu):
        c = strip(kids(n)[0])
        args = kids(n)[1:]
        if c['kind'] != 'MemberExpr':
            raise Unsupported('member call')
        name = c['name']
        base = kids(c)[0]
        mid = c.get('referencedMemberDecl')
        mangled = tu.mangled.get(mid)
        if mangled in self.prog.funcs:
            decl = tu.by_id.get(mid)
            fs = self.arg_closures(self.fn_params(decl['type']['qualType']), args, tu)
            if c.get('isArrow'):
                fb = self.val(base, tu)
            else:
                g = self.lval(base, tu)
                fb = lambda st: Ptr(g(st))

            def go(st):
                this = fb(st)
                vals = [f(st) for f in fs]
                self.deref(st, this, 'method ' + name)
                return self.call(mangled, st, this, vals, n)
            return go
        # library object
        if c.get('isArrow'):
            fb0 = self.val(base, tu)
            fb = lambda st: self.deref(st, fb0(st))
        elif self.is_lv(base):
            fb = self.lval(base, tu)
        else:
            f0 = self.val(base, tu)
            fb = lambda st: TmpLV(f0(st))
        fs = [self.val(a, tu) for a in args]

        def go(st):
            lv = fb(st)
            return self.lib_method(st, lv, name, [f(st) for f in fs], n)
        return go

    def l_CXXMemberCallExpr(self, n, tu):
        f = self.e_CXXMemberCallExpr(n, tu)

        def go(st):
            v = f(st)
            return v if isinstance(v, (CellLV, ArrLV, RecLV, TmpLV)) else TmpLV(v)
        return go

    def lib_method(self, st, lv, name, args, n):
        o = self.list_of(st, lv)
        if o is not None:
            rl = st.mem[o]
            if name in ('begin', 'cbegin'):
                return ItVal(o, ZERO)
            if name in ('end', 'cend'):
                return ItVal(o, rl.size)
            if name == 'size':
                return rl.size
            if name == 'empty':
                return eq(rl.size, 0)
            if name == 'push_back':
                pos = rl.size
                rl.size = pos + 1
                self.write_rec(st, RecLV(o, pos, ()), args[0])
                return None
            if name in ('back', 'front'):
                return RecLV(o, rl.size - 1 if name == 'back' else ZERO, ())
            if name == 'clear':
                rl.size = ZERO
                return None
            raise Unsupported('list::%s' % name)
        v = self.read(st, lv)
        if isinstance(v, Stream):
            if name == 'open':
                self.emit(st, v, ('open', args[0], tuple(a for a in args[1:] if not (isinstance(a, Opaque) and a.what == 'default'))))
                return None
            if name == 'close':
                self.emit(st, v, ('close',))
                return None
            if name == 'str':
                return Opaque('str', st.traces.get(v.o, ()))
            if name in ('good', 'is_open'):
                return TRUE
            if name in ('precision', 'width', 'setf', 'flush', 'unsetf', 'fill'):
                return ZERO
            raise Unsupported('stream::%s' % name)
        if isinstance(v, (Str, Opaque)) and name in ('c_str', 'data', 'str'):
            return v
        raise Unsupported('method %s' % name)

    def emit(self, st, s, tok):
        st.traces[s.o] = st.traces.get(s.o, ()) + (tok,)

    def e_CXXOperatorCallExpr(self, n, tu):
        c = self.callee(n)
        name = c['referencedDecl'].get('name', '')
        args = kids(n)[1:]
        mangled = tu.mangled.get(c['referencedDecl'].get('id'))
        if mangled in self.prog.funcs:
            raise Unsupported('user operator')
        if name == 'operator<<':
            fa = self.val(args[0], tu)
            fb = self.val(args[1], tu)

            def go(st):
                s = fa(st)
                v = fb(st)
                if not isinstance(s, Stream):
                    raise Unsupported('<< on %r' % (s,))
                if isinstance(v, Manip):
                    return s
                if isinstance(v, FnRef):
                    if v.name == 'endl':
                        self.emit(st, s, ('out', Str('\n')))
                    elif v.name in ('scientific', 'fixed', 'flush', 'left', 'right', 'ends', 'dec'):
                        pass
                    else:
                        raise Unsupported('manipulator %s' % v.name)
                    return s
                self.emit(st, s, ('out', v))
                return s
            return go
        if name == 'operator=':
            g, f = self.lval(args[0], tu), self.val(args[1], tu)

            def go(st):
                lv = g(st)
                v = f(st)
                self.write(st, lv, v)
                return v
            return go
        if name == 'operator|':
            fa, fb = self.val(args[0], tu), self.val(args[1], tu)

            def go(st):
                a, b = fa(st), fb(st)
                if not all(isinstance(x, Opaque) and x.what == 'mode' for x in (a, b)):
                    raise Unsupported('operator|')
                return Opaque('mode', a.args + b.args)
            return go
        if name in ('operator!=', 'operator=='):
            fa, fb = self.val(args[0], tu), self.val(args[1], tu)
            return lambda st: self.compare(st, name[8:], fa(st), fb(st))
        if name in ('operator++', 'operator--'):
            g = self.lval(args[0], tu)
            d = P(1 if name == 'operator++' else -1)
            post = len(args) > 1

            def go(st):
                lv = g(st)
                v = self.read(st, lv)
                w = self.plus(v, d)
                self.write(st, lv, w)
                return v if post else w
            return go
        if name in ('operator*', 'operator->'):
            if name == 'operator->':
                return self.val(args[0], tu)
            g = self.l_CXXOperatorCallExpr(n, tu)
            return lambda st: self.read(st, g(st))
        if name == 'operator+':
            fs = [self.val(a, tu) for a in args]
            return lambda st: Opaque('strcat', tuple(f(st) for f in fs))
        raise Unsupported(name)

    def l_CXXOperatorCallExpr(self, n, tu):
        c = self.callee(n)
        name = c['referencedDecl'].get('name', '')
        args = kids(n)[1:]
        if name == 'operator*':
            f = self.val(args[0], tu)
            return lambda st: self.deref(st, f(st), '*it')
        f = self.e_CXXOperatorCallExpr(n, tu)

        def go(st):
            return TmpLV(f(st))
        return go

    def e_CXXConstructExpr(self, n, tu):
        t = ntype(n)
        ks = kids(n)
        if t[0] == 'rec' and t[1] in self.prog.records:
            if not ks:
                z = n.get('zeroing') or n['kind'] == 'CXXTemporaryObjectExpr'
                if z:
                    return lambda st: self.zero_val(t)
                return lambda st: Opaque('default')
            if len(ks) == 1:            # copy
                return self.val(ks[0], tu)
            raise Unsupported('constructor of %s' % t[1])
        if ks:
            f = self.val(ks[0], tu)
            rest = [self.val(k, tu) for k in ks[1:]]

            def go(st):
                v = f(st)
                if 'stream' in repr(t):
                    s = Stream('s%d' % new_oid())
                    self.emit(st, s, ('open', v, tuple(a for a in (r(st) for r in rest)
                                                        if not (isinstance(a, Opaque) and a.what == 'default'))))
                    return s
                return v
            return go
        def go(st):
            if 'stream' in repr(t):
                return Stream('s%d' % new_oid())
            if 'iterator' in repr(t).lower():
                return Opaque('iterator')
            return Opaque('default')
        return go
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXNewExpr(self, n, tu):
        ks = kids(n)
        ce = ks[-1] if ks else None
        t = ptype(n['type'].get('desugaredQualType') or n['type']['qualType'])
        if n.get('isArray') or ce is None or ce['kind'] != 'CXXConstructExpr':
            raise Unsupported('new')
        rec = t[1][1]
        cands = [m for m in self.prog.byname.get('%s::%s' % (rec, rec), ())]
        if len(cands) != 1:
            raise Unsupported('new %s' % rec)
        fnode = self.prog.funcs[cands[0]]
        params = self.fn_params(fnode['type']['qualType'])
        fs = self.arg_closures(params, kids(ce), tu)

        def go(st):
            vals = [f(st) for f in fs]
            oid = st.new(t[1], 'new ' + rec)
            p = Ptr(CellLV(oid, ()))
            self.call(cands[0], st, p, vals, n)
            return p
        return go

    def e_InitListExpr(self, n, tu):
        t = ntype(n)
        ks = kids(n)
        if t[0] == 'arr':
            if n.get('array_filler'):
                ks = [k for k in n['array_filler'] if isinstance(k, dict) and k][1:] if not ks else ks
            fs = [self.val(k, tu) for k in ks]
            et = t[2]

            def go(st):
                d = {}
                for i in range(t[1]):
                    v = fs[i](st) if i < len(fs) else self.zero_val(et)
                    if isinstance(v, Rec):
                        for p, x in v.d.items():
                            d[(i,) + p] = x
                    else:
                        d[(i,)] = v
                return Rec(d)
            return go
        if t[0] == 'rec' and t[1] in self.prog.records:
            fields = self.prog.records[t[1]]
            fs = [self.val(k, tu) for k in ks]

            def go(st):
                d = {}
                for i, (f, ft, _) in enumerate(fields):
                    v = fs[i](st) if i < len(fs) else self.zero_val(ptype(ft))
                    if isinstance(v, Rec):
                        for p, x in v.d.items():
                            d[(f,) + p] = x
                    else:
                        d[(f,)] = v
                return Rec(d)
            return go
        if len(ks) == 1:
            return self.val(ks[0], tu)
        if not ks:
            return lambda st: self.zero_val(t)
        raise Unsupported('initializer list')

    # -------------------------------------------------------------- declarations
    def init_var(self, st, lv, t, node, tu):
        v = self.val(node, tu)(st)
        if isinstance(v, Opaque) and v.what == 'default':
            return
        if t[0] == 'arr' and isinstance(v, Rec) or t[0] == 'rec' and isinstance(v, Rec):
            for p, x in v.d.items():
                st.setcell(lv.o, lv.p + p, self.coerce(st, x, sub_type(self, t, p)))
            return
        self.write(st, lv, self.coerce(st, v, t))

    def all_const(self, st, oid, name):
        """a constant initialised once must not depend on the state of its first use"""
        for v in st.mem[oid].cells.values():
            if isinstance(v, Poly) and any(ATOMS[i].kind in ('sym', 'sel') for i in term_fv(v)):
                raise Unsupported('static %s depends on the state' % name)
            if isinstance(v, Formula) and v.op not in ('true', 'false'):
                raise Unsupported('static %s depends on the state' % name)

    def declare(self, d, tu):
        """closure for one VarDecl"""
        t = ntype(d)
        i, name = d['id'], d.get('name', 'v')
        init = [k for k in kids(d) if not k.get('kind', '').endswith('Attr')]
        static = d.get('storageClass') == 'static'
        if static and not is_const(d):
            raise Unsupported('static local %s' % name)
        if t[0] == 'ref':
            if not init:
                raise Unsupported('reference without initializer')
            e = init[-1]
            if self.is_lv(e) or strip(e)['kind'] == 'MaterializeTemporaryExpr':
                g = self.lval(e, tu)

                def go(st):
                    st.env[i] = g(st)
                return go
            f = self.val(e, tu)

            def go(st):
                oid = st.new(t[1], name)
                self.write_cell(st, oid, (), f(st))
                st.env[i] = CellLV(oid, ())
            return go

        def go(st):
            oid = st.new(t, name)
            st.env[i] = CellLV(oid, ())
            if init:
                self.init_var(st, CellLV(oid, ()), t, init[-1], tu)
                if static:
                    self.all_const(st, oid, name)
            elif t[0] == 'rec' and t[1] not in self.prog.records:
                if 'stream' in t[1]:
                    st.setcell(oid, (), Stream('s%d' % oid))
        return go


def is_const(d):
    q = d['type'].get('desugaredQualType') or d['type']['qualType']
    if d.get('constexpr'):
        return True
    if '*' in q:
        return q.rstrip().endswith('const')
    return 'const' in q


def calls_abort(n):
    n = strip(n)
    k = n.get('kind')
    if k == 'CallExpr':
        c = strip_casts(kids(n)[0])
        if c['kind'] == 'DeclRefExpr' and c['referencedDecl'].get('name') in ('__assert_fail', 'abort'):
            return True
    return False
