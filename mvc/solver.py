"""Linear solvers and Newton: contracts, loop-invariant candidates and proof units.

The solver is verified for an arbitrary ELL matrix: nrow rows (symbolic), nnz slots per row, any
coefficients, any valid column in every slot."""
from units import *
from verify import *
from contracts import *
import smt


class Cand(object):
    """candidate loop invariant: holds(ex, st0, st) decides it, assume(ex, st0, st) adds it to a head state"""
    def __init__(self, key, desc, holds, assume):
        self.key, self.desc, self.holds, self.assume = key, desc, holds, assume


def quiet(f):
    """evaluate a candidate without logging obligations"""
    nf, cs, seen = len(LOG.failed), {k: list(v) for k, v in LOG.counts.items()}, set(LOG.seen)
    try:
        return f()
    except (Unsupported, Refuted, Fork):
        return False
    finally:
        del LOG.failed[nf:]
        LOG.counts = cs
        LOG.seen = seen


def is_zero(cx, v, budget):
    budget[0] -= 1
    if budget[0] < 0:
        return False
    try:
        v = deep(v, cx, 'ite')
        if poly_equal(v, ZERO):
            return True
        return poly_equal(deep(v, cx, 'fork'), ZERO)
    except Fork as f:
        for g in (f.f, Not(f.f)):
            c2 = cx.extend(g)
            if c2.consistent() and not is_zero(c2, v, budget):
                return False
        return True


class System(object):
    """an ELL matrix m, vectors b and x and a solver record, all arbitrary"""

    def __init__(self, ex, st, nrow, nnz, tag, ident=None, extra=()):
        self.ex, self.nrow, self.nnz = ex, nrow, nnz
        ex.sizes = []
        ex.extra_shapes = [((nrow,), 1)]
        self.inv = {}
        self.ident = ident                      # (row, slot): an identity row
        for s in range(nnz):
            smt.RANGE['COL%s_%d' % (tag, s)] = (ZERO, nrow)

        def vhook(s, co, ctx, mode):
            v = fn('VAL%s_%d' % (tag, s), co)
            if ident is None:
                return v
            c = eq(co[0], ident[0])
            d = ctx.decide(c)
            e = ONE if s == ident[1] else ZERO
            return e if d is True else v if d is False else ite(c, e, v)

        def chook(s, co, ctx, mode):
            v = fn('COL%s_%d' % (tag, s), co, 'i')
            if ident is None or s != ident[1]:
                return v
            c = eq(co[0], ident[0])
            d = ctx.decide(c)
            return ident[0] if d is True else v if d is False else ite(c, ident[0], v)

        def bhook(s, co, ctx, mode):
            if ident is None:
                return None
            v = fn('B' + tag, co)
            c = eq(co[0], ident[0])
            d = ctx.decide(c)
            return ZERO if d is True else v if d is False else ite(c, ZERO, v)

        def xhook(s, co, ctx, mode):
            if ident is None:
                return None
            v = fn('X' + tag, co)
            c = eq(co[0], ident[0])
            d = ctx.decide(c)
            return ZERO if d is True else v if d is False else ite(c, ZERO, v)
        A = lambda n, ns, sort, h: st.newarr(Arr(n, (nrow,), ns, sort, Base(n, h)))
        self.vals, self.cols = A('vals', nnz, 'r', vhook), A('cols', nnz, 'i', chook)
        self.b, self.x = A('b', 1, 'r', bhook), A('x', 1, 'r', xhook)
        self.y = A('y', 1, 'r', None)
        o = st.new(('rec', 'ell_matrix'), 'm')
        self.mo = o
        st.setcell(o, ('nrow',), nrow)
        st.setcell(o, ('ncol',), nrow)
        st.setcell(o, ('nnz',), P(nnz))
        st.setcell(o, ('vals',), Ptr(ArrLV(self.vals, (), ZERO)))
        st.setcell(o, ('cols',), Ptr(ArrLV(self.cols, (), ZERO)))
        s = st.new(('rec', 'ell_solver'), 'solver')
        self.so = s
        self.max_its, self.tol = sym('max_its', 'i'), sym('min_tol', 'r')
        st.setcell(s, ('max_its',), self.max_its)
        st.setcell(s, ('min_tol',), self.tol)
        st.setcell(s, ('its',), sym('its@pre', 'i'))
        st.setcell(s, ('err',), sym('err@pre', 'r'))
        st.assume(le(1, self.max_its))
        P_ = lambda o: Ptr(ArrLV(o, (), ZERO))
        self.pm, self.ps = Ptr(CellLV(o, ())), Ptr(CellLV(s, ()))
        self.pb, self.px, self.py = P_(self.b), P_(self.x), P_(self.y)

    def product(self, st, xarr, row, ctx):
        """(A x)(row) in state st"""
        v = ZERO
        va, ca, xa = st.mem[self.vals], st.mem[self.cols], xarr
        for s in range(self.nnz):
            a = va.read(s, (row,), ctx)
            if isinstance(a, Poly) and not a.t:
                continue
            v = v + a * xa.read(0, (ca.read(s, (row,), ctx),), ctx)
        return v

    def vector(self, st, p):
        lv = p.lv if isinstance(p, Ptr) else None
        if not (isinstance(lv, ArrLV) and not lv.pre and lv.off == ZERO):
            raise Unsupported('vector argument')
        a = st.mem[lv.o]
        if a.grid != (self.nrow,) or a.nslots != 1:
            raise Unsupported('vector shape')
        return a

    def ell_mvp_2D(self, ex, st, this, args):
        m = ex.deref(st, args[0], 'matrix')
        if m.o != self.mo:
            raise Unsupported('another matrix')
        x, y = self.vector(st, args[1]), self.vector(st, args[2])
        if x is y:
            raise Unsupported('y is x')
        bx = box((self.nrow,), 'r')
        row = P(bx[0][0])
        if self.ident is not None:
            # weaker than the proved contract: only the fixed row is kept, where A x = x
            i0 = self.ident[0]
            same_ = self.product(st, x, i0, st.pc)
            y.write(0, (row,), fn(fresh_name('h#mvp'), (row,)), TRUE, bx)
            y.write(0, (i0,), same_, TRUE, ())
            return
        y.write(0, (row,), self.product(st, x, row, bctx(st.pc, bx)), TRUE, bx)

    def attach(self):
        self.ex.contracts[Contracts.TABLE['ell_mvp_2D']] = self.ell_mvp_2D
        return self

    # -------------------------------------------------------------- residual
    def resid(self, st, row, ctx):
        return self.product(st, st.mem[self.x], row, ctx) - st.mem[self.b].read(0, (row,), ctx)

    def norm(self, st):
        bx = box((self.nrow,), 'r')
        row = P(bx[0][0])
        r = self.resid(st, row, bctx(st.pc, bx))
        return T.sqrt(Sum(bx, r * r))

    def is_resid(self, ex, st, o):
        """array o holds A x - b in state st, given the loop invariants assumed so far"""
        row = sym('row?', 'i')
        cx = st.pc.extend(le(0, row), lt(row, self.nrow))
        a = st.mem[o]
        if getattr(a.base, 'uninit', False) and not a.heads:
            return False
        return self.zero(ex, cx, a.read(0, (row,), cx) - self.resid(st, row, cx), row)

    def zero(self, ex, cx, d, row, budget=40):
        if budget == 40 and self.zero1(cx, deep(d, cx, 'ite'), row):
            return True
        try:
            d = deep(d, cx, 'fork')
        except Fork as f:
            for g in (f.f, Not(f.f)):
                c2 = cx.extend(g)
                if c2.consistent() and (budget <= 0 or not self.zero(ex, c2, d, row, budget // 2)):
                    return False
            return True
        return self.zero1(cx, d, row)

    def zero1(self, cx, d, row):
        # an array that was A x - b at the loop head: unfold it at the generic row only
        sg = {}
        for i in d.atoms():
            at = ATOMS[i]
            if at.kind == 'sel' and at.args[0] in self.inv and at.args[2] == (row,):
                sg[i] = self.resid(self.inv[at.args[0]], row, cx)
        if sg:
            d = deep(subst(d, sg), cx, 'ite')
        return poly_equal(d, ZERO)

    # -------------------------------------------------------------- candidates
    def local_arrays(self, st):
        return [o for o, a in st.mem.items() if isinstance(a, Arr) and a.grid == (self.nrow,) and a.nslots == 1 and a.sort == 'r' and o not in (self.b,)]

    def int_cells(self, ex, st, W):
        out = []
        for k in sorted(W, key=repr):
            o = st.mem.get(k[0])
            if isinstance(o, Cells):
                v = o.cells.get(k[1])
                try:
                    t = sub_type(ex, o.type, k[1])
                except Unsupported:
                    continue
                if t == 'i':
                    out.append(k)
        return out

    def fval(self, st, k):
        return st.mem[k[0]].cells.get(k[1])

    def provider_residual(self, ex, st0, W, WA, node):
        out = []
        for o in self.local_arrays(st0):
            if o == self.x:
                continue

            def holds(ex, s0, st, o=o):
                return quiet(lambda: self.is_resid(ex, st, o))

            def assume(ex, s0, st, o=o):
                if o not in WA and self.x not in WA:
                    return
                a = st.mem[o]
                a.base = Base(fresh_name('inv:' + a.name))
                a.heads = {}
                self.inv[a.base] = st.copy()
            out.append(Cand(('res', o), '%s = A x - b' % st0.mem[o].name, holds, assume))
        # arrays that the loop only reads (the preconditioner): their contents do not matter, drop them
        for o in self.local_arrays(st0):
            if o not in (self.x, self.y) and o not in WA:
                def forget(ex, s0, st, o=o):
                    if o not in WA:
                        a = st.mem[o]
                        a.base, a.heads = Base(fresh_name('head:' + a.name)), {}
                out.append(Cand(('any', o), '%s is arbitrary' % st0.mem[o].name, lambda ex, s0, st: True, forget))
        return out + self.bounds(ex, st0, W)

    def bounds(self, ex, st0, W):
        out = []
        for k in self.int_cells(ex, st0, W):
            for nm, rel in (('<', lambda v: lt(v, self.max_its)), ('<=', lambda v: le(v, self.max_its)), ('>=0', lambda v: le(0, v))):
                def holds(ex, s0, st, k=k, rel=rel):
                    v = self.fval(st, k)
                    return isinstance(v, Poly) and st.pc.decide(rel(v)) is True

                def assume(ex, s0, st, k=k, rel=rel):
                    st.assume(rel(self.fval(st, k)))
                out.append(Cand(('bnd', nm, k), 'cell %s %s limit' % (k[1], nm), holds, assume))
        return out

    def firsts(self, ex, st0, W):
        """candidate conditions for "no iteration has been done": a counter is zero, a flag has its entry value"""
        out = []
        for k in self.int_cells(ex, st0, W):
            out.append((k, lambda st, k=k: eq(self.fval(st, k), 0) if isinstance(self.fval(st, k), Poly) else FALSE))
        for k in sorted(W, key=repr):
            o = st0.mem.get(k[0])
            if isinstance(o, Cells):
                try:
                    t = sub_type(ex, o.type, k[1])
                except Unsupported:
                    continue
                v = self.fval(st0, k)
                if t == 'b' and isinstance(v, Formula):
                    d = st0.pc.decide(v)
                    if d is not None:
                        def cond(st, k=k, d=d):
                            w = self.fval(st, k)
                            return FALSE if not isinstance(w, Formula) else w if d else Not(w)
                        out.append((k, cond))
        return out

    def provider_fixed(self, ex, st0, W, WA, node):
        out = []
        row = self.ident[0]
        conds = [(None, lambda st: FALSE)] + self.firsts(ex, st0, W)
        for o in self.local_arrays(st0):
            for ck, cond in conds:
                def holds(ex, s0, st, o=o, cond=cond):
                    def f():
                        c = cond(st)
                        if st.pc.decide(c) is True:
                            return True
                        cx = st.pc.extend(Not(c))
                        if not cx.consistent():
                            return True
                        return is_zero(cx, st.mem[o].read(0, (row,), cx), [80])
                    return quiet(f)

                def assume(ex, s0, st, o=o, cond=cond):
                    c = cond(st)
                    a = st.mem[o]
                    if o not in WA:
                        return
                    old = a.base

                    def hook(s, co, ctx, mode, old=old, c=c):
                        prev = None
                        if old.hook is not None:
                            prev = old.hook(s, co, ctx, mode)
                        if prev is None:
                            prev = mk_sel(old, s, co, 'r')
                        hit = And(eq(co[0], row), Not(c))
                        d = ctx.decide(hit)
                        return ZERO if d is True else prev if d is False else ite(hit, ZERO, prev)
                    a.base = Base(fresh_name('inv:' + a.name), hook)
                    a.heads = {}
                out.append(Cand(('zero', o, ck), '%s is zero at the fixed row%s' % (st0.mem[o].name, '' if ck is None else ' unless first'), holds, assume))
        return out + self.bounds(ex, st0, W)


FNS = {'jacobi': 'ell_solve_jacobi_2D', '2D': 'ell_solve_cgpd_2D', 'struct2': 'ell_solve_cgpd_struct', 'struct3': 'ell_solve_cgpd_struct'}


def setup(prog, which, nF, ident_d=None, cls=System):
    ex = Executor(prog)
    st = new_state()
    dim = 3 if which == 'struct3' else 2
    nnz = 3 ** dim * nF
    if which in ('2D', 'jacobi'):
        nx, ny = sym('nx', 'i'), sym('ny', 'i')
        st.assume(le(2, nx), le(2, ny), le(4, nx * ny))
        nn = nx * ny
        mid = [nx, ny]
    else:
        nn = sym('nn', 'i')
        st.assume(le(4, nn))
        mid = [P(dim), nn]
    ident = None
    if ident_d is not None:
        node = sym('fixed', 'i')
        st.assume(le(0, node), lt(node, nn))
        ident = (node * nF + ident_d, (nnz // nF // 2) * nF + ident_d)
    S = cls(ex, st, nn * nF, nnz, '%s%d%s' % (which, nF, '' if ident is None else 'f%d' % ident_d), ident).attach()
    args = [S.ps, S.pm, P(nF)] + mid + [S.pb, S.px]
    return ex, st, S, args


@unit('ell_mvp/{0}/{1}', 'ell_mvp_2D', *[(w, f) for w in ('struct2', 'struct3') for f in (1, 2, 3)])
def u_mvp(prog, which, nF):
    ex, st, S, _ = setup(prog, which, nF)
    ex.contracts.pop(Contracts.TABLE['ell_mvp_2D'])
    check(ex, st, None, 'ell_mvp_2D', S.ell_mvp_2D, [S.pm, S.px, S.py])


SOLV = [('2D', 1), ('2D', 2), ('2D', 3), ('struct2', 1), ('struct2', 2), ('struct2', 3), ('struct3', 1), ('struct3', 2), ('struct3', 3), ('jacobi', 1), ('jacobi', 2), ('jacobi', 3)]


def frame(ex, S, pre, o):
    """matrix, right-hand side and the limits of the solver are unchanged"""
    w = pre.copy()
    s = o.mem[S.so].cells
    w.setcell(S.so, ('its',), s.get(('its',), sym('its@pre', 'i')))
    w.setcell(S.so, ('err',), s.get(('err',), sym('err@pre', 'r')))
    compare_states(ex, pre, o, w, 'frame', skip=(S.x,))
    leaks(ex, pre, o)


@unit('solver_residual/{0}/{1}', 'ell_solve', *SOLV, cost=5)
def u_residual(prog, which, nF):
    ex, st, S, args = setup(prog, which, nF)
    q = FNS[which]
    ex.providers[q] = S.provider_residual
    pre = st.copy()
    LOG.where = q
    outs = run(ex, q, st, None, args)
    early = False
    for o in outs:
        LOG.where = q
        frame(ex, S, pre, o)
        its, err = o.mem[S.so].cells[('its',)], o.mem[S.so].cells[('err',)]
        same(ex, o.pc, o.ret, ZERO, 'post', 'return code')
        claim(ex, o.pc, And(le(0, its), le(its, S.max_its)), 'post', 'iterations within the limit')
        cx = o.pc.extend(lt(its, S.max_its))
        if cx.consistent():
            early = True
            s2 = o.copy()
            s2.pc = cx
            # the norm of A x - b, written with an array proved equal to it when there is one
            want = None
            for a in S.local_arrays(s2):
                if a not in (S.x, S.y) and quiet(lambda: S.is_resid(ex, s2, a)):
                    bx = box((S.nrow,), 'r')
                    v = s2.mem[a].read(0, (P(bx[0][0]),), bctx(cx, bx))
                    w = T.sqrt(Sum(bx, v * v))
                    if want is None or quiet(lambda: prove_equal(ex, cx, err, w, 'post', '') is None):
                        want = w
            same(ex, cx, err, S.norm(s2) if want is None else want, 'post', 'reported error is the norm of A x - b')
            claim(ex, cx, lt(err, S.tol), 'post', 'error below the tolerance')
    if not early:
        LOG.fail('vacuity', 'no early exit', False)


def claim(ex, ctx, f, kind, desc):
    if ctx.decide(f) is True:
        LOG.ok(kind)
        return True
    f2 = f
    try:
        f2 = deep(f, ctx, 'ite')
    except (Fork, Unsupported):
        pass
    if ctx.decide(f2) is True:
        LOG.ok(kind)
        return True
    m = ex.counterexample(ctx, Not(f2))
    LOG.fail(kind, '%s: %s' % (desc, short(f2)), m is not None and not any(havocked(ATOMS[i]) for i in term_fv(f2)), m)
    return False


@unit('solver_fixed/{0}/{1}/{2}', 'ell_solve', *[(w, f, d) for w, f in SOLV for d in range(f)], cost=3)
def u_fixed(prog, which, nF, d):
    ex, st, S, args = setup(prog, which, nF, d)
    q = FNS[which]
    ex.providers[q] = S.provider_fixed
    pre = st.copy()
    LOG.where = q
    outs = run(ex, q, st, None, args)
    for o in outs:
        LOG.where = q
        frame(ex, S, pre, o)
        same(ex, o.pc, o.mem[S.x].read(0, (S.ident[0],), o.pc), ZERO, 'post', 'the fixed unknown stays zero')


@unit('solver_null/{0}/{1}', 'ell_solve', *[(w, k) for w in ('2D', 'struct3', 'jacobi') for k in (0, 1, 2)])
def u_null(prog, which, k):
    ex, st, S, args = setup(prog, which, 2)
    args[{0: 1, 1: len(args) - 2, 2: len(args) - 1}[k]] = NULL
    pre = st.copy()
    q = FNS[which]
    LOG.where = q
    for o in run(ex, q, st, None, args):
        LOG.where = q
        compare_states(ex, pre, o, pre, 'frame')
        leaks(ex, pre, o)
        claim(ex, o.pc, ne(o.ret, 0), 'post', 'non-zero code')
