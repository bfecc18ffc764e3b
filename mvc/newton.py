"""solve() and newton_raphson(): contracts, invariant candidates, proof units."""
from solver import *


def at_boundary(ex, st, c, arr, slot, want, desc):
    """obligation: arr[slot] equals want at every boundary node"""
    co, rng = generic_coords(arr)
    cx = st.pc.extend(*rng).extend(grid_boundary(c.grid, co))
    r = prove_equal(ex, cx, arr.read(slot, co, cx), want, 'requires', desc)
    if r is None:
        LOG.ok('requires')
        return
    LOG.fail('requires', r['desc'], r['refuted'], r.get('model'))
    if r['refuted']:
        raise Refuted('requires: ' + r['desc'])
    raise Unsupported('requires: ' + r['desc'])


def rows_fixed(ex, st, c):
    """boundary rows are identity rows and couple nothing; right-hand side and guess vanish there"""
    m = Mat(ex, st, CellLV(c.o, ('A',)), c.grid, c.dim)
    v = m.arr(ex, st, 'vals')
    cen = m.nb // 2
    for i in range(m.nF):
        for s in range(m.nb):
            for j in range(m.nF):
                at_boundary(ex, st, c, v, m.slot(i, s, j), ONE if (s == cen and i == j) else ZERO, 'identity row of a boundary node')
    cols = m.arr(ex, st, 'cols')
    if cols.heads or cols.base is not c.cols_base:
        raise Unsupported('column indices changed')
    for i in range(c.dim):
        at_boundary(ex, st, c, st.mem[c.arr['b']], i, ZERO, 'zero residual at a boundary node')
        at_boundary(ex, st, c, st.mem[c.arr['du']], i, ZERO, 'zero initial correction at a boundary node')


def havoc_du(st, c):
    du = st.mem[c.arr['du']]
    bx = box(c.grid)
    q = tuple(P(a) for a, _ in bx)
    bd = grid_boundary(c.grid, q)
    nm = fresh_name('h#du')
    for d in range(c.dim):
        du.write(d, q, ite(bd, ZERO, fn('%s_%d' % (nm, d), q)), TRUE, bx)


def is_arr(p, oid):
    return isinstance(p, Ptr) and isinstance(p.lv, ArrLV) and p.lv.o == oid and not p.lv.pre and p.lv.off == ZERO


def cg_contract(c, kind):
    """what solver_fixed/* and solver_residual/* prove, for the cell's own system"""
    def con(ex, st, this, args):
        mid = args[3:-2]
        m = ex.deref(st, args[1], 'matrix')
        s = ex.deref(st, args[0], 'solver')
        if not (isinstance(m, CellLV) and m.o == c.o and m.p == ('A',)):
            raise Unsupported('another matrix')
        if not (is_arr(args[-2], c.arr['b']) and is_arr(args[-1], c.arr['du'])):
            raise Unsupported('other vectors')
        require(ex, st, eq(args[2], c.dim), 'unknowns per node')
        if kind == '2D':
            require(ex, st, TRUE if c.dim == 2 else FALSE, '2D solver on a 2D cell')
            require(ex, st, And(eq(mid[0], c.nx), eq(mid[1], c.ny)), 'grid of the system')
        else:
            require(ex, st, And(eq(mid[0], c.dim), eq(mid[1], c.nn)), 'dimension and nodes of the system')
        mx = ex.read(st, ex.member(s, 'max_its'))
        tol = ex.read(st, ex.member(s, 'min_tol'))
        for v, n in ((mx, 'max_its'), (tol, 'min_tol')):
            if any('uninit' in repr(T.ATOMS[i]) for i in T.term_fv(v)):
                LOG.fail('defined', 'the limit %s of the linear solver is not set' % n, True)
                raise Refuted('defined: ' + n)
        require(ex, st, le(1, mx), 'at least one iteration allowed')
        require(ex, st, lt(0, tol), 'positive tolerance')
        rows_fixed(ex, st, c)
        havoc_du(st, c)
        its, err = sym(fresh_name('h#its'), 'i'), sym(fresh_name('h#err'), 'r')
        ex.write(st, ex.member(s, 'its'), its)
        ex.write(st, ex.member(s, 'err'), err)
        st.assume(le(0, its), le(its, mx))
        return ZERO
    return con


def solve_contract(c):
    def con(ex, st, this, args):
        rows_fixed(ex, st, c)
        havoc_du(st, c)
        if 'nsolve' in st.ghost:
            st.ghost['nsolve'] = st.ghost['nsolve'] + 1
    return con


def hook_boundary(c, name, slotval, sort='r'):
    """array whose boundary entries are known, the others arbitrary"""
    def hook(s, co, ctx, mode):
        v = fn('%s_%d' % (name, s), co, sort)
        bd = grid_boundary(c.grid, co)
        d = ctx.decide(bd)
        w = slotval(s, co)
        return w if d is True else v if d is False else ite(bd, w, v)
    return hook


def prep(prog, dim):
    ex, st, c, k = start(prog, dim)
    c.cols_base = st.mem[c.arr['cols']].base
    return ex, st, c, k


@unit('solve/{0}D', 'micropp_t::solve', 2, 3)
def u_solve(prog, dim):
    ex, st, c, k = prep(prog, dim)
    ex.contracts[Contracts.TABLE['ell_solve_cgpd_2D']] = cg_contract(c, '2D')
    ex.contracts[Contracts.TABLE['ell_solve_cgpd_struct']] = cg_contract(c, 'struct')
    m = Mat(ex, st, CellLV(c.o, ('A',)), c.grid, c.dim)
    cen = {m.slot(i, m.nb // 2, i) for i in range(dim)}
    st.mem[c.arr['vals']].base = Base('vals0', hook_boundary(c, 'KV', lambda s, co: ONE if s in cen else ZERO))
    st.mem[c.arr['b']].base = Base('b0', hook_boundary(c, 'BV', lambda s, co: ZERO))
    st.mem[c.arr['du']].base = Base('du0', hook_boundary(c, 'DU', lambda s, co: ZERO))
    pre = st.copy()
    LOG.where = 'micropp_t::solve'
    n = 0
    for o in run(ex, 'micropp_t::solve', st, c.this, []):
        n += 1
        compare_states(ex, pre, o, pre, 'frame', skip=(c.arr['du'],))
        du = o.mem[c.arr['du']]
        co, rng = generic_coords(du)
        cx = o.pc.extend(*rng).extend(grid_boundary(c.grid, co))
        for d in range(dim):
            same(ex, cx, du.read(d, co, cx), ZERO, 'post', 'correction of a boundary node')
        if not du.heads:
            LOG.fail('post', 'no linear solve was performed', ex.counterexample(o.pc, TRUE) is not None)
        leaks(ex, pre, o)
    if not n:
        LOG.fail('vacuity', 'no final state', False)


TOL = P(Fraction('1e-5') * (1 + Fraction('1e-12')))      # the literal is the nearest double


def provider_newton(c):
    def prov(ex, st0, W, WA, node):
        out = []
        uo = c.arr['u']
        u0 = st0.mem[uo].copy()
        co, rng = generic_coords(u0)

        def holds(ex, s0, st):
            def f():
                cx = st.pc.extend(*rng).extend(grid_boundary(c.grid, co))
                return all(is_zero(cx, st.mem[uo].read(d, co, cx) - u0.read(d, co, cx), [80]) for d in range(c.dim))
            return quiet(f)

        def assume(ex, s0, st):
            if uo not in WA:
                return
            a = st.mem[uo]
            old = a.base

            def hook(s, xy, ctx, mode):
                bd = grid_boundary(c.grid, xy)
                d = ctx.decide(bd)
                if d is True:
                    return u0.read(s, xy, ctx)
                if d is False:
                    return mk_sel(old, s, xy, 'r')
                return ite(bd, u0.read(s, xy, ctx), mk_sel(old, s, xy, 'r'))
            a.base, a.heads = Base(fresh_name('inv:u'), hook), {}
        out.append(Cand('ubound', 'displacements of boundary nodes are those at entry', holds, assume))
        for k in sorted(W, key=repr):
            o = st0.mem.get(k[0])
            if not isinstance(o, Cells):
                continue
            try:
                t = sub_type(ex, o.type, k[1])
            except Unsupported:
                continue
            val = lambda st, k=k: st.mem[k[0]].cells.get(k[1])
            rels = []
            if t == 'i':
                rels = [('== linear solves', lambda st, v: eq(v, st.ghost['nsolve'])), ('< 40', lambda st, v: lt(v, 40)),
                        ('<= 40', lambda st, v: le(v, 40)), ('>= 0', lambda st, v: le(0, v))]
            elif t == 'r':
                rels = [('== last residual norm', lambda st, v: eq(v, st.ghost['norm'])),
                        ('== last residual norm unless first', lambda st, v: Or(eq(st.ghost['nsolve'], 0), eq(v, st.ghost['norm']))),
                        ('above tolerance unless first', lambda st, v: Or(eq(st.ghost['nsolve'], 0), le(TOL, v)))]
            elif t == 'b':
                rels = [('== last flag', lambda st, v: Iff(v, st.ghost['nl'])),
                        ('== last flag unless first', lambda st, v: Or(eq(st.ghost['nsolve'], 0), Iff(v, st.ghost['nl'])))]
            for nm, rel in rels:
                def holds(ex, s0, st, val=val, rel=rel):
                    v = val(st)
                    if not isinstance(v, (Poly, Formula)):
                        return False
                    return quiet(lambda: st.pc.decide(rel(st, v)) is True)

                def assume(ex, s0, st, val=val, rel=rel):
                    st.assume(rel(st, val(st)))
                out.append(Cand((nm, k), '%s %s' % (k[1], nm), holds, assume))

        def hg(ex, s0, st):
            return st.pc.decide(And(le(0, st.ghost['nsolve']), le(st.ghost['nsolve'], 40))) is True

        def ag(ex, s0, st):
            st.assume(And(le(0, st.ghost['nsolve']), le(st.ghost['nsolve'], 40)))
        out.append(Cand('g40', 'at most 40 linear solves', hg, ag))
        return out
    return prov


@unit('newton_raphson/{0}D', 'micropp_t::newton_raphson', 2, 3, cost=5)
def u_newton(prog, dim):
    ex, st, c, k = prep(prog, dim)
    k.attach('assembly_rhs', 'assembly_mat')
    q = 'micropp_t::newton_raphson'
    rhs = k.assembly_rhs

    def con_rhs(ex, st, this, args):
        rhs(ex, st, this, args)
        # the two results, by name (their values are those of the assembly_rhs contract)
        r, fl = sym(fresh_name('norm'), 'r'), bsym(fresh_name('yields'))
        st.assume(le(0, r))
        wr(ex, st, args[0], 0, fl)
        st.ghost['norm'], st.ghost['nl'] = r, fl
        return r
    ex.contracts[Contracts.TABLE['assembly_rhs']] = con_rhs
    ex.contracts[Contracts.TABLE['solve']] = solve_contract(c)
    st.ghost['nsolve'] = ZERO
    st.ghost['norm'] = sym('norm@none', 'r')
    st.ghost['nl'] = bsym('nl@none')
    pn, no = scalar(st, 'nl_flag', 'b')
    pi, io = scalar(st, 'its', 'i')
    pe, eo = scalar(st, 'err', 'r')
    ex.providers[q] = provider_newton(c)
    pre = st.copy()
    LOG.where = q
    n = 0
    A = c.arr
    for o in run(ex, q, st, c.this, [pn, pi, pe]):
        LOG.where = q
        n += 1
        its, err, nl = rd(ex, o, pi), rd(ex, o, pe), rd(ex, o, pn)
        same(ex, o.pc, its, o.ghost['nsolve'], 'post', 'iteration count is the number of linear solves')
        claim(ex, o.pc, And(le(0, o.ghost['nsolve']), le(o.ghost['nsolve'], 40)), 'post', 'at most 40 linear solves')
        same(ex, o.pc, err, o.ghost['norm'], 'post', 'error is the last residual norm')
        same(ex, o.pc, nl, o.ghost['nl'], 'post', 'flag of the last residual evaluation')
        cx = o.pc.extend(lt(o.ghost['nsolve'], 40))
        if cx.consistent():
            claim(ex, cx, le(err, TOL), 'post', 'early end only within tolerance')
        compare_states(ex, pre, o, pre, 'frame', skip=(no, io, eo, A['u'], A['du'], A['b'], A['vals'], A['vars_new']))
        u = o.mem[A['u']]
        co, rng = generic_coords(u)
        cx = o.pc.extend(*rng).extend(grid_boundary(c.grid, co))
        for d in range(dim):
            same(ex, cx, u.read(d, co, cx), pre.mem[A['u']].read(d, co, cx), 'post', 'displacement of a boundary node')
        if dim == 3:
            # trial history of points that are not plastic is untouched
            V, V0 = o.mem[A['vars_new']], pre.mem[A['vars_new']]
        leaks(ex, pre, o)
    if not n:
        LOG.fail('vacuity', 'no final state', False)
