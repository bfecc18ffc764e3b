"""The list of macroscopic Gauss points: contracts of the accessors, update_vars and homogenize.

Representation invariant (established by construction, preserved by every operation below):
ids are pairwise distinct; a record has a committed history iff it has a trial history."""
from units import *
from solver import claim, Cand, quiet
import smt

FIELDS = ('id', 'int_vars_n', 'int_vars_k', 'macro_strain', 'macro_stress', 'macro_ctan', 'nr_its', 'nr_err', 'inv_max')


def gp_cell(prog, dim, *attach, **kw):
    ex, st, c, k = start(prog, dim, *attach, **kw)
    f = st.mem[c.list].fields
    # committed and trial history exist together
    st.mem[f[('int_vars_k',)]].base = st.mem[f[('int_vars_n',)]].base
    return ex, st, c, k


def case_id(ex, st, c, found):
    """id argument, and its position (None: not in the list)"""
    gid = sym('gp_id', 'i')
    p = sym('pos', 'i') if found else None
    if found:
        st.assume(le(0, p), lt(p, c.G))
        ex.witness = [p]
    smt.RANGE['IDGAP'] = (ONE, None)
    a = st.mem[st.mem[c.list].fields[('id',)]]

    def hook(s, co, ctx, mode):
        gap = fn('IDGAP', co, 'i')
        other = gid + ite(fnb('IDUP', co), gap, -gap)
        if p is None:
            return other
        e = eq(co[0], p)
        d = ctx.decide(e)
        return gid if d is True else other if d is False else ite(e, gid, other)
    a.base = Base('id0', hook)
    return gid, p


def field(st, c, path, pos):
    a = st.mem[st.mem[c.list].fields[path]]
    return a.read(0, (pos,), st.pc)


def setf(st, c, path, pos, v):
    a = st.mem[st.mem[c.list].fields[path]]
    a.write(0, (pos,), v, TRUE)


def accessor(prog, dim, found, q, outsort, nout, spec):
    ex, st, c, k = gp_cell(prog, dim)
    gid, p = case_id(ex, st, c, found)
    po, vals, oo = vec(st, 'out', nout, outsort)
    args = [gid, po]
    pre = st.copy()
    w = st.copy()
    spec(ex, w, c, p, po)
    LOG.where = q
    outs = run(ex, q, st, c.this, args)
    if not outs:
        LOG.fail('vacuity', 'no final state of %s' % q, False)
    for o in outs:
        LOG.where = q
        compare_states(ex, pre, o, w, 'post')
        leaks(ex, pre, o)


CASES = [(d, f) for d in (2, 3) for f in ('known', 'unknown')]


@unit('get_nl_flag/{0}D/{1}', 'micropp_t::get_nl_flag', *CASES)
def u_nl(prog, dim, f):
    def spec(ex, w, c, p, po):
        wr(ex, w, po, 0, ZERO if p is None else ite(field(w, c, ('int_vars_n',), p), ONE, ZERO))
    accessor(prog, dim, f == 'known', 'micropp_t::get_nl_flag', 'i', 1, spec)


@unit('get_macro_stress/{0}D/{1}', 'micropp_t::get_macro_stress', *CASES)
def u_gs(prog, dim, f):
    def spec(ex, w, c, p, po):
        if p is not None:
            wrn(ex, w, po, [field(w, c, ('macro_stress', i), p) for i in range(c.nvoi)])
    accessor(prog, dim, f == 'known', 'micropp_t::get_macro_stress', 'r', 6, spec)


@unit('get_macro_ctan/{0}D/{1}', 'micropp_t::get_macro_ctan', *CASES)
def u_gc(prog, dim, f):
    def spec(ex, w, c, p, po):
        if p is not None:
            wrn(ex, w, po, [field(w, c, ('macro_ctan', i), p) for i in range(c.nvoi ** 2)])
    accessor(prog, dim, f == 'known', 'micropp_t::get_macro_ctan', 'r', 36, spec)


@unit('set_macro_strain/{0}D/{1}', 'micropp_t::set_macro_strain', *CASES)
def u_set(prog, dim, f):
    def spec(ex, w, c, p, po):
        e = rdn(ex, w, po, c.nvoi)
        if p is None:
            p = c.G
            w.mem[c.list].size = p + 1
            setf(w, c, ('id',), p, sym('gp_id', 'i'))
            for h in ('int_vars_n', 'int_vars_k'):
                setf(w, c, (h,), p, FALSE)
            for i in range(6):
                setf(w, c, ('macro_strain', i), p, ZERO)
                setf(w, c, ('macro_stress', i), p, ZERO)
            for i in range(36):
                setf(w, c, ('macro_ctan', i), p, ZERO)
        for i in range(c.nvoi):
            setf(w, c, ('macro_strain', i), p, e[i])
    set_unit(prog, dim, f == 'known', spec)


def set_unit(prog, dim, found, spec):
    q = 'micropp_t::set_macro_strain'
    ex, st, c, k = gp_cell(prog, dim)
    gid, p = case_id(ex, st, c, found)
    po, vals, oo = vec(st, 'strain', 6)
    pre = st.copy()
    w = st.copy()
    spec(ex, w, c, p, po)
    LOG.where = q
    outs = run(ex, q, st, c.this, [gid, po])
    if not outs:
        LOG.fail('vacuity', 'no final state of %s' % q, False)
    fl = pre.mem[c.list].fields
    diag = [fl[x] for x in fl if x[0] in ('nr_its', 'nr_err', 'inv_max')]
    for o in outs:
        LOG.where = q
        compare_states(ex, pre, o, w, 'post', skip=diag if p is None else ())
        if p is None:
            # diagnostics of the new record: any defined value; those of the others unchanged
            for oid in diag:
                a = o.mem[oid]
                v = a.read(0, (c.G,), o.pc)
                if any(ATOMS[i].kind == 'sel' for i in term_fv(deep(v, o.pc, 'ite'))):
                    LOG.fail('defined', '%s of a new record' % a.name, False)
                else:
                    LOG.ok('defined')
                co, rng = generic_coords(a)
                cx = o.pc.extend(*rng).extend(lt(co[0], c.G))
                same(ex, cx, a.read(0, co, cx), pre.mem[oid].read(0, co, cx), 'post', '%s of the other records' % a.name)
        leaks(ex, pre, o)


@unit('update_vars/{0}D', 'micropp_t::update_vars', 2, 3)
def u_update(prog, dim):
    ex, st, c, k = gp_cell(prog, dim)
    q = 'micropp_t::update_vars'
    pre = st.copy()
    w = st.copy()
    f = w.mem[c.list].fields
    N, K = w.mem[f[('int_vars_n', '*')]], w.mem[f[('int_vars_k', '*')]]
    bx = box(N.grid)
    co = tuple(P(a) for a, _ in bx)
    has = pre.mem[f[('int_vars_n',)]].read(0, co[:1], st.pc)
    for s in range(N.nslots):
        N.write(s, co, K.read(s, co, st.pc), And(has, lt(co[0], c.G)), bx)
    LOG.where = q
    outs = run(ex, q, st, c.this, [])
    if not outs:
        LOG.fail('vacuity', 'no final state of %s' % q, False)
    for o in outs:
        LOG.where = q
        compare_states(ex, pre, o, w, 'post')
        leaks(ex, pre, o)


# ------------------------------------------------------------------ homogenisation
class Solves(object):
    """ghost record of the equilibrium solves performed: boundary strain and history of each"""

    def __init__(self, c):
        self.c, self.d = c, {}

    def attach(self, ex):
        t = Contracts.TABLE
        ex.contracts[t['set_displ']] = self.set_displ
        ex.contracts[t['newton_raphson']] = self.newton
        ex.contracts[t['calc_ave_stress']] = self.ave

    def havoc(self, st, name, tag, sort='r'):
        a = st.mem[self.c.arr[name]]
        bx = box(a.grid)
        q = tuple(P(x) for x, _ in bx)
        for s in range(a.nslots):
            a.write(s, q, fn('%s:%s_%d' % (tag, name, s), q, sort), TRUE, bx)

    def set_displ(self, ex, st, this, args):
        """boundary displacement of the given strain; interior kept (set_displ/* proves it)"""
        st.ghost['bc'] = tuple(rdn(ex, st, args[0], self.c.nvoi))
        st.ghost['sol'] = None
        self.havoc(st, 'u', 'h#' + fresh_name('sd'))

    def newton(self, ex, st, this, args):
        """an equilibrium of the cell under the boundary strain, from the history in vars_old"""
        c = self.c
        if not st.ghost.get('bc'):
            raise Unsupported('equilibrium solve without boundary displacement')
        tag = fresh_name('sol')
        for a in ('u', 'du', 'b', 'vars_new'):
            self.havoc(st, a, 'h#' + tag)
        vals = st.mem[c.arr['vals']]
        wr(ex, st, args[0], 0, bsym('nl:' + tag))
        its, err = sym('its:' + tag, 'i'), sym('err:' + tag, 'r')
        st.assume(le(0, its), le(its, 40), le(0, err))
        wr(ex, st, args[1], 0, its)
        wr(ex, st, args[2], 0, err)
        self.d[tag] = {'bc': st.ghost['bc'], 'olds': [st.mem[c.arr['vars_old']].copy()], 'u': dict(st.mem[c.arr['u']].heads), 'trial': None}
        st.ghost['sol'] = tag

    def ave(self, ex, st, this, args):
        """average stress of the equilibrium; trial history of that same state"""
        c = self.c
        tag = st.ghost.get('sol')
        if not tag:
            raise Unsupported('average stress without equilibrium')
        self.ave_state(st, tag)
        for v in range(c.nvoi):
            wr(ex, st, args[0], v, fn('AVE%d' % v, (sym(tag, 'r'),)))
        self.havoc(st, 'vars_new', 'trial:' + tag)

    def ave_state(self, st, tag):
        """the state the averages are taken in is that of solve tag"""
        c = self.c
        e = self.d[tag]
        if st.mem[c.arr['u']].heads != e['u']:
            raise Unsupported('displacements changed after the equilibrium solve')
        if st.mem[c.arr['vars_old']].heads != e['olds'][0].heads:
            e['olds'].append(st.mem[c.arr['vars_old']].copy())

    def trial(self, tag, slot, co):
        return fn('trial:%s:vars_new_%d' % (tag, slot), co)

    def of(self, x):
        """solves a term mentions"""
        out = []
        for i in term_fv(x):
            a = ATOMS[i]
            if a.kind == 'sym' and a.args[0] in self.d and a.args[0] not in out:
                out.append(a.args[0])
        return out


def small(p):
    """a positive constant perturbation"""
    k = p.const()
    return k is not None and 0 < k <= Fraction(1, 1000)


def note(ok, kind, desc, refuted=False, model=None):
    if ok:
        LOG.ok(kind)
    else:
        LOG.fail(kind, desc, refuted, model)
    return ok


class Homog(object):
    """list loop of homogenize: records at or after the position are as at entry; one iteration changes
    only its own record, as specified (final obligations)"""

    def __init__(self, c, S):
        self.c, self.S = c, S
        self.done = 0

    def __call__(self, ex, st0, W, WA, node):
        c = self.c
        fl = st0.mem[c.list].fields
        its = [k for k in W if isinstance(st0.mem[k[0]].cells.get(k[1]), ItVal)]
        if len(its) != 1:
            raise Unsupported('list loop with %d iterators' % len(its))
        ik = its[0]
        self.entry = {p: st0.mem[oid].copy() for p, oid in fl.items()}

        def pos(st):
            return st.mem[ik[0]].cells[ik[1]].pos

        def h1(ex, s0, st):
            return st.pc.decide(And(le(0, pos(st)), le(pos(st), st.mem[c.list].size))) is True

        def a1(ex, s0, st):
            st.assume(le(0, pos(st)), le(pos(st), st.mem[c.list].size))
            st.ghost['bc'], st.ghost['sol'] = None, None
        cands = [Cand('pos', 'position within the list', h1, a1)]

        def h2(ex, s0, st):
            def f():
                for p, oid in fl.items():
                    if oid not in WA:
                        continue
                    a, b = st.mem[oid], self.entry[p]
                    co, rng = generic_coords(a)
                    cx = st.pc.extend(*rng).extend(le(pos(st), co[0]))
                    for s in range(a.nslots):
                        if a.head(s) is b.head(s):
                            continue
                        r = prove_equal(ex, cx, a.read(s, co, cx), b.read(s, co, cx), 'inv', 'x')
                        if r is not None:
                            return False
                return True
            return quiet(f)

        def a2(ex, s0, st):
            for p, oid in fl.items():
                if oid not in WA:
                    continue
                a, e = st.mem[oid], self.entry[p]
                old, w = a.base, pos(st)

                def hook(s, xy, ctx, mode, e=e, old=old, w=w, a=a):
                    g = le(w, xy[0])
                    d = ctx.decide(g)
                    x = lambda: e.read(s, xy, ctx)
                    y = lambda: conv(mk_sel(old, s, xy, a.sort), a.sort) if a.sort != 'b' else mk_sel(old, s, xy, 'b')
                    if d is True:
                        return x()
                    if d is False:
                        return y()
                    return itef(g, x(), y()) if a.sort == 'b' else ite(g, x(), y())
                a.base, a.heads = Base(fresh_name('inv:' + a.name), hook), {}
            # committed and trial history exist together
            st.mem[fl[('int_vars_k',)]].base = st.mem[fl[('int_vars_n',)]].base
            self.head = st.copy()
            self.pos = pos(st)
            self.posf = pos
        cands.append(Cand('later', 'records not yet reached are as at entry', h2, a2))
        return cands

    def final(self, ex, st0, backs, exits, rets, first):
        self.done += 1
        LOG.where = 'micropp_t::homogenize'
        if not backs:
            LOG.fail('vacuity', 'no iteration of the list loop', False)
        same(ex, st0.pc, self.posf(st0), ZERO, 'post', 'the loop starts at the first Gauss point')
        n0 = len(LOG.failed)
        for r in backs:
            same(ex, r.pc, self.posf(r), self.pos + 1, 'post', 'the loop visits the Gauss points one by one')
            self.one(ex, r)
        for r in exits:
            same(ex, r.pc, self.posf(r), r.mem[self.c.list].size, 'post', 'the loop visits every Gauss point')
        for r in rets:
            if r.pc.consistent():
                LOG.fail('post', 'return before every Gauss point is done', False)
        if len(LOG.failed) > n0:
            # the first iteration starts from the state at entry: a failure there is a counterexample
            keep = self.head, self.pos
            self.head, self.pos = st0, ZERO
            for k, r in first():
                if not r.pc.consistent():
                    continue
                if k in ('b', 'r'):
                    r.assume(lt(ONE, st0.mem[self.c.list].size))
                self.one(ex, r)
            self.head, self.pos = keep

    def one(self, ex, r):
        c, S, g = self.c, self.S, self.pos
        h = self.head
        fl = h.mem[c.list].fields
        n = c.nvoi
        LOG.where = 'micropp_t::homogenize'
        same(ex, r.pc, r.mem[c.list].size, h.mem[c.list].size, 'post', 'number of Gauss points')
        F0 = lambda path: self.entry[path].read(0, (g,), r.pc)
        # every other record is untouched; both histories exist together
        for p, oid in fl.items():
            a, b = r.mem[oid], h.mem[oid]
            co, rng = generic_coords(a)
            cx = r.pc.extend(*rng).extend(ne(co[0], g), lt(co[0], c.G))
            for s in range(a.nslots):
                if a.head(s) is b.head(s):
                    continue
                same(ex, cx, a.read(s, co, cx), b.read(s, co, cx), 'frame', '%s of another Gauss point' % a.name)
        hk, hn = [r.mem[fl[(x,)]].read(0, (g,), r.pc) for x in ('int_vars_k', 'int_vars_n')]
        same(ex, r.pc, hk, hn, 'invariant', 'trial and committed history exist together')
        strain = [F0(('macro_strain', i)) for i in range(6)]
        has = F0(('int_vars_n',))
        CL = [h.mem[c.o].cells[('ctan_lin', i)] for i in range(36)]
        lin_s = []
        for i in range(n):
            x = ZERO
            for j in range(n):
                x = x + CL[i * n + j] * strain[j]
            lin_s.append(x)
        inv = ZERO
        for i in range(c.dim):
            inv = inv + lin_s[i]
        tol = h.mem[c.o].cells[('inv_tol',)]
        lin = And(lt(T.absval(inv), tol), Not(has))
        for case in (lin, Not(lin)):
            for hc in (has, Not(has)):
                if case is lin and hc is has:
                    continue
                cx = r.pc.extend(hc, case) if case is lin else r.pc.extend(hc, TRUE if hc is has else Not(lt(T.absval(inv), tol)))
                if not cx.consistent():
                    continue
                get = lambda path, cx=cx: deep(r.mem[fl[path]].read(0, (g,), cx), cx, 'ite')
                for i in range(6):
                    same(ex, cx, get(('macro_strain', i)), strain[i], 'post', 'strain of the Gauss point kept')
                same(ex, cx, get(('id',)), F0(('id',)), 'post', 'id of the Gauss point kept')
                sg = [get(('macro_stress', i)) for i in range(n)]
                ct = [get(('macro_ctan', i)) for i in range(n * n)]
                if case is lin:
                    for i in range(n):
                        same(ex, cx, sg[i], lin_s[i], 'post', 'stress %d of a linear point' % i)
                    for i in range(n * n):
                        same(ex, cx, ct[i], CL[i], 'post', 'tangent entry %d of a linear point' % i)
                    same(ex, cx, get(('int_vars_n',)), FALSE, 'post', 'a linear point stays without history')
                    continue
                self.solved(ex, r, cx, sg, ct, strain, hc is has, get)

    def hist(self, ex, cx, tag, has, desc):
        """vars_old at the solve was the committed history of this Gauss point"""
        c, g = self.c, self.pos
        e = self.entry[('int_vars_n', '*')]
        for old in self.S.d[tag]['olds']:
            co, rng = generic_coords(old)
            cy = cx.extend(*rng)
            for s in range(old.nslots):
                want = e.read(s, (g,) + co, cy) if has else ZERO
                same(ex, cy, old.read(s, co, cy), want, 'post', desc)

    def solved(self, ex, r, cx, sg, ct, strain, has, get):
        c, S, g, n = self.c, self.S, self.pos, self.c.nvoi
        t0 = S.of(sg[0])
        if len(t0) != 1:
            note(False, 'post', 'stress is not the average stress of an equilibrium solve: %s' % short(sg[0]), not any(havocked(ATOMS[i]) for i in term_fv(sg[0])))
            return
        t0 = t0[0]
        A = lambda v, t: fn('AVE%d' % v, (sym(t, 'r'),))
        for v in range(n):
            same(ex, cx, sg[v], A(v, t0), 'post', 'stress component %d is the average stress' % v)
            same(ex, cx, S.d[t0]['bc'][v], strain[v], 'post', 'equilibrium under the strain of this Gauss point')
        self.hist(ex, cx, t0, has, 'equilibrium from the committed history of this Gauss point')
        for i in range(n):
            ts = [t for v in range(n) for t in S.of(ct[v * n + i]) if t != t0]
            ts = sorted(set(ts))
            if len(ts) != 1:
                note(False, 'post', 'tangent column %d is not a difference of two equilibrium responses: %s' % (i, short(ct[i])), False)
                continue
            ti = ts[0]
            d = S.d[ti]['bc'][i] - strain[i]
            d = deep(d, cx, 'ite')
            if not small(d):
                note(False, 'post', 'tangent column %d: perturbation %s' % (i, short(d)), d.const() is not None)
                continue
            for v in range(n):
                if v != i:
                    same(ex, cx, S.d[ti]['bc'][v], strain[v], 'post', 'column %d perturbs only its own component' % i)
                same(ex, cx, ct[v * n + i], (A(v, ti) - A(v, t0)) / d, 'post', 'tangent entry (%d,%d) is the forward difference' % (v, i))
            self.hist(ex, cx, ti, has, 'column %d from the committed history of this Gauss point' % i)
        # history
        nl = bsym('nl:' + t0)
        fl = r.mem[c.list].fields
        N, K = r.mem[fl[('int_vars_n', '*')]], r.mem[fl[('int_vars_k', '*')]]
        for y in ((nl, Not(nl)) if not has else (TRUE,)):
            cy = cx.extend(y)
            if not cy.consistent():
                continue
            got = r.mem[fl[('int_vars_n',)]].read(0, (g,), cy)
            same(ex, cy, got, TRUE if has or y is nl else FALSE, 'post', 'history is kept exactly once the cell has yielded under the unperturbed strain')
            if not has and y is not nl:
                continue
            co, rng = generic_coords(N)
            cz = cy.extend(*rng).extend(eq(co[0], g))
            cog = (g,) + co[1:]
            for s in range(N.nslots):
                want = self.entry[('int_vars_n', '*')].read(s, cog, cz) if has else ZERO
                same(ex, cz, N.read(s, cog, cz), want, 'post', 'committed history unchanged by homogenisation')
                same(ex, cz, K.read(s, cog, cz), S.trial(t0, s, co[1:]), 'post', 'trial history is that of the unperturbed strain')


@unit('homogenize/{0}D', 'micropp_t::homogenize', 2, 3, cost=20)
def u_homog(prog, dim):
    ex, st, c, k = gp_cell(prog, dim)
    q = 'micropp_t::homogenize'
    S = Solves(c)
    S.attach(ex)
    H = Homog(c, S)
    ex.list_provider = H
    st.ghost['bc'], st.ghost['sol'] = None, None
    pre = st.copy()
    LOG.where = q
    outs = run(ex, q, st, c.this, [])
    if not outs:
        LOG.fail('vacuity', 'no final state of %s' % q, False)
    if not H.done:
        LOG.fail('vacuity', 'no loop over the Gauss points found', False)
    fl = pre.mem[c.list].fields
    skip = set(c.arr[x] for x in ('u', 'du', 'b', 'vals', 'vars_old', 'vars_new')) | set(fl.values())
    for o in outs:
        LOG.where = q
        # inv_max is scratch
        o.setcell(c.o, ('inv_max',), pre.mem[c.o].cells[('inv_max',)])
        compare_states(ex, pre, o, pre, 'frame', skip=skip)
        leaks(ex, pre, o)


def lin_stress(c, CL, e):
    out = []
    for i in range(c.nvoi):
        x = ZERO
        for j in range(c.nvoi):
            x = x + CL[i * c.nvoi + j] * e[j]
        out.append(x)
    return out


@unit('is_linear/{0}D', 'micropp_t::is_linear', 2, 3)
def u_lin(prog, dim):
    """true iff |tr(C_lin e)| < tolerance; records the largest value seen"""
    ex, st, c, k = start(prog, dim)
    q = 'micropp_t::is_linear'
    p, e, oid = vec(st, 'strain', c.nvoi)

    pre = st.copy()
    CL = [st.mem[c.o].cells[('ctan_lin', i)] for i in range(36)]
    sg = lin_stress(c, CL, e)
    inv = ZERO
    for i in range(dim):
        inv = inv + sg[i]
    want = lt(T.absval(inv), st.mem[c.o].cells[('inv_tol',)])
    LOG.where = q
    outs = run(ex, q, st, c.this, [p])
    if not outs:
        LOG.fail('vacuity', 'no final state of %s' % q, False)
    for o in outs:
        LOG.where = q
        compare_ret(ex, o, pre, o.ret, want)
        # the largest value seen is a diagnostic
        o.setcell(c.o, ('inv_max',), pre.mem[c.o].cells[('inv_max',)])
        compare_states(ex, pre, o, pre, 'frame')


@unit('calc_ctan_lin/{0}D', 'micropp_t::calc_ctan_lin', 2, 3, cost=2)
def u_ctanlin(prog, dim):
    """column i: average stress of the equilibrium under d*e_i from the history in vars_old, over d"""
    ex, st, c, k = start(prog, dim)
    q = 'micropp_t::calc_ctan_lin'
    S = Solves(c)
    S.attach(ex)
    st.ghost['bc'], st.ghost['sol'] = None, None
    pre = st.copy()
    LOG.where = q
    outs = run(ex, q, st, c.this, [])
    if not outs:
        LOG.fail('vacuity', 'no final state of %s' % q, False)
    n = c.nvoi
    A = lambda v, t: fn('AVE%d' % v, (sym(t, 'r'),))
    skip = set(c.arr[x] for x in ('u', 'du', 'b', 'vals', 'vars_new'))
    for o in outs:
        LOG.where = q
        ct = [deep(o.mem[c.o].cells[('ctan_lin', i)], o.pc, 'ite') for i in range(n * n)]
        for i in range(n):
            ts = sorted(set(t for v in range(n) for t in S.of(ct[v * n + i])))
            if len(ts) != 1:
                note(False, 'post', 'column %d is not the response of one equilibrium: %s' % (i, short(ct[i])), not any(havocked(ATOMS[j]) for j in term_fv(ct[i])))
                continue
            t = ts[0]
            d = deep(S.d[t]['bc'][i], o.pc, 'ite')
            if not small(d):
                note(False, 'post', 'column %d: strain %s' % (i, short(d)), d.const() is not None)
                continue
            for v in range(n):
                if v != i:
                    same(ex, o.pc, S.d[t]['bc'][v], ZERO, 'post', 'column %d: unit strain in component %d only' % (i, i))
                same(ex, o.pc, ct[v * n + i], A(v, t) / d, 'post', 'linear tangent entry (%d,%d)' % (v, i))
            a = pre.mem[c.arr['vars_old']]
            co, rng = generic_coords(a)
            cy = o.pc.extend(*rng)
            for old in S.d[t]['olds']:
                for s in range(a.nslots):
                    same(ex, cy, old.read(s, co, cy), a.read(s, co, cy), 'post', 'response from the history in vars_old')
        w = pre.copy()
        for i in range(n * n):
            w.setcell(c.o, ('ctan_lin', i), o.mem[c.o].cells[('ctan_lin', i)])
        compare_states(ex, pre, o, w, 'frame', skip=skip)
        leaks(ex, pre, o)
