"""newton_raphson(): every correction solves the system assembled at the current displacement and is added in full.

Ghost arrays, written by the callee contracts only: the displacement at the last residual evaluation and at the last matrix
assembly, the residual and matrix they left, and the displacement expected after the last linear solve."""
from newton import *

GH = (('gr', 'u'), ('gm', 'u'), ('gn', 'u'), ('gb', 'b'), ('gv', 'vals'))
SAY = {'gr': 'the right-hand side was assembled at the current displacement',
       'gm': 'the matrix was assembled at the current displacement',
       'gb': 'the right-hand side is the assembled residual',
       'gv': 'the matrix is the assembled stiffness matrix',
       'gn': 'the displacement is the previous one plus the correction of the last linear solve'}


class Steps(object):
    def __init__(self, ex, st, c):
        self.ex, self.c = ex, c
        self.g, self.src = {}, {}
        for k, a in GH:
            s = st.mem[c.arr[a]]
            oid = '$' + k
            st.mem[oid] = Arr('ghost:' + k, s.grid, s.nslots, s.sort)
            self.g[k], self.src[k] = oid, c.arr[a]
        self.take(st, 'gn')
        self.tag = ''

    def take(self, st, k):
        a, g = st.mem[self.src[k]], st.mem[self.g[k]].copy()
        g.base, g.heads = a.base, dict(a.heads)
        st.mem[self.g[k]] = g

    def ident(self, st, k):
        a, g = st.mem[self.src[k]], st.mem[self.g[k]]
        return a.base is g.base and a.heads == g.heads

    def slots(self, st, k):
        a, g = st.mem[self.src[k]], st.mem[self.g[k]]
        return [s for s in range(a.nslots) if a.base is not g.base or a.heads.get(s) is not g.heads.get(s)]

    def holds(self, st, k):
        if self.ident(st, k):
            return True
        a, g = st.mem[self.src[k]], st.mem[self.g[k]]

        def f():
            co, rng = generic_coords(a)
            cx = st.pc.extend(*rng)
            return all(is_zero(cx, a.read(s, co, cx) - g.read(s, co, cx), [80]) for s in self.slots(st, k))
        return quiet(f)

    def demand(self, st, k):
        """obligation"""
        ex = self.ex
        if self.ident(st, k):
            LOG.ok('step')
            return
        a, g = st.mem[self.src[k]], st.mem[self.g[k]]
        co, rng = generic_coords(a)
        cx = st.pc.extend(*rng)
        for s in self.slots(st, k):
            r = prove_equal(ex, cx, a.read(s, co, cx), g.read(s, co, cx), 'step', SAY[k])
            if r is not None:
                LOG.fail('step', self.tag + r['desc'], r['refuted'], r.get('model'))
                return
        LOG.ok('step')

    def cand(self, k):
        def assume(ex, s0, st):
            a, g = st.mem[self.src[k]], st.mem[self.g[k]].copy()
            g.base, g.heads = a.base, dict(a.heads)
            st.mem[self.g[k]] = g
        return Cand(('step', k), SAY[k], lambda ex, s0, st: self.holds(st, k), assume)


@unit('newton_step/{0}D', 'micropp_t::newton_raphson', 2, 3, cost=5)
def u_step(prog, dim):
    ex, st, c, k = prep(prog, dim)
    k.attach('assembly_rhs', 'assembly_mat')
    q = 'micropp_t::newton_raphson'
    rhs, mat = k.assembly_rhs, k.assembly_mat
    S = Steps(ex, st, c)

    def con_rhs(ex, st, this, args):
        S.demand(st, 'gn')
        rhs(ex, st, this, args)
        r, fl = sym(fresh_name('norm'), 'r'), bsym(fresh_name('yields'))
        st.assume(le(0, r))
        wr(ex, st, args[0], 0, fl)
        S.take(st, 'gr')
        S.take(st, 'gb')
        return r

    def con_mat(ex, st, this, args):
        mat(ex, st, this, args)
        S.take(st, 'gm')
        S.take(st, 'gv')

    def con_solve(ex, st, this, args):
        for x in ('gn', 'gr', 'gm', 'gb', 'gv'):
            S.demand(st, x)
        u, du, g = st.mem[c.arr['u']], st.mem[c.arr['du']], st.mem[S.g['gn']].copy()
        bx = box(c.grid)
        qq = tuple(P(a) for a, _ in bx)
        cx = bctx(st.pc, bx)
        nm = fresh_name('correction')
        for d in range(c.dim):
            w = fn('%s_%d' % (nm, d), qq)
            du.write(d, qq, w, TRUE, bx)
            g.write(d, qq, u.read(d, qq, cx) + w, TRUE, bx)
        st.mem[S.g['gn']] = g
    T_ = Contracts.TABLE
    ex.contracts[T_['assembly_rhs']], ex.contracts[T_['assembly_mat']], ex.contracts[T_['solve']] = con_rhs, con_mat, con_solve
    pn, no = scalar(st, 'nl_flag', 'b')
    pi, io = scalar(st, 'its', 'i')
    pe, eo = scalar(st, 'err', 'r')

    def prov(ex, st0, W, WA, node):
        return [S.cand(x) for x, _ in GH]

    def final(ex, st0, backs, exits, rets, first):
        # the first iteration once more from the real entry state, where a failure is a counterexample
        S.tag = 'first iteration: '
        try:
            for _, r in first():
                S.demand(r, 'gn')
        except (Unsupported, Fork, CannotMerge):
            pass
        finally:
            S.tag = ''
    prov.final = final
    ex.providers[q] = prov
    LOG.where = q
    n = 0
    for o in run(ex, q, st, c.this, [pn, pi, pe]):
        LOG.where = q
        n += 1
        S.demand(o, 'gn')
    if not n:
        LOG.fail('vacuity', 'no final state', False)
