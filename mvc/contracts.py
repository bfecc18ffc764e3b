"""Contracts of the functions of micropp, as state transformers.

con(ex, st, this, args) checks the precondition at the call (obligation 'requires') and turns
the pre-state into the post-state.  The same text is used twice: a caller is executed against
it, and the function's own body is compared with it (units.py).  Where a contract says 'opaque',
callers see an uninterpreted function of everything the result may depend on; the unit of the
function itself proves the body equal to the unfolded definition (SIGX, ...)."""
from fractions import Fraction
import term as T
from term import *
from mem import *
from vals import *
from spec import *

GP = Fraction('0.577350269189625764509148780502')       # 1/sqrt(3)
CORN2 = ((0, 0), (1, 0), (1, 1), (0, 1))
CORN3 = tuple((x, y, 0) for x, y in CORN2) + tuple((x, y, 1) for x, y in CORN2)
VOIGT = {2: ((0, 0), (1, 1), (0, 1)), 3: ((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2))}
HALF = Fraction(1, 2)
MATF7 = ('E', 'nu', 'Sy', 'Ka', 'mu', 'k', 'lambda')


def require(ex, st, f, desc):
    d = st.pc.decide(f)
    if d is True:
        LOG.ok('requires')
        return
    m = ex.counterexample(st.pc, Not(f))
    LOG.fail('requires', desc, m is not None, m)
    raise Refuted('requires: ' + desc) if m is not None else Unsupported('requires: ' + desc)


def at(ex, st, p, i):
    if isinstance(p, CellLV):           # reference to an array
        return CellLV(p.o, p.p + (i,))
    return ex.offset(ex.deref(st, p, 'argument'), P(i))


def rd(ex, st, p, i=0):
    return ex.read(st, at(ex, st, p, i))


def wr(ex, st, p, i, v):
    ex.write(st, at(ex, st, p, i), v)


def rdn(ex, st, p, n):
    return [rd(ex, st, p, i) for i in range(n)]


def wrn(ex, st, p, vals):
    for i, v in enumerate(vals):
        wr(ex, st, p, i, v)


# ------------------------------------------------------------------ kinematics
def corners(dim):
    return CORN2 if dim == 2 else CORN3


def shape_grad(c, a, d, gp):
    """derivative of the shape function of corner a in direction d at Gauss point gp"""
    cs = corners(c.dim)
    s = [2 * x - 1 for x in cs[a]]
    xi = [GP * (2 * x - 1) for x in cs[gp]]
    v = Fraction(s[d], 2 ** c.dim)
    for e in range(c.dim):
        if e != d:
            v = v * (1 + s[e] * xi[e])
    return P(v * 2) / c.d[d]


def bmat(c, gp):
    B = [[ZERO] * (c.npe * c.dim) for _ in range(c.nvoi)]
    for a in range(c.npe):
        for v, (i, j) in enumerate(VOIGT[c.dim]):
            if i == j:
                B[v][a * c.dim + i] = shape_grad(c, a, i, gp)
            else:
                B[v][a * c.dim + i] = shape_grad(c, a, j, gp)
                B[v][a * c.dim + j] = shape_grad(c, a, i, gp)
    return B


def bm(c, gp):
    if not hasattr(c, '_b'):
        c._b = {}
    if gp not in c._b:
        c._b[gp] = bmat(c, gp)
    return c._b[gp]


def ecoord(args, dim):
    """(ex, ey[, ez]) -> digits outer..inner"""
    return tuple(reversed(args[:dim]))


def node_of(co, a, dim):
    """digits of corner a of element co"""
    off = corners(dim)[a]
    return tuple(co[n] + off[dim - 1 - n] for n in range(dim))


def elem_range(c, co):
    return And(*[And(le(0, x), lt(x, g)) for x, g in zip(co, c.egrid)])


def elem_disp(c, st, co):
    u = st.mem[c.arr['u']]
    return [u.read(d, node_of(co, a, c.dim), st.pc) for a in range(c.npe) for d in range(c.dim)]


def elem_strain(c, st, co, gp):
    ud = elem_disp(c, st, co)
    B = bm(c, gp)
    out = []
    for v in range(c.nvoi):
        s = ZERO
        for i, x in enumerate(ud):
            if B[v][i].t:
                s = s + B[v][i] * x
        out.append(s)
    return out


def elem_type(c, st, co):
    return st.mem[c.arr['elem_type']].read(0, co, st.pc)


def mat_field(c, et, f):
    a, b = c.mats[0][f], c.mats[1][f]
    z = eq(et, 0)
    return itef(z, a, b) if isinstance(a, Formula) else ite(z, a, b)


# ------------------------------------------------------------------ constitutive law
def hooke2(E, nu, e):
    lam = nu * E / ((ONE + nu) * (ONE - nu * 2))
    mu = E / ((ONE + nu) * 2)
    tr = e[0] + e[1]
    return [lam * tr + mu * 2 * e[0], lam * tr + mu * 2 * e[1], mu * e[2]]


def hooke3(lam, mu, e):
    tr = e[0] + e[1] + e[2]
    return [lam * tr + mu * 2 * e[i] for i in range(3)] + [mu * e[i] for i in range(3, 6)]


def PS(consts, eps, epo, al):
    """plastic_step, opaque: (stress[6], eps_p_new[6], alpha_new, flag)"""
    a = tuple(consts) + tuple(eps) + tuple(epo) + (al,)
    return ([fn('PS_stress%d' % i, a) for i in range(6)], [fn('PS_epsp%d' % i, a) for i in range(6)],
            fn('PS_alpha', a), fnb('PS_yield', a))


def SIG(c, et, eps, old):
    """stress law of an integration point, opaque: stress, trial history (7), flag"""
    if c.dim == 2:
        a = (et,) + tuple(eps)
        return [fn('SIG2_%d' % v, a) for v in range(3)], None, FALSE
    a = (et,) + tuple(eps) + tuple(old)
    return ([fn('SIG3_%d' % v, a) for v in range(6)], [fn('TRIAL_%d' % i, a) for i in range(7)],
            And(mat_field(c, et, 'plasticity'), fnb('YIELD', a)))


def SIGX(c, et, eps, old):
    """the same, unfolded"""
    M = lambda f: mat_field(c, et, f)
    if c.dim == 2:
        z = eq(et, 0)
        h = [hooke2(m['E'], m['nu'], eps) for m in c.mats[:2]]
        return [ite(z, h[0][v], h[1][v]) for v in range(3)], None, FALSE
    h = hooke3(M('lambda'), M('mu'), eps)
    s, ep, al, fl = PS((M('k'), M('mu'), M('Sy'), M('Ka')), eps, old[:6], old[6])
    pl = M('plasticity')
    return [ite(pl, s[v], h[v]) for v in range(6)], ep + [al], And(pl, fl)


class Contracts(object):
    """contracts bound to a cell c; attach(ex, names) installs them"""

    def __init__(self, ex, c, unfold=()):
        self.ex, self.c = ex, c
        self.unfold = set(unfold)

    TABLE = {
        'set_displ': ('micropp_t::set_displ', 1),
        'getElemDisp2': ('micropp_t::getElemDisp', 3),
        'getElemDisp3': ('micropp_t::getElemDisp', 4),
        'calc_bmat': ('micropp_t::calc_bmat_3D', 2),
        'get_strain2D': ('micropp_t::get_strain2D', 4),
        'get_strain3D': ('micropp_t::get_strain3D', 5),
        'get_material': ('micropp_t::get_material', 2),
        'plastic_step': ('micropp_t::plastic_step', 8),
        'get_stress2D': ('micropp_t::get_stress2D', 6),
        'get_stress3D': ('micropp_t::get_stress3D', 7),
        'get_ctan_plast_pert': ('micropp_t::get_ctan_plast_pert', 5),
        'get_elem_rhs2D': ('micropp_t::get_elem_rhs2D', 4),
        'get_elem_rhs3D': ('micropp_t::get_elem_rhs3D', 5),
        'get_elem_mat2D': ('micropp_t::get_elem_mat2D', 3),
        'get_elem_mat3D': ('micropp_t::get_elem_mat3D', 4),
        'assembly_rhs': ('micropp_t::assembly_rhs', 1),
        'assembly_mat': ('micropp_t::assembly_mat', 0),
        'calc_ave_stress': ('micropp_t::calc_ave_stress', 1),
        'calc_ave_strain': ('micropp_t::calc_ave_strain', 1),
        'calc_fields': ('micropp_t::calc_fields', 0),
        'get_elem_type2D': ('micropp_t::get_elem_type2D', 2),
        'get_elem_type3D': ('micropp_t::get_elem_type3D', 3),
        'solve': ('micropp_t::solve', 0),
        'newton_raphson': ('micropp_t::newton_raphson', 3),
        'is_linear': ('micropp_t::is_linear', 1),
        'get_inv_1': ('micropp_t::get_inv_1', 1),
        'calc_ctan_lin': ('micropp_t::calc_ctan_lin', 0),
        'ell_set_zero_mat': ('ell_set_zero_mat', 1),
        'ell_mvp_2D': ('ell_mvp_2D', 3),
        'ell_add_struct2D': ('ell_add_struct2D', 7),
        'ell_add_struct3D': ('ell_add_struct3D', 9),
        'ell_set_bc_2D': ('ell_set_bc_2D', 4),
        'ell_set_bc_3D': ('ell_set_bc_3D', 5),
        'ell_init_2D': ('ell_init_2D', 4),
        'ell_init_3D': ('ell_init_3D', 5),
        'ell_solve_cgpd_2D': ('ell_solve_cgpd_2D', 7),
        'ell_solve_cgpd_struct': ('ell_solve_cgpd_struct', 7),
        'ell_free': ('ell_free', 1),
        'write_vtu': ('micropp_t::write_vtu', 2),
    }

    def attach(self, *names):
        for n in names:
            self.ex.contracts[self.TABLE[n]] = getattr(self, n)
        return self

    def me(self, this):
        if not (isinstance(this, Ptr) and isinstance(this.lv, CellLV) and this.lv.o == self.c.o):
            raise Unsupported('call on another object')

    # -------------------------------------------------------------- boundary displacement
    def set_displ(self, ex, st, this, args):
        c = self.c
        self.me(this)
        e = rdn(ex, st, args[0], c.nvoi)
        u = st.mem[c.arr['u']]
        bx = box(c.grid)
        pos = [P(a) for a, _ in bx]
        xyz = [pos[c.dim - 1 - d] * c.d[d] for d in range(c.dim)]
        M = [[None] * c.dim for _ in range(c.dim)]
        for v, (i, j) in enumerate(VOIGT[c.dim]):
            M[i][j] = M[j][i] = e[v] if i == j else e[v] * HALF
        bd = self.boundary(pos)
        for d in range(c.dim):
            u.write(d, tuple(pos), sum((M[d][k] * xyz[k] for k in range(c.dim)), ZERO), bd, bx)

    def boundary(self, pos):
        return Or(*[Or(eq(p, 0), eq(p, g - 1)) for p, g in zip(pos, self.c.grid)])

    # -------------------------------------------------------------- strain
    def _disp(self, ex, st, this, args, dim):
        c = self.c
        self.me(this)
        if c.dim != dim:
            raise Unsupported('%dD function on a %dD cell' % (dim, c.dim))
        co = ecoord(args, dim)
        require(ex, st, elem_range(c, co), 'element in the grid')
        wrn(ex, st, args[dim], elem_disp(c, st, co))

    def getElemDisp2(self, ex, st, this, args):
        self._disp(ex, st, this, args, 2)

    def getElemDisp3(self, ex, st, this, args):
        self._disp(ex, st, this, args, 3)

    def gp_of(self, ex, st, g):
        k = g.const()
        if k is None:
            raise Unsupported('symbolic integration point')
        require(ex, st, TRUE if 0 <= k < self.c.ngp else FALSE, 'integration point number %s' % k)
        return k

    def calc_bmat(self, ex, st, this, args):
        c = self.c
        self.me(this)
        gp = self.gp_of(ex, st, args[0])
        B = bm(c, gp)
        lv = ex.deref(st, args[1])
        # double (*)[24]: element v of the pointer is a row
        for v in range(6):
            row = ex.offset(lv, P(v))
            for i in range(24):
                ex.write(st, CellLV(row.o, row.p + (i,)), B[v][i])

    def _strain(self, ex, st, this, args, dim):
        c = self.c
        self.me(this)
        if c.dim != dim:
            raise Unsupported('%dD function on a %dD cell' % (dim, c.dim))
        co = ecoord(args, dim)
        require(ex, st, elem_range(c, co), 'element in the grid')
        gp = self.gp_of(ex, st, args[dim])
        wrn(ex, st, args[dim + 1], elem_strain(c, st, co, gp))

    def get_strain2D(self, ex, st, this, args):
        self._strain(ex, st, this, args, 2)

    def get_strain3D(self, ex, st, this, args):
        self._strain(ex, st, this, args, 3)

    # -------------------------------------------------------------- material law
    def get_material(self, ex, st, this, args):
        c = self.c
        self.me(this)
        arr, co, slot = ex.locate(st, ArrLV(c.arr['elem_type'], (), args[0]))
        et = elem_type(c, st, co)
        lv = args[1]
        for f in MATF7 + ('plasticity',):
            ex.write(st, ex.member(lv, f), mat_field(c, et, f))
        ex.write(st, ex.member(lv, 'damage'), bsym(fresh_name('h#damage')))

    def plastic_step(self, ex, st, this, args):
        m = ex.deref(st, args[0])
        K = [ex.read(st, ex.member(m, f)) for f in ('k', 'mu', 'Sy', 'Ka')]
        eps, epo, al = rdn(ex, st, args[1], 6), rdn(ex, st, args[2], 6), args[3]
        s, ep, a2, fl = PS(K, eps, epo, al)
        wrn(ex, st, args[4], ep)
        wr(ex, st, args[5], 0, a2)
        # the flag is only ever raised
        old = rd(ex, st, args[6])
        wr(ex, st, args[6], 0, Or(old, fl))
        wrn(ex, st, args[7], s)

    def old_vars(self, st, co, gp):
        a = st.mem[self.c.arr['vars_old']]
        return [a.read(gp * 7 + i, co, st.pc) for i in range(7)]

    def get_stress2D(self, ex, st, this, args):
        c = self.c
        self.me(this)
        co = ecoord(args, 2)
        require(ex, st, elem_range(c, co), 'element in the grid')
        self.gp_of(ex, st, args[2])
        eps = rdn(ex, st, args[3], 3)
        law = SIGX if 'stress' in self.unfold else SIG
        s, _, _ = law(c, elem_type(c, st, co), eps, ())
        wr(ex, st, args[4], 0, FALSE)
        wrn(ex, st, args[5], s)

    def get_stress3D(self, ex, st, this, args):
        c = self.c
        self.me(this)
        co = ecoord(args, 3)
        require(ex, st, elem_range(c, co), 'element in the grid')
        gp = self.gp_of(ex, st, args[3])
        eps = rdn(ex, st, args[4], 6)
        et = elem_type(c, st, co)
        law = SIGX if 'stress' in self.unfold else SIG
        s, tr, fl = law(c, et, eps, self.old_vars(st, co, gp))
        wr(ex, st, args[5], 0, fl)
        wrn(ex, st, args[6], s)
        vn = st.mem[c.arr['vars_new']]
        pl = mat_field(c, et, 'plasticity')
        for i in range(7):
            vn.write(gp * 7 + i, co, tr[i], pl)

    # -------------------------------------------------------------- element level
    def _args(self, ex, st, this, args, dim):
        c = self.c
        self.me(this)
        if c.dim != dim:
            raise Unsupported('%dD function on a %dD cell' % (dim, c.dim))
        co = ecoord(args, dim)
        require(ex, st, elem_range(c, co), 'element in the grid')
        return co

    def estate(self, st, co):
        """everything the response of element co depends on, as one opaque value"""
        c = self.c
        a = (elem_type(c, st, co),) + tuple(elem_disp(c, st, co))
        if c.dim == 3:
            a += tuple(st.mem[c.arr['vars_old']].read(s, co, st.pc) for s in range(56))
        return fn('ES', a)

    def gpstate(self, st, co):
        """per Gauss point (strain, stress, trial, flag), with the opaque point law"""
        c = self.c
        et = elem_type(c, st, co)
        out = []
        for gp in range(c.ngp):
            e = elem_strain(c, st, co, gp)
            old = self.old_vars(st, co, gp) if c.dim == 3 else ()
            out.append((e,) + SIG(c, et, e, old))
        return out

    def wg(self):
        w = P(Fraction(1, self.c.ngp))
        for d in self.c.d:
            w = w * d
        return w

    def write_trial(self, st, co, vals, guard=TRUE, q=()):
        """vars_new of a plastic element"""
        c = self.c
        if c.dim == 2:
            return
        pl = And(mat_field(c, elem_type(c, st, co), 'plasticity'), guard)
        vn = st.mem[c.arr['vars_new']]
        for s in range(56):
            vn.write(s, co, vals[s], pl, q)

    def trial_op(self, st, co):
        es = self.estate(st, co)
        return [fn('ETR_%d' % s, (es,)) for s in range(56)]

    def havoc_trial(self, st, co, q=()):
        h = sym(fresh_name('h#tm'), 'r')
        self.write_trial(st, co, [fn('TM_%d' % s, (h,) + tuple(co)) for s in range(56)], TRUE, q)

    def _rhs(self, ex, st, this, args, dim):
        c = self.c
        co = self._args(ex, st, this, args, dim)
        nf = c.npe * dim
        if 'elem' in self.unfold:
            gps = self.gpstate(st, co)
            w = self.wg()
            be = []
            for i in range(nf):
                s = ZERO
                for gp in range(c.ngp):
                    B = bm(c, gp)
                    for v in range(c.nvoi):
                        if B[v][i].t:
                            s = s + B[v][i] * gps[gp][1][v] * w
                be.append(s)
            fl = Or(*[g[3] for g in gps])
            tr = [x for g in gps for x in g[2]] if dim == 3 else None
        else:
            es = self.estate(st, co)
            be = [fn('FE_%d' % i, (es,)) for i in range(nf)]
            fl = fnb('NLE', (es,)) if dim == 3 else FALSE
            tr = self.trial_op(st, co) if dim == 3 else None
        wr(ex, st, args[dim], 0, fl)
        wrn(ex, st, args[dim + 1], be)
        self.write_trial(st, co, tr)

    def get_elem_rhs2D(self, ex, st, this, args):
        self._rhs(ex, st, this, args, 2)

    def get_elem_rhs3D(self, ex, st, this, args):
        self._rhs(ex, st, this, args, 3)

    def ctan_pert(self, st, co, gp):
        """forward difference of the point law, C[v][w]"""
        c = self.c
        et, old = elem_type(c, st, co), self.old_vars(st, co, gp)
        e = elem_strain(c, st, co, gp)
        s0 = SIG(c, et, e, old)[0]
        h = P(Fraction('1e-8'))
        C = [[None] * 6 for _ in range(6)]
        for w in range(6):
            e1 = list(e)
            e1[w] = e1[w] + h
            s1 = SIG(c, et, e1, old)[0]
            for v in range(6):
                C[v][w] = (s1[v] - s0[v]) / h
        return C

    def get_ctan_plast_pert(self, ex, st, this, args):
        c = self.c
        co = self._args(ex, st, this, args, 3)
        gp = self.gp_of(ex, st, args[3])
        if 'ctan' in self.unfold:
            C = self.ctan_pert(st, co, gp)
        else:
            a = (elem_type(c, st, co),) + tuple(elem_strain(c, st, co, gp)) + tuple(self.old_vars(st, co, gp))
            C = [[fn('CTP_%d_%d' % (v, w), a) for w in range(6)] for v in range(6)]
        lv = ex.deref(st, args[4])
        for v in range(6):
            row = ex.offset(lv, P(v))
            for w in range(6):
                ex.write(st, CellLV(row.o, row.p + (w,)), C[v][w])
        pl = mat_field(c, elem_type(c, st, co), 'plasticity')
        vn = st.mem[c.arr['vars_new']]
        h = sym(fresh_name('h#tp'), 'r')
        for i in range(7):
            vn.write(gp * 7 + i, co, fn('TP_%d' % i, (h,) + tuple(co)), pl)

    def tangent(self, st, co, gp):
        c = self.c
        et = elem_type(c, st, co)
        M = lambda f: mat_field(c, et, f)
        if c.dim == 2:
            z = eq(et, 0)
            C = [[None] * 3 for _ in range(3)]
            for w in range(3):
                h = [hooke2(m['E'], m['nu'], [ONE if x == w else ZERO for x in range(3)]) for m in c.mats[:2]]
                for v in range(3):
                    C[v][w] = ite(z, h[0][v], h[1][v])
            return C
        a = (et,) + tuple(elem_strain(c, st, co, gp)) + tuple(self.old_vars(st, co, gp))
        pl = M('plasticity')
        C = [[None] * 6 for _ in range(6)]
        for w in range(6):
            h = hooke3(M('lambda'), M('mu'), [ONE if x == w else ZERO for x in range(6)])
            for v in range(6):
                C[v][w] = ite(pl, fn('CTP_%d_%d' % (v, w), a), h[v])
        return C

    def kelem(self, st, co):
        c = self.c
        nf = c.npe * c.dim
        w = self.wg()
        K = [ZERO] * (nf * nf)
        for gp in range(c.ngp):
            B, C = bm(c, gp), self.tangent(st, co, gp)
            CB = [[sum((C[v][x] * B[x][j] for x in range(c.nvoi) if B[x][j].t and C[v][x].t), ZERO) * w
                   for j in range(nf)] for v in range(c.nvoi)]
            for i in range(nf):
                for j in range(nf):
                    K[i * nf + j] = K[i * nf + j] + sum((B[v][i] * CB[v][j] for v in range(c.nvoi) if B[v][i].t), ZERO)
        return K

    def _mat(self, ex, st, this, args, dim):
        c = self.c
        co = self._args(ex, st, this, args, dim)
        nf = c.npe * dim
        if 'elem' in self.unfold:
            K = self.kelem(st, co)
        else:
            es = self.estate(st, co)
            K = [fn('KE_%d_%d' % (i, j), (es,)) for i in range(nf) for j in range(nf)]
        wrn(ex, st, args[dim], K)
        self.havoc_trial(st, co)

    def get_elem_mat2D(self, ex, st, this, args):
        self._mat(ex, st, this, args, 2)

    def get_elem_mat3D(self, ex, st, this, args):
        self._mat(ex, st, this, args, 3)

    # -------------------------------------------------------------- cell level
    def elem_at(self, q, a):
        """element of which node q is corner a, with its range condition"""
        c = self.c
        off = corners(c.dim)[a]
        co = tuple(q[n] - off[c.dim - 1 - n] for n in range(c.dim))
        return co, elem_range(c, co)

    def residual(self, st, q, d):
        c = self.c
        s = ZERO
        for a in range(c.npe):
            co, rng = self.elem_at(q, a)
            s = s + ite(rng, fn('FE_%d' % (a * c.dim + d), (self.estate(st, co),)), ZERO)
        return ite(self.boundary(q), ZERO, -s)

    def all_elems(self):
        bx = box(self.c.egrid, 'e')
        return bx, tuple(P(a) for a, _ in bx)

    def nl_any(self, st):
        """some element yields in the present state"""
        c = self.c
        if c.dim == 2:
            return FALSE
        bx, co = self.all_elems()
        return Exists(bx, fnb('NLE', (self.estate(st, co),)))

    def assembly_rhs(self, ex, st, this, args):
        c = self.c
        self.me(this)
        fl = self.nl_any(st)
        bx = box(c.grid)
        q = tuple(P(a) for a, _ in bx)
        pre = st.copy()
        b = st.mem[c.arr['b']]
        for d in range(c.dim):
            b.write(d, q, self.residual(pre, q, d), TRUE, bx)
        if c.dim == 3:
            ebx, co = self.all_elems()
            self.write_trial(st, co, self.trial_op(pre, co), TRUE, ebx)
        wr(ex, st, args[0], 0, fl)
        if 'rhs' in self.unfold:
            return lambda got: self.norm_b(got)
        return self.norm_b(st)

    def stiffness(self, st, q, d1, s, d2):
        """assembled coefficient before boundary conditions: every element matrix once"""
        c = self.c
        nf = c.npe * c.dim
        v = ZERO
        for k in range(c.npe):
            for n in range(c.npe):
                if slot_of(c.dim, k, n) == s:
                    co, rng = self.elem_at(q, k)
                    v = v + ite(rng, fn('KE_%d_%d' % (k * c.dim + d1, n * c.dim + d2), (self.estate(st, co),)), ZERO)
        return v

    def assembly_mat(self, ex, st, this, args):
        c = self.c
        self.me(this)
        bx = box(c.grid)
        q = tuple(P(a) for a, _ in bx)
        pre = st.copy()
        m = Mat(ex, st, CellLV(c.o, ('A',)), c.grid, c.dim)
        v = m.arr(ex, st, 'vals')
        bd = self.boundary(q)
        cen = m.nb // 2
        for i in range(m.nF):
            for s in range(m.nb):
                nbd = self.boundary(nb_node(c.grid, q, s))
                for j in range(m.nF):
                    val = self.stiffness(pre, q, i, s, j)
                    if s != cen:
                        val = ite(nbd, ZERO, val)
                    v.write(m.slot(i, s, j), q, ite(bd, ONE if (s == cen and i == j) else ZERO, val), TRUE, bx)
        if c.dim == 3:
            ebx, co = self.all_elems()
            self.havoc_trial(st, co, ebx)

    def norm_b(self, st):
        c = self.c
        bx = box(c.grid)
        q = tuple(P(a) for a, _ in bx)
        b = st.mem[c.arr['b']]
        s = ZERO
        for d in range(c.dim):
            v = b.read(d, q, bctx(st.pc, bx))
            s = s + v * v
        return T.sqrt(Sum(bx, s))

    def volume(self):
        v = ONE
        for l in self.c.l:
            v = v * l
        return v

    def _gpsum(self, gps, what, v):
        s = ZERO
        for g in gps:
            s = s + g[what][v]
        return s * self.wg()

    def calc_ave_stress(self, ex, st, this, args):
        c = self.c
        self.me(this)
        bx, co = self.all_elems()
        pre = st.copy()
        if 'elem' in self.unfold:
            gps = self.gpstate(pre, co)
            for v in range(c.nvoi):
                wr(ex, st, args[0], v, Sum(bx, self._gpsum(gps, 1, v)) / self.volume())
            tr = [x for g in gps for x in g[2]] if c.dim == 3 else None
        else:
            es = self.estate(pre, co)
            for v in range(c.nvoi):
                wr(ex, st, args[0], v, Sum(bx, fn('ST_%d' % v, (es,))) / self.volume())
            tr = self.trial_op(pre, co) if c.dim == 3 else None
        self.write_trial(st, co, tr, TRUE, bx)

    def calc_ave_strain(self, ex, st, this, args):
        c = self.c
        self.me(this)
        bx, co = self.all_elems()
        es = [elem_strain(c, st, co, gp) for gp in range(c.ngp)]
        for v in range(c.nvoi):
            s = ZERO
            for e in es:
                s = s + e[v]
            wr(ex, st, args[0], v, Sum(bx, s * self.wg()) / self.volume())

    def calc_fields(self, ex, st, this, args):
        c = self.c
        self.me(this)
        bx, co = self.all_elems()
        pre = st.copy()
        gps = self.gpstate(pre, co)
        vol = ONE
        for d in c.d:
            vol = vol * d
        for v in range(c.nvoi):
            st.mem[c.arr['elem_strain']].write(v, co, self._gpsum(gps, 0, v) / vol, TRUE, bx)
            st.mem[c.arr['elem_stress']].write(v, co, self._gpsum(gps, 1, v) / vol, TRUE, bx)
        if c.dim == 3:
            self.write_trial(st, co, [x for g in gps for x in g[2]], TRUE, bx)


# ------------------------------------------------------------------ sparse matrix
class Mat(object):
    """an ell_matrix of a structured grid with nF unknowns per node, somewhere in memory"""

    def __init__(self, ex, st, lv, grid, nF):
        self.lv, self.grid, self.nF = lv, tuple(grid), nF
        self.dim = len(self.grid)
        self.nb = 3 ** self.dim
        self.nnz = self.nb * nF

    def field(self, ex, st, f):
        return ex.read(st, ex.member(self.lv, f))

    def arr(self, ex, st, f):
        p = self.field(ex, st, f)
        if not (isinstance(p, Ptr) and isinstance(p.lv, ArrLV) and not p.lv.pre and p.lv.off == ZERO):
            raise Unsupported('matrix array')
        return st.mem[p.lv.o]

    def slot(self, d1, s, d2):
        return d1 * self.nnz + s * self.nF + d2


def nb_offsets(dim):
    """offsets of the neighbourhood, x fastest; digits outer..inner"""
    import itertools
    return [tuple(o) for o in itertools.product((-1, 0, 1), repeat=dim)]


def nb_exists(grid, co, s):
    off = nb_offsets(len(grid))[s]
    fs = []
    for o, x, g in zip(off, co, grid):
        if o == -1:
            fs.append(le(1, x))
        elif o == 1:
            fs.append(lt(x + 1, g))
    return And(*fs)


def nb_node(grid, co, s):
    off = nb_offsets(len(grid))[s]
    return tuple(x + o for x, o in zip(co, off))


def flat(grid, co):
    e = ZERO
    for x, g in zip(co, grid):
        e = e * g + x
    return e


def grid_boundary(grid, pos):
    return Or(*[Or(eq(p, 0), eq(p, g - 1)) for p, g in zip(pos, grid)])


def slot_of(dim, k, n):
    """neighbourhood slot of corner n seen from corner k"""
    ck, cn = corners(dim)[k], corners(dim)[n]
    s = 0
    for d in reversed(range(dim)):
        s = s * 3 + (cn[d] - ck[d] + 1)
    return s


class EllContracts(object):
    """contracts of the ell_* functions; grid: sizes outer..inner of the structured grid"""

    def __init__(self, ex, grid):
        self.ex, self.grid, self.dim = ex, tuple(grid), len(grid)

    def attach(self, *names):
        for n in names:
            self.ex.contracts[Contracts.TABLE[n]] = getattr(self, n)
        return self

    def mat(self, ex, st, p, nF=None):
        lv = ex.deref(st, p, 'matrix')
        nnz = ex.read(st, ex.member(lv, 'nnz')).const()
        if nnz is None or nnz % 3 ** self.dim:
            raise Unsupported('row length')
        m = Mat(ex, st, lv, self.grid, nnz // 3 ** self.dim)
        if nF is not None:
            k = nF.const()
            require(ex, st, TRUE if k == m.nF else FALSE, 'unknowns per node of the matrix')
        return m

    def want_sizes(self, ex, st, args):
        for a, g in zip(reversed(args), self.grid):
            require(ex, st, eq(a, g), 'grid size of the matrix')

    def ell_set_zero_mat(self, ex, st, this, args):
        m = self.mat(ex, st, args[0])
        v = m.arr(ex, st, 'vals')
        bx = box(self.grid)
        q = tuple(P(a) for a, _ in bx)
        for s in range(m.nF * m.nnz):
            v.write(s, q, ZERO, TRUE, bx)
        return ZERO

    def _add(self, ex, st, args, dim):
        m = self.mat(ex, st, args[0], args[dim + 2])
        self.want_sizes(ex, st, args[dim + 3:])
        co = tuple(reversed(args[1:dim + 1]))
        require(ex, st, And(*[And(le(0, x), lt(x, g - 1)) for x, g in zip(co, self.grid)]), 'element in the grid')
        npe, nF = 2 ** dim, m.nF
        v = m.arr(ex, st, 'vals')
        Ae = [rd(ex, st, args[dim + 1], i) for i in range(npe * nF * npe * nF)]
        for k in range(npe):
            node = node_of(co, k, dim)
            for i in range(nF):
                for n in range(npe):
                    for j in range(nF):
                        v.write(m.slot(i, slot_of(dim, k, n), j), node, Ae[(k * nF + i) * npe * nF + n * nF + j],
                                TRUE, (), 'add')

    def ell_add_struct2D(self, ex, st, this, args):
        self._add(ex, st, args, 2)

    def ell_add_struct3D(self, ex, st, this, args):
        self._add(ex, st, args, 3)

    def _bc(self, ex, st, args, dim):
        m = self.mat(ex, st, args[0], args[1])
        self.want_sizes(ex, st, args[2:])
        v = m.arr(ex, st, 'vals')
        bx = box(self.grid)
        q = tuple(P(a) for a, _ in bx)
        bd = grid_boundary(self.grid, q)
        cen = m.nb // 2
        for i in range(m.nF):
            for s in range(m.nb):
                for j in range(m.nF):
                    sl = m.slot(i, s, j)
                    v.write(sl, q, ONE if (s == cen and i == j) else ZERO, bd, bx)
                    if s != cen:
                        nbd = grid_boundary(self.grid, nb_node(self.grid, q, s))
                        v.write(sl, q, ZERO, And(Not(bd), nbd), bx)

    def ell_set_bc_2D(self, ex, st, this, args):
        self._bc(ex, st, args, 2)

    def ell_set_bc_3D(self, ex, st, this, args):
        self._bc(ex, st, args, 3)


def col_value(grid, co, nF, s, d2):
    return ite(nb_exists(grid, co, s), flat(grid, nb_node(grid, co, s)) * nF + d2, ZERO)
