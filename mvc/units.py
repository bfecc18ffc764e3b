"""Proof units: one function body, one case, against its contract."""
import time
from term import *
import term as T
from mem import *
from vals import *
from spec import *
from verify import *
from contracts import *
import smt

UNITS = {}


class Unit(object):
    def __init__(self, name, fn, f, args, cost=1):
        self.name, self.fn, self.f, self.args, self.cost = name, fn, f, args, cost


def unit(name, fn, *argsets, **kw):
    """register unit(s): name formatted with the arguments"""
    def deco(f):
        for a in (argsets or ((),)):
            a = a if isinstance(a, tuple) else (a,)
            n = name.format(*a)
            UNITS[n] = Unit(n, fn, f, a, kw.get('cost', 1) * (10 if '3D' in n else 1))
        return f
    return deco


def start(prog, dim, *attach, **kw):
    ex = Executor(prog)
    st = new_state()
    c = make_cell(ex, st, dim, kw.get('gauss', True))
    k = Contracts(ex, c, kw.get('unfold', ()))
    k.attach(*attach)
    return ex, st, c, k


def elem_args(st, c):
    xs = [sym('ex', 'i'), sym('ey', 'i'), sym('ez', 'i')][:c.dim]
    for x, g in zip(reversed(xs), c.egrid):
        st.assume(le(0, x), lt(x, g))
    return xs


def check(ex, st, c, q, con, args, want_ret=None, ghost=False, npar=None, skip=(), kind='post'):
    """run body of q from st, compare with con applied to the same pre-state"""
    pre = st.copy()
    w = st.copy()
    # the specification's own calls are not obligations of the body
    nf = len(LOG.failed)
    LOG.where = q
    r2 = con(ex, w, c.this if c is not None and q.startswith('micropp_t') else None, list(args))
    outs = run(ex, q, st, c.this if c is not None and q.startswith('micropp_t') else None, list(args), npar)
    if not outs:
        LOG.fail('vacuity', 'no final state of %s' % q, False)
    for o in outs:
        LOG.where = q
        compare_states(ex, pre, o, w, kind, skip=skip, ghost=ghost)
        if callable(r2):
            r2v = r2(o)
        else:
            r2v = r2
        compare_ret(ex, o, w, o.ret, r2v)
        leaks(ex, pre, o)
    return outs


def leaks(ex, pre, o):
    """every block allocated by the function was released or is reachable"""
    for oid in o.allocs[len(pre.allocs):]:
        a = o.mem.get(oid)
        if isinstance(a, Arr) and a.alive is True and not reachable(o, oid, pre):
            m = ex.counterexample(o.pc, TRUE)
            LOG.fail('leak', 'block allocated at %s is not released' % a.name, m is not None, m)
        elif isinstance(a, Arr):
            LOG.ok('leak')


def reachable(o, oid, pre):
    for k in pre.mem:
        x = o.mem.get(k)
        if isinstance(x, Cells):
            for v in x.cells.values():
                if isinstance(v, Ptr) and isinstance(v.lv, ArrLV) and v.lv.o == oid:
                    return True
    return False


# ------------------------------------------------------------------ kinematics
@unit('set_displ/{0}D', 'micropp_t::set_displ', 2, 3)
def u_set_displ(prog, dim):
    ex, st, c, k = start(prog, dim)
    p, e, _ = vec(st, 'eps', c.nvoi)
    check(ex, st, c, 'micropp_t::set_displ', k.set_displ, [p])


@unit('getElemDisp/{0}D', 'micropp_t::getElemDisp', 2, 3)
def u_disp(prog, dim):
    ex, st, c, k = start(prog, dim)
    xs = elem_args(st, c)
    p, e, _ = vec(st, 'disp', c.npe * dim)
    check(ex, st, c, 'micropp_t::getElemDisp', k.getElemDisp2 if dim == 2 else k.getElemDisp3, xs + [p])


@unit('calc_bmat_3D/gp{0}', 'micropp_t::calc_bmat_3D', *range(8))
def u_bmat(prog, gp):
    ex, st, c, k = start(prog, 3)
    o = st.new(('arr', 6, ('arr', 24, 'r')), 'bmat')
    check(ex, st, c, 'micropp_t::calc_bmat_3D', k.calc_bmat, [P(gp), Ptr(CellLV(o, (0,)))])


@unit('get_strain{0}D/gp{1}', 'micropp_t::get_strain', *[(d, g) for d in (2, 3) for g in range(4 if d == 2 else 8)])
def u_strain(prog, dim, gp):
    ex, st, c, k = start(prog, dim, 'getElemDisp2', 'getElemDisp3', 'calc_bmat')
    xs = elem_args(st, c)
    p, e, _ = vec(st, 'strain', 6)
    check(ex, st, c, 'micropp_t::get_strain%dD' % dim, k.get_strain2D if dim == 2 else k.get_strain3D, xs + [P(gp), p])


@unit('lemma_affine/{0}D', 'lemma over get_strain, calc_ave_strain, set_displ', 2, 3)
def u_lemma_affine(prog, dim):
    """an affine displacement field has its constant symmetric gradient at every Gauss point, and
    the volume average of a constant is that constant"""
    ex, st, c, k = start(prog, dim)
    xs = elem_args(st, c)
    co = ecoord(xs, dim)
    LOG.where = 'lemma'
    G = [[sym('G%d%d' % (i, j), 'r') for j in range(dim)] for i in range(dim)]
    t = [sym('t%d' % i, 'r') for i in range(dim)]
    bx = box(c.grid)
    q = [P(a) for a, _ in bx]
    xyz = [q[dim - 1 - d] * c.d[d] for d in range(dim)]
    for i in range(dim):
        st.mem[c.arr['u']].write(i, tuple(q), t[i] + sum((G[i][j] * xyz[j] for j in range(dim)), ZERO), TRUE, bx)
    for gp in range(c.ngp):
        e = elem_strain(c, st, co, gp)
        for v, (i, j) in enumerate(VOIGT[dim]):
            same(ex, st.pc, deep(e[v], st.pc, 'fork'), G[i][i] if i == j else G[i][j] + G[j][i], 'lemma', 'strain %d at point %d' % (v, gp))
    p, _, _ = vec(st, 'ave', 6)
    k.calc_ave_strain(ex, st, c.this, [p])
    for v, (i, j) in enumerate(VOIGT[dim]):
        same(ex, st.pc, rd(ex, st, p, v), G[i][i] if i == j else G[i][j] + G[j][i], 'lemma', 'average strain %d' % v)


# ------------------------------------------------------------------ material law
@unit('get_material/{0}D', 'micropp_t::get_material', 2, 3)
def u_material(prog, dim):
    ex, st, c, k = start(prog, dim)
    xs = elem_args(st, c)
    e = ZERO
    for x, g in zip(reversed(xs), c.egrid):
        e = e * g + x
    o = st.new(('rec', 'material_t'), 'material')
    for f in MATF:
        st.setcell(o, (f,), sym('m.' + f, 'r'))
    for f in ('plasticity', 'damage'):
        st.setcell(o, (f,), bsym('m.' + f))
    pre, w = st.copy(), st.copy()
    k.get_material(ex, w, c.this, [e, CellLV(o, ())])
    for r in check(ex, st, c, 'micropp_t::get_material', k.get_material, [e, CellLV(o, ())], skip=(o,)):
        # 'damage' is left open: nothing reads it
        for f in MATF7 + ('plasticity',):
            same(ex, r.pc, ex.read(r, CellLV(o, (f,))), ex.read(w, CellLV(o, (f,))), 'post', 'material.' + f)


@unit('get_stress{0}D/gp{1}', 'micropp_t::get_stress', *[(d, g) for d in (2, 3) for g in range(4 if d == 2 else 8)])
def u_stress(prog, dim, gp):
    ex, st, c, k = start(prog, dim, 'get_material', 'plastic_step', unfold=('stress',))
    xs = elem_args(st, c)
    pe, e, _ = vec(st, 'eps', c.nvoi)
    pf, _ = scalar(st, 'flag', 'b')
    ps, _, _ = vec(st, 'stress', 6)
    check(ex, st, c, 'micropp_t::get_stress%dD' % dim, k.get_stress2D if dim == 2 else k.get_stress3D,
          xs + [P(gp), pe, pf, ps])


# ------------------------------------------------------------------ element level
@unit('get_elem_rhs{0}D', 'micropp_t::get_elem_rhs', 2, 3)
def u_elem_rhs(prog, dim):
    sfx = '%dD' % dim
    ex, st, c, k = start(prog, dim, 'get_strain' + sfx, 'get_stress' + sfx, 'calc_bmat', unfold=('elem',))
    xs = elem_args(st, c)
    pf, _ = scalar(st, 'flag', 'b')
    pb, _, o = vec(st, 'be', c.npe * dim)
    check(ex, st, c, 'micropp_t::get_elem_rhs' + sfx, getattr(k, 'get_elem_rhs' + sfx), xs + [pf, CellLV(o, ())])


def compare_trial(ex, k, pre, outs, co, slots=None):
    """vars_new outside plastic points of element co (slots: of these slots only) is unchanged"""
    c = k.c
    oid = c.arr['vars_new']
    for o in outs:
        A, B = o.mem[oid], pre.mem[oid]
        gc, _ = generic_coords(A)
        own = And(*[eq(x, y) for x, y in zip(gc, co)])
        free = And(own, mat_field(c, elem_type(c, pre, co), 'plasticity'))
        for s in sorted(A.heads):
            if slots is not None and s not in slots:
                compare_arrays(ex, o.pc, A, B, 'frame', 'vars_new', [s])
            else:
                compare_arrays(ex, o.pc, A, B, 'frame', 'vars_new', [s], (Not(free),))


@unit('get_ctan_plast_pert/gp{0}', 'micropp_t::get_ctan_plast_pert', *range(8))
def u_ctan(prog, gp):
    ex, st, c, k = start(prog, 3, 'get_strain3D', 'get_stress3D', unfold=('ctan',))
    xs = elem_args(st, c)
    o = st.new(('arr', 6, ('arr', 6, 'r')), 'ctan')
    pre = st.copy()
    outs = check(ex, st, c, 'micropp_t::get_ctan_plast_pert', k.get_ctan_plast_pert, xs + [P(gp), Ptr(CellLV(o, (0,)))],
                 skip=(c.arr['vars_new'],))
    compare_trial(ex, k, pre, outs, ecoord(xs, 3), range(gp * 7, gp * 7 + 7))


@unit('get_elem_mat{0}D', 'micropp_t::get_elem_mat', 2, 3)
def u_elem_mat(prog, dim):
    sfx = '%dD' % dim
    ex, st, c, k = start(prog, dim, 'calc_bmat', 'get_material', 'get_ctan_plast_pert', unfold=('elem',))
    xs = elem_args(st, c)
    pb, _, o = vec(st, 'Ae', (c.npe * dim) ** 2)
    pre = st.copy()
    outs = check(ex, st, c, 'micropp_t::get_elem_mat' + sfx, getattr(k, 'get_elem_mat' + sfx), xs + [CellLV(o, ())],
                 skip=(c.arr['vars_new'],))
    compare_trial(ex, k, pre, outs, ecoord(xs, dim))


@unit('lemma_elastic_tangent/{0}D/mat{1}', 'lemma over get_elem_mat, get_elem_rhs, get_stress', *[(d, m) for d in (2, 3) for m in (0, 1)])
def u_lemma_tangent(prog, dim, mat):
    """the element matrix of the contract, for an elastic element, is symmetric, annihilates rigid
    translations, and times the displacements gives the internal force of the contract (which is
    linear in them), hence is its exact derivative"""
    ex, st, c, k = start(prog, dim)
    xs = elem_args(st, c)
    co = ecoord(xs, dim)
    LOG.where = 'lemma'
    et = elem_type(c, st, co)
    st.assume(eq(et, 0) if mat == 0 else Not(eq(et, 0)))
    if dim == 3:
        st.assume(Not(mat_field(c, et, 'plasticity')))
    nf = c.npe * dim
    K = [deep(x, st.pc, 'fork') for x in k.kelem(st, co)]
    u = elem_disp(c, st, co)
    w = k.wg()
    sig = []
    for gp in range(c.ngp):
        old = k.old_vars(st, co, gp) if dim == 3 else ()
        sig.append([deep(x, st.pc, 'fork') for x in SIGX(c, et, elem_strain(c, st, co, gp), old)[0]])
    for i in range(nf):
        f = ZERO
        for gp in range(c.ngp):
            B = bm(c, gp)
            for v in range(c.nvoi):
                if B[v][i].t:
                    f = f + B[v][i] * sig[gp][v] * w
        s = ZERO
        for j in range(nf):
            s = s + K[i * nf + j] * u[j]
            same(ex, st.pc, K[i * nf + j], K[j * nf + i], 'lemma', 'symmetry of entry %d,%d' % (i, j))
        same(ex, st.pc, s, f, 'lemma', 'internal force %d is K u' % i)
        for d in range(dim):
            t = ZERO
            for a in range(c.npe):
                t = t + K[i * nf + a * dim + d]
            same(ex, st.pc, t, ZERO, 'lemma', 'rigid translation %d, force %d' % (d, i))


# ------------------------------------------------------------------ cell level
@unit('assembly_rhs/{0}D', 'micropp_t::assembly_rhs', 2, 3)
def u_asm_rhs(prog, dim):
    ex, st, c, k = start(prog, dim, 'get_elem_rhs%dD' % dim, unfold=('rhs',))
    pf, _ = scalar(st, 'flag', 'b')
    check(ex, st, c, 'micropp_t::assembly_rhs', k.assembly_rhs, [pf])


@unit('assembly_mat/{0}D', 'micropp_t::assembly_mat', 2, 3, cost=20)
def u_asm_mat(prog, dim):
    ex, st, c, k = start(prog, dim, 'get_elem_mat%dD' % dim)
    EllContracts(ex, c.grid).attach('ell_set_zero_mat', 'ell_add_struct%dD' % dim, 'ell_set_bc_%dD' % dim)
    pre = st.copy()
    outs = check(ex, st, c, 'micropp_t::assembly_mat', k.assembly_mat, [], skip=(c.arr['vars_new'],))
    oid = c.arr['vars_new']
    for o in outs:
        A, B = o.mem[oid], pre.mem[oid]
        gc, _ = generic_coords(A)
        pl = mat_field(c, elem_type(c, pre, gc), 'plasticity')
        compare_arrays(ex, o.pc, A, B, 'frame', 'vars_new', None, (Not(pl),))


@unit('calc_ave_stress/{0}D', 'micropp_t::calc_ave_stress', 2, 3)
def u_ave_stress(prog, dim):
    sfx = '%dD' % dim
    ex, st, c, k = start(prog, dim, 'get_strain' + sfx, 'get_stress' + sfx, unfold=('elem',))
    p, _, _ = vec(st, 'ave', 6)
    check(ex, st, c, 'micropp_t::calc_ave_stress', k.calc_ave_stress, [p])


@unit('calc_ave_strain/{0}D', 'micropp_t::calc_ave_strain', 2, 3)
def u_ave_strain(prog, dim):
    ex, st, c, k = start(prog, dim, 'get_strain%dD' % dim)
    p, _, _ = vec(st, 'ave', 6)
    check(ex, st, c, 'micropp_t::calc_ave_strain', k.calc_ave_strain, [p])


@unit('calc_fields/{0}D', 'micropp_t::calc_fields', 2, 3)
def u_fields(prog, dim):
    sfx = '%dD' % dim
    ex, st, c, k = start(prog, dim, 'get_strain' + sfx, 'get_stress' + sfx)
    check(ex, st, c, 'micropp_t::calc_fields', k.calc_fields, [])


# ------------------------------------------------------------------ sparse matrix
def ell_start(prog, dim, nF, *attach):
    ex = Executor(prog)
    st = new_state()
    n = sizes(dim)
    grid = tuple(reversed(n))
    ex.sizes = list(grid)
    st.assume(*[le(2, g) for g in n])
    k = EllContracts(ex, grid)
    k.attach(*attach)
    o = st.new(('rec', 'ell_matrix'), 'm')
    nn = ONE
    for g in grid:
        nn = nn * g
    nnz = 3 ** dim * nF
    st.setcell(o, ('nrow',), nn * nF)
    st.setcell(o, ('ncol',), nn * nF)
    st.setcell(o, ('nnz',), P(nnz))
    va, ca = Arr('vals', grid, nF * nnz, 'r'), Arr('cols', grid, nF * nnz, 'i')
    vo, cno = st.newarr(va), st.newarr(ca)
    st.setcell(o, ('vals',), Ptr(ArrLV(vo, (), ZERO)))
    st.setcell(o, ('cols',), Ptr(ArrLV(cno, (), ZERO)))
    return ex, st, k, grid, Ptr(CellLV(o, ())), o, list(n)


NFS = [(d, f) for d in (2, 3) for f in (1, 2, 3)]


@unit('ell_set_zero_mat/{0}D/{1}', 'ell_set_zero_mat', *NFS)
def u_zero(prog, dim, nF):
    ex, st, k, grid, m, o, n = ell_start(prog, dim, nF)
    check(ex, st, None, 'ell_set_zero_mat', k.ell_set_zero_mat, [m])


@unit('ell_add_struct/{0}D/{1}', 'ell_add_struct', *NFS)
def u_add(prog, dim, nF):
    ex, st, k, grid, m, o, n = ell_start(prog, dim, nF)
    xs = [sym('ex', 'i'), sym('ey', 'i'), sym('ez', 'i')][:dim]
    for x, g in zip(xs, n):
        st.assume(le(0, x), lt(x, g - 1))
    p, _, _ = vec(st, 'Ae', (2 ** dim * nF) ** 2)
    q = 'ell_add_struct%dD' % dim
    check(ex, st, None, q, getattr(k, q), [m] + xs + [p, P(nF)] + n)


@unit('ell_set_bc/{0}D/{1}', 'ell_set_bc', *NFS)
def u_bc(prog, dim, nF):
    ex, st, k, grid, m, o, n = ell_start(prog, dim, nF)
    q = 'ell_set_bc_%dD' % dim
    check(ex, st, None, q, getattr(k, q), [m, P(nF)] + n)


@unit('ell_init/{0}D/{1}', 'ell_init', *NFS)
def u_init(prog, dim, nF):
    ex, st, k, grid, m, o, n = ell_start(prog, dim, nF)
    # any previous contents of the descriptor
    for f in ('nrow', 'ncol', 'nnz'):
        st.setcell(o, (f,), sym('old.' + f, 'i'))
    pre = st.copy()
    q = 'ell_init_%dD' % dim
    LOG.where = q
    for s in run(ex, q, st, None, [m, P(nF)] + n):
        check_init(ex, s, o, (), grid, nF)


def check_init(ex, s, o, path, grid, nF):
    nn = ONE
    for g in grid:
        nn = nn * g
    dim = len(grid)
    nnz = 3 ** dim * nF
    for f, v in (('nrow', nn * nF), ('ncol', nn * nF), ('nnz', P(nnz))):
        same(ex, s.pc, ex.read(s, CellLV(o, path + (f,))), v, 'post', f)
    for f in ('vals', 'cols'):
        p = ex.read(s, CellLV(o, path + (f,)))
        if not (isinstance(p, Ptr) and isinstance(p.lv, ArrLV) and p.lv.off == ZERO and not p.lv.pre):
            LOG.fail('post', '%s is not the start of an array' % f, False)
            return
        A = s.mem[p.lv.o]
        if A.alive is not True:
            LOG.fail('post', '%s released' % f, True)
        same(ex, s.pc, A.size(), nn * nF * nnz, 'post', 'size of ' + f)
        if A.grid != tuple(grid) or A.nslots != nF * nnz:
            raise Unsupported('shape of %s: %r %r' % (f, A.grid, A.nslots))
    co, rng = generic_coords(A)
    cx = s.pc.extend(*rng)
    for d1 in range(nF):
        for sl in range(3 ** dim):
            for d2 in range(nF):
                k = d1 * nnz + sl * nF + d2
                same(ex, cx, mk_sel(A.head(k), k, co, 'i'), col_value(grid, co, nF, sl, d2), 'post',
                     'column of slot %d, unknowns %d,%d' % (sl, d1, d2))
