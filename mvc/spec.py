"""Pre-states: a symbolic micropp_t cell satisfying its representation invariant."""
from term import *
import term as T
from mem import *
from smt import intern_ctx
from vals import *
from fractions import Fraction


class Cell(object):
    """handles to the objects of a symbolic cell"""
    pass


MATF = ('E', 'nu', 'k', 'mu', 'lambda', 'Ka', 'Sy')


def sizes(dim):
    n = [sym('nx', 'i'), sym('ny', 'i'), sym('nz', 'i')][:dim]
    return n


def material(i, dim):
    """constants of material i, related as the constructor leaves them (constructor/* proves it); the two used most
    in this dimension are the base symbols"""
    d = {'Ka': sym('Ka%d' % i, 'r'), 'Sy': sym('Sy%d' % i, 'r'),
         'plasticity': bsym('plastic%d' % i), 'damage': bsym('damage%d' % i)}
    if dim == 2:
        E, nu = sym('E%d' % i, 'r'), sym('nu%d' % i, 'r')
        d['mu'] = T.div(E, 2 * (1 + nu))
        d['lambda'] = T.div(nu * E, (1 + nu) * (1 - 2 * nu))
        d['k'] = T.div(E, 3 * (1 - 2 * nu))
    else:
        lam, mu = sym('lambda%d' % i, 'r'), sym('mu%d' % i, 'r')
        d['lambda'], d['mu'] = lam, mu
        d['k'] = lam + mu * Fraction(2, 3)
        E = T.div(mu * (3 * lam + 2 * mu), lam + mu)
        nu = T.div(lam, 2 * (lam + mu))
    d['E'], d['nu'] = E, nu
    return d


def ell_shape(dim, nF):
    nnz = 9 * nF if dim == 2 else 27 * nF
    return nnz


def make_cell(ex, st, dim, gauss=True):
    """allocate `this` in st"""
    c = Cell()
    c.dim = dim
    n = sizes(dim)
    nx, ny = n[0], n[1]
    nz = n[2] if dim == 3 else ONE
    c.nx, c.ny, c.nz = nx, ny, nz
    c.grid = (nz, ny, nx) if dim == 3 else (ny, nx)
    c.egrid = tuple(g - 1 for g in c.grid)
    ex.sizes = list(c.grid)
    c.dx, c.dy = sym('dx', 'r'), sym('dy', 'r')
    c.dz = sym('dz', 'r') if dim == 3 else fn('div0', (ZERO,), 'r')
    c.lx, c.ly = c.dx * (nx - 1), c.dy * (ny - 1)
    c.lz = c.dz * (nz - 1) if dim == 3 else ZERO
    c.d = (c.dx, c.dy, c.dz)[:dim]
    c.l = (c.lx, c.ly, c.lz)[:dim]
    st.assume(*[le(2, g) for g in n])
    st.assume(*[lt(0, d) for d in c.d])
    c.nn = nx * ny * nz
    c.nelem = ONE
    for g in c.egrid:
        c.nelem = c.nelem * g
    c.nvoi = 3 if dim == 2 else 6
    c.npe = 4 if dim == 2 else 8
    c.ngp = c.npe
    c.nnz = ell_shape(dim, dim)
    o = st.new(('rec', 'micropp_t'), 'this')
    c.o = o
    S = lambda f, v: st.setcell(o, f if isinstance(f, tuple) else (f,), v)
    c.micro_type = sym('micro_type', 'i')
    st.assume(le(0, c.micro_type), le(c.micro_type, 1))
    vals = {'dim': P(dim), 'nx': nx, 'ny': ny, 'nz': nz, 'nn': c.nn, 'lx': c.lx, 'ly': c.ly, 'lz': c.lz,
            'dx': c.dx, 'dy': c.dy, 'dz': c.dz, 'width': sym('width', 'r'), 'inv_tol': sym('inv_tol', 'r'),
            'npe': P(c.npe), 'nvoi': P(c.nvoi), 'nelem': c.nelem, 'micro_type': c.micro_type,
            'num_int_vars': c.nelem * 56, 'output_files_header': bsym('output_files_header'),
            'numMaterials': P(2), 'inv_max': sym('inv_max', 'r')}
    for f, v in vals.items():
        S(f, v)
    c.width = vals['width']
    st.assume(le(0, c.width))
    for i in range(5):
        S(('micro_params', i), (c.lx, c.ly, c.lz if dim == 3 else sym('micro_params2', 'r'), c.width, vals['inv_tol'])[i])
    c.mats = []
    for i in range(10):
        m = material(i, dim)
        c.mats.append(m)
        for f, v in m.items():
            S(('material_list', i, f), v)
    for i in range(36):
        S(('ctan_lin', i), sym('ctan_lin%d' % i, 'r'))
    c.arr = {}

    def arr(name, grid, ns, sort='r', base=None):
        a = Arr(name, grid, ns, sort, base)
        oid = st.newarr(a)
        c.arr[name] = oid
        return Ptr(ArrLV(oid, (), ZERO))
    S('u', arr('u', c.grid, dim))
    S('du', arr('du', c.grid, dim))
    S('b', arr('b', c.grid, dim))
    S('elem_stress', arr('elem_stress', c.egrid, c.nvoi))
    S('elem_strain', arr('elem_strain', c.egrid, c.nvoi))
    S('elem_type', arr('elem_type', c.egrid, 1, 'i'))
    S('vars_old', arr('vars_old', c.egrid, 56))
    S('vars_new', arr('vars_new', c.egrid, 56))
    S(('A', 'nrow'), c.nn * dim)
    S(('A', 'ncol'), c.nn * dim)
    S(('A', 'nnz'), P(c.nnz))
    S(('A', 'vals'), arr('vals', c.grid, dim * c.nnz))
    S(('A', 'cols'), arr('cols', c.grid, dim * c.nnz, 'i'))
    known = set(f for f in vals) | {'micro_params', 'material_list', 'ctan_lin', 'A', 'u', 'du', 'b', 'elem_stress',
                                    'elem_strain', 'elem_type', 'vars_old', 'vars_new', 'gauss_list'}
    for f, ft, _ in ex.prog.records['micropp_t']:
        if f not in known:
            raise Unsupported('unknown member %s of micropp_t' % f)
    if gauss:
        c.G = sym('G', 'i')
        st.assume(le(0, c.G))
        lo = make_list(ex, st, c, c.G)
        S('gauss_list', ListRef(lo))
        c.list = lo
    c.this = Ptr(CellLV(o, ()))
    return c


def make_list(ex, st, c, size, name='gp'):
    lo = new_oid()
    rl = RList('gauss_list', 'gp_t', size)
    rl.fields = {}
    rl.sorts = {}
    st.mem[lo] = rl
    # capacity: positions are unbounded; the coordinate range is size+1 to allow push_back
    for p in leaf_paths(ex, ('rec', 'gp_t')):
        t = sub_type(ex, ('rec', 'gp_t'), p)
        nm = name + ''.join('.%s' % x for x in p)
        if t[0] == 'ptr':
            a = Arr(nm + '?', (size + 1,), 1, 'b')
            rl.fields[p] = st.newarr(a)
            ca = Arr(nm + '*', (size + 1,) + c.egrid, 56, 'r')
            rl.fields[p + ('*',)] = st.newarr(ca)
            c.arr[nm] = rl.fields[p]
            c.arr[nm + '*'] = rl.fields[p + ('*',)]
        else:
            a = Arr(nm, (size + 1,), 1, t)
            rl.fields[p] = st.newarr(a)
            c.arr[nm] = rl.fields[p]
    return lo


def new_state():
    st = State()
    return st


def vec(st, name, n, sort='r', vals=None):
    """a caller's array of n entries; returns pointer value and its entries"""
    oid = st.new(('arr', n, sort), name)
    out = []
    for i in range(n):
        v = (bsym('%s%d' % (name, i)) if sort == 'b' else sym('%s%d' % (name, i), sort)) if vals is None else vals[i]
        st.setcell(oid, (i,), v)
        out.append(v)
    return Ptr(CellLV(oid, (0,))), out, oid


def scalar(st, name, sort):
    oid = st.new(sort, name)
    st.setcell(oid, (), bsym(name + '@pre') if sort == 'b' else sym(name + '@pre', sort))
    return Ptr(CellLV(oid, ())), oid


def box(grid, tag='s'):
    return tuple((mk_atom('sym', (fresh_name(tag),), 'i'), g) for g in grid)
