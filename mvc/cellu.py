"""Construction, destruction and phase assignment of a cell."""
from units import *
import smt


def phase(c, co):
    """element with digits co (outer..inner) belongs to the inclusion"""
    x = list(reversed(co))
    ctr = [(xi + P(HALF)) * d for xi, d in zip(x, c.d)]
    r2 = ZERO
    for p, l in zip(ctr, c.l):
        r2 = r2 + (p - l * HALF) * (p - l * HALF)
    return Or(And(eq(c.micro_type, 0), lt(r2, c.width * c.width)), And(eq(c.micro_type, 1), lt(ctr[1], c.width)))


def con_elem_type(k):
    def con(ex, st, this, args):
        c = k.c
        k.me(this)
        co = ecoord(args, c.dim)
        require(ex, st, elem_range(c, co), 'element in the grid')
        return ite(phase(c, co), ONE, ZERO)
    return con


@unit('get_elem_type{0}D', 'micropp_t::get_elem_type', 2, 3)
def u_elem_type(prog, dim):
    ex, st, c, k = start(prog, dim)
    xs = elem_args(st, c)
    check(ex, st, c, 'micropp_t::get_elem_type%dD' % dim, con_elem_type(k), xs)


# ------------------------------------------------------------------ construction
class soft(object):
    """facts the proof relies on but no result need show: a failure leaves the unit undecided, not refuted"""

    def __enter__(self):
        self.n = len(LOG.failed)

    def __exit__(self, *a):
        for f in LOG.failed[self.n:]:
            f['refuted'] = False


GEOM = ('dim', 'nx', 'ny', 'nz', 'lx', 'ly', 'lz', 'dx', 'dy', 'dz', 'width', 'micro_type')


class Ctor(object):
    """a cell under construction: arguments, expected member values"""

    def __init__(self, prog, dim):
        self.ex, st0, self.c, self.k = start(prog, dim)
        ex, c = self.ex, self.c
        self.dim = dim
        self.want = dict(st0.mem[c.o].cells)
        st = self.st = new_state()
        st.assume(*st0.pc.fs)
        self.o = st.new(('rec', 'micropp_t'), 'this')
        self.this = Ptr(CellLV(self.o, ()))
        third = sym('size2', 'i')
        ps, _, _ = vec(st, 'size', 3, 'i', [c.nx, c.ny, c.nz if dim == 3 else third])
        self.tol = sym('inv_tol', 'r')
        self.mp = [c.lx, c.ly, c.lz if dim == 3 else sym('mp2', 'r'), c.width, self.tol]
        pm, _, _ = vec(st, 'micro_params_arg', 5, 'r', self.mp)
        self.mt = [sym('mat_type%d' % i, 'i') for i in range(2)]
        for m in self.mt:
            st.assume(le(0, m), le(m, 2))
        pt, _, _ = vec(st, 'mat_types', 2, 'i', self.mt)
        self.par = [sym('param%d' % i, 'r') for i in range(20)]
        pp, _, _ = vec(st, 'params', 20, 'r', self.par)
        for i in range(2):
            E, nu = self.par[10 * i], self.par[10 * i + 1]
            st.assume(lt(0, E), lt(-1, nu), lt(nu, HALF))
        self.args = [P(dim), ps, c.micro_type, pm, pt, pp]
        ex.list_ctor = self.empty_list
        t = ex.contracts
        t[('micropp_t::get_elem_type%dD' % dim, dim)] = self.elem_type
        t[('ell_init_%dD' % dim, dim + 2)] = self.ell_init
        t[('micropp_t::calc_ctan_lin', 0)] = self.ctan_lin

    def empty_list(self, ex, st, lv):
        lo = new_oid()
        rl = RList('gauss_list', 'gp_t', ZERO)
        rl.fields, rl.sorts = {}, {}
        st.mem[lo] = rl
        st.setcell(lv.o, lv.p, ListRef(lo))

    def me(self, this):
        if not (isinstance(this, Ptr) and isinstance(this.lv, CellLV) and this.lv.o == self.o and this.lv.p == ()):
            raise Unsupported('call on another object')

    def field(self, st, f):
        return self.ex.read(st, CellLV(self.o, f if isinstance(f, tuple) else (f,)))

    def members(self, ex, st, names):
        for f in names:
            if f == 'dz' and self.dim == 2:
                continue            # 0/0, used by no 2D computation
            same(ex, st.pc, self.field(st, f), self.want[(f,)], 'post', 'member ' + f)

    def elem_type(self, ex, st, this, args):
        self.me(this)
        self.members(ex, st, GEOM)
        co = ecoord(args, self.dim)
        require(ex, st, elem_range(self.c, co), 'element in the grid')
        return ite(phase(self.c, co), ONE, ZERO)

    def ell_init(self, ex, st, this, args):
        """contract proved by ell_init/*: fresh vals and cols of the full sparsity pattern"""
        c = self.c
        lv = args[0].lv
        want = [P(self.dim), c.nx, c.ny] + ([c.nz] if self.dim == 3 else [])
        for a, b in zip(args[1:], want):
            same(ex, st.pc, a, b, 'pre', 'ell_init argument')
        for f, v in (('nrow', c.nn * self.dim), ('ncol', c.nn * self.dim), ('nnz', P(c.nnz))):
            ex.write(st, CellLV(lv.o, lv.p + (f,)), v)
        for f, sort in (('vals', 'r'), ('cols', 'i')):
            b = Base('head:ell_init.' + f)
            oid = st.newarr(Arr('A.' + f, c.grid, self.dim * c.nnz, sort, b))
            st.allocs = st.allocs + (oid,)
            ex.write(st, CellLV(lv.o, lv.p + (f,)), Ptr(ArrLV(oid, (), ZERO)))

    def array(self, st, f, zero=False):
        """member f is the start of its own array of the right shape"""
        c = self.c
        shape = {'u': (c.grid, self.dim), 'du': (c.grid, self.dim), 'b': (c.grid, self.dim), 'elem_stress': (c.egrid, c.nvoi),
                 'elem_strain': (c.egrid, c.nvoi), 'elem_type': (c.egrid, 1), 'vars_old': (c.egrid, 56), 'vars_new': (c.egrid, 56)}
        p = self.field(st, f)
        if not (isinstance(p, Ptr) and isinstance(p.lv, ArrLV) and p.lv.off == ZERO and not p.lv.pre):
            LOG.fail('post', '%s is not the start of an array' % f, False)
            return None
        a = st.mem[p.lv.o]
        if a.alive is not True:
            LOG.fail('post', '%s released' % f, True)
        want = P(shape[f][1])
        for g in shape[f][0]:
            want = want * g
        same(self.ex, st.pc, a.size(), want, 'post', 'size of ' + f)
        if (a.grid, a.nslots) != shape[f]:
            raise Unsupported('shape of %s: %r %r' % (f, a.grid, a.nslots))
        if zero:
            co, rng = generic_coords(a)
            cx = st.pc.extend(*rng)
            for s in range(a.nslots):
                v = a.read(s, co, cx)
                if any(ATOMS[i].kind == 'sel' and getattr(ATOMS[i].args[0], 'uninit', False) for i in term_fv(deep(v, cx, 'ite'))):
                    LOG.fail('defined', '%s is used before it is initialised' % f, True)
                    break
                same(self.ex, cx, v, ZERO, 'post', f + ' is zero')
        return a

    def phases(self, st):
        a = self.array(st, 'elem_type')
        if a is None:
            return
        co, rng = generic_coords(a)
        cx = st.pc.extend(*rng)
        v = a.read(0, co, cx)
        if any(ATOMS[i].kind == 'sel' and getattr(ATOMS[i].args[0], 'uninit', False) for i in term_fv(deep(v, cx, 'ite'))):
            LOG.fail('defined', 'phase of some element is not set', True)
        same(self.ex, cx, v, ite(phase(self.c, co), ONE, ZERO), 'post', 'phase of every element')

    def virgin(self, ex, st):
        """everything the constructor must establish before the first solve"""
        c = self.c
        self.members(ex, st, GEOM + ('nn', 'npe', 'nvoi', 'nelem', 'num_int_vars', 'numMaterials', 'inv_tol'))
        with soft():
            for i in range(5):
                same(ex, st.pc, self.field(st, ('micro_params', i)), self.mp[i], 'post', 'micro_params[%d]' % i)
        for i in range(2):
            E, nu, Sy, Ka = self.par[10 * i:10 * i + 4]
            m = lambda f: self.field(st, ('material_list', i, f))
            for f, v in (('E', E), ('nu', nu), ('Sy', Sy), ('Ka', Ka), ('k', E / (3 * (1 - 2 * nu))), ('mu', E / (2 * (1 + nu))),
                         ('lambda', nu * E / ((1 + nu) * (1 - 2 * nu)))):
                same(ex, st.pc, m(f), v, 'post', 'constant %s of material %d' % (f, i))
            same(ex, st.pc, m('plasticity'), eq(self.mt[i], 1), 'post', 'plasticity of material %d' % i)
            same(ex, st.pc, m('damage'), eq(self.mt[i], 2), 'post', 'damage of material %d' % i)
        self.phases(st)
        l = self.field(st, 'gauss_list')
        same(ex, st.pc, st.mem[l.o].size, ZERO, 'post', 'no Gauss point registered')
        self.array(st, 'vars_old', True)
        self.array(st, 'u', True)
        with soft():
            for f in ('du', 'b', 'elem_stress', 'elem_strain', 'vars_new'):
                self.array(st, f, True)
        for f, v in (('nrow', c.nn * self.dim), ('ncol', c.nn * self.dim), ('nnz', P(c.nnz))):
            same(ex, st.pc, self.field(st, ('A', f)), v, 'post', 'matrix ' + f)
        for f in ('vals', 'cols'):
            p = self.field(st, ('A', f))
            ok = isinstance(p, Ptr) and isinstance(p.lv, ArrLV) and st.mem[p.lv.o].base.name == 'head:ell_init.' + f and not st.mem[p.lv.o].heads
            if ok:
                LOG.ok('post')
            else:
                LOG.fail('post', 'matrix pattern not initialised', False)

    def ctan_lin(self, ex, st, this, args):
        """contract proved by calc_ctan_lin/*: linear tangent of the cell in its present (virgin) state"""
        self.me(this)
        LOG.where = 'micropp_t::micropp_t (state at the linear tangent)'
        self.virgin(ex, st)
        for i in range(self.c.nvoi ** 2):
            ex.write(st, CellLV(self.o, ('ctan_lin', i)), sym('CLIN%d' % i, 'r'))
        for f in ('u', 'du', 'b', 'vars_new'):
            p = self.field(st, f)
            a = st.mem[p.lv.o]
            bx = box(a.grid)
            q = tuple(P(x) for x, _ in bx)
            for s in range(a.nslots):
                a.write(s, q, fn('h#after:%s_%d' % (f, s), q), TRUE, bx)
        st.ghost['clin'] = TRUE


def logs_empty(o):
    """the three logs start empty with the cell"""
    last = {}
    for sid, tr in o.traces.items():
        cur = None
        for t in tr:
            if t[0] == 'open':
                cur = t[1].s if isinstance(t[1], Str) else None
                if cur is not None:
                    md = [m for x in t[2] for m in x.args]
                    last[cur] = (False if 'app' in md else None if md and md != ['out'] and md != ['trunc'] else True, 0)
            elif cur in last and t[0] != 'close':
                last[cur] = (last[cur][0], 1)
    for f in ('micropp_convergence.dat', 'micropp_eps_sig_ctan.dat', 'micropp_int_vars_n.dat'):
        if last.get(f) == (True, 0):
            LOG.ok('post')
        else:
            LOG.fail('post', '%s does not start empty' % f, last.get(f, (None, 0))[0] is False)


@unit('constructor/{0}D', 'micropp_t::micropp_t', 2, 3, cost=3)
def u_ctor(prog, dim):
    C = Ctor(prog, dim)
    ex, st, c = C.ex, C.st, C.c
    q = 'micropp_t::micropp_t'
    LOG.where = q
    pre = st.copy()
    outs = run(ex, q, st, C.this, C.args)
    if not outs:
        LOG.fail('vacuity', 'no final state of %s' % q, False)
    for o in outs:
        LOG.where = q
        if o.ghost.get('clin') is not TRUE:
            LOG.fail('post', 'linear tangent not computed', o.ghost.get('clin') is None)
            continue
        for i in range(c.nvoi ** 2):
            same(ex, o.pc, C.field(o, ('ctan_lin', i)), sym('CLIN%d' % i, 'r'), 'post', 'linear tangent kept')
        C.members(ex, o, GEOM + ('nn', 'npe', 'nvoi', 'nelem', 'num_int_vars', 'numMaterials', 'inv_tol'))
        C.phases(o)
        C.array(o, 'vars_old', True)
        for f in ('u', 'du', 'b', 'vars_new', 'elem_stress', 'elem_strain'):
            C.array(o, f)
        l = C.field(o, 'gauss_list')
        same(ex, o.pc, o.mem[l.o].size, ZERO, 'post', 'no Gauss point registered')
        for f in ('inv_max', 'output_files_header'):
            v = C.field(o, f)
            if isinstance(v, Opaque) or any('uninit' in repr(ATOMS[i]) for i in term_fv(v)):
                LOG.fail('defined', f, True)
            else:
                LOG.ok('defined')
        same(ex, o.pc, C.field(o, 'output_files_header'), FALSE, 'post', 'no log header written yet')
        logs_empty(o)
        leaks(ex, pre, o)


# ------------------------------------------------------------------ destruction
@unit('ell_free/{0}D', 'ell_free', 2, 3)
def u_ell_free(prog, dim):
    ex, st, c, k = start(prog, dim)
    m = Ptr(CellLV(c.o, ('A',)))
    LOG.where = 'ell_free'
    pre = st.copy()
    own = {c.arr['vals'], c.arr['cols']}
    outs = run(ex, 'ell_free', st, None, [m])
    if not outs:
        LOG.fail('vacuity', 'no final state of ell_free', False)
    for o in outs:
        LOG.where = 'ell_free'
        for f in ('vals', 'cols'):
            a = o.mem[c.arr[f]]
            if a.alive is False:
                LOG.ok('released')
            else:
                LOG.fail('released', 'matrix array %s is not released' % f, a.alive is True and ex.counterexample(o.pc, TRUE) is not None)
        compare_states(ex, pre, o, pre, 'frame', skip=own | {c.o})
        leaks(ex, pre, o)


def con_ell_free(ex, st, this, args):
    """contract proved by ell_free/*: both arrays of the matrix are released (once)"""
    lv = args[0].lv
    for f in ('cols', 'vals'):
        p = ex.read(st, CellLV(lv.o, lv.p + (f,)))
        ex.do_free(st, p)


@unit('destructor/{0}D', 'micropp_t::~micropp_t', 2, 3)
def u_dtor(prog, dim):
    ex, st, c, k = gp_start(prog, dim)
    ex.contracts[('ell_free', 1)] = con_ell_free
    q = 'micropp_t::~micropp_t'
    LOG.where = q
    pre = st.copy()
    outs = run(ex, q, st, c.this, [])
    if not outs:
        LOG.fail('vacuity', 'no final state of %s' % q, False)
    for o in outs:
        LOG.where = q
        for f in ('u', 'du', 'b', 'elem_stress', 'elem_strain', 'elem_type', 'vars_old', 'vars_new', 'vals', 'cols'):
            a = o.mem[c.arr[f]]
            if a.alive is False:
                LOG.ok('released')
            else:
                LOG.fail('released', '%s is not released' % f, a.alive is True and ex.counterexample(o.pc, TRUE) is not None)
        released_records(ex, pre, o, c)
        leaks(ex, pre, o)


def gp_start(prog, dim):
    from gpu import gp_cell
    return gp_cell(prog, dim)


def flatten(tr, bx=(), g=TRUE):
    """tokens of a trace with the loop box and guard each happens under"""
    out = []
    for t in tr:
        if t[0] == 'loop':
            for gu, seg in zip(t[2], t[3]):
                out += flatten(seg, bx + tuple(t[1]), And(g, gu))
        elif t[0] == 'if':
            out += flatten(t[2], bx, And(g, t[1])) + flatten(t[3], bx, And(g, Not(t[1])))
        else:
            out.append((bx, g, t))
    return out


def released_records(ex, pre, o, c):
    """the histories of every Gauss point are released exactly once"""
    fl = pre.mem[c.list].fields
    pos = sym('pos', 'i')
    cx = o.pc.extend(le(0, pos), lt(pos, c.G))
    evs = [e for e in flatten(o.traces.get('$free', ())) if e[2][0] == 'freerec']
    for h in ('int_vars_n', 'int_vars_k'):
        act = []
        for bx, g, t in evs:
            if t[1] != fl[(h, '*')]:
                continue
            if len(bx) != 1 or t[2] != (P(bx[0][0]),) or bx[0][1] != c.G:
                raise Unsupported('release of %s outside a plain loop over the Gauss points' % h)
            sg = {bx[0][0].id: pos}
            act.append(subst(And(g, Not(t[3])), sg))
        has = pre.mem[fl[(h,)]].read(0, (pos,), cx)
        any_ = Or(*act) if act else FALSE
        same(ex, cx.extend(has), any_, TRUE, 'released', '%s of every Gauss point is released' % h)
        for i in range(len(act)):
            for j in range(i):
                same(ex, cx, And(act[i], act[j]), FALSE, 'free', '%s released twice' % h)
        LOG.ok('released')
