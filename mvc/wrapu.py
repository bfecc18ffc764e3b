"""The Fortran entry points: each performs exactly the corresponding operation of the current cell.

The operations themselves are abstract here (their own units prove them): a mutator is a token of the
cell's history, an accessor returns a function of that history and its arguments."""
from units import *

ARGS = {
    'micropp_output_': [('tstep', 'i', 1), ('gp_id', 'i', 1)],
    'micropp_get_non_linear_flag_': [('gp_id', 'i', 1), ('non_linear', 'i', 1)],
    'micropp_set_macro_strain_': [('gp_id', 'i', 1), ('strain', 'r', 6)],
    'micropp_homogenize_': [],
    'micropp_get_macro_stress_': [('gp_id', 'i', 1), ('out', 'r', 6)],
    'micropp_get_macro_ctan_': [('gp_id', 'i', 1), ('out', 'r', 36)],
    'micropp_update_internal_variables_': [],
    'micropp_write_convergence_file_': [],
}


class Abstract(object):
    def __init__(self, ex, c):
        self.c = c
        for name, n, f in (('output', 2, self.m_output), ('get_nl_flag', 2, self.a_nl), ('set_macro_strain', 2, self.m_strain),
                           ('homogenize', 0, self.m('homogenize')), ('update_vars', 0, self.m('update_vars')),
                           ('write_info_files', 0, self.m('write_info_files')),
                           ('get_macro_stress', 2, self.acc('STRESS', c.nvoi)), ('get_macro_ctan', 2, self.acc('CTAN', c.nvoi ** 2)),
                           ('micropp_t', 6, self.ctor)):
            ex.contracts[('micropp_t::' + name, n)] = f

    def tok(self, st, this, t):
        if not (isinstance(this, Ptr) and isinstance(this.lv, CellLV) and this.lv.p == ()):
            raise Unsupported('call on %r' % (this,))
        if this.null.op != 'false':
            if st.pc.decide(this.null) is not False:
                LOG.fail('null-deref', 'operation on a null cell', False)
        st.traces['$op'] = st.traces.get('$op', ()) + ((this.lv.o,) + t,)

    def m(self, name):
        def f(ex, st, this, args):
            self.tok(st, this, (name,))
        return f

    def m_output(self, ex, st, this, args):
        self.tok(st, this, ('output', args[0], args[1]))

    def m_strain(self, ex, st, this, args):
        self.tok(st, this, ('set_macro_strain', args[0]) + tuple(rdn(ex, st, args[1], self.c.nvoi)))

    def when(self, st):
        if any(t[0] in ('loop', 'if') for t in st.traces.get('$op', ())):
            raise Unsupported('conditional operations before a query')
        return P(len(st.traces.get('$op', ())))

    def obj(self, this):
        if not (isinstance(this, Ptr) and isinstance(this.lv, CellLV) and this.lv.p == ()):
            raise Unsupported('call on %r' % (this,))
        return sym('obj%s' % this.lv.o, 'i')

    def a_nl(self, ex, st, this, args):
        wr(ex, st, args[1], 0, fn('NLFLAG', (self.obj(this), self.when(st), args[0]), 'i'))

    def acc(self, name, n):
        def f(ex, st, this, args):
            k = (self.obj(this), self.when(st), args[0])
            has = fnb('KNOWN', k)
            for i in range(n):
                old = rd(ex, st, args[1], i)
                wr(ex, st, args[1], i, ite(has, fn('%s%d' % (name, i), k), old))
        return f

    def ctor(self, ex, st, this, args):
        sz, mp, mt, pr = args[1], args[3], args[4], args[5]
        st.ghost['made'] = (this.lv.o, args[0], tuple(rdn(ex, st, sz, 3)), args[2], tuple(rdn(ex, st, mp, 5)), tuple(rdn(ex, st, mt, 2)),
                            tuple(rdn(ex, st, pr, 20)))


def tokens(ex, pc, got, want):
    g = [t for t in got]
    if any(t[0] in ('loop', 'if') for t in g):
        LOG.fail('post', 'operations performed conditionally', False)
        return
    if len(g) != len(want):
        LOG.fail('post', '%d operations performed instead of %d: %s' % (len(g), len(want), [t[1] for t in g]), ex.counterexample(pc, TRUE) is not None)
        return
    for a, b in zip(g, want):
        if a[:2] != b[:2] or len(a) != len(b):
            LOG.fail('post', 'operation %s instead of %s' % (a[1], b[1]), ex.counterexample(pc, TRUE) is not None)
            continue
        LOG.ok('post')
        for x, y in zip(a[2:], b[2:]):
            same(ex, pc, x, y, 'post', 'argument of ' + b[1])


@unit('wrapper/{0}/{1}D', 'wrapper', *[(n, d) for n in sorted(ARGS) for d in (2, 3)])
def u_wrap(prog, name, dim):
    ex, st, c, k = start(prog, dim, gauss=True)
    A = Abstract(ex, c)
    glob = [n for n, g in prog.statics.items() if 'micropp_t' in g['type']['qualType'] and '*' in g['type']['qualType']]
    if len(glob) != 1:
        raise Unsupported('%d global cells' % len(glob))
    oid = 'g:%s' % glob[0]
    st.mem[oid] = Cells(('ptr', ('rec', 'micropp_t')), glob[0], st.token)
    st.setcell(oid, (), c.this)
    args = []
    for n, sort, cnt in ARGS[name]:
        p, v, o = vec(st, n, cnt, sort)
        args.append(p)
    pre = st.copy()
    w = st.copy()
    rd0 = lambda i: rd(ex, w, args[i], 0)
    if name == 'micropp_output_':
        A.m_output(ex, w, c.this, [rd0(0), rd0(1)])
    elif name == 'micropp_get_non_linear_flag_':
        A.a_nl(ex, w, c.this, [rd0(0), args[1]])
    elif name == 'micropp_set_macro_strain_':
        A.m_strain(ex, w, c.this, [rd0(0), args[1]])
    elif name == 'micropp_homogenize_':
        A.m('homogenize')(ex, w, c.this, [])
    elif name == 'micropp_get_macro_stress_':
        A.acc('STRESS', c.nvoi)(ex, w, c.this, [rd0(0), args[1]])
    elif name == 'micropp_get_macro_ctan_':
        A.acc('CTAN', c.nvoi ** 2)(ex, w, c.this, [rd0(0), args[1]])
    elif name == 'micropp_update_internal_variables_':
        A.m('update_vars')(ex, w, c.this, [])
    else:
        A.m('write_info_files')(ex, w, c.this, [])
    LOG.where = name
    outs = run(ex, name, st, None, args)
    if not outs:
        LOG.fail('vacuity', 'no final state of %s' % name, False)
    for o in outs:
        LOG.where = name
        compare_states(ex, pre, o, w, 'post')
        tokens(ex, o.pc, o.traces.get('$op', ()), w.traces.get('$op', ()))
        same_ptr(o, oid, c.o)


def same_ptr(o, oid, target):
    p = o.mem[oid].cells[()]
    if isinstance(p, Ptr) and isinstance(p.lv, CellLV) and p.lv.o == target and p.null.op == 'false':
        LOG.ok('post')
    else:
        LOG.fail('post', 'current cell changed', False)


@unit('wrapper/micropp_construct_', 'micropp_construct_')
def u_construct(prog):
    ex, st, c, k = start(prog, 3)
    A = Abstract(ex, c)
    glob = [n for n, g in prog.statics.items() if 'micropp_t' in g['type']['qualType'] and '*' in g['type']['qualType']]
    if len(glob) != 1:
        raise Unsupported('%d global cells' % len(glob))
    oid = 'g:%s' % glob[0]
    st.mem[oid] = Cells(('ptr', ('rec', 'micropp_t')), glob[0], st.token)
    st.setcell(oid, (), Ptr(CellLV(c.o, ()), bsym('none_yet')))
    spec = [('dim', 'i', 1), ('size', 'i', 3), ('micro_type_arg', 'i', 1), ('micro_params_arg', 'r', 5), ('mat_types', 'i', 2), ('params', 'r', 20)]
    args, vals = [], []
    for n, sort, cnt in spec:
        p, v, o = vec(st, n, cnt, sort)
        args.append(p)
        vals.append(v)
    name = 'micropp_construct_'
    LOG.where = name
    pre = st.copy()
    outs = run(ex, name, st, None, args)
    if not outs:
        LOG.fail('vacuity', 'no final state', False)
    for o in outs:
        LOG.where = name
        m = o.ghost.get('made')
        if not m:
            LOG.fail('post', 'no cell constructed', ex.counterexample(o.pc, TRUE) is not None)
            continue
        same(ex, o.pc, m[1], vals[0][0], 'post', 'dim')
        same(ex, o.pc, m[3], vals[2][0], 'post', 'micro_type')
        for what, a, b in (('size', m[2], vals[1]), ('micro_params', m[4], vals[3]), ('mat_types', m[5], vals[4]), ('params', m[6], vals[5])):
            for x, y in zip(a, b):
                same(ex, o.pc, x, y, 'post', what)
        same_ptr(o, oid, m[0])
        tokens(ex, o.pc, o.traces.get('$op', ()), ())
        compare_states(ex, pre, o, pre, 'frame', skip={oid})
