"""Functions no claimed value depends on: their accesses stay inside the arrays and they change nothing they do not own."""
from units import *


@unit('get_ctan_plast_sec/gp{0}', 'micropp_t::get_ctan_plast_sec', *range(8))
def u_sec(prog, gp):
    ex, st, c, k = start(prog, 3, 'get_strain3D', 'get_stress3D')
    unused_tangent(ex, st, c, k, 'micropp_t::get_ctan_plast_sec', gp)


@unit('get_ctan_plast_exact/gp{0}', 'micropp_t::get_ctan_plast_exact', *range(8))
def u_exact(prog, gp):
    ex, st, c, k = start(prog, 3, 'get_strain3D', 'get_material')
    unused_tangent(ex, st, c, k, 'micropp_t::get_ctan_plast_exact', gp)


def unused_tangent(ex, st, c, k, q, gp):
    xs = elem_args(st, c)
    o = st.new(('arr', 6, ('arr', 6, 'r')), 'ctan')
    pre = st.copy()
    LOG.where = q
    outs = run(ex, q, st, c.this, xs + [P(gp), Ptr(CellLV(o, (0,)))])
    if not outs:
        LOG.fail('vacuity', 'no final state of %s' % q, False)
    for r in outs:
        LOG.where = q
        compare_states(ex, pre, r, pre, 'frame', skip=(o, c.arr['vars_new']))
        leaks(ex, pre, r)
    compare_trial(ex, k, pre, outs, ecoord(xs, 3), range(gp * 7, gp * 7 + 7))


@unit('get_inv_2/{0}D', 'micropp_t::get_inv_2', 2, 3)
def u_inv2(prog, dim):
    ex, st, c, k = start(prog, dim)
    p, e, _ = vec(st, 'tensor', c.nvoi)
    safe(ex, st, c, 'micropp_t::get_inv_2', [p])


@unit('ell_print/{0}D', 'ell_print', 2, 3)
def u_print(prog, dim):
    ex, st, c, k = start(prog, dim)
    safe(ex, st, None, 'ell_print', [Ptr(CellLV(c.o, ('A',)))])


def safe(ex, st, c, q, args):
    pre = st.copy()
    LOG.where = q
    outs = run(ex, q, st, c.this if c is not None else None, args)
    if not outs:
        LOG.fail('vacuity', 'no final state of %s' % q, False)
    for r in outs:
        LOG.where = q
        compare_states(ex, pre, r, pre, 'frame')
        leaks(ex, pre, r)
