"""C04: the return mapping of a plastic integration point.

The trial deviator is the free variable of the proof: every strain is
eps = dev(eps) + mean, dev(eps) = s/(2 mu) + eps_p (shear: s/mu + 2 eps_p),
a bijection between strains and (s, trace) for mu > 0, so nothing is lost.
The norm n >= 0 of s is a base symbol, s5^2 being the dependent quantity."""
import math
from fractions import Fraction
import random
from units import *
import term as T
import smt


def prove_real(fs, goal, timeout=8000):
    return real(fs, goal, timeout) == 'unsat'


def real(fs, goal, timeout=8000):
    """fs and not goal over the reals, non-linear: 'unsat' proves, 'sat' is a counterexample"""
    return smt.real_sat(list(fs) + [Not(goal)], timeout)


class Num(object):
    """numeric evaluation at a random admissible point: refutes only"""

    def __init__(self, val):
        self.v = dict(val)

    def atom(self, i):
        if i in self.v:
            return self.v[i]
        a = ATOMS[i]
        if a.kind == 'sqrt':
            x = self.poly(a.args[0])
            r = math.sqrt(x) if x > 0 else (0.0 if x > -1e-9 else float('nan'))
        elif a.kind == 'abs':
            r = abs(self.poly(a.args[0]))
        elif a.kind == 'inv':
            x = self.poly(a.args[0])
            r = 1 / x if x else float('nan')
        elif a.kind == 'ind':
            r = 1.0 if self.form(a.args[0]) else 0.0
        else:
            raise Unsupported('numeric value of %r' % (a,))
        self.v[i] = r
        return r

    def poly(self, p):
        s = 0.0
        for m, k in p.t.items():
            x = float(k)
            for a, e in m:
                y = self.atom(a)
                x *= y ** e if y != 0 or e > 0 else float('nan')
            s += x
        return s

    def scale(self, p):
        s = 0.0
        for m, k in p.t.items():
            x = abs(float(k))
            for a, e in m:
                x *= abs(self.atom(a)) ** e
            s += x
        return s

    def form(self, f, slack=0.0):
        """truth; with slack > 0: None when too close to call"""
        o = f.op
        if o in ('true', 'false'):
            return o == 'true'
        if o == 'b':
            if f.args[0].id in self.v:
                return self.v[f.args[0].id]
            raise Unsupported('numeric truth')
        if o == 'not':
            r = self.form(f.args[0], slack)
            return None if r is None else not r
        if o in ('and', 'or'):
            rs = [self.form(x, slack) for x in f.args]
            bad = o == 'or'
            if bad in rs:
                return bad
            return None if None in rs else not bad
        x, sc = self.poly(f.args[0]), self.scale(f.args[0]) * slack
        if x != x:
            return None
        if o == 'eq':
            return abs(x) <= max(sc, 1e-12)
        if abs(x) <= sc:
            return None
        return x < 0


def point(rng, syms, T0):
    mu, k = 10 ** rng.uniform(0, 4), 10 ** rng.uniform(0, 4)
    Sy = 10 ** rng.uniform(-1, 2)
    s = [rng.uniform(-1, 1) for _ in range(6)]
    if rng.random() < .2:
        s = [x if rng.random() < .4 else 0.0 for x in s]
    s[2] = -s[0] - s[1]
    n = math.sqrt(s[0] ** 2 + s[1] ** 2 + s[2] ** 2 + 2 * (s[3] ** 2 + s[4] ** 2 + s[5] ** 2))
    if n == 0:
        return None
    Ka = rng.choice([0.0, 10 ** rng.uniform(-1, 3)])
    al = rng.choice([0.0, rng.uniform(0, 2)])
    q = math.sqrt(2. / 3) * (Sy + Ka * al) * 10 ** rng.uniform(-.5, 1) / n
    s = [x * q for x in s]
    n *= q
    v = {'mu': mu, 'k': k, 'Sy': Sy, 'Ka': Ka, 'al': al, 'n': n, 'tr': rng.uniform(-1, 1)}
    for i in range(6):
        v['s%d' % i] = s[i]
        v['p%d' % i] = rng.uniform(-1, 1) * 1e-1
    return {syms[x].id: y for x, y in v.items() if x in syms}


@unit('plastic_step/return', 'micropp_t::plastic_step', cost=30)
def u_plastic(prog):
    ex = Executor(prog)
    st = new_state()
    A = {}

    def S(x):
        p = sym('ps.' + x, 'r')
        A[x] = ATOMS[next(iter(p.atoms()))]
        return p
    mu, K, Sy, Ka, al, n, tr = [S(x) for x in ('mu', 'k', 'Sy', 'Ka', 'al', 'n', 'tr')]
    lam = K - mu * Fraction(2, 3)
    E = T.div(K * mu * 9, K * 3 + mu)
    nu = T.div(K * 3 - mu * 2, (K * 3 + mu) * 2)
    s = [S('s0'), S('s1'), None, S('s3'), S('s4'), S('s5')]
    s[2] = -s[0] - s[1]
    p = [S('p0'), S('p1'), None, S('p3'), S('p4'), S('p5')]
    p[2] = -p[0] - p[1]
    T.NONNEG.add(A['n'].id)
    half = P(1) / P(2)
    T.SQUARE_RULES[A['s5'].id] = (n * n - s[0] * s[0] - s[1] * s[1] - s[2] * s[2]
                                  - s[3] * s[3] * 2 - s[4] * s[4] * 2) * half
    third = P(1) / P(3)
    eps = [s[i] / (mu * 2) + p[i] + tr * third for i in range(3)] + [s[i] / mu + p[i] * 2 for i in range(3, 6)]
    o = st.new(('rec', 'material_t'), 'material')
    for f, v in (('E', E), ('nu', nu), ('Sy', Sy), ('Ka', Ka), ('k', K), ('mu', mu), ('lambda', lam)):
        st.setcell(o, (f,), v)
    for f in ('plasticity', 'damage'):
        st.setcell(o, (f,), TRUE if f == 'plasticity' else bsym('ps.damage'))
    st.assume(lt(0, mu), lt(0, Sy), le(0, Ka), le(0, al), le(0, n))

    def arr(name, vals):
        q, _, oid = vec(st, name, 6)
        if vals is not None:
            for i, v in enumerate(vals):
                wr(ex, st, q, i, v)
        return q
    pe, pp = arr('eps', eps), arr('eps_p_old', p)
    pn, ps = arr('eps_p_new', None), arr('stress', None)
    pa, _ = scalar(st, 'alpha_new', 'r')
    pf, _ = scalar(st, 'flag', 'b')
    wr(ex, st, pf, 0, FALSE)
    q = 'micropp_t::plastic_step'
    LOG.where = q
    c = make_cell(ex, st, 3, True)
    pre = st.copy()
    outs = run(ex, q, st, c.this, [Ptr(CellLV(o, ())), pe, pp, al, pn, pa, pf, ps])
    r23 = T.sqrt(P(2) / P(3))
    f = n - r23 * (Sy + Ka * al)
    yld = lt(0, f)
    w = (1, 1, 1, 2, 2, 2)
    rng = random.Random(7)
    pts = [x for x in (point(rng, A, None) for _ in range(400)) if x]
    named = {v.id: x for x, v in A.items()}

    def goal(oo, g, kind, desc, extra=()):
        fs = list(oo.pc.fs) + list(extra)
        if oo.pc.extend(*extra).decide(g) is True:
            LOG.ok(kind)
            return
        for pt in pts:
            m = Num(pt)
            try:
                if all(m.form(x, 1e-9) is True for x in fs if x.id not in pre.pc.ids) and m.form(g, 1e-7) is False:
                    LOG.fail(kind, desc, True, {named[i]: repr(v) for i, v in pt.items() if i in named})
                    return
            except Unsupported:
                break
        r = real(fs, g)
        if r == 'unsat':
            LOG.ok(kind)
            return
        LOG.fail(kind, desc + ('' if r == 'sat' else ': not decided'), r == 'sat')

    def equal(oo, a, b, desc, extra=()):
        if isinstance(a, Poly) and poly_equal(a, b):
            LOG.ok('post')
            return
        a, b = deep(a, oo.pc.extend(*extra), 'ite'), deep(b, oo.pc.extend(*extra), 'ite')
        if poly_equal(a, b):
            LOG.ok('post')
            return
        goal(oo, eq(a, b), 'post', desc, extra)

    if not outs:
        LOG.fail('vacuity', 'no final state', False)
    for oo in outs:
        LOG.where = q
        fl = rd(ex, oo, pf)
        # every state of the cell and the inputs are untouched
        skip = set(x.lv.o for x in (pn, ps, pa, pf))
        compare_states(ex, pre, oo, pre, 'frame', skip=skip)
        leaks(ex, pre, oo)
        for ycase in (yld, Not(yld)):
            cx = oo.pc.extend(ycase)
            if not cx.consistent():
                continue
            ex_ = (ycase,)
            Y = ycase is yld
            goal(oo, Iff(conv(fl, 'b'), TRUE if Y else FALSE), 'post', 'flag raised iff the trial state exceeds the yield surface', ex_)
            en, sg, an = rdn(ex, oo, pn, 6), rdn(ex, oo, ps, 6), rd(ex, oo, pa)
            en = [deep(x, cx, 'ite') for x in en]
            sg = [deep(x, cx, 'ite') for x in sg]
            an = deep(an, cx, 'ite')
            d = [en[i] - p[i] for i in range(6)]
            if not Y:
                for i in range(6):
                    equal(oo, en[i], p[i], 'plastic strain %d kept without yielding' % i, ex_)
                equal(oo, an, al, 'accumulated plastic strain kept without yielding', ex_)
            else:
                g = ZERO
                for i in range(6):
                    g = g + d[i] * s[i] * w[i]
                g = g / (n * n)
                goal(oo, le(0, g), 'post', 'flow not against the trial deviator', ex_)
                for i in range(6):
                    equal(oo, d[i], g * s[i], 'plastic flow %d along the trial deviator' % i, ex_)
                equal(oo, an - al, r23 * g * n, 'accumulated plastic strain grows by sqrt(2/3) of the flow', ex_)
                goal(oo, le(al, an), 'post', 'accumulated plastic strain does not decrease', ex_)
            equal(oo, en[0] + en[1] + en[2], ZERO, 'plastic strain deviatoric', ex_)
            for i in range(6):
                e2 = K * tr + mu * 2 * (eps[i] - en[i] - tr * third) if i < 3 else mu * (eps[i] - en[i] * 2)
                equal(oo, sg[i], e2, 'stress %d is elastic in the elastic strain' % i, ex_)
            mean = (sg[0] + sg[1] + sg[2]) * third
            Q = ZERO
            for i in range(6):
                x = sg[i] - mean if i < 3 else sg[i]
                Q = Q + x * x * w[i]
            # a2 stands for the new accumulated plastic strain: only a2 >= alpha_old (shown above) is used,
            # and r0, the old yield radius over sqrt(2/3)
            a2, r0 = sym('ps.a2', 'r'), sym('ps.r0', 'r')
            slack = P(2) / P(3) * P(T.Fraction(1000000001, 1000000000))
            Q0 = (Sy + Ka * al) * (Sy + Ka * al) * P(2) / P(3)
            R2 = Sy + Ka * a2
            if poly_equal(Q, n * n if not Y else Q0):
                # n^2 <= 2/3 r0^2 when not yielding, equal when yielding; r0 <= R2
                fs = [lt(0, Sy), le(0, Ka), le(0, al), le(al, a2)]
                ok = prove_real(fs, le(Sy + Ka * al, R2)) and prove_real([lt(0, r0), le(r0, a2)], le(r0 * r0, a2 * a2))
                if not Y:
                    ok = ok and prove_real([lt(0, r0), le(0, n), le(n, r23 * r0)], le(n * n, r0 * r0 * P(2) / P(3)))
                if ok:
                    LOG.ok('post')
                    continue
            R = Sy + Ka * an
            goal(oo, le(Q, R * R * slack), 'post', 'stress inside the yield surface', ex_)
