"""The conjugate-gradient solvers take conjugate, downhill, exactly minimising steps.

The matrix is an arbitrary symmetric operator here: a product leaves an arbitrary vector y = A x of which only linearity
and <w, A x> = <x, A w> are used (symmetry is the precondition of the property; that ell_mvp_2D is the product with the
stored matrix, a linear map, is proved by ell_mvp/*).  Invariants, after the first iteration, for a preconditioner array k,
residual r, direction p with product q = A p and a scalar rho:
    <r, p> = 0        and        <k r, q> rho + <k r, r> <p, q> = 0
The roles are not read off names: every tuple of local arrays is a candidate."""
from solver import *
import itertools


class Cg(System):
    def __init__(self, *a, **k):
        System.__init__(self, *a, **k)
        self.prods = {}          # opaque product name -> (x contents at the call: function of row)
        self.roles = {}
        self.ro = None
        self.known, self.choice, self.found = None, 0, None
        self.fchoice, self.nfirst, self.reals = 0, 0, []

    def ell_mvp_2D(self, ex, st, this, args):
        m = ex.deref(st, args[0], 'matrix')
        if m.o != self.mo:
            raise Unsupported('another matrix')
        x, y = self.vector(st, args[1]), self.vector(st, args[2])
        if x is y:
            raise Unsupported('y is x')
        bx = box((self.nrow,), 'r')
        row = P(bx[0][0])
        nm = fresh_name('h#mvp')
        xs = x.read(0, (row,), bctx(st.pc, bx))
        self.prods[nm] = (bx[0][0], xs)
        y.write(0, (row,), fn(nm, (row,)), TRUE, bx)

    def attach(self):
        self.ex.contracts[Contracts.TABLE['ell_mvp_2D']] = self.ell_mvp_2D
        return self

    # -------------------------------------------------------------- vectors as terms of a bound row
    def bx(self):
        return box((self.nrow,), 'r')

    def at(self, st, o, row, cx):
        return deep(st.mem[o].read(0, (row,), cx), cx, 'fork')

    def dot(self, st, *os):
        bx = self.bx()
        row = P(bx[0][0])
        cx = bctx(st.pc, bx)
        v = ONE
        for o in os:
            v = v * self.at(st, o, row, cx)
        return Sum(bx, v)

    def product_of(self, st, p, q):
        """q holds A p in this state"""
        a = st.mem[q]
        key = (p, q)
        h = self.heads_ap.get((id(a.base), q))
        if h is not None and not a.heads and h == (p, st.mem[p].base) and not st.mem[p].heads:
            return True
        row = sym('row?', 'i')
        cx = st.pc.extend(le(0, row), lt(row, self.nrow))
        v = self.at(st, q, row, cx)
        ids = list(v.atoms())
        if len(v.t) != 1 or len(ids) != 1 or v != P(ATOMS[ids[0]]):
            return False
        at = ATOMS[ids[0]]
        if at.kind != 'fn' or at.args[0] not in self.prods:
            return False
        b, xs = self.prods[at.args[0]]
        d = self.at(st, p, row, cx) - deep(subst(xs, {b.id: row}), cx, 'fork')
        return poly_equal(d, ZERO)

    def split(self, st, f, budget=12):
        """f(st) on every case it forks into"""
        try:
            return f(st)
        except Fork as e:
            if budget <= 0:
                return False
            for g in (e.f, Not(e.f)):
                s = st.copy()
                s.assume(g)
                if s.pc.consistent() and not self.split(s, f, budget - 1):
                    return False
            return True

    # -------------------------------------------------------------- rewriting with the invariants of the head
    def rules(self, st):
        """facts of the head, as replacements of sum atoms; none in the first iteration"""
        H = self.head
        if H is None:
            return {}
        first = self.first(H)
        if st.pc.decide(first) is not False:
            return {}
        sg = {}
        for c in self.live:
            if c[0] == 'B':
                v = self.dot(H, c[1], c[2])
                self.solve_for(sg, v, ZERO)
        for c in self.live:
            if c[0] == 'F':
                _, k, r, p, q, rho = c
                v = self.dot(H, k, r, q)
                w = div(ZERO - self.dot(H, k, r, r) * self.dot(H, p, q), self.fval(H, rho))
                self.solve_for(sg, v, w)
        return sg

    def solve_for(self, sg, v, w):
        if len(v.t) == 1:
            (mono, co), = v.t.items()
            if len(mono) == 1 and mono[0][1] == 1 and ATOMS[mono[0][0]].kind == 'sum':
                sg[mono[0][0]] = w * P(Fraction(1) / co)

    def symmetry(self, st, v):
        """<w, A x> = <x, A w> for the product of the head's direction"""
        H = self.head
        sg = {}
        if H is None:
            return sg
        aps = [c for c in self.live if c[0] == 'A']
        for i in v.atoms():
            at = ATOMS[i]
            if at.kind != 'sum' or len(at.args[0]) != 1:
                continue
            (b, _), body = at.args[0][0], at.args[1]
            if len(body.t) != 1:
                continue
            (mono, co), = body.t.items()
            hs = [a for a, e in mono if ATOMS[a].kind == 'fn' and ATOMS[a].args[0] in self.prods and e == 1]
            if len(hs) != 1 or len(mono) != 2:
                continue
            w = [a for a, e in mono if a != hs[0]][0]
            for _, p, q in aps:
                cx = H.pc.extend(le(0, P(b)), lt(P(b), self.nrow))
                if P(ATOMS[w]) == self.at(H, p, P(b), cx):
                    pb, xs = self.prods[ATOMS[hs[0]].args[0]]
                    bx = self.bx()
                    row = P(bx[0][0])
                    cx = bctx(st.pc, bx)
                    sg[i] = P(co) * Sum(bx, deep(subst(xs, {pb.id: row}), cx, 'fork') * self.at(H, q, row, cx))
                    break
        return sg

    def vanishes(self, st, v):
        v = deep(v, st.pc, 'fork')
        for _ in range(3):
            sg = self.symmetry(st, v)
            if sg:
                v = deep(self.sub_all(v, sg), st.pc, 'fork')
            sg = self.rules(st)
            if sg:
                v = deep(self.sub_all(v, sg), st.pc, 'fork')
            if poly_equal(v, ZERO):
                return True
        return poly_equal(T.clear_inv(v), ZERO)

    def sub_all(self, v, sg):
        return subst(v, sg)

    # -------------------------------------------------------------- candidates
    def first(self, st):
        return self.firstf(st)

    def provider(self, ex, st0, W, WA, node):
        self.head, self.live = None, []
        self.heads_ap = {}
        out = []
        self.WA = WA
        loc = [o for o in self.local_arrays(st0) if o not in (self.x, self.y)]
        # arrays the loop does not write: havocked all the same ('any'), but recognised as constant
        if self.ro is None:
            self.ro = [o for o in loc if o not in WA]
        ro = self.ro
        wr = [o for o in loc if o in WA and o not in ro]
        self.firstc = [f for f in self.firsts(ex, st0, W) if st0.pc.decide(f[1](st0)) is True]
        reals = []
        for k in sorted(W, key=repr):
            o = st0.mem.get(k[0])
            if isinstance(o, Cells):
                try:
                    t = sub_type(ex, o.type, k[1])
                except Unsupported:
                    continue
                if t == 'r':
                    reals.append(k)
        self.nfirst = max(self.nfirst, len(self.firstc))
        if len(self.firstc) <= self.fchoice:
            return out
        self.firstf = self.firstc[self.fchoice][1]
        for o in ro:
            def forget(ex, s0, st, o=o):
                a = st.mem[o]
                a.base, a.heads = Base(fresh_name('head:' + a.name)), {}
            out.append(Cand(('any', o), '%s is arbitrary' % st0.mem[o].name, lambda ex, s0, st: True, forget))

        out += [b for b in self.bounds(ex, st0, W) if b.key[1] == '>=0']

        def mk(key, desc, pred):
            def holds(ex, s0, st):
                def f(s):
                    if s.pc.decide(self.first(s)) is True:
                        return True
                    return pred(s)
                return quiet(lambda: self.split(st, f))

            def assume(ex, s0, st):
                if self.head is None or self.hid != id(st):
                    self.head, self.hid, self.live = st, id(st), []
                self.live.append(key)
                if key[0] == 'A':
                    self.heads_ap[(id(st.mem[key[2]].base), key[2])] = (key[1], st.mem[key[1]].base)
            out.append(Cand(key, desc, holds, assume))
        nm = lambda o: st0.mem[o].name
        self.loc, self.reals = loc, reals
        if self.known is not None:
            # second pass: what the first pass found, and the relation with one choice of the scalar
            A = [(loc[i], loc[j]) for t, i, j in self.known if t == 'A']
            B = [(loc[i], loc[j]) for t, i, j in self.known if t == 'B']
            for p, q in A:
                mk(('A', p, q), '%s = A %s' % (nm(q), nm(p)), lambda s, p=p, q=q: self.product_of(s, p, q))
            for r, p in B:
                mk(('B', r, p), '<%s,%s> = 0' % (nm(r), nm(p)), lambda s, r=r, p=p: self.vanishes(s, self.dot(s, r, p)))
            rho = reals[self.choice]
            for p, q in A:
                for r in [x for b in B if p in b for x in b if x != p]:
                    for k in ro:
                        def pred(s, k=k, r=r, p=p, q=q):
                            v = self.fval(s, rho)
                            if not isinstance(v, Poly) or not self.product_of(s, p, q):
                                return False
                            return self.vanishes(s, self.dot(s, k, r, q) * v + self.dot(s, k, r, r) * self.dot(s, p, q))
                        mk(('F', k, r, p, q, rho), '<%s %s,%s> rho + <%s %s,%s> <%s,%s> = 0' % (nm(k), nm(r), nm(q), nm(k), nm(r), nm(r), nm(p), nm(q)), pred)
            return out
        for p, q in itertools.permutations(wr, 2):
            mk(('A', p, q), '%s = A %s' % (nm(q), nm(p)), lambda s, p=p, q=q: self.product_of(s, p, q))
        for r, p in itertools.combinations(wr, 2):
            mk(('B', r, p), '<%s,%s> = 0' % (nm(r), nm(p)), lambda s, r=r, p=p: self.vanishes(s, self.dot(s, r, p)))
        return out

    # -------------------------------------------------------------- claims on a step
    def generic(self, st, tag):
        r = sym('row' + tag, 'i')
        return r, st.pc.extend(le(0, r), lt(r, self.nrow))

    def final(self, ex, st0, backs, exits, rets, first):
        H = self.head
        self.found = [(c[0], self.loc.index(c[1]), self.loc.index(c[2])) for c in self.live if c[0] in 'AB']
        if self.known is None or H is None:
            return
        self.done = True
        steps = [s for s in backs + exits if s.mem[self.x].heads]
        if not steps:
            LOG.fail('post', 'no step is taken', False)
            return
        best = None
        for c in self.live:
            if c[0] != 'B':
                continue
            for r, p in ((c[1], c[2]), (c[2], c[1])):
                for a in self.live:
                    if a[0] != 'A' or a[1] != p:
                        continue
                    q = a[2]
                    got = [self.entry(st0, r)]
                    got += [quiet(lambda: self.split(s, lambda t: self.along(t, r, p, q))) for s in steps]
                    if all(got):
                        best = (r, p, q)
        if best is None:
            LOG.fail('post', 'every step moves x along p and A x - b along A p by the same amount, and ends with <A x - b, p> = 0', False)
            return
        r, p, q = best
        self.roles = {'r': r, 'p': p, 'q': q}
        LOG.ok('post')
        for s in steps:
            LOG.ok('post')
            self.tell(quiet(lambda: self.split(s, lambda t: self.conjugate(t, p, q))), 'consecutive directions are conjugate')
            self.tell(quiet(lambda: self.split(s, lambda t: self.vanishes(t, self.dot(t, r, p)))), 'the step minimises the energy along its direction')
            ok = False
            for k in self.local_arrays(st0):
                if k not in self.ro or s.mem[k].base is not H.mem[k].base or s.mem[k].heads:
                    continue
                if quiet(lambda: self.inverse_diag(st0, k)) and quiet(lambda: self.split(s, lambda t: self.downhill(t, k, r, p))):
                    ok = True
            self.tell(ok, 'the direction goes downhill by the preconditioned residual')

    def tell(self, ok, desc):
        if ok:
            LOG.ok('post')
        else:
            LOG.fail('post', desc, False)

    def entry(self, st, r):
        """r is A x - b when the loop is entered"""
        def f(st):
            row, cx = self.generic(st, 'e')
            v = self.at(st, r, row, cx) + deep(st.mem[self.b].read(0, (row,), cx), cx, 'fork')
            ids = list(v.atoms())
            if len(v.t) != 1 or len(ids) != 1 or v != P(ATOMS[ids[0]]) or ATOMS[ids[0]].kind != 'fn' or ATOMS[ids[0]].args[0] not in self.prods:
                return False
            b, xs = self.prods[ATOMS[ids[0]].args[0]]
            return poly_equal(deep(subst(xs, {b.id: row}), cx, 'fork') - self.at(st, self.x, row, cx), ZERO)
        return quiet(lambda: self.split(st, f))

    def along(self, t, r, p, q):
        i, ci = self.generic(t, 'i')
        j = sym('rowj', 'i')
        cx = ci.extend(le(0, j), lt(j, self.nrow))
        dx = self.at(t, self.x, i, cx) - self.at(self.head, self.x, i, cx)
        dr = self.at(t, r, j, cx) - self.at(self.head, r, j, cx)
        return self.product_of(t, p, q) and poly_equal(dx * self.at(t, q, j, cx) - dr * self.at(t, p, i, cx), ZERO)

    def conjugate(self, t, p, q):
        if t.pc.decide(self.first(self.head)) is True:
            return True
        bx = self.bx()
        row = P(bx[0][0])
        cx = bctx(t.pc, bx)
        return self.vanishes(t, Sum(bx, self.at(self.head, p, row, cx) * self.at(t, q, row, cx)))

    def downhill(self, t, k, r, p):
        bx = self.bx()
        row = P(bx[0][0])
        cx = bctx(t.pc, bx)
        v, w = self.at(self.head, r, row, cx), self.at(t, p, row, cx)
        return self.vanishes(t, Sum(bx, v * w) - Sum(bx, v * v * self.at(self.head, k, row, cx)))

    def inverse_diag(self, st, k):
        def f(st):
            for d in range(self.nF):
                node = sym('node?', 'i')
                row = node * self.nF + d
                cx = st.pc.extend(le(0, node), lt(node, self.nn))
                a = st.mem[self.vals].read((self.nnz // self.nF // 2) * self.nF + d, (row,), cx)
                if not poly_equal(T.clear_inv(self.at(st, k, row, cx) * a - 1), ZERO) and not poly_equal(self.at(st, k, row, cx) * a, ONE):
                    return False
            return True
        return self.split(st, f)


@unit('solver_conjugate/{0}/{1}', 'ell_solve', *[s for s in SOLV if s[0] != 'jacobi'], cost=3)
def u_conjugate(prog, which, nF):
    def go(known, choice, fchoice):
        ex, st, S, args = setup(prog, which, nF, cls=Cg)
        S.nF, S.done, S.known, S.choice, S.fchoice = nF, False, known, choice, fchoice
        S.nn = sym('nx', 'i') * sym('ny', 'i') if which == '2D' else sym('nn', 'i')
        q = FNS[which]

        def prov(*a):
            return S.provider(*a)
        prov.final = S.final
        ex.providers[q] = prov
        LOG.where = q
        run(ex, q, st, None, args)
        return S
    log = (len(LOG.failed), {k: list(v) for k, v in LOG.counts.items()}, set(LOG.seen))

    def back():
        del LOG.failed[log[0]:]
        LOG.counts, LOG.seen = {k: list(v) for k, v in log[1].items()}, set(log[2])
    best, f, n = None, 0, 1
    while f < n:
        back()
        S = go(None, 0, f)
        n = S.nfirst
        log1 = (len(LOG.failed), {k: list(v) for k, v in LOG.counts.items()}, set(LOG.seen))
        for i in range(len(S.reals)) if S.found else ():
            del LOG.failed[log1[0]:]
            LOG.counts, LOG.seen = {k: list(v) for k, v in log1[1].items()}, set(log1[2])
            if go(S.found, i, f).done and not LOG.failed:
                return
            best = best or list(LOG.failed)
        f += 1
    if not LOG.failed:
        if best:
            LOG.failed.extend(best)
        else:
            LOG.fail('post', 'no direction with its product, orthogonal to the residual, was found', False)
