"""Symbolic executor over clang's AST.  Loops of symbolic length are replaced by their
strongest (inferred and checked) summary; calls of functions under contract by the contract."""
import re
from term import *
import term as T
from smt import Ctx, intern_ctx, check_sat, STATS, congruence, real_sat, hard_atoms
from mem import *
import mem as M
from vals import *
from evalx import EvalMixin
from loops import LoopMixin


MAXUNROLL = 6000


def havocked(a):
    """a value about which the proof kept too little (loop head, unspecified result)"""
    if a.kind == 'sym':
        return str(a.args[0]).startswith(('h#', 'gh#'))
    if a.kind == 'fn':
        return str(a.args[0]).startswith('h#')
    if a.kind == 'sel':
        r = a.args[0].root
        return isinstance(r, LoopBase) or r.name.startswith(('head:', 'inv:', 'h#'))
    return False


def genuine(fs):
    """is a model found with opaque products also one over the reals?"""
    r = real_sat(fs)
    if r == 'unknown':
        return not hard_atoms(fs)
    return r == 'sat'


class Executor(EvalMixin, LoopMixin):
    def __init__(self, prog, contracts=None, sizes=None):
        self.prog = prog
        self.contracts = contracts or {}
        self.cc = {}
        self.comp = {}
        self.sizes = sizes or []        # grid radices outer..inner: list of Poly
        self.depth = 0
        self.calls = []                 # names of functions executed inline / by contract
        self.used_contracts = set()
        self.inlined = set()
        self.loopdepth = 0
        self.houdini = None
        self.extra_shapes = []
        self.providers = {}
        self.curfn = []

    def field_type(self, rec, f):
        for n, t, _ in self.prog.records.get(rec, ()):
            if n == f:
                return ptype(t)
        raise Unsupported('field %s of %s' % (f, rec))

    # -------------------------------------------------------------- index arithmetic
    def shapes(self):
        """candidate radix lists for flattening"""
        z = self.sizes
        return z

    def factor(self, U):
        """U = prod(grid) * const  ->  (grid tuple, const) or None"""
        axes = self.sizes          # outer..inner
        if U.const() is not None:
            return None
        for shape in self.extra_shapes:
            pr = ONE
            for g in shape[0]:
                pr = pr * g
            if pr * shape[1] == U:
                return tuple(shape[0]), shape[1]
        import itertools
        best = None
        for combo in itertools.product((0, 1, 2), repeat=len(axes)):
            grid = tuple(a if c == 1 else a - 1 for a, c in zip(axes, combo) if c)
            if not grid:
                continue
            pr = ONE
            for g in grid:
                pr = pr * g
            lead = max(pr.t.items(), key=lambda mc: (sum(e for _, e in mc[0]), mc[0]))
            k = U.t.get(lead[0])
            if k is None or type(k) is not int or k <= 0 or k % lead[1]:
                continue
            c = k // lead[1]
            if pr * c == U:
                return grid, c
        return None

    def linear(self, p):
        return all(len(m) <= 1 and all(e == 1 for _, e in m) for m in p.t)

    def cmp(self, op, a, b, ctx):
        """comparison with lexicographic lowering of flat indices"""
        d = a - b
        f = {'<': lt, '<=': le, '>': gt, '>=': ge, '==': eq, '!=': ne}[op]
        if not T.is_int_poly(d) or self.linear(d) or not self.sizes:
            return f(a, b)
        if any(ATOMS[x].kind == 'ind' for m in d.t for x, _ in m):
            # case distinction on the indicators is cheap for z3; keep as is when linear
            pass
        for grid, ns in self.flat_shapes(d):
            # the upper bound itself (product of all radices) is a legal comparand
            da = self.digits(a, grid, ns, ctx)
            if da is None:
                continue
            db = self.digits(b, grid, ns, ctx)
            if db is None:
                continue
            return lexcmp(op, da, db)
        return f(a, b)

    def flat_shapes(self, d):
        import itertools
        axes = self.sizes
        out = []
        n = len(axes)
        for variant in (0, 1):
            g = [a - variant for a in axes]
            for k in range(n - 1):
                out.append((tuple(g[k:]), 1))
        return out

    def digits(self, p, grid, ns, ctx):
        """digits of p; the outermost digit is unconstrained"""
        q = p
        ds = []
        try:
            for N in reversed(grid[1:]):
                q2, d = divmod_poly(q, N)
                ok = False
                for t in (0, 1, -1, 2, -2):
                    dd = d + N * t
                    if ctx.decide(And(le(0, dd), lt(dd, N))) is True:
                        q, d, ok = q2 - t, dd, True
                        break
                if not ok:
                    return None
                ds.append(d)
        except Unsupported:
            return None
        if not self.linear(q):
            return None
        ds.append(q)
        ds.reverse()
        return ds

    # -------------------------------------------------------------- reading and writing
    def read(self, st, lv):
        if isinstance(lv, CellLV):
            return self.read_cell(st, lv.o, lv.p)
        if isinstance(lv, ArrLV):
            return self.read_arr(st, lv)
        if isinstance(lv, RecLV):
            return self.read_rec(st, lv)
        if isinstance(lv, TmpLV):
            return lv.v
        raise Unsupported('read of %r' % (lv,))

    def norm_path(self, st, o, path):
        """list of (condition, concrete path); bounds obligations on the way"""
        obj = st.mem[o]
        if all(not isinstance(c, Poly) for c in path):
            self.check_path(obj, path, st)
            return [(TRUE, path)]
        t = obj.type
        outs = [(TRUE, ())]
        for c in path:
            if t[0] == 'ref':
                t = t[1]
            if isinstance(c, Poly):
                k = c.const()
                if k is not None:
                    self.in_range(k, t, obj, st)
                    outs = [(g, p + (k,)) for g, p in outs]
                else:
                    if t[0] != 'arr':
                        raise Unsupported('symbolic offset')
                    n = t[1]
                    rng = And(le(0, c), lt(c, n))
                    if st.pc.decide(rng) is not True:
                        self.bound_fail(st, rng, '%s[%r] of %d' % (obj.name, c, n))
                    LOG.ok('in-bounds')
                    new = []
                    for g, p in outs:
                        for i in range(n):
                            h = And(g, eq(c, i))
                            d = st.pc.decide(h)
                            if d is False:
                                continue
                            new.append((h if d is None else TRUE, p + (i,)))
                    outs = new
                t = t[2] if t[0] == 'arr' else t
            else:
                if isinstance(c, int):
                    self.in_range(c, t, obj, st)
                    t = t[2] if t[0] == 'arr' else t
                else:
                    t = self.field_type(t[1], c)
                outs = [(g, p + (c,)) for g, p in outs]
        return outs

    def in_range(self, k, t, obj, st=None):
        if t[0] != 'arr':
            if k == 0:
                return
            self.hard_fail(st, 'in-bounds', '%s: offset %d from a scalar' % (obj.name, k))
        if not (0 <= k < t[1]):
            self.hard_fail(st, 'in-bounds', '%s: index %d of %d' % (obj.name, k, t[1]))
        LOG.ok('in-bounds')

    def check_path(self, obj, path, st=None):
        t = obj.type
        for c in path:
            if t[0] == 'ref':
                t = t[1]
            if isinstance(c, int):
                self.in_range(c, t, obj, st)
                if t[0] == 'arr':
                    t = t[2]
            else:
                t = self.field_type(t[1], c)

    def hard_fail(self, st, kind, desc):
        m = self.counterexample(st.pc, TRUE) if st is not None else {}
        LOG.fail(kind, desc, m is not None, m)
        raise Refuted(kind + ': ' + desc) if m is not None else Unsupported(kind + ': ' + desc)

    def bound_fail(self, st, rng, desc):
        """range condition not proven: look for a concrete counterexample"""
        m = self.counterexample(st.pc, Not(rng))
        LOG.fail('in-bounds', desc, m is not None, m)
        raise Refuted('in-bounds: ' + desc) if m is not None else Unsupported('in-bounds: ' + desc)

    def counterexample(self, ctx, f, extra=()):
        """model of ctx & f, with grid sizes made concrete so that all indices are linear"""
        import itertools
        if any(havocked(ATOMS[i]) for i in term_fv(f)):
            return None
        ids = [next(iter(s.atoms())) for s in self.sizes if s.atoms()]
        for combo in itertools.product((2, 3, 4, 5, 7), repeat=len(ids)):
            sg = {i: P(c) for i, c in zip(ids, combo)}
            fs = [subst(g, sg) for g in ctx.fs] + [subst(f, sg)]
            fs += congruence(fs)
            mdl = {}
            if check_sat(fs, model=mdl) == 'sat' and genuine(fs):
                out = {show_atom(ATOMS[i]): c for i, c in zip(ids, combo)}
                for i, v in mdl.items():
                    if ATOMS[i].kind == 'sym':
                        out[ATOMS[i].args[0]] = str(v)
                return out
        return None

    def read_cell(self, st, o, path):
        obj = st.mem[o]
        if isinstance(obj, (Arr, RList)):
            raise Unsupported('array object read as cell')
        v = obj.cells.get(path)
        if v is not None:
            if any(type(c) is int for c in path):
                LOG.ok('in-bounds')
            return v
        alts = self.norm_path(st, o, path)
        if len(alts) == 1:
            return self.read_leaf(st, obj, o, alts[0][1])
        vals = [(g, self.read_leaf(st, obj, o, p)) for g, p in alts]
        if all(isinstance(v, Poly) for _, v in vals):
            r = vals[-1][1]
            for g, v in reversed(vals[:-1]):
                r = ite(g, v, r)
            return r
        if all(isinstance(v, Formula) for _, v in vals):
            r = vals[-1][1]
            for g, v in reversed(vals[:-1]):
                r = itef(g, v, r)
            return r
        if all(isinstance(v, Rec) for _, v in vals):
            d = {}
            for lp in vals[0][1].d:
                r = vals[-1][1].d[lp]
                for g, v in reversed(vals[:-1]):
                    r = mix(g, v.d[lp], r)
                d[lp] = r
            return Rec(d)
        raise Unsupported('symbolic read of non-scalar')

    def read_leaf(self, st, obj, o, p):
        v = obj.cells.get(p)
        if v is not None:
            return v
        t = sub_type(self, obj.type, p)
        if t[0] == 'rec' and t[1] in self.prog.records or t[0] == 'arr':
            d = {}
            for lp in leaf_paths(self, t):
                d[lp] = self.read_leaf(st, obj, o, p + lp)
            return Rec(d)
        if obj.zero:
            return zero_of(t)
        v = uninit_of(t, '%s%s' % (obj.name, ''.join('.%s' % c for c in p)))
        # remember, so that two reads agree
        if obj.owner is not st.token:
            obj = obj.copy(st.token)
            st.mem[o] = obj
        obj.cells[p] = v
        return v

    def locate(self, st, lv):
        arr = st.mem[lv.o]
        if not isinstance(arr, Arr):
            raise Unsupported('not an array')
        if arr.alive == 'moved':
            raise Unsupported('block reached both from a record and from a variable')
        if arr.alive is not True:
            self.hard_fail(st, 'use-after-free', arr.name)
        npre = len(lv.pre)
        grid = arr.grid[npre:]
        if not grid:
            c = lv.off.const()
            if c is None:
                return self.locate_sym(st, arr, lv)
            if not (0 <= c < arr.nslots):
                self.hard_fail(st, 'in-bounds', '%s: index %d of %d' % (arr.name, c, arr.nslots))
            LOG.ok('in-bounds')
            return arr, lv.pre, c
        key = (arr.name, lv.off, st.pc)
        cached = self.cc.get(key)
        if cached is None:
            try:
                co, slot, fail = decode(lv.off, grid, arr.nslots, st.pc)
            except Unsupported as e:
                co, slot, fail = None, None, (str(e), TRUE)
            if fail is not None:
                # try other readings: the index may still be in bounds but of another shape
                self.flat_fail(st, arr, lv, fail, grid)
            self.cc[key] = cached = (co, slot)
        co, slot = cached
        LOG.ok('in-bounds')
        return arr, tuple(lv.pre) + co, slot

    def flat_fail(self, st, arr, lv, fail, grid):
        size = P(arr.nslots)
        for g in grid:
            size = size * g
        oob = Or(lt(lv.off, 0), ge(lv.off, size))
        m = self.counterexample(st.pc, oob)
        desc = '%s[%r] (size %r)' % (arr.name, lv.off, size)
        if m is not None:
            LOG.fail('in-bounds', desc, True, m)
            raise Refuted('in-bounds: ' + desc)
        raise Undecodable('index not decodable: %s: %s' % (desc, fail[0]))

    def locate_sym(self, st, arr, lv):
        raise Unsupported('symbolic slot of %s' % arr.name)

    def indirect(self, off):
        """index that is a single indicator combination of simple indices:
        list of (condition, index) or None"""
        inds = [a for a in off.atoms() if ATOMS[a].kind == 'ind']
        if not inds or len(inds) > 3:
            return None
        outs = []
        for bits in range(1 << len(inds)):
            sg = {a: (ONE if bits >> n & 1 else ZERO) for n, a in enumerate(inds)}
            cond = And(*[ATOMS[a].args[0] if bits >> n & 1 else Not(ATOMS[a].args[0]) for n, a in enumerate(inds)])
            outs.append((cond, subst(off, sg)))
        return outs

    def read_arr(self, st, lv):
        alts = self.indirect(lv.off)
        if alts:
            r = None
            for c, off in alts:
                d = st.pc.decide(c)
                if d is False:
                    continue
                sv = st.pc
                st.pc = st.pc.extend(c)
                v = self.read_arr(st, ArrLV(lv.o, lv.pre, off))
                st.pc = sv
                if d is True:
                    return v
                if isinstance(v, Formula):
                    r = And(c, v) if r is None else Or(r, And(c, v))
                else:
                    r = ind(c) * v if r is None else r + ind(c) * v
            return r
        try:
            arr, co, slot = self.locate(st, lv)
        except Undecodable:
            if not self.lenient:
                raise
            t = st.mem[lv.o].sort
            return bsym(fresh_name('h')) if t == 'b' else sym(fresh_name('h'), t)
        return arr.read(slot, co, st.pc)

    def write(self, st, lv, v):
        if isinstance(lv, CellLV):
            self.write_cell(st, lv.o, lv.p, v)
        elif isinstance(lv, ArrLV):
            alts = self.indirect(lv.off)
            if alts:
                for c, off in alts:
                    d = st.pc.decide(c)
                    if d is False:
                        continue
                    sv = st.pc
                    st.pc = st.pc.extend(c)
                    arr, co, slot = self.locate(st, ArrLV(lv.o, lv.pre, off))
                    st.pc = sv
                    arr.write(slot, co, conv(v, arr.sort), TRUE if d else c)
                return
            try:
                arr, co, slot = self.locate(st, lv)
            except Undecodable:
                if not self.lenient:
                    raise
                return
            arr.write(slot, co, conv(v, arr.sort))
        elif isinstance(lv, RecLV):
            self.write_rec(st, lv, v)
        else:
            raise Unsupported('write to %r' % (lv,))

    def write_cell(self, st, o, path, v):
        obj = st.mem[o]
        if isinstance(v, Rec):
            for lp, x in v.d.items():
                self.write_cell(st, o, path + lp, x)
            return
        alts = self.norm_path(st, o, path)
        t = sub_type(self, obj.type, alts[0][1])
        if t in ('i', 'r', 'b'):
            v = conv(v, t)
        if len(alts) == 1:
            st.setcell(o, alts[0][1], v)
            return
        for g, p in alts:
            old = self.read_leaf(st, st.mem[o], o, p)
            st.setcell(o, p, mix(g, v, old))

    # records of symbolic lists: field arrays keyed by path
    def read_rec(self, st, lv):
        rl = st.mem[lv.o]
        t = sub_type(self, ('rec', rl.rec), lv.p)
        if t[0] == 'rec' or t[0] == 'arr':
            return Rec({lp: self.read_rec(st, RecLV(lv.o, lv.pos, lv.p + lp)) for lp in leaf_paths(self, t)})
        alts = self.rec_paths(st, lv, rl)
        out = None
        for g, p in alts:
            arr, slot = self.rec_slot(st, rl, p)
            if t[0] == 'ptr':
                nn = st.mem[arr].read(slot, (lv.pos,), st.pc)
                co = rl.fields[p + ('*',)]
                out = Ptr(ArrLV(co, (lv.pos,), ZERO), Not(nn))
            else:
                v = st.mem[arr].read(slot, (lv.pos,), st.pc)
                out = v if out is None else mix(g, v, out)
        LOG.ok('in-bounds')
        return out

    def rec_paths(self, st, lv, rl):
        tmp = Cells(('rec', rl.rec), rl.name)
        st.mem['$tmp'] = tmp
        try:
            return self.norm_path(st, '$tmp', lv.p)
        finally:
            del st.mem['$tmp']

    def rec_slot(self, st, rl, p):
        return rl.fields[p], 0

    def write_rec(self, st, lv, v):
        rl = st.mem[lv.o]
        if isinstance(v, Rec):
            for lp, x in v.d.items():
                self.write_rec(st, RecLV(lv.o, lv.pos, lv.p + lp), x)
            return
        t = sub_type(self, ('rec', rl.rec), lv.p)
        for g, p in self.rec_paths(st, lv, rl):
            aid, slot = self.rec_slot(st, rl, p)
            arr = st.mem[aid]
            if t[0] == 'ptr':
                content = st.mem[rl.fields[p + ('*',)]]
                if isinstance(v, Raw):
                    want = P(8)
                    for x in content.grid[1:]:
                        want = want * x
                    want = want * content.nslots
                    if v.nbytes != want:
                        raise Unsupported('allocation of %r bytes for %s' % (v.nbytes, p))
                    old = arr.read(slot, (lv.pos,), st.pc)
                    # the previous block (if any) is lost: leak obligation
                    if st.pc.decide(Not(old)) is not True:
                        LOG.fail('leak', 'allocation overwrites %s' % (p,), st.pc.decide(old) is True)
                    arr.write(slot, (lv.pos,), TRUE, g)
                    q = tuple((mk_atom('sym', (fresh_name('q'),), 'i'), s) for s in content.grid[1:])
                    for s in range(content.nslots):
                        ub = Base(fresh_name('uninit'))
                        ub.uninit = True
                        val = ZERO if v.zero else mk_sel(ub, s, (lv.pos,) + tuple(P(a) for a, _ in q), 'r')
                        content.write(s, (lv.pos,) + tuple(P(a) for a, _ in q), val, g, q)
                elif isinstance(v, Ptr) and v.null.op == 'true':
                    arr.write(slot, (lv.pos,), FALSE, g)
                elif isinstance(v, Ptr) and v.null.op == 'false' and isinstance(v.lv, ArrLV) and v.lv.pre == () and v.lv.off == ZERO \
                        and g.op == 'true' and v.lv.o in st.allocs:
                    # ownership of a fresh block moves into the record
                    src = st.mem[v.lv.o]
                    if src.alive is not True or src.grid != content.grid[1:] or src.nslots != content.nslots:
                        raise Unsupported('block of shape %r for %s' % (src.grid, p))
                    old = arr.read(slot, (lv.pos,), st.pc)
                    if st.pc.decide(Not(old)) is not True:
                        LOG.fail('leak', 'allocation overwrites %s' % (p,), st.pc.decide(old) is True)
                    else:
                        LOG.ok('leak')
                    arr.write(slot, (lv.pos,), TRUE, g)
                    q = tuple((mk_atom('sym', (fresh_name('q'),), 'i'), s) for s in content.grid[1:])
                    qc = tuple(P(a) for a, _ in q)
                    for s in range(content.nslots):
                        content.write(s, (lv.pos,) + qc, src.read(s, qc, st.pc), g, q)
                    src.alive = 'moved'
                else:
                    raise Unsupported('pointer assignment to a record')
            else:
                arr.write(slot, (lv.pos,), conv(v, t), g)

    # -------------------------------------------------------------- states
    def merge(self, states, base):
        """merge states that all started from path condition base"""
        while len(states) > 1:
            a = states.pop()
            b = states.pop()
            states.append(self.merge2(b, a, base))
        return states[0]

    def merge2(self, a, b, base):
        ca = And(*[f for f in a.pc.fs if f.id not in base.ids])
        cb = And(*[f for f in b.pc.fs if f.id not in base.ids])
        r = a.copy()
        r.pc = base.extend(Or(ca, cb))
        c = ca
        nc = Not(ca)
        # prefer the literal that distinguishes the two
        la = {f.id: f for f in (ca.args if ca.op == 'and' else (ca,))}
        for f in (cb.args if cb.op == 'and' else (cb,)):
            if Not(f).id in la:
                c, nc = Not(f), f
                break
        for oid, ob in b.mem.items():
            oa = a.mem.get(oid)
            if oa is None:
                r.mem[oid] = ob.copy() if isinstance(ob, (Arr, RList)) else ob
                continue
            if oa is ob:
                continue
            if isinstance(oa, Cells):
                if oa.cells == ob.cells if False else oa.cells is ob.cells:
                    continue
                ra = None
                for p in set(oa.cells) | set(ob.cells):
                    va, vb = oa.cells.get(p), ob.cells.get(p)
                    if va is not None and vb is not None and same_val(va, vb):
                        continue
                    if va is None:
                        va = zero_of(sub_type(self, oa.type, p)) if oa.zero else uninit_of(sub_type(self, oa.type, p), oa.name)
                    if vb is None:
                        vb = zero_of(sub_type(self, oa.type, p)) if ob.zero else uninit_of(sub_type(self, oa.type, p), oa.name)
                    try:
                        nv = mix(c, va, vb)
                    except CannotMerge:
                        if va is None or vb is None:
                            nv = va or vb
                        else:
                            raise
                    if ra is None:
                        ra = oa.copy(r.token)
                    ra.cells[p] = nv
                if ra is not None:
                    r.mem[oid] = ra
            elif isinstance(oa, RList):
                if oa.size != ob.size:
                    r.mem[oid].size = ite(c, oa.size, ob.size)
            else:
                if oa.base is not ob.base:
                    raise CannotMerge()
                if oa.alive is not ob.alive:
                    raise CannotMerge()
                ra = r.mem[oid]
                for s in set(oa.heads) | set(ob.heads):
                    ha, hb = oa.head(s), ob.head(s)
                    if ha is hb:
                        continue
                    anc = set()
                    n = ha
                    while True:
                        anc.add(id(n))
                        if n.kind != 'ev':
                            break
                        n = n.parent
                    evb = []
                    n = hb
                    while id(n) not in anc:
                        evb.append(n)
                        n = n.parent
                    com = n
                    eva = []
                    n = ha
                    while n is not com:
                        eva.append(n)
                        n = n.parent
                    h = com
                    # identical single sets on both sides
                    for e in reversed(eva):
                        h = Ev(h, e.q, And(c, e.guard), e.coords, e.op, e.val)
                    for e in reversed(evb):
                        h = Ev(h, e.q, And(nc, e.guard), e.coords, e.op, e.val)
                    if len(eva) == 1 and len(evb) == 1:
                        x, y = eva[0], evb[0]
                        if x.coords == y.coords and not x.q and not y.q and x.op == y.op == 'set' and \
                                x.guard is y.guard and not isinstance(x.val, Ptr):
                            h = Ev(com, (), x.guard, x.coords, 'set', mix(c, x.val, y.val))
                    ra.heads[s] = h
        for k in set(a.env) | set(b.env):
            if k not in r.env:
                r.env[k] = b.env[k]
        if a.ret is not None or b.ret is not None:
            if a.ret is None or b.ret is None:
                r.ret = a.ret if a.ret is not None else b.ret
            elif not same_val(a.ret, b.ret):
                r.ret = mix(c, a.ret, b.ret)
        for k in set(a.traces) | set(b.traces):
            ta, tb = a.traces.get(k, ()), b.traces.get(k, ())
            if ta != tb:
                n = 0
                while n < len(ta) and n < len(tb) and ta[n] is tb[n]:
                    n += 1
                r.traces[k] = ta[:n] + (('if', c, ta[n:], tb[n:]),)
        for k in set(a.ghost) | set(b.ghost):
            va, vb = a.ghost.get(k), b.ghost.get(k)
            if va is not vb and not same_val(va, vb):
                if va is None or vb is None:
                    raise CannotMerge()
                r.ghost[k] = mix(c, va, vb)
        if a.wlog is not None:
            r.wlog = a.wlog | b.wlog
        r.searches = tuple(dict.fromkeys(a.searches + b.searches))
        r.allocs = tuple(dict.fromkeys(a.allocs + b.allocs))
        return r

    def try_merge(self, outs, base):
        """outs: list of (status, state); merge those with status 'n'"""
        normal = [s for k, s in outs if k == 'n']
        rest = [(k, s) for k, s in outs if k != 'n']
        if len(normal) > 1:
            try:
                normal = [self.merge(list(normal), base)]
            except CannotMerge:
                pass
        return [('n', s) for s in normal] + rest

    # -------------------------------------------------------------- calls
    def lookup(self, tu, declid):
        return tu.mangled.get(declid)

    def call(self, mangled, st, this, args, node):
        fnode = self.prog.funcs.get(mangled)
        if fnode is None:
            raise Unsupported('no definition of %s' % mangled)
        q = fnode['_q']
        params = [c for c in fnode.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
        con = self.contracts.get((q, len(params))) or self.contracts.get(q)
        if con is not None:
            self.used_contracts.add(q)
            sv = LOG.where
            try:
                return con(self, st, this, args)
            finally:
                LOG.where = sv
        self.inlined.add(q)
        return self.inline(fnode, st, this, args)

    def inline(self, fnode, st, this, args):
        self.depth += 1
        self.curfn.append(fnode['_q'])
        if self.depth > 25:
            raise Unsupported('recursion')
        sv_env, sv_this, sv_ret, sv_where = st.env, st.this, st.ret, LOG.where
        try:
            outs = self.run_body(fnode, st, this, args)
            base = st.pc
            if len(outs) == 1:
                res = outs[0]
            else:
                res = self.merge(list(outs), self._common(outs))
            ret = res.ret
            if res is not st:
                self.adopt(st, res)
            st.env, st.this, st.ret = sv_env, sv_this, sv_ret
            return ret
        finally:
            self.depth -= 1
            self.curfn.pop()
            LOG.where = sv_where

    def _common(self, states):
        ids = set(states[0].pc.ids)
        for s in states[1:]:
            ids &= s.pc.ids
        return intern_ctx(tuple(f for f in states[0].pc.fs if f.id in ids))

    def adopt(self, st, res):
        for k in State.__slots__:
            setattr(st, k, getattr(res, k))
        if st is not res:
            # ownership of cells moved with the token
            pass

    def run_body(self, fnode, st, this, args):
        """execute a function definition from st; list of final states"""
        st.env = {}
        st.this = this
        st.ret = None
        params = [c for c in fnode.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
        tu = fnode['_tu']
        for p, a in zip(params, args):
            t = ntype(p)
            self.bind(st, p, t, a)
        body = [c for c in fnode['inner'] if c.get('kind') == 'CompoundStmt'][0]
        LOG.where = '%s' % fnode['_q']
        outs = [('n', st)]
        for c in fnode['inner']:
            if c.get('kind') == 'CXXCtorInitializer':
                for _, s in outs:
                    self.ctor_init(s, c, tu)
        f = self.stmt(body, tu)
        res = []
        for _, s in outs:
            res += f(s)
        fin = []
        for k, s in res:
            if k in ('b', 'c'):
                raise Unsupported('stray break')
            fin.append(s)
        for s in fin:
            for p in params:
                lv = s.env.get(p['id'])
                if isinstance(lv, CellLV) and ntype(p)[0] != 'ref' and lv.o in s.mem:
                    del s.mem[lv.o]
        return fin

    def ctor_init(self, st, c, tu):
        ai = c.get('anyInit')
        inner = c.get('inner', ())
        if not ai or not inner:
            return
        t = ptype(ai['type'].get('desugaredQualType') or ai['type']['qualType'])
        e = inner[0]
        if t[0] == 'rec':
            if 'list' in t[1]:
                self.init_list(st, CellLV(st.this.lv.o, st.this.lv.p + (ai['name'],)))
            return
        LOG.where = 'micropp_t::micropp_t:%s' % c.get('_line')
        v = self.expr(e, tu)(st)
        self.write(st, CellLV(st.this.lv.o, st.this.lv.p + (ai['name'],)), v)

    def init_list(self, st, lv):
        h = getattr(self, 'list_ctor', None)
        if h:
            h(self, st, lv)

    def bind(self, st, p, t, a):
        if t[0] == 'ref':
            if not isinstance(a, (CellLV, ArrLV, RecLV)):
                # const reference to a temporary
                oid = st.new(t[1], p.get('name', 'tmp'))
                self.write_cell(st, oid, (), a)
                a = CellLV(oid, ())
            st.env[p['id']] = a
            return
        if isinstance(a, (CellLV, ArrLV, RecLV)):
            a = self.read(st, a)
        oid = st.new(t, p.get('name', 'arg'))
        self.write_cell(st, oid, (), a)
        st.env[p['id']] = CellLV(oid, ())


