"""Verification of a function body against its contract, and comparison of states."""
import time
from term import *
import term as T
from mem import *
from smt import check_sat, intern_ctx, STATS, congruence
from vals import *
from ex import Executor, havocked

MAXFORK = 4000


class Budget(Exception):
    pass


def prove_equal(ex, ctx, a, b, kind, desc, depth=0, budget=None):
    """a == b under ctx, splitting cases on undecided conditions.  Returns None or a failure dict"""
    if budget is None:
        budget = [MAXFORK]
    if isinstance(a, Poly) and isinstance(b, Poly) and a == b:
        return None
    if a is b:
        return None
    budget[0] -= 1
    if budget[0] < 0:
        return {'desc': desc + ': case split too large', 'refuted': False}
    try:
        x = deep(a, ctx, 'fork')
        y = deep(b, ctx, 'fork')
    except Fork as f:
        for g in (f.f, Not(f.f)):
            c2 = ctx.extend(g)
            if not c2.consistent():
                continue
            r = prove_equal(ex, c2, a, b, kind, desc, depth + 1, budget)
            if r is not None:
                return r
        return None
    if isinstance(x, Formula) or isinstance(y, Formula):
        x, y = conv(x, 'b'), conv(y, 'b')
        d = Iff(x, y)
        if ctx.decide(d) is True:
            return None
        bad = Not(d)
    else:
        if poly_equal(x, y):
            return None
        sg = equalities(ctx)
        if sg:
            x2, y2 = subst(x, sg), subst(y, sg)
            if poly_equal(x2, y2):
                return None
            if x2 != x or y2 != y:
                # indices may now coincide: resolve again
                try:
                    x2, y2 = deep(x2, ctx, 'fork'), deep(y2, ctx, 'fork')
                    if poly_equal(x2, y2):
                        return None
                except Fork:
                    pass
        # integers: equal under the path condition?
        if T.is_int_poly(x - y) and ctx.decide(eq(x, y)) is True:
            return None
        # equalities assumed on the path may identify the two
        e = eq(x, y)
        if ctx.decide(e) is True:
            return None
        bad = Not(e)
    fv = term_fv(x) | term_fv(y)
    for f in ctx.fs:
        fv = fv | term_fv(f)
    con = congruence(list(ctx.fs) + [bad])
    if con and check_sat(list(ctx.fs) + [bad] + con) == 'unsat':
        return None
    if smt_real(ctx, bad):
        return None
    hav = any(havocked(ATOMS[i]) for i in term_fv(x) | term_fv(y))
    m = ex.counterexample(ctx, bad)
    return {'desc': '%s: %s  !=  %s' % (desc, short(x), short(y)), 'refuted': m is not None and not hav, 'model': m}


def smt_real(ctx, bad):
    """the obligation holds by non-linear real arithmetic"""
    from smt import real_sat, hard_atoms
    fs = list(ctx.relevant(bad)) + [bad]
    if not any(len(m) > 1 or m and m[0][1] != 1 for f in fs for p in fpolys(f) for m in p.t) and not hard_atoms(fs):
        return False
    return real_sat(fs) == 'unsat'


def fpolys(f):
    if f.op in ('lt', 'le', 'eq'):
        return [f.args[0]]
    if f.op in ('not', 'and', 'or'):
        return [p for x in f.args for p in fpolys(x)]
    return []


def equalities(ctx):
    """substitution solving the integer equalities implied by the assumptions"""
    r = _eqs.get(ctx)
    if r is not None:
        return r
    sg = {}
    cand = []
    for f in ctx.fs:
        if f.op == 'eq':
            cand.append(f.args[0])
        elif f.op == 'le' and T.is_int_poly(f.args[0]):
            cand.append(f.args[0])
    for p in cand:
        if any(len(m) > 1 or (m and m[0][1] != 1) for m in p.t):
            if not any(f.op == 'eq' and f.args[0] is p for f in ctx.fs):
                continue
        if ctx.decide(_cmp(p)) is not True:
            continue
        q = subst(p, sg)
        for m, k in sorted(q.t.items(), key=lambda mk: -max([a for a, _ in mk[0]] or [0])):
            if len(m) == 1 and m[0][1] == 1 and k in (1, -1):
                a = m[0][0]
                if ATOMS[a].kind not in ('sym', 'sel', 'fn', 'bv'):
                    continue
                rest = q - Poly({m: k})
                if a in rest.fv():
                    continue
                v = rest * (-k)
                sg = {x: subst(y, {a: v}) for x, y in sg.items()}
                sg[a] = v
                break
    _eqs[ctx] = sg
    return sg


_eqs = {}


def _cmp(p):
    return eq(p, 0)


def short(x):
    s = repr(x)
    return s if len(s) < 400 else s[:400] + '...'


def same(ex, ctx, a, b, kind, desc):
    """compare two values of any kind; logs the obligation"""
    if isinstance(a, (Poly, Formula)) or isinstance(b, (Poly, Formula)):
        if not isinstance(a, (Poly, Formula)) or not isinstance(b, (Poly, Formula)):
            LOG.fail(kind, '%s: %r vs %r' % (desc, a, b), False)
            return False
        if isinstance(a, Formula) != isinstance(b, Formula):
            a, b = conv(a, 'i'), conv(b, 'i')
        r = prove_equal(ex, ctx, a, b, kind, desc)
        if r is None:
            LOG.ok(kind)
            return True
        LOG.fail(kind, r['desc'], r['refuted'], r.get('model'))
        return False
    if same_val(a, b):
        LOG.ok(kind)
        return True
    if isinstance(a, Rec) and isinstance(b, Rec) and set(a.d) == set(b.d):
        return all([same(ex, ctx, a.d[p], b.d[p], kind, desc + ''.join('.%s' % (c,) for c in p)) for p in sorted(a.d, key=repr)])
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if (a.lv is None) == (b.lv is None) and (a.lv is None or lv_equal(ctx, a.lv, b.lv)):
            if ctx.decide(Iff(a.null, b.null)) is True:
                LOG.ok(kind)
                return True
    if isinstance(a, ItVal) and isinstance(b, ItVal) and a.o == b.o:
        return same(ex, ctx, a.pos, b.pos, kind, desc)
    LOG.fail(kind, '%s: %r vs %r' % (desc, a, b), False)
    return False


def lv_equal(ctx, a, b):
    if same_lv(a, b):
        return True
    if isinstance(a, ArrLV) and isinstance(b, ArrLV) and a.o == b.o and a.pre == b.pre:
        return ctx.decide(eq(a.off, b.off)) is True
    return False


def generic_coords(arr):
    co, rng = [], []
    for n, g in enumerate(arr.grid):
        c = sym('%s.%d' % (arr.name, n), 'i')
        co.append(c)
        rng.append(And(le(0, c), lt(c, g)))
    return tuple(co), rng


def compare_arrays(ex, ctx, A, B, kind, desc, slots=None, extra=()):
    """A, B: Arr with the same base, compared at generic coordinates"""
    co, rng = generic_coords(A)
    cx = ctx.extend(*rng).extend(*extra)
    ok = True
    nfail = 0
    for s in sorted(set(A.heads) | set(B.heads)) if slots is None else slots:
        ha, hb = A.head(s), B.head(s)
        if ha is hb:
            continue
        va = mk_sel(ha, s, co, A.sort)
        vb = mk_sel(hb, s, co, B.sort)
        if not same(ex, cx, va, vb, kind, '%s[%s slot %d]' % (desc, ','.join(map(repr, co)), s)):
            ok = False
            nfail += 1
            if nfail >= 3:
                break
    return ok


def compare_states(ex, pre, got, want, kind='post', skip=(), ghost=False):
    """every cell and array slot of the objects of `pre` agrees in got and want"""
    ctx = got.pc.extend(*[f for f in want.pc.fs if f.id not in got.pc.ids])
    if not ctx.consistent():
        return True
    ok = True
    for oid, o in pre.mem.items():
        a, b = got.mem.get(oid), want.mem.get(oid)
        if a is None or b is None or oid in skip:
            continue
        if isinstance(o, Arr):
            if (a.alive is True) != (b.alive is True):
                LOG.fail(kind, '%s released' % o.name, True)
                ok = False
                continue
            if a.base is not b.base:
                LOG.fail(kind, '%s replaced' % o.name, False)
                ok = False
                continue
            ok &= compare_arrays(ex, ctx, a, b, kind, o.name)
        elif isinstance(o, RList):
            ok &= same(ex, ctx, a.size, b.size, kind, o.name + '.size')
        else:
            if a is b:
                continue
            for p in sorted(set(a.cells) | set(b.cells), key=repr):
                va, vb = a.cells.get(p), b.cells.get(p)
                if va is vb:
                    continue
                if va is None or vb is None:
                    v0 = o.cells.get(p)
                    if v0 is None and (isinstance(va, Opaque) or isinstance(vb, Opaque)):
                        continue
                    if va is None:
                        va = ex.read_leaf(got, a, oid, p)
                    if vb is None:
                        vb = ex.read_leaf(want, b, oid, p)
                ok &= same(ex, ctx, va, vb, kind, o.name + ''.join('.%s' % (c,) for c in p))
    if ghost:
        for g in set(got.ghost) | set(want.ghost):
            va, vb = got.ghost.get(g), want.ghost.get(g)
            if va is None or vb is None or not same_val(va, vb):
                ok &= same(ex, ctx, va, vb, kind, 'ghost ' + str(g))
    return ok


def compare_ret(ex, got, want, r1, r2):
    ctx = got.pc.extend(*[f for f in want.pc.fs if f.id not in got.pc.ids])
    if not ctx.consistent():
        return True
    if r1 is None and r2 is None:
        return True
    return same(ex, ctx, r1, r2, 'post', 'return value')


def find_fn(prog, q, npar=None):
    out = []
    for m in prog.byname.get(q, ()):
        f = prog.funcs[m]
        params = [c for c in f.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
        if npar is None or len(params) == npar:
            out.append((m, f))
    if len(out) != 1:
        raise Unsupported('%d definitions of %s' % (len(out), q))
    return out[0]


def run(ex, q, st, this, args, npar=None):
    """all final states of the body of q started in st"""
    m, f = find_fn(ex.prog, q, npar if npar is not None else len(args))
    ex.curfn.append(f['_q'])
    try:
        outs = ex.run_body(f, st, this, args)
        return [s for s in outs if s.pc.consistent()]
    finally:
        ex.curfn.pop()
