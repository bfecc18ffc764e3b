"""Discharge of side conditions by z3 (linear integer/real arithmetic with non-linear
monomials opaque, or non-linear real arithmetic on request), optionally cross-checked
by cvc5 on the same SMT-LIB text."""
import time
import z3
from term import *
import term as T

STATS = {'queries': 0, 'time': 0.0, 'unknown': 0, 'cvc5_checked': 0, 'cvc5_disagree': 0}
CROSS = [False]
_zc = {}


def zatom(i, nonlin):
    a = ATOMS[i]
    key = (i, nonlin)
    r = _zc.get(key)
    if r is not None:
        return r
    if a.kind == 'ind':
        r = z3.If(zform(a.args[0], nonlin), z3.IntVal(1), z3.IntVal(0))
    elif a.sort == 'i':
        r = z3.Int('a%d' % i)
    elif a.sort == 'r':
        r = z3.Real('a%d' % i)
    else:
        r = z3.Bool('a%d' % i)
    _zc[key] = r
    return r


def zmono(m, nonlin):
    if len(m) == 1 and m[0][1] == 1:
        return zatom(m[0][0], nonlin)
    key = ('m', m, nonlin)
    r = _zc.get(key)
    if r is not None:
        return r
    inds = [a for a, e in m if ATOMS[a].kind == 'ind']
    rest = tuple((a, e) for a, e in m if ATOMS[a].kind != 'ind')
    if inds:
        body = zmono(rest, nonlin) if rest else z3.IntVal(1)
        cond = z3.And(*[zform(ATOMS[a].args[0], nonlin) for a in inds])
        zero = z3.IntVal(0) if body.sort() == z3.IntSort() else z3.RealVal(0)
        r = z3.If(cond, body, zero)
    elif nonlin:
        r = None
        for a, e in m:
            v = zatom(a, nonlin)
            if v.sort() == z3.IntSort():
                v = z3.ToReal(v)
            if e < 0:
                v = 1 / v
                e = -e
            for _ in range(e):
                r = v if r is None else r * v
    else:
        alli = all(ATOMS[a].sort == 'i' and e > 0 for a, e in m)
        nm = 'm_' + '_'.join('%d^%d' % (a, e) for a, e in m)
        r = z3.Int(nm) if alli else z3.Real(nm)
    _zc[key] = r
    return r


def zpoly(p, nonlin=False):
    key = ('p', p, nonlin)
    r = _zc.get(key)
    if r is not None:
        return r
    terms = []
    real = any(type(c) is not int for c in p.t.values())
    zs = [(zmono(m, nonlin) if m else None, c) for m, c in p.t.items()]
    for z, _ in zs:
        if z is not None and z.sort() == z3.RealSort():
            real = True
    for z, c in zs:
        if z is None:
            terms.append(z3.RealVal(str(c)) if real else z3.IntVal(c))
        else:
            if real and z.sort() == z3.IntSort():
                z = z3.ToReal(z)
            if c == 1:
                terms.append(z)
            elif real:
                terms.append(z3.RealVal(str(c)) * z)
            else:
                terms.append(z3.IntVal(c) * z)
    r = z3.Sum(terms) if len(terms) > 1 else terms[0] if terms else z3.IntVal(0)
    _zc[key] = r
    return r


def zform(f, nonlin=False):
    key = ('f', f.id, nonlin)
    r = _zc.get(key)
    if r is not None:
        return r
    o = f.op
    if o == 'true':
        r = z3.BoolVal(True)
    elif o == 'false':
        r = z3.BoolVal(False)
    elif o == 'b':
        r = zatom(f.args[0].id, nonlin)
    elif o == 'not':
        r = z3.Not(zform(f.args[0], nonlin))
    elif o == 'and':
        r = z3.And(*[zform(x, nonlin) for x in f.args])
    elif o == 'or':
        r = z3.Or(*[zform(x, nonlin) for x in f.args])
    else:
        z = zpoly(f.args[0], nonlin)
        zero = z3.RealVal(0) if z.sort() == z3.RealSort() else z3.IntVal(0)
        r = z < zero if o == 'lt' else z <= zero if o == 'le' else z == zero
    _zc[key] = r
    return r


_cache = {}
RANGE = {}      # precondition of the unit: function name -> (lo, hi), lo <= f(..) < hi


def check_sat(fs, nonlin=False, timeout=4000, model=None):
    """'sat' / 'unsat' / 'unknown' of the conjunction"""
    g = And(*fs)
    if g.op == 'false':
        return 'unsat'
    if g.op == 'true' and model is None:
        return 'sat'
    key = (g.id, nonlin)
    if model is None and key in _cache:
        return _cache[key]
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', timeout)
    for x in (g.args if g.op == 'and' else (g,)):
        s.add(zform(x, nonlin))
    if RANGE:
        for i in term_fv(g):
            a = ATOMS[i]
            if a.kind == 'fn' and a.args[0] in RANGE:
                lo, hi = RANGE[a.args[0]]
                s.add(zform(And(le(lo, P(a)), lt(P(a), hi) if hi is not None else TRUE), nonlin))
    r = str(s.check())
    STATS['queries'] += 1
    STATS['time'] += time.time() - t0
    if r == 'unknown':
        STATS['unknown'] += 1
    if CROSS[0] and r == 'unsat':
        cross(s)
    if model is not None and r == 'sat':
        m = s.model()
        for d in m.decls():
            nm = d.name()
            if nm.startswith('a') and nm[1:].isdigit():
                model[int(nm[1:])] = m[d]
    _cache[key] = r
    return r


MAXACK = 400


def congruence(fs):
    """instances of functional consistency for the array reads and uninterpreted functions in fs"""
    groups = {}
    todo, seen = list(fs), set()
    while todo:
        f = todo.pop()
        for i in term_fv(f):
            if i in seen:
                continue
            seen.add(i)
            a = ATOMS[i]
            if a.kind == 'sel':
                groups.setdefault(('sel', id(a.args[0]), a.args[1]), []).append((a, a.args[2]))
                todo.extend(a.args[2])
            elif a.kind == 'fn':
                xs = [x for x in a.args[1:]]
                if all(isinstance(x, Poly) for x in xs):
                    groups.setdefault(('fn', a.args[0], len(xs)), []).append((a, xs))
                    todo.extend(xs)
            elif a.kind == 'ind':
                todo.append(a.args[0])
    out = []
    for g in groups.values():
        for x in range(len(g)):
            for y in range(x):
                if len(out) >= MAXACK:
                    return out
                a, b = g[x], g[y]
                same = And(*[eq(p, q) for p, q in zip(a[1], b[1])])
                if same.op == 'false':
                    continue
                e = Iff(batom(a[0]), batom(b[0])) if a[0].sort == 'b' else eq(P(a[0]), P(b[0]))
                out.append(Or(Not(same), e))
    return out


def hard_atoms(fs):
    """square roots, absolute values and reciprocals occurring in fs, with the arguments of each"""
    out, todo = {}, list(fs)
    while todo:
        f = todo.pop()
        for i in term_fv(f):
            a = ATOMS[i]
            if a.kind in ('sqrt', 'abs', 'inv', 'ind') and i not in out:
                out[i] = a
                todo.append(a.args[0])
    return [a for a in out.values() if a.kind != 'ind']


def real_sat(fs, timeout=4000):
    """satisfiability over the reals with products, roots, absolute values and reciprocals interpreted"""
    g = And(*fs)
    key = (g.id, 'real')
    if key in _cache:
        return _cache[key]
    s = z3.Solver()
    s.set('timeout', timeout)
    t0 = time.time()
    for x in (g.args if g.op == 'and' else (g,)):
        s.add(zform(x, True))
    for a in hard_atoms([g]):
        z, x = zatom(a.id, True), zpoly(a.args[0], True)
        if a.kind == 'sqrt':
            s.add(z >= 0, z * z == x)
        elif a.kind == 'abs':
            s.add(z >= 0, z3.Or(z == x, z == -x))
        else:
            s.add(z * x == 1)
    for a, p in T.SQUARE_RULES.items():
        z = zatom(a, True)
        s.add(z * z == zpoly(p, True))
    if RANGE:
        for i in term_fv(g):
            a = ATOMS[i]
            if a.kind == 'fn' and a.args[0] in RANGE:
                lo, hi = RANGE[a.args[0]]
                s.add(zform(And(le(lo, P(a)), lt(P(a), hi) if hi is not None else TRUE), True))
    r = str(s.check())
    STATS['queries'] += 1
    STATS['time'] += time.time() - t0
    if CROSS[0] and r == 'unsat':
        cross(s)
    _cache[key] = r
    return r


def cross(s):
    """cross-check an unsat answer with cvc5"""
    try:
        import cvc5
        tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
        sol = cvc5.Solver(tm) if tm else cvc5.Solver()
        sol.setOption('tlimit-per', '4000')
        p = cvc5.InputParser(sol)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + s.to_smt2(), 'q')
        sm = p.getSymbolManager()
        res = ''
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            res += str(c.invoke(sol, sm))
        STATS['cvc5_checked'] += 1
        if 'unsat' not in res and 'sat' in res:
            STATS['cvc5_disagree'] += 1
    except Exception as e:       # cross-check only; never decides
        STATS['cvc5_error'] = repr(e)[:200]


class Ctx(object):
    """a set of assumptions (path condition) with cached decisions"""
    __slots__ = ('fs', 'ids', 'dec', 'parent')

    def __init__(self, fs=(), parent=None):
        self.fs = tuple(fs)
        self.ids = frozenset(f.id for f in self.fs)
        self.dec = {}

    def extend(self, *gs):
        out = list(self.fs)
        ids = set(self.ids)
        for g in gs:
            for x in (g.args if g.op == 'and' else (g,)):
                if x.op != 'true' and x.id not in ids:
                    ids.add(x.id)
                    out.append(x)
        return intern_ctx(tuple(out))

    def decide(self, f):
        """True / False / None"""
        if f.op == 'true':
            return True
        if f.op == 'false':
            return False
        r = self.dec.get(f.id, 0)
        if r != 0:
            return r
        n = Not(f)
        if f.id in self.ids:
            r = True
        elif n.id in self.ids:
            r = False
        elif f.op == 'and':
            r = True
            for x in f.args:
                d = self.decide(x)
                if d is False:
                    r = False
                    break
                if d is None:
                    r = None
            if r is None and check_sat(self.relevant(f) + (f,)) == 'unsat':
                r = False
        elif f.op == 'or':
            r = False
            for x in f.args:
                d = self.decide(x)
                if d is True:
                    r = True
                    break
                if d is None:
                    r = None
            if r is None and check_sat(self.relevant(f) + (n,)) == 'unsat':
                r = True
        else:
            rel = self.relevant(f)
            if check_sat(rel + (n,)) == 'unsat':
                r = True
            elif check_sat(rel + (f,)) == 'unsat':
                r = False
            else:
                r = None
        self.dec[f.id] = r
        self.dec[n.id] = None if r is None else not r
        return r

    def relevant(self, f):
        """assumptions connected to f through shared leaf atoms"""
        want = set(leafs(f))
        left = [(g, leafs(g)) for g in self.fs]
        out = []
        ch = True
        while ch:
            ch = False
            rest = []
            for g, l in left:
                if l & want:
                    out.append(g)
                    want |= l
                    ch = True
                else:
                    rest.append((g, l))
            left = rest
        out.sort(key=lambda g: g.id)
        return tuple(out)

    def consistent(self):
        return check_sat(self.fs) != 'unsat'


_leafs = {}


def leafs(f):
    r = _leafs.get(f.id)
    if r is None:
        s = set()

        def go(x):
            if isinstance(x, Formula):
                if x.op == 'b':
                    s.add(x.args[0].id)
                else:
                    for y in x.args:
                        go(y)
            else:
                for m in x.t:
                    for a, e in m:
                        if ATOMS[a].kind == 'ind':
                            go(ATOMS[a].args[0])
                        else:
                            s.add(a)
        go(f)
        r = _leafs[f.id] = frozenset(s)
    return r


_ctxs = {}


def intern_ctx(fs):
    key = tuple(sorted(f.id for f in fs))
    c = _ctxs.get(key)
    if c is None:
        c = _ctxs[key] = Ctx(fs)
    return c
