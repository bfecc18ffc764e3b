"""Terms of the verifier: exact Laurent polynomials over interned atoms, and formulas.

Numbers are exact rationals (doubles of the source are read as mathematical reals).
A polynomial is a map  monomial -> rational ; a monomial is a sorted tuple of
(atom id, exponent).  Conditionals are 0/1 indicator atoms  [formula]  with
[f]^2 = [f], so that ite(c,a,b) = [c]*a + (1-[c])*b and the ring normal form decides
equality of conditional expressions, too.
"""
from fractions import Fraction
import math

ATOMS = []          # id -> Atom
_INTERN = {}


class Atom(object):
    __slots__ = ('kind', 'args', 'sort', 'id', 'extra', 'fv')

    def __repr__(self):
        return show_atom(self)


def mk_atom(kind, args, sort, extra=None):
    key = (kind, args, sort)
    a = _INTERN.get(key)
    if a is not None:
        return a
    a = Atom()
    a.kind, a.args, a.sort, a.extra, a.fv = kind, args, sort, extra, None
    a.id = len(ATOMS)
    ATOMS.append(a)
    _INTERN[key] = a
    return a


_fresh = [0]


def fresh_name(base):
    _fresh[0] += 1
    return '%s#%d' % (base, _fresh[0])


# rewrite rules  atom^2 -> poly  (used for norms), per process, set by a proof case
SQUARE_RULES = {}
NONNEG = set()      # atom ids known to be >= 0


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class Poly(object):
    __slots__ = ('t', '_h', '_fv')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._fv = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return show(self)

    # -- arithmetic
    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        if not self.t:
            return o
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v == 0:
                    del r[m]
                else:
                    r[m] = _norm(v)
        return Poly(r)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t:
            return ZERO
        if len(o.t) == 1 and () in o.t:
            c = o.t[()]
            if c == 1:
                return self
            return Poly({m: _norm(k * c) for m, k in self.t.items()})
        if len(self.t) == 1 and () in self.t:
            return o * self
        r = {}
        extra = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mul_mono(m1, m2)
                c = c1 * c2
                if type(m) is tuple:
                    v = r.get(m)
                    if v is None:
                        r[m] = _norm(c)
                    else:
                        v = v + c
                        if v == 0:
                            del r[m]
                        else:
                            r[m] = _norm(v)
                else:               # rewriting produced a polynomial
                    extra = m * c if extra is None else extra + m * c
        p = Poly({m: c for m, c in r.items() if c != 0})
        return p if extra is None else p + extra
    __rmul__ = __mul__

    def __pow__(self, n):
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def __truediv__(self, o):
        return div(self, P(o))

    def __rtruediv__(self, o):
        return div(P(o), self)

    # -- queries
    def const(self):
        """rational value or None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def fv(self):
        """ids of all atoms at any depth"""
        if self._fv is None:
            s = set()
            for m in self.t:
                for a, _ in m:
                    s |= atom_fv(a)
            self._fv = frozenset(s)
        return self._fv


def mul_mono(m1, m2):
    """product of monomials; a tuple, or a Poly when a rewrite rule fires"""
    if not m1:
        return m2
    if not m2:
        return m1
    d = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    rew = False
    while i < n1 and j < n2:
        a, e = m1[i]
        b, f = m2[j]
        if a == b:
            g = e + f
            i += 1
            j += 1
            if g == 0:
                continue
            k = ATOMS[a].kind
            if k == 'ind':
                g = 1
            elif (k == 'sqrt' or a in SQUARE_RULES) and (g > 1 or g < -1):
                rew = True
            d.append((a, g))
        elif a < b:
            d.append((a, e))
            i += 1
        else:
            d.append((b, f))
            j += 1
    d.extend(m1[i:])
    d.extend(m2[j:])
    if not rew:
        return tuple(d)
    out = ONE
    keep = []
    for a, g in d:
        if g > 1 and ATOMS[a].kind == 'sqrt':
            h, g2 = divmod(g, 2)
            out = out * (ATOMS[a].args[0] ** h)
            if g2:
                keep.append((a, 1))
        elif g < -1 and ATOMS[a].kind == 'sqrt':
            h = (-g) // 2
            out = out * (recip(ATOMS[a].args[0]) ** h)
            if (-g) % 2:
                keep.append((a, -1))
        elif g > 1 and a in SQUARE_RULES:
            h, g2 = divmod(g, 2)
            out = out * (SQUARE_RULES[a] ** h)
            if g2:
                keep.append((a, 1))
        else:
            keep.append((a, g))
    return Poly({tuple(keep): 1}) * out


ZERO = Poly({})
ONE = Poly({(): 1})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({((x.id, 1),): 1})
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return Poly({(): _norm(x)}) if x != 0 else ZERO
    if isinstance(x, Formula):
        return ind(x)
    raise TypeError(repr(x))


def num(x):
    """exact rational of a C++ literal"""
    if isinstance(x, float):
        return Fraction(repr(x))
    return x


def sym(name, sort='i'):
    return P(mk_atom('sym', (name,), sort))


def fresh(base, sort='i'):
    return sym(fresh_name(base), sort)


def fn(name, args, sort='r'):
    return P(mk_atom('fn', (name,) + tuple(args), sort))


def fnb(name, args):
    return batom(mk_atom('fn', (name,) + tuple(args), 'b'))


# ------------------------------------------------------------------ division
def content(p):
    """(c, monomial) such that p = c * monomial * primitive"""
    ms = list(p.t.items())
    lead = max(ms, key=lambda mc: mc[0])
    return lead[1]


def recip(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if any(ATOMS[a].kind == 'ind' for a, _ in m):
            return P(mk_atom('inv', (p,), 'r'))
        return Poly({tuple((a, -e) for a, e in m): _norm(Fraction(1) / c)})
    if not p.t:
        return P(mk_atom('fn', ('div0',), 'r'))
    c = content(p)
    q = Poly({m: _norm(Fraction(k) / c) for m, k in p.t.items()})
    # pull out common monomial factor
    common = None
    for m in q.t:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d}
        if not common:
            break
    common = {a: e for a, e in (common or {}).items() if e > 0 and ATOMS[a].kind != 'ind'}
    if common:
        cm = tuple(sorted((a, -e) for a, e in common.items()))
        q = Poly({mul_mono(m, cm): k for m, k in q.t.items()})
        return Poly({mul_mono(((mk_atom('inv', (q,), 'r').id, 1),), cm): _norm(Fraction(1) / c)})
    return Poly({((mk_atom('inv', (q,), 'r').id, 1),): _norm(Fraction(1) / c)})


def div(a, b):
    c = b.const()
    if c is not None and c != 0:
        return Poly({m: _norm(Fraction(k) / c) for m, k in a.t.items()})
    if a == b and a.t:
        return ONE
    return a * recip(b)


def clear_inv(p, limit=200000):
    """multiply p by the denominators of all inv atoms and negative powers.
    p == 0 iff the result == 0 (denominators non-zero)."""
    for _ in range(60):
        # negative powers
        neg = {}
        for m in p.t:
            for a, e in m:
                if e < 0:
                    neg[a] = min(neg.get(a, 0), e)
        if neg:
            f = Poly({tuple(sorted((a, -e) for a, e in neg.items())): 1})
            # multiply monomialwise without cancelling order problems
            p = p * f
        target = None
        for m in p.t:
            for a, e in m:
                if ATOMS[a].kind == 'inv':
                    target = a
                    break
            if target is not None:
                break
        if target is None:
            if not any(e < 0 for m in p.t for _, e in m):
                return p
            continue
        k = max(e for m in p.t for a, e in m if a == target)
        d = ATOMS[target].args[0]
        powers = [ONE]
        for _i in range(k):
            powers.append(powers[-1] * d)
        out = ZERO
        byexp = {}
        for m, c in p.t.items():
            e = 0
            rest = []
            for a, x in m:
                if a == target:
                    e = x
                else:
                    rest.append((a, x))
            byexp.setdefault(e, {})
            mm = tuple(rest)
            byexp[e][mm] = byexp[e].get(mm, 0) + c
        for e, t in byexp.items():
            out = out + Poly({m: _norm(c) for m, c in t.items() if c != 0}) * powers[k - e]
            if len(out.t) > limit:
                raise Unsupported('denominator expansion too large')
        p = out
    raise Unsupported('denominator elimination did not end')


class Unsupported(Exception):
    pass


class Undecodable(Unsupported):
    """an index of no recognised shape"""


def maxcoef(p):
    return max((abs(c) for c in p.t.values()), default=0)


TOL = Fraction(1, 10 ** 9)
TOL0 = Fraction(1, 10 ** 4)     # a coefficient absent on one side: below 1e-13 of the largest


def _two(x, y):
    return max(abs(x), abs(y)) if x and y else 0


def poly_zero(p, scale=None):
    """ring zero test, coefficients compared with relative tolerance 1e-9"""
    if not p.t:
        return True
    if scale is not None and all(abs(c) <= scale * TOL for c in p.t.values()):
        return True
    return False


def poly_equal(a, b):
    d = a - b
    if not d.t:
        return True
    s = max(maxcoef(a), maxcoef(b))
    # tolerance is per coefficient size of its own monomial class where possible
    if all(abs(c) <= TOL * max(_two(a.t.get(m, 0), b.t.get(m, 0)), s * TOL0) for m, c in d.t.items()):
        return True
    if any(e < 0 or ATOMS[x].kind in ('inv', 'sqrt') for m in d.t for x, e in m):
        try:
            # clear denominators of both sides together
            m1 = P(mk_atom('sym', ('$lhs',), 'r'))
            both = clear_inv(a * m1 - b * m1 * P(mk_atom('sym', ('$rhs',), 'r')))
        except Unsupported:
            return False
        la = mk_atom('sym', ('$lhs',), 'r').id
        ra = mk_atom('sym', ('$rhs',), 'r').id
        A, B = {}, {}
        for m, c in both.t.items():
            mm = tuple((x, e) for x, e in m if x not in (la, ra))
            if any(x == ra for x, _ in m):
                B[mm] = B.get(mm, 0) - c
            else:
                A[mm] = A.get(mm, 0) + c
        keys = set(A) | set(B)
        s = max([abs(v) for v in A.values()] + [abs(v) for v in B.values()] + [0])
        ok = True
        for k in keys:
            x, y = A.get(k, 0), B.get(k, 0)
            if x != y and abs(x - y) > TOL * max(_two(x, y), s * TOL0):
                ok = False
                break
        return ok
    return False


# ------------------------------------------------------------------ functions
def sqrt(p):
    c = p.const()
    if c is not None:
        if c == 0:
            return ZERO
        if c > 0:
            c = Fraction(c)
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return P(Fraction(n, d))
    if len(p.t) == 1:
        (m, k), = p.t.items()
        if k > 0 and m and all(e % 2 == 0 and a in NONNEG for a, e in m):
            return sqrt(P(k)) * Poly({tuple((a, e // 2) for a, e in m): 1})
    return P(mk_atom('sqrt', (p,), 'r'))


def absval(p):
    c = p.const()
    if c is not None:
        return P(abs(c))
    if len(p.t) == 1:
        (m, k), = p.t.items()
        if all(a in NONNEG for a, e in m):
            return Poly({m: abs(k)})
    # canonical sign
    lead = max(p.t.items(), key=lambda mc: mc[0])[1]
    if lead < 0:
        p = -p
    return P(mk_atom('abs', (p,), 'r'))


# ------------------------------------------------------------------ formulas
class Formula(object):
    __slots__ = ('op', 'args', 'id', '_fv')

    def __repr__(self):
        return showf(self)


_FI = {}


def _mkf(op, args):
    key = (op, args)
    f = _FI.get(key)
    if f is None:
        f = Formula()
        f.op, f.args, f.id, f._fv = op, args, len(_FI), None
        _FI[key] = f
    return f


TRUE = _mkf('true', ())
FALSE = _mkf('false', ())


def is_int_poly(p):
    return all(type(c) is int for c in p.t.values()) and \
        all(ATOMS[a].sort == 'i' and e > 0 for m in p.t for a, e in m)


def _cmp0(op, p):
    """op in lt, le, eq : p op 0"""
    c = p.const()
    if c is not None:
        return TRUE if (c < 0 if op == 'lt' else c <= 0 if op == 'le' else c == 0) else FALSE
    tops = p.atoms()
    if len(tops) <= 4 and all(ATOMS[a].kind == 'ind' for a in tops):
        tops = sorted(tops)
        out = []
        for bits in range(1 << len(tops)):
            on = {a for n, a in enumerate(tops) if bits >> n & 1}
            v = sum(k for m, k in p.t.items() if all(a in on for a, _ in m))
            if v < 0 if op == 'lt' else v <= 0 if op == 'le' else v == 0:
                out.append(And(*[ATOMS[a].args[0] if a in on else Not(ATOMS[a].args[0]) for a in tops]))
        return Or(*out)
    if is_int_poly(p):
        g = 0
        for m, k in p.t.items():
            if m:
                g = math.gcd(g, k)
        k0 = p.t.get((), 0)
        if op == 'lt':
            op, k0 = 'le', k0 + 1
        if op == 'eq':
            if k0 % g:
                return FALSE
            q = {m: k // g for m, k in p.t.items()}
            if max(q.items(), key=lambda mc: mc[0])[1] < 0:
                q = {m: -k for m, k in q.items()}
            return _mkf('eq', (Poly(q),))
        # le: sum + k0 <= 0  ->  sum/g + ceil(k0/g) <= 0
        q = {m: k // g for m, k in p.t.items() if m}
        k0 = -((-k0) // g)
        if k0:
            q[()] = k0
        return _mkf('le', (Poly(q),))
    # real: scale by the leading coefficient magnitude
    lead = max(((m, c) for m, c in p.t.items() if m), key=lambda mc: mc[0])[1]
    if op == 'eq':
        q = Poly({m: _norm(Fraction(k) / lead) for m, k in p.t.items()})
    else:
        q = Poly({m: _norm(Fraction(k) / abs(lead)) for m, k in p.t.items()})
    return _mkf(op, (q,))


def lt(a, b):
    return _cmp0('lt', P(a) - P(b))


def le(a, b):
    return _cmp0('le', P(a) - P(b))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    return _cmp0('eq', P(a) - P(b))


def ne(a, b):
    return Not(eq(a, b))


def batom(a):
    return _mkf('b', (a,))


def bsym(name):
    return batom(mk_atom('sym', (name,), 'b'))


_NOT = {}


def Not(f):
    r = _NOT.get(f.id)
    if r is None:
        r = _NOT[f.id] = _not(f)
        _NOT.setdefault(r.id, f)
    return r


def _not(f):
    o = f.op
    if o == 'true':
        return FALSE
    if o == 'false':
        return TRUE
    if o == 'not':
        return f.args[0]
    if o == 'le':
        return _cmp0('lt', -f.args[0])
    if o == 'lt':
        return _cmp0('le', -f.args[0])
    if o == 'and':
        return Or(*[Not(x) for x in f.args])
    if o == 'or':
        return And(*[Not(x) for x in f.args])
    return _mkf('not', (f,))


def And(*fs):
    s = {}
    for f in fs:
        if f.op == 'false':
            return FALSE
        if f.op == 'true':
            continue
        if f.op == 'and':
            for x in f.args:
                s[x.id] = x
        else:
            s[f.id] = f
    for x in list(s.values()):
        if Not(x).id in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s.values()))
    return _mkf('and', tuple(s[k] for k in sorted(s)))


def Or(*fs):
    s = {}
    for f in fs:
        if f.op == 'true':
            return TRUE
        if f.op == 'false':
            continue
        if f.op == 'or':
            for x in f.args:
                s[x.id] = x
        else:
            s[f.id] = f
    for x in list(s.values()):
        if Not(x).id in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s.values()))
    # absorption: x or (x and y) = x ; x or (not x and y) = x or y
    if len(s) <= 8:
        changed = False
        vals = list(s.values())
        for y in vals:
            if y.op == 'and':
                ids = {z.id for z in y.args}
                for x in vals:
                    if x is y:
                        continue
                    xs = {z.id for z in x.args} if x.op == 'and' else {x.id}
                    if xs <= ids:
                        s.pop(y.id, None)
                        changed = True
                        break
                    n = Not(x)
                    if x.op != 'and' and n.id in ids:
                        s.pop(y.id, None)
                        z = And(*[w for w in y.args if w.id != n.id])
                        s[z.id] = z
                        changed = True
                        break
                if changed:
                    break
        if changed:
            return Or(*s.values())
        # (x and a) or (x and not a) = x
        for i in range(len(vals)):
            for j in range(i):
                a, b = vals[i], vals[j]
                sa = {z.id: z for z in (a.args if a.op == 'and' else (a,))}
                sb = {z.id: z for z in (b.args if b.op == 'and' else (b,))}
                da = [z for k, z in sa.items() if k not in sb]
                db = [z for k, z in sb.items() if k not in sa]
                if len(da) == 1 and len(db) == 1 and Not(da[0]).id == db[0].id:
                    rest = [f for f in vals if f is not a and f is not b]
                    return Or(And(*[z for k, z in sa.items() if k in sb]), *rest)
    return _mkf('or', tuple(s[k] for k in sorted(s)))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    return Or(And(a, b), And(Not(a), Not(b)))


def ind(f):
    """0/1 indicator polynomial of a formula"""
    if f.op == 'true':
        return ONE
    if f.op == 'false':
        return ZERO
    # canonical polarity: positive literal form
    n = Not(f)
    if n.id < f.id:
        return ONE - P(mk_atom('ind', (n,), 'i'))
    return P(mk_atom('ind', (f,), 'i'))


def ite(c, a, b):
    if c.op == 'true':
        return P(a)
    if c.op == 'false':
        return P(b)
    a, b = P(a), P(b)
    if a == b:
        return a
    i = ind(c)
    return b + i * (a - b)


def itef(c, a, b):
    if c.op == 'true':
        return a
    if c.op == 'false':
        return b
    if a is b:
        return a
    if a.op == 'true' or a is c:
        return Or(c, b)
    if b.op == 'true':
        return Or(Not(c), a)
    if a.op == 'false':
        return And(Not(c), b)
    if b.op == 'false' or b is c:
        return And(c, a)
    return Or(And(c, a), And(Not(c), b))


# ------------------------------------------------------------------ free atoms, substitution
def term_fv(x):
    if isinstance(x, Poly):
        return x.fv()
    if isinstance(x, Formula):
        if x._fv is None:
            s = set()
            for y in x.args:
                s |= term_fv(y)
            x._fv = frozenset(s)
        return x._fv
    if isinstance(x, Atom):
        return atom_fv(x.id)
    if isinstance(x, tuple):
        s = set()
        for y in x:
            s |= term_fv(y)
        return frozenset(s)
    return frozenset()


def atom_fv(i):
    a = ATOMS[i]
    if a.fv is None:
        s = {i}
        if a.kind != 'sym':
            for x in a.args:
                s |= term_fv(x)
        a.fv = frozenset(s)
    return a.fv


def subst(x, sg, memo=None):
    """sg: atom id -> Poly (or Formula for bool atoms). Applied at every depth."""
    if not sg:
        return x
    if memo is None:
        memo = {}
    return _subst(x, sg, memo)


def _subst(x, sg, memo):
    if isinstance(x, Poly):
        if not (x.fv() & sg.keys()):
            return x
        k = ('p', x)
        r = memo.get(k)
        if r is not None:
            return r
        r = ZERO
        plain = {}
        for m, c in x.t.items():
            keep = []
            fac = None
            for a, e in m:
                if atom_fv(a) & sg.keys():
                    v = _subst_atom(a, sg, memo)
                    if e > 0:
                        v = v ** e if e > 1 else v
                    else:
                        v = recip(v) ** (-e)
                    fac = v if fac is None else fac * v
                else:
                    keep.append((a, e))
            if fac is None:
                plain[m] = c
            else:
                r = r + Poly({tuple(keep): c}) * fac
        if plain:
            r = r + Poly(plain)
        memo[k] = r
        return r
    if isinstance(x, Formula):
        if not (term_fv(x) & sg.keys()):
            return x
        k = ('f', x.id)
        r = memo.get(k)
        if r is not None:
            return r
        o = x.op
        if o == 'b':
            a = x.args[0]
            if a.id in sg:
                v = sg[a.id]
                r = v if isinstance(v, Formula) else ne(v, 0)
            else:
                r = rebuild_bool(a, quant_args(a, sg, memo))
        elif o == 'not':
            r = Not(_subst(x.args[0], sg, memo))
        elif o == 'and':
            r = And(*[_subst(y, sg, memo) for y in x.args])
        elif o == 'or':
            r = Or(*[_subst(y, sg, memo) for y in x.args])
        else:
            r = _cmp0(o, _subst(x.args[0], sg, memo))
        memo[k] = r
        return r
    if isinstance(x, tuple):
        return tuple(_subst(y, sg, memo) for y in x)
    return x


def rebuild_bool(a, args):
    if a.kind == 'exists':
        return Exists(args[0], args[1])
    if a.kind == 'sel':
        return batom(mk_atom('sel', args, 'b'))
    return batom(mk_atom(a.kind, args, 'b', a.extra))


def rebuild(a, args):
    """atom with new args -> Poly"""
    k = a.kind
    if k == 'inv':
        return recip(args[0])
    if k == 'sqrt':
        return sqrt(args[0])
    if k == 'abs':
        return absval(args[0])
    if k == 'ind':
        return ind(args[0])
    if k == 'sum':
        return Sum(args[0], args[1])
    return P(mk_atom(k, args, a.sort, a.extra))


def _subst_atom(i, sg, memo):
    if i in sg:
        v = sg[i]
        return v if isinstance(v, Poly) else ind(v)
    k = ('a', i)
    r = memo.get(k)
    if r is not None:
        return r
    a = ATOMS[i]
    r = rebuild(a, quant_args(a, sg, memo))
    memo[k] = r
    return r


def quant_args(a, sg, memo):
    """arguments of a after substitution; bound atoms never capture a substituted value"""
    args = a.args
    if a.kind in ('sum', 'exists'):
        own = _bound(a)
        fv = atom_fv(a.id)
        if any(k in own for k in sg) or any(k in fv and term_fv(v) & own for k, v in sg.items()):
            nb, rn = _fresh_box(args[0])
            s2 = {k: v for k, v in sg.items() if k not in own}
            return (tuple((b, subst(z, s2)) for b, z in nb), subst(subst(args[1], rn), s2))
    return tuple(_subst(y, sg, memo) for y in args)


# ------------------------------------------------------------------ sums and exists over boxes
# A box is a tuple of (bound atom, size poly): each bound atom ranges over 0..size-1.
# Bound atoms are canonical 'bv' atoms named by nesting depth and size.

def _bound(a):
    return {b.id for b, _ in a.args[0]}


def _fresh_box(box):
    """box with globally fresh bound symbols, and the renaming"""
    nb = tuple((mk_atom('sym', (fresh_name('~b'),), 'i'), s) for b, s in box)
    return nb, {b.id: P(n) for (b, _), (n, _) in zip(box, nb)}


def _freshen(box, body):
    """rename the bound atoms when the body contains quantified terms (they are re-canonicalised)"""
    if any(ATOMS[i].kind in ('sum', 'exists') for i in term_fv(body)):
        nb, sg = _fresh_box(box)
        return nb, subst(body, sg)
    return box, body


def _canon_box(box, body):
    """order dimensions canonically and rename bound atoms"""
    used = term_fv(body)
    order = sorted(box, key=lambda b: (repr(b[1]),))
    own = {b.id for b, _ in box}
    sg = {}
    nb = []
    depth = 0
    bound = set()
    for i in used:
        a = ATOMS[i]
        if a.kind in ('sum', 'exists'):
            for b, _ in a.args[0]:
                bound.add(b.id)
                if b.kind == 'bv':
                    depth = max(depth, b.args[0] + 1)
    clash = {ATOMS[i].args[0] for i in used if ATOMS[i].kind == 'bv' and i not in own and i not in bound}
    while depth in clash:
        depth += 1
    for n, (b, size) in enumerate(order):
        nbv = mk_atom('bv', (depth, n, size), 'i')
        sg[b.id] = P(nbv)
        nb.append((nbv, size))
    return tuple(nb), subst(body, sg)


def Sum(box, body):
    """sum of body over the box; linear normal form, nested sums flattened"""
    if not box:
        return body
    if not body.t:
        return ZERO
    box, body = _freshen(box, body)
    ids = {b.id for b, _ in box}
    groups = {}
    for m, c in body.t.items():
        inside, outside = [], []
        for a, e in m:
            (inside if atom_fv(a) & ids else outside).append((a, e))
        groups.setdefault(tuple(inside), {})[tuple(outside)] = c
    out = ZERO
    for im, o in groups.items():
        # dimensions the summand does not depend on contribute their size
        fvs = set()
        for a, _ in im:
            fvs |= atom_fv(a)
        keep = tuple((b, s) for b, s in box if b.id in fvs)
        mult = ONE
        for b, s in box:
            if b.id not in fvs:
                mult = mult * s
        if keep:
            sums = [(a, e) for a, e in im if ATOMS[a].kind == 'sum']
            t = None
            if len(sums) == 1 and sums[0][1] == 1:
                q = ATOMS[sums[0][0]]
                if not any(term_fv(sz) & ids for _, sz in q.args[0]):
                    nb, sg = _fresh_box(q.args[0])
                    t = Sum(keep + nb, Poly({tuple(x for x in im if x != sums[0]): 1}) * subst(q.args[1], sg))
            if t is None:
                bx, bd = _canon_box(keep, Poly({im: 1}))
                t = P(mk_atom('sum', (bx, bd), 'r'))
        else:
            t = Poly({im: 1})
        out = out + t * mult * Poly(o)
    return out


def Exists(box, body):
    if body.op == 'false':
        return FALSE
    box, body = _freshen(box, body)
    ids = {b.id for b, _ in box}
    if body.op == 'or':
        return Or(*[Exists(box, x) for x in body.args])
    if not (term_fv(body) & ids):
        return And(body, *[lt(0, s) for b, s in box])
    args = body.args if body.op == 'and' else (body,)
    out = [x for x in args if not (term_fv(x) & ids)]
    if out:
        return And(Exists(box, And(*[x for x in args if term_fv(x) & ids])), *out)
    inner = [x for x in args if x.op == 'b' and x.args[0].kind == 'exists']
    if len(inner) == 1:
        q = inner[0].args[0]
        if not any(term_fv(sz) & ids for _, sz in q.args[0]):
            nb, sg = _fresh_box(q.args[0])
            return Exists(tuple(box) + nb, And(*([x for x in args if x is not inner[0]] + [subst(q.args[1], sg)])))
    keep = tuple((b, s) for b, s in box if b.id in term_fv(body))
    nonempty = [lt(0, s) for b, s in box if b.id not in term_fv(body)]
    # quantified formulas are renamed through an indicator term
    bx, bd = _canon_box(keep, body)
    return And(batom(mk_atom('exists', (bx, bd), 'b')), *nonempty)


# ------------------------------------------------------------------ printing
def show_atom(a):
    if a.kind == 'sym':
        return str(a.args[0])
    if a.kind == 'bv':
        return 'bv%d_%d' % (a.args[0], a.args[1])
    if a.kind == 'sel':
        node, slot, co = a.args
        return '%s{%s}[%s]' % (getattr(node, 'name', node), slot, ','.join(map(repr, co)))
    if a.kind == 'fn':
        return '%s(%s)' % (a.args[0], ','.join(map(repr, a.args[1:])))
    if a.kind == 'ind':
        return '[%r]' % (a.args[0],)
    return '%s(%s)' % (a.kind, ','.join(map(repr, a.args)))


def show(p, limit=12):
    if not p.t:
        return '0'
    out = []
    for n, (m, c) in enumerate(sorted(p.t.items(), key=lambda mc: (len(mc[0]), mc[0]))):
        if n >= limit:
            out.append('...(%d terms)' % len(p.t))
            break
        cs = str(c) if type(c) is int or abs(c.denominator) < 10 ** 6 else '%.9g' % float(c)
        ms = '*'.join(show_atom(ATOMS[a]) + ('^%d' % e if e != 1 else '') for a, e in m)
        out.append(cs if not ms else ms if c == 1 else '-' + ms if c == -1 else cs + '*' + ms)
    return '+'.join(out).replace('+-', '-')


def showf(f):
    o = f.op
    if o in ('true', 'false'):
        return o
    if o == 'b':
        return show_atom(f.args[0])
    if o == 'not':
        return '!(%s)' % showf(f.args[0])
    if o in ('and', 'or'):
        return '(' + (' & ' if o == 'and' else ' | ').join(showf(x) for x in f.args) + ')'
    return '%s%s0' % (show(f.args[0]), {'lt': '<', 'le': '<=', 'eq': '=='}[o])
