"""Memory model: structured cells, and arrays of symbolic size with write-event chains."""
from term import *
import term as T
from smt import Ctx, intern_ctx


class Fork(Exception):
    """resolution needs to know formula f"""
    def __init__(self, f):
        self.f = f


# ------------------------------------------------------------------ index decoding
def as_radix(p):
    """radix polynomial = atom + const -> (atom id, const)"""
    at = [m for m in p.t if m]
    if len(at) == 1 and len(at[0]) == 1 and at[0][0][1] == 1 and p.t[at[0]] == 1:
        return at[0][0][0], p.t.get((), 0)
    return None


def divmod_poly(p, radix):
    """p = q*radix + r, r free of the radix atom (synthetic division)"""
    c = radix.const()
    if c is not None:
        q, r = {}, {}
        for m, k in p.t.items():
            if type(k) is not int:
                raise Unsupported('non-integer index')
            if m:
                if k % c == 0:
                    q[m] = k // c
                else:
                    r[m] = k
            else:
                a, b = divmod(k, c)
                if a:
                    q[m] = a
                if b:
                    r[m] = b
        return Poly(q), Poly(r)
    ar = as_radix(radix)
    if ar is None:
        raise Unsupported('radix %r' % radix)
    a, c = ar
    # univariate in a
    co = {}
    for m, k in p.t.items():
        e = 0
        rest = []
        for x, y in m:
            if x == a:
                e = y
            else:
                rest.append((x, y))
        co.setdefault(e, {})
        mm = tuple(rest)
        co[e][mm] = co[e].get(mm, 0) + k
    if not co:
        return ZERO, ZERO
    n = max(co)
    if min(co) < 0:
        raise Unsupported('negative power in index')
    coefs = [Poly({m: k for m, k in co.get(i, {}).items() if k != 0}) for i in range(n + 1)]
    at = Poly({((a, 1),): 1})
    b = coefs[n]
    q = ZERO
    for i in range(n - 1, -1, -1):
        q = q * at + b if False else q + b * (at ** i)
        b = coefs[i] - b * c
    return q, b


def decode(p, grid, nslots, ctx):
    """flat index -> (coords outer..inner, slot).  Returns (coords, slot, failure)
    failure: None, or a description of the digit that is not provably in range, with the
    range condition."""
    q = p
    slot = 0
    if nslots is not None and nslots != 1:
        q, r = divmod_poly(p, P(nslots))
        slot = r.const()
        if slot is None:
            return None, None, ('slot not concrete', TRUE)
    digits = []
    for n in range(len(grid) - 1, -1, -1):
        N = grid[n]
        if n == 0:
            d = q
            rng = And(le(0, d), lt(d, N))
            if ctx.decide(rng) is not True:
                return None, None, ('outer digit %r of %r' % (d, N), rng)
            digits.append(d)
            break
        c = N.const()
        if c is not None:
            q2, d = divmod_poly(q, N)
        else:
            q2, d = divmod_poly(q, N)
            ok = False
            for t in (0, 1, -1, 2, -2):
                dd = d + N * t
                if ctx.decide(And(le(0, dd), lt(dd, N))) is True:
                    q2, d, ok = q2 - t, dd, True
                    break
            if not ok:
                return None, None, ('digit %r of %r' % (d, N), And(le(0, d), lt(d, N)))
        digits.append(d)
        q = q2
    digits.reverse()
    return tuple(digits), slot, None


# ------------------------------------------------------------------ array versions
class Base(object):
    """unknown initial contents (or a closed form given by hook)"""
    __slots__ = ('name', 'hook', 'kind', 'root', 'uninit')

    def __init__(self, name, hook=None):
        self.name, self.hook, self.kind = name, hook, 'base'
        self.uninit = False
        self.root = self

    def __repr__(self):
        return self.name


class LoopBase(object):
    """state at the start of a generic iteration of a symbolic loop"""
    __slots__ = ('name', 'prev', 'kind', 'arr', 'root')

    def __init__(self, arr):
        self.kind, self.arr, self.prev = 'loop', arr, None
        self.root = self
        self.name = fresh_name('it:' + arr.name)


class Ev(object):
    __slots__ = ('parent', 'q', 'guard', 'coords', 'op', 'val', 'kind', 'name', 'tag', 'root')
    _n = 0

    def __init__(self, parent, q, guard, coords, op, val, tag=None):
        self.parent, self.q, self.guard, self.coords, self.op, self.val = parent, q, guard, coords, op, val
        self.kind = 'ev'
        self.root = parent.root
        self.tag = tag
        Ev._n += 1
        self.name = 'v%d' % Ev._n


class Arr(object):
    """an array of symbolic size: grid digits (outer..inner) and a concrete slot"""
    __slots__ = ('name', 'grid', 'nslots', 'sort', 'heads', 'base', 'alive', 'local', 'origin', 'owner')

    def __init__(self, name, grid, nslots, sort, base=None):
        self.name, self.grid, self.nslots, self.sort = name, tuple(grid), nslots, sort
        self.heads = {}
        self.base = base or Base(name)
        self.alive = True       # False / True / Formula once freed conditionally
        self.local = False
        self.origin = None

    def copy(self):
        a = Arr(self.name, self.grid, self.nslots, self.sort, self.base)
        a.heads = dict(self.heads)
        a.alive, a.local, a.origin = self.alive, self.local, self.origin
        return a

    def size(self):
        p = P(self.nslots)
        for g in self.grid:
            p = p * g
        return p

    def head(self, slot):
        return self.heads.get(slot, self.base)

    def write(self, slot, coords, val, guard=TRUE, q=(), op='set'):
        h = self.head(slot)
        if op == 'set' and h.kind == 'ev' and not h.q and h.op == 'set' and h.coords == coords and h.guard is guard:
            h = h.parent
        self.heads[slot] = Ev(h, tuple(q), guard, tuple(coords), op, val)

    def read(self, slot, coords, ctx, mode='lazy'):
        return resolve(self.head(slot), slot, tuple(coords), ctx, mode, self.sort)


def mk_sel(node, slot, coords, sort):
    a = mk_atom('sel', (node, slot, tuple(coords)), sort)
    return batom(a) if sort == 'b' else P(a)


def match(ev, coords):
    """(hit condition, substitution for the quantified variables, unsolved variables)"""
    if not ev.q:
        cs = [ev.guard]
        for e, c in zip(ev.coords, coords):
            if e is not c and e != c:
                cs.append(eq(e, c))
        return And(*cs), {}, ()
    qs = {a.id: s for a, s in ev.q}
    sg = {}
    eqs = []
    todo = list(zip(ev.coords, coords))
    for _ in range(3):
        rest = []
        for e, c in todo:
            e2 = subst(e, sg) if sg else e
            cand = None
            for m, k in e2.t.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0] in qs and m[0][0] not in sg and k in (1, -1):
                    # linear occurrence only
                    a = m[0][0]
                    if sum(1 for mm in e2.t if any(x == a for x, _ in mm)) == 1:
                        cand = (a, k)
                        break
            if cand:
                a, k = cand
                r = e2 - Poly({((a, 1),): k})
                v = (c - r) * k
                # keep the substitution idempotent
                sg = {x: subst(y, {a: v}) for x, y in sg.items()}
                sg[a] = v
            else:
                rest.append((e, c))
        todo = rest
    for e, c in todo:
        e2 = subst(e, sg) if sg else e
        lin = [(m[0][0], k) for m, k in e2.t.items() if len(m) == 1 and m[0][1] == 1 and m[0][0] in qs and m[0][0] not in sg
               and type(k) is int and k > 1 and sum(1 for mm in e2.t if any(x == m[0][0] for x, _ in mm)) == 1]
        if len(lin) == 1:
            # k q + r = c has at most the solution q = (c - r) div k
            a, k = lin[0]
            r = e2 - Poly({((a, 1),): k})
            if not (r.fv() & set(qs)):
                w = c - r
                if all(type(x) is int and x % k == 0 for m, x in w.t.items() if m) and is_int_poly(w):
                    if w.t.get((), 0) % k:
                        return FALSE, {}, ()
                    v = Poly({m: x // k for m, x in w.t.items()})
                    sg = {x: subst(y, {a: v}) for x, y in sg.items()}
                    sg[a] = v
                    continue
                v = fn('idiv', (c - r, P(k)), 'i')
                sg = {x: subst(y, {a: v}) for x, y in sg.items()}
                sg[a] = v
                eqs.append(eq(v * k, c - r))
                continue
        eqs.append(eq(e2, c))
    conds = list(eqs)
    for a, s in ev.q:
        if a.id in sg:
            v = sg[a.id]
            conds.append(le(0, v))
            conds.append(lt(v, subst(s, sg)))
    uns = tuple((a, subst(s, sg)) for a, s in ev.q if a.id not in sg)
    conds.append(subst(ev.guard, sg))
    return And(*conds), sg, uns


def resolve(node, slot, coords, ctx, mode, sort):
    """mode: lazy (stop at the first undecided event), fork (raise Fork), ite (indicator terms)"""
    acc = ZERO
    pend = []       # (cond, value) for ite mode, outermost first
    while True:
        k = node.kind
        if k == 'ev':
            cond, sg, uns = match(node, coords)
            ua = {a.id for a, _ in uns}
            if uns and node.op == 'set':
                if (term_fv(node.val) | term_fv(cond)) & ua:
                    raise Unsupported('location written by several iterations (%r %r %r %r)' % (node.q, node.guard, node.coords, node.val))
                cond = And(cond, *[lt(0, s) for _, s in uns])
            if uns and node.op == 'add':
                inner = [f for f in (cond.args if cond.op == 'and' else (cond,)) if term_fv(f) & ua]
                cond = And(*[f for f in (cond.args if cond.op == 'and' else (cond,)) if not (term_fv(f) & ua)])
            d = ctx.decide(cond)
            if d is None and mode != 'lazy' and any(needs(i) for i in term_fv(cond)):
                c2 = deep(cond, ctx, 'ite')
                if c2 is not cond:
                    cond = c2
                    d = ctx.decide(cond)
            if d is False:
                node = node.parent
                continue
            if d is None and mode == 'fork':
                raise Fork(pick(cond, ctx))
            if mode == 'lazy' and (d is None or node.op == 'add'):
                break
            val = subst(node.val, sg)
            if node.op == 'add':
                if uns:
                    val = Sum(uns, val * ind(And(*inner)))
                acc = acc + (val if d else ite(cond, val, ZERO))
                node = node.parent
                continue
            if d:
                r = val
                return finish(r, acc, pend, sort)
            pend.append((cond, val, acc))
            acc = ZERO
            node = node.parent
            continue
        if k == 'base' and node.hook is not None:
            r = node.hook(slot, coords, ctx, mode)
            if r is not None:
                return finish(r, acc, pend, sort)
        break
    r = mk_sel(node, slot, coords, sort)
    return finish(r, acc, pend, sort)


def finish(r, acc, pend, sort):
    if sort == 'b':
        for c, v, a in reversed(pend):
            r = itef(c, v, r)
        return r
    r = r + acc
    for c, v, a in reversed(pend):
        r = ite(c, v, r) + a
    return r


def pick(f, ctx):
    """an undecided literal of f to split on"""
    if f.op in ('and', 'or'):
        for x in f.args:
            if ctx.decide(x) is None:
                return pick(x, ctx)
    return f


# ------------------------------------------------------------------ deep resolution of terms
_rcache = {}
_needs = {}


def needs(i):
    """does atom i contain an array read or an indicator at any depth"""
    r = _needs.get(i)
    if r is None:
        r = any(ATOMS[j].kind in ('sel', 'ind') for j in atom_fv(i))
        _needs[i] = r
    return r


def bctx(ctx, box):
    return ctx.extend(*[And(le(0, P(b)), lt(P(b), s)) for b, s in box])


class Deep(object):
    """rewrite every array read (and indicator) inside a term.
    mode 'fork': raise Fork on an undecided condition; 'ite': leave/insert indicators.
    roots: only resolve reads of nodes with these roots (None: all)."""

    def __init__(self, ctx, mode, roots=None, onsel=None):
        self.ctx, self.mode, self.roots, self.onsel = ctx, mode, roots, onsel
        self.memo = {}

    def __call__(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, Formula):
            return self.form(x)
        if isinstance(x, tuple):
            return tuple(self(y) for y in x)
        return x

    def poly(self, x):
        ats = [a for a in x.atoms() if needs(a)]
        if not ats:
            return x
        r = self.memo.get(x)
        if r is not None:
            return r
        x0 = x
        sg = {}
        if len(x.t) > 1:
            # decided conditions first: whole branches may cancel
            for a in ats:
                if ATOMS[a].kind == 'ind':
                    d = self.ctx.decide(ATOMS[a].args[0])
                    if d is not None:
                        sg[a] = ONE if d else ZERO
            if sg:
                acc = {}
                for m, c in x.t.items():
                    keep = []
                    for a, e in m:
                        v = sg.get(a)
                        if v is None:
                            keep.append((a, e))
                        elif v is ZERO:
                            break
                    else:
                        k = tuple(keep)
                        acc[k] = acc.get(k, 0) + c
                x = Poly({m: c for m, c in acc.items() if c != 0})
                r = self.memo[x0] = self.poly(x)
                return r
        if self.mode == 'fork' and len(x.t) > 1:
            # an undecided factor only matters where the other factors are not zero
            forked = {}
            for a in sorted(ats):
                try:
                    v = self.atom(a)
                except Fork as f:
                    forked[a] = f
                    continue
                if v.t != {((a, 1),): 1}:
                    sg[a] = v
            if forked:
                for m, c in x.t.items():
                    fs = [a for a, e in m if a in forked]
                    if fs and not any(a in sg and not sg[a].t and e > 0 for a, e in m):
                        raise forked[fs[0]]
                x = Poly({m: c for m, c in x.t.items() if not any(a in forked for a, e in m)})
        else:
            for a in sorted(ats):
                v = self.atom(a)
                if v.t != {((a, 1),): 1}:
                    sg[a] = v
        if not sg:
            r = x
        else:
            r = ZERO
            plain = {}
            for m, c in x.t.items():
                fac = None
                keep = []
                for a, e in m:
                    if a in sg:
                        v = sg[a]
                        v = (v if e == 1 else v ** e) if e > 0 else recip(v) ** (-e)
                        fac = v if fac is None else fac * v
                    else:
                        keep.append((a, e))
                if fac is None:
                    plain[m] = c
                elif fac.t:
                    r = r + Poly({tuple(keep): c}) * fac
            if plain:
                r = r + Poly(plain)
        self.memo[x0] = r
        return r

    def sel(self, node, slot, co, sort):
        """value of a read, or None when it stays as it is"""
        if self.roots is not None and node.root not in self.roots:
            return None
        if node.kind == 'loop':
            if self.onsel:
                return self.onsel(node, slot, co, sort)
            return None
        if node.kind == 'base' and node.hook is None:
            return None
        r = resolve(node, slot, co, self.ctx, self.mode, sort)
        if node.kind == 'base' and r == mk_sel(node, slot, co, sort):
            return None
        return self(r)

    def form(self, x):
        o = x.op
        if o in ('true', 'false'):
            return x
        if not any(needs(a) for a in term_fv(x)):
            return x
        k = ('F', x.id)
        r = self.memo.get(k)
        if r is not None:
            return r
        if o == 'not':
            r = Not(self.form(x.args[0]))
        elif o == 'and':
            r = And(*[self.form(y) for y in x.args])
        elif o == 'or':
            r = Or(*[self.form(y) for y in x.args])
        elif o == 'b':
            a = x.args[0]
            if a.kind == 'sel':
                node, slot, co = a.args
                co = tuple(self(c) for c in co)
                r = self.sel(node, slot, co, 'b')
                if r is None:
                    r = mk_sel(node, slot, co, 'b')
            elif a.kind == 'exists':
                bx, bd = self.box(a)
                d = Deep(bctx(self.ctx, bx), 'ite', self.roots, self.onsel)
                r = Exists(bx, d(bd))
            elif a.kind == 'fn':
                r = batom(mk_atom('fn', self(a.args), 'b', a.extra))
            else:
                r = x
        else:
            r = T._cmp0(o, self.poly(x.args[0]))
        self.memo[k] = r
        return r

    def box(self, a):
        """bounds and body of a quantified atom, the bounds resolved"""
        bx, bd = a.args
        if not any(needs(i) for _, s in bx for i in s.atoms()):
            return bx, bd
        d = self if self.mode == 'ite' else Deep(self.ctx, 'ite', self.roots, self.onsel)
        return T._canon_box(tuple((b, d.poly(s)) for b, s in bx), bd)

    def atom(self, i):
        k = ('A', i)
        r = self.memo.get(k)
        if r is not None:
            return r
        a = ATOMS[i]
        if a.kind == 'sel':
            node, slot, co = a.args
            co = tuple(self(c) for c in co)
            r = self.sel(node, slot, co, a.sort)
            if r is None:
                r = mk_sel(node, slot, co, a.sort)
        elif a.kind == 'ind':
            f = self.form(a.args[0])
            d = self.ctx.decide(f)
            if d is True:
                r = ONE
            elif d is False:
                r = ZERO
            elif self.mode == 'fork':
                raise Fork(pick(f, self.ctx))
            else:
                r = ind(f)
        elif a.kind == 'sum':
            bx, bd = self.box(a)
            d = Deep(bctx(self.ctx, bx), 'ite', self.roots, self.onsel)
            r = Sum(bx, d(bd))
        elif a.kind in ('sym', 'bv'):
            r = P(a)
        else:
            r = rebuild(a, self(a.args))
        self.memo[k] = r
        return r


def deep(x, ctx, mode='fork'):
    key = (ctx, mode)
    d = _rcache.get(key)
    if d is None:
        d = _rcache[key] = Deep(ctx, mode)
    return d(x)
