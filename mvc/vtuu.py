"""The VTU writer: the stream of tokens it emits, for every grid, is the specified file."""
import re
import itertools
from units import *
from cellu import soft
from gpu import gp_cell, case_id, Solves, field, note
from fractions import Fraction


# ------------------------------------------------------------------ from a trace to XML events
class Scan(object):
    """events: ('tag', pieces) | ('word', pieces) | ('loop', box, guard, events); whitespace separates words"""

    def __init__(self):
        self.ev, self.tag, self.word = [], None, []

    def endword(self):
        if self.word:
            self.ev.append(('word', tuple(self.word)))
            self.word = []

    def text(self, s):
        for ch in s:
            if self.tag is not None:
                if ch == '>':
                    self.ev.append(('tag', tuple(self.tag)))
                    self.tag = None
                elif self.tag and isinstance(self.tag[-1], str):
                    self.tag[-1] += ch
                else:
                    self.tag.append(ch)
            elif ch == '<':
                self.endword()
                self.tag = []
            elif ch.isspace():
                self.endword()
            elif self.word and isinstance(self.word[-1], str):
                self.word[-1] += ch
            else:
                self.word.append(ch)

    def value(self, v):
        (self.tag if self.tag is not None else self.word).append(v)

    def idle(self):
        return self.tag is None and not self.word


def scan(tr):
    s = Scan()
    for t in tr:
        if t[0] == 'out':
            v = t[1]
            if isinstance(v, Str):
                s.text(v.s)
            elif isinstance(v, (Poly, Formula)):
                s.value(v)
            elif isinstance(v, Opaque) and v.what == 'str':
                for x in v.args:
                    if x[0] != 'out' or not isinstance(x[1], (Str, Poly)):
                        raise Unsupported('formatted text written to the file')
                    s.text(x[1].s) if isinstance(x[1], Str) else s.value(x[1])
            else:
                raise Unsupported('output of %r' % (v,))
        elif t[0] == 'loop':
            # a word may not continue across a loop: glued numbers would be one number
            if not s.idle():
                raise Unsupported('value glued to a loop in the output')
            subs = []
            for g, seg in zip(t[2], t[3]):
                subs.append((g, scan(seg)))
            s.ev.append(('loop', t[1], subs))
        elif t[0] == 'if':
            if not s.idle():
                raise Unsupported('value glued to a conditional in the output')
            s.ev.append(('if', t[1], scan(t[2]), scan(t[3])))
        elif t[0] not in ('open', 'close'):
            raise Unsupported('stream operation %s' % t[0])
    if s.tag is not None or s.word and not closed(s.word):
        raise Unsupported('output segment ends inside a tag or number')
    s.endword()
    return s.ev


def closed(w):
    return False


def number(w):
    """the value of a word, or None"""
    if len(w) != 1:
        return None
    x = w[0]
    if isinstance(x, Poly):
        return x
    if isinstance(x, Formula):
        return ite(x, ONE, ZERO)
    try:
        return P(Fraction(x))
    except (ValueError, ZeroDivisionError):
        return None


def attr(tag, name):
    """value of an attribute: pieces between its quotes"""
    flat = list(tag)
    for i, x in enumerate(flat):
        if not isinstance(x, str):
            continue
        m = re.search(r'(?<![A-Za-z])%s\s*=\s*"' % name, x)
        if m:
            rest = x[m.end():]
            if '"' in rest:
                return number((rest[:rest.index('"')],)) if re.match(r'^[-+.0-9eE]+$', rest[:rest.index('"')]) else rest[:rest.index('"')]
            if rest == '' and i + 1 < len(flat) and not isinstance(flat[i + 1], str) and i + 2 < len(flat) and flat[i + 2].startswith('"'):
                return number((flat[i + 1],))
            raise Unsupported('attribute %s' % name)
    return None


def name_of(tag):
    return tag[0].split()[0].rstrip('/') if tag and isinstance(tag[0], str) and tag[0].split() else '?'


# ------------------------------------------------------------------ comparing a data array
def merge_loops(ev):
    """nested single loops become one box"""
    if len(ev) == 1 and ev[0][0] == 'loop' and len(ev[0][2]) == 1 and ev[0][2][0][0].op == 'true':
        bx, sub = tuple(ev[0][1]), ev[0][2][0][1]
        r = merge_loops(sub)
        if r and r[0]:
            return bx + r[0], r[1]
        return bx, sub
    return None


def concrete(ev, sg, pc, out, lim=100000):
    """the number sequence for concrete grid sizes (sg: atom id -> value); raises on anything symbolic"""
    for e in ev:
        if e[0] == 'word':
            v = number(e[1])
            if v is None:
                raise Bad('text %s among the numbers' % (e[1],))
            out.append(subst(v, sg))
            if len(out) > lim:
                raise Unsupported('too many values')
        elif e[0] == 'tag':
            raise Bad('tag among the numbers')
        elif e[0] == 'if':
            c = subst(e[1], sg)
            d = pc.decide(c) if c.op not in ('true', 'false') else c.op == 'true'
            if d is None:
                raise Unsupported('conditional output')
            concrete(e[2] if d else e[3], sg, pc, out)
        else:
            ns = []
            for a, s in e[1]:
                k = subst(s, sg).const()
                if k is None:
                    raise Unsupported('loop bound %r' % (s,))
                ns.append(range(int(k)))
            for vals in itertools.product(*ns):
                s2 = dict(sg)
                for (a, _), v in zip(e[1], vals):
                    s2[a.id] = P(v)
                for g, sub in e[2]:
                    c = subst(g, s2)
                    d = pc.decide(c) if c.op not in ('true', 'false') else c.op == 'true'
                    if d is None:
                        raise Unsupported('conditional output')
                    if d:
                        concrete(sub, s2, pc, out)


class Bad(Exception):
    pass


def array(ex, o, c, ev, grid, want, name):
    """ev lists, in grid order, the values want(digits) (a list) of every point of grid"""
    m = merge_loops(ev)
    if m and all(e[0] == 'word' for e in m[1]):
        bx, body = m
        vals = [number(e[1]) for e in body]
        if None not in vals and shape(bx, grid):
            dg = tuple(sym('%s.%d' % (name, i), 'i') for i in range(len(grid)))
            cx = o.pc.extend(*[And(le(0, d), lt(d, g)) for d, g in zip(dg, grid)])
            sg = shape(bx, grid)(dg)
            w = want(dg, cx)
            n0 = len(LOG.failed)
            same(ex, cx, P(len(vals)), P(len(w)), 'post', 'entries per item of ' + name)
            if len(vals) == len(w):
                for k, (x, y) in enumerate(zip(vals, w)):
                    same(ex, cx, subst(x, sg), y, 'post', '%s entry %d' % (name, k))
            return
    # another shape: compare the sequences on concrete grids
    for sizes in ((2, 3, 4), (4, 2, 3), (3, 4, 2), (2, 2, 2)):
        sg = {}
        for g, v in zip((c.nx, c.ny, c.nz), sizes):
            if g.atoms():
                sg[next(iter(g.atoms()))] = P(v)
        pc = o.pc.extend(*[eq(P(ATOMS[i]), v) for i, v in sg.items()])
        got, exp = [], []
        try:
            concrete(ev, sg, pc, got)
        except Bad as e:
            LOG.fail('post', '%s: %s' % (name, e), True, {'nx': sizes[0], 'ny': sizes[1], 'nz': sizes[2]})
            return
        for vals in itertools.product(*[range(int(subst(g, sg).const())) for g in grid]):
            exp += [subst(x, sg) for x in want(tuple(P(v) for v in vals), pc)]
        if len(got) != len(exp):
            LOG.fail('post', '%s lists %d values instead of %d' % (name, len(got), len(exp)), True, {'nx': sizes[0], 'ny': sizes[1], 'nz': sizes[2]})
            return
        for k, (x, y) in enumerate(zip(got, exp)):
            r = prove_equal(ex, pc, x, y, 'post', name)
            if r is not None:
                LOG.fail('post', '%s entry %d: %s' % (name, k, r['desc']), r['refuted'], {'nx': sizes[0], 'ny': sizes[1], 'nz': sizes[2]})
                return
    LOG.fail('post', '%s: shape not recognised (equal on small grids)' % name, False)


def shape(bx, grid):
    """how the loop variables follow from the grid digits"""
    sizes = [s for _, s in bx]
    if list(sizes) == list(grid):
        return lambda dg: {a.id: d for (a, _), d in zip(bx, dg)}
    n = ONE
    for g in grid:
        n = n * g
    if len(bx) == 1 and sizes[0] == n:
        return lambda dg: {bx[0][0].id: flat(grid, dg)}
    return None


def expected(c, o):
    """name -> (components, grid, values)"""
    A = lambda f: o.mem[c.arr[f]]
    R = lambda f, s, dg, cx: A(f).read(s, dg, cx)
    dim = c.dim
    conn = lambda dg, cx: [flat(c.grid, node_of(dg, a, dim)) for a in range(c.npe)]

    def plast(dg, cx):
        if dim == 2:
            return [ZERO]
        x = ZERO
        for g in range(8):
            e = [R('vars_old', g * 7 + i, dg, cx) for i in range(6)]
            n2 = ZERO
            for i in range(6):
                n2 = n2 + e[i] * e[i] * (1 if i < 3 else 2)
            x = x + T.sqrt(n2)
        return [x / 8]

    def hard(dg, cx):
        if dim == 2:
            return [ZERO]
        x = ZERO
        for g in range(8):
            x = x + R('vars_old', g * 7 + 6, dg, cx)
        return [x / 8]
    pad = lambda v: v + [ZERO] * (3 - len(v))
    n, e = c.grid, c.egrid
    return {
        'Position': (3, n, lambda dg, cx: pad([x * d for x, d in zip(reversed(dg), c.d)])),
        'connectivity': (1, e, conn),
        'offsets': (1, e, lambda dg, cx: [(flat(e, dg) + 1) * c.npe]),
        'types': (1, e, lambda dg, cx: [P(9 if dim == 2 else 12)]),
        'displ': (3, n, lambda dg, cx: pad([R('u', i, dg, cx) for i in range(dim)])),
        'b': (3, n, lambda dg, cx: pad([R('b', i, dg, cx) for i in range(dim)])),
        'strain': (c.nvoi, e, lambda dg, cx: [R('elem_strain', i, dg, cx) for i in range(c.nvoi)]),
        'stress': (c.nvoi, e, lambda dg, cx: [R('elem_stress', i, dg, cx) for i in range(c.nvoi)]),
        'elem_type': (1, e, lambda dg, cx: [R('elem_type', 0, dg, cx)]),
        'plasticity': (1, e, plast),
        'hardening': (1, e, hard),
    }


@unit('write_vtu/{0}D', 'micropp_t::write_vtu', 2, 3, cost=2)
def u_vtu(prog, dim):
    ex, st, c, k = start(prog, dim)
    q = 'micropp_t::write_vtu'
    LOG.where = q
    pre = st.copy()
    ts, gp = sym('time_step', 'i'), sym('gp_id', 'i')
    outs = run(ex, q, st, c.this, [ts, gp])
    if not outs:
        LOG.fail('vacuity', 'no final state of %s' % q, False)
    for o in outs:
        LOG.where = q
        compare_states(ex, pre, o, pre, 'frame')
        files = [t for s, t in o.traces.items() if any(x[0] == 'open' for x in t)]
        if len(files) != 1:
            raise Unsupported('%d files written' % len(files))
        tr = files[0]
        op = [x for x in tr if x[0] == 'open']
        if len(op) != 1:
            raise Unsupported('file opened %d times' % len(op))
        filename(ex, o, op[0][1], [Str('micropp_'), gp, Str('_'), ts, Str('.vtu')])
        if op[0][2]:
            raise Unsupported('open mode')
        if tr.index(op[0]) != 0:
            raise Unsupported('output before the file is opened')
        i = [j for j, x in enumerate(tr) if x[0] == 'close']
        if i and i[0] != len(tr) - 1:
            LOG.fail('post', 'output after the file is closed', False)
        content(ex, o, c, scan(tr))


def filename(ex, o, v, want):
    if not (isinstance(v, Opaque) and v.what == 'str'):
        raise Unsupported('file name %r' % (v,))
    got = [x[1] for x in v.args if x[0] == 'out']
    merge = lambda l: [x.s if isinstance(x, Str) else chr(x.v) if isinstance(x, Char) else x for x in l]
    a, b = merge(got), merge(want)

    def norm(l):
        r = []
        for x in l:
            if isinstance(x, str) and r and isinstance(r[-1], str):
                r[-1] += x
            else:
                r.append(x)
        return r
    a, b = norm(a), norm(b)
    if len(a) != len(b) or any(isinstance(x, str) != isinstance(y, str) or isinstance(x, str) and x != y for x, y in zip(a, b)):
        LOG.fail('post', 'file name', False)
        return
    for x, y in zip(a, b):
        if not isinstance(x, str):
            same(ex, o.pc, x, y, 'post', 'file name')
    LOG.ok('post')


def content(ex, o, c, ev):
    piece = [e for e in ev if e[0] == 'tag' and name_of(e[1]) == 'Piece']
    if len(piece) != 1:
        LOG.fail('post', '%d Piece elements' % len(piece), False)
        return
    for a, w in (('NumberOfPoints', c.nn), ('NumberOfCells', c.nelem)):
        v = attr(piece[0][1], a)
        if not isinstance(v, Poly):
            LOG.fail('post', '%s is not declared' % a, False)
        else:
            same(ex, o.pc, v, w, 'post', a)
    found = {}
    i = 0
    while i < len(ev):
        e = ev[i]
        if e[0] == 'tag' and name_of(e[1]) == 'DataArray':
            nm = attr(e[1], 'Name')
            j = i + 1
            while j < len(ev) and not (ev[j][0] == 'tag'):
                j += 1
            if j == len(ev) or name_of(ev[j][1]) != '/DataArray':
                LOG.fail('post', 'array %s is not closed' % nm, False)
                return
            found.setdefault(nm, []).append((e[1], ev[i + 1:j]))
            i = j
        i += 1
    want = expected(c, o)
    for nm, (nc, grid, f) in want.items():
        l = found.get(nm, [])
        if len(l) != 1:
            LOG.fail('post', 'array %s appears %d times' % (nm, len(l)), ex.counterexample(o.pc, TRUE) is not None)
            continue
        tag, body = l[0]
        k = attr(tag, 'NumberOfComponents')
        if not isinstance(k, Poly):
            LOG.fail('post', 'components of %s not declared' % nm, False)
        else:
            same(ex, o.pc, k, P(nc), 'post', 'components of ' + nm)
        array(ex, o, c, body, grid, f, nm)
    # nesting
    stack = []
    for e in ev:
        if e[0] == 'tag' and not name_of(e[1]).startswith(('?', '!')):
            n = name_of(e[1])
            if n.startswith('/'):
                if not stack or stack[-1] != n[1:]:
                    LOG.fail('post', 'element %s closed while %s is open' % (n, stack[-1:]), False)
                    return
                stack.pop()
            elif not (isinstance(e[1][-1], str) and e[1][-1].rstrip().endswith('/')):
                stack.append(n)
    if stack:
        LOG.fail('post', 'elements %s are not closed' % stack, False)
    else:
        LOG.ok('post')


# ------------------------------------------------------------------ output of one Gauss point
@unit('output/{0}D/{1}', 'micropp_t::output', *[(d, f) for d in (2, 3) for f in ('known', 'unknown')])
def u_output(prog, dim, f):
    """writes the fields of the point's equilibrium from its committed history; Gauss points unchanged"""
    ex, st, c, k = gp_cell(prog, dim)
    q = 'micropp_t::output'
    gid, p = case_id(ex, st, c, f == 'known')
    S = Solves(c)
    S.attach(ex)
    st.ghost['bc'], st.ghost['sol'] = None, None

    def fields(ex, st, this, args):
        """contract proved by calc_fields/*: element fields and trial history of the present state"""
        t = st.ghost.get('sol')
        if not t:
            raise Unsupported('element fields without equilibrium')
        S.ave_state(st, t)
        for a in ('elem_strain', 'elem_stress', 'vars_new'):
            S.havoc(st, a, 'fields:' + t)
        st.ghost['fields'] = sym('F:' + t, 'r')

    def vtu(ex, st, this, args):
        g = st.ghost.get('fields')
        st.traces['$vtu'] = st.traces.get('$vtu', ()) + (('vtu', args[0], args[1], g if g is not None else ZERO),)
    ex.contracts[('micropp_t::calc_fields', 0)] = fields
    ex.contracts[('micropp_t::write_vtu', 2)] = vtu
    ts = sym('time_step', 'i')
    pre = st.copy()
    LOG.where = q
    outs = run(ex, q, st, c.this, [ts, gid])
    if not outs:
        LOG.fail('vacuity', 'no final state of %s' % q, False)
    for o in outs:
        LOG.where = q
        o.setcell(c.o, ('inv_max',), pre.mem[c.o].cells[('inv_max',)])
        tr = o.traces.get('$vtu', ())
        if p is None:
            compare_states(ex, pre, o, pre, 'frame')
            note(tr == (), 'post', 'file written for an unknown Gauss point', ex.counterexample(o.pc, TRUE) is not None)
            continue
        skip = set(c.arr[x] for x in ('u', 'du', 'b', 'vals', 'vars_old', 'vars_new', 'elem_strain', 'elem_stress'))
        compare_states(ex, pre, o, pre, 'frame', skip=skip)
        if len(tr) != 1 or tr[0][0] != 'vtu':
            note(False, 'post', '%d files written' % len(tr), False)
            continue
        same(ex, o.pc, tr[0][1], ts, 'post', 'time step of the file')
        same(ex, o.pc, tr[0][2], gid, 'post', 'Gauss point of the file')
        ts_ = [t for t in S.d if any(ATOMS[i].kind == 'sym' and ATOMS[i].args[0] == 'F:' + t for i in term_fv(tr[0][3]))]
        if len(ts_) != 1:
            note(False, 'post', 'the file does not show the fields of an equilibrium', False)
            continue
        t = ts_[0]
        same(ex, o.pc, o.ghost.get('fields'), tr[0][3], 'post', 'fields written are the last ones')
        for v in range(c.nvoi):
            same(ex, o.pc, S.d[t]['bc'][v], field(pre, c, ('macro_strain', v), p), 'post', 'equilibrium under the strain of the Gauss point')
        has = field(pre, c, ('int_vars_n',), p)
        e = pre.mem[pre.mem[c.list].fields[('int_vars_n', '*')]]
        for old in S.d[t]['olds'] + [o.mem[c.arr['vars_old']]]:
            co, rng = generic_coords(old)
            for h in (has, Not(has)):
                cy = o.pc.extend(*rng).extend(h)
                if not cy.consistent():
                    continue
                for s in range(old.nslots):
                    want = e.read(s, (p,) + co, cy) if h is has else ZERO
                    same(ex, cy, old.read(s, co, cy), want, 'post', 'equilibrium from the committed history of the Gauss point')
