"""Values, objects, states and types of the executor."""
import re
from term import *
import term as T
from smt import Ctx, intern_ctx, check_sat, STATS
from mem import *
import mem as M


class Refuted(Exception):
    """an obligation is definitely violated"""


class CannotMerge(Exception):
    pass


# ------------------------------------------------------------------ obligations
class Log(object):
    def __init__(self):
        self.reset()

    def reset(self):
        self.counts = {}          # kind -> [total, discharged]
        self.failed = []          # dicts
        self.where = ''
        self.notes = []
        self.seen = set()
        self.line = 0

    def ok(self, kind, key=None, n=1):
        c = self.counts.setdefault(kind, [0, 0])
        if key is not None:
            if (kind, key) in self.seen:
                return
            self.seen.add((kind, key))
        c[0] += n
        c[1] += n

    def fail(self, kind, desc, refuted, model=None, where=None):
        c = self.counts.setdefault(kind, [0, 0])
        c[0] += 1
        d = {'kind': kind, 'desc': desc, 'refuted': bool(refuted), 'where': where or self.where, 'line': self.line}
        if model:
            d['model'] = model
        self.failed.append(d)


LOG = Log()


# ------------------------------------------------------------------ types
_tcache = {}
SCALARS = {'int': 'i', 'unsigned int': 'i', 'long': 'i', 'unsigned long': 'i', 'size_t': 'i', 'short': 'i', 'char': 'i',
           'long long': 'i', 'unsigned long long': 'i', 'unsigned': 'i', 'unsigned char': 'i', 'std::size_t': 'i',
           'double': 'r', 'float': 'r', 'long double': 'r', 'bool': 'b', '_Bool': 'b', 'ptrdiff_t': 'i'}


def ptype(q):
    r = _tcache.get(q)
    if r is None:
        r = _tcache[q] = _ptype(q)
    return r


def _ptype(q):
    q = q.strip()
    m = re.match(r'^(.*)\((\*|&)(?:\s*const)?\)\s*((?:\[\d+\])+)$', q)
    if m:
        return ('ptr' if m.group(2) == '*' else 'ref', _ptype(m.group(1) + m.group(3)))
    if q.endswith('[]'):
        return ('ptr', _ptype(q[:-2]))
    m = re.match(r'^([^\[\]]*)((?:\[\d+\])+)$', q)
    if m:
        t = _ptype(m.group(1))
        for n in reversed(re.findall(r'\[(\d+)\]', m.group(2))):
            t = ('arr', int(n), t)
        return t
    q = re.sub(r'\s*(__restrict|restrict)$', '', q)
    if q.endswith('*const') or q.endswith('* const'):
        return ('ptr', _ptype(q[:q.rindex('*')]))
    if q.endswith('*'):
        return ('ptr', _ptype(q[:-1]))
    if q.endswith('&&'):
        return ('ref', _ptype(q[:-2]))
    if q.endswith('&'):
        return ('ref', _ptype(q[:-1]))
    q = re.sub(r'\b(const|volatile|struct|class|static|constexpr)\b', '', q).strip()
    q = re.sub(r'\s+', ' ', q)
    if q in SCALARS:
        return SCALARS[q]
    return ('rec', q)


def ntype(node):
    t = node['type']
    return ptype(t.get('desugaredQualType') or t['qualType'])


# ------------------------------------------------------------------ values
class CellLV(object):
    __slots__ = ('o', 'p')

    def __init__(self, o, p):
        self.o, self.p = o, p

    def __eq__(self, x):
        return isinstance(x, CellLV) and (self.o, self.p) == (x.o, x.p)

    def __repr__(self):
        return 'LV(%s,%s)' % (self.o, self.p)


class ArrLV(object):
    __slots__ = ('o', 'pre', 'off')

    def __init__(self, o, pre, off):
        self.o, self.pre, self.off = o, pre, off


class RecLV(object):
    """path inside a record of a symbolic list"""
    __slots__ = ('o', 'pos', 'p')

    def __init__(self, o, pos, p):
        self.o, self.pos, self.p = o, pos, p


class TmpLV(object):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Ptr(object):
    """pointer to an lvalue; null: formula under which it is null"""
    __slots__ = ('lv', 'null')

    def __init__(self, lv, null=FALSE):
        self.lv, self.null = lv, null

    def __repr__(self):
        return 'Ptr(%r)' % (self.lv,)


class Raw(object):
    """result of malloc/calloc before the cast"""
    def __init__(self, nbytes, zero):
        self.nbytes, self.zero = nbytes, zero


NULL = Ptr(None, TRUE)


class ItVal(object):
    __slots__ = ('o', 'pos')

    def __init__(self, o, pos):
        self.o, self.pos = o, pos


class Stream(object):
    __slots__ = ('o',)

    def __init__(self, o):
        self.o = o


class Rec(object):
    """struct rvalue: dict path -> value"""
    def __init__(self, d):
        self.d = d


class Str(object):
    def __init__(self, s):
        self.s = s


class Opaque(object):
    def __init__(self, what, args=()):
        self.what, self.args = what, args



class Manip(object):
    def __init__(self, what):
        self.what = what


class FnRef(object):
    def __init__(self, name, i):
        self.name, self.i = name, i


class Char(object):
    def __init__(self, v):
        self.v = v


class ListRef(object):
    """value of a std::list member: the list object"""
    __slots__ = ('o',)

    def __init__(self, o):
        self.o = o


def same_lv(a, b):
    if a is b:
        return True
    if type(a) is not type(b) or a is None:
        return False
    if isinstance(a, CellLV):
        return a.o == b.o and a.p == b.p
    if isinstance(a, ArrLV):
        return a.o == b.o and a.pre == b.pre and a.off == b.off
    if isinstance(a, RecLV):
        return a.o == b.o and a.pos == b.pos and a.p == b.p
    return False


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, Poly) and isinstance(b, Poly):
        return a.t == b.t
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.null is b.null and same_lv(a.lv, b.lv)
    if isinstance(a, ItVal) and isinstance(b, ItVal):
        return a.o == b.o and a.pos == b.pos
    if isinstance(a, Str) and isinstance(b, Str):
        return a.s == b.s
    if isinstance(a, (Stream, ListRef)) and type(a) is type(b):
        return a.o == b.o
    return False


# ------------------------------------------------------------------ objects
class Cells(object):
    __slots__ = ('type', 'cells', 'name', 'owner', 'zero', 'uninit')

    def __init__(self, type_, name, owner=None):
        self.type, self.name, self.owner = type_, name, owner
        self.cells = {}
        self.zero = False

    def copy(self, owner):
        c = Cells(self.type, self.name, owner)
        c.cells = dict(self.cells)
        c.zero = self.zero
        return c


class RList(object):
    """std::list of records, a symbolic number of them: record fields are arrays over the
    position; size is a polynomial"""
    __slots__ = ('name', 'rec', 'size', 'fields', 'sorts', 'alive')

    def __init__(self, name, rec, size):
        self.name, self.rec, self.size = name, rec, size

    def copy(self):
        r = RList(self.name, self.rec, self.size)
        r.fields = self.fields          # path -> oid of Arr (grid [*], slots)
        r.sorts = self.sorts
        return r


_oid = [0]


def new_oid():
    _oid[0] += 1
    return _oid[0]


class State(object):
    __slots__ = ('mem', 'env', 'pc', 'ret', 'this', 'wlog', 'token', 'traces', 'ghost', 'searches', 'allocs')

    def __init__(self):
        self.mem = {}
        self.env = {}
        self.pc = intern_ctx(())
        self.ret = None
        self.this = None
        self.wlog = None
        self.token = object()
        self.traces = {}
        self.ghost = {}
        self.searches = ()
        self.allocs = ()

    def copy(self):
        s = State()
        s.mem = {}
        for k, o in self.mem.items():
            if isinstance(o, (Arr, RList)):
                s.mem[k] = o.copy()
            else:
                s.mem[k] = o
        self.token = object()
        s.env = dict(self.env)
        s.pc, s.ret, s.this = self.pc, self.ret, self.this
        s.wlog = set(self.wlog) if self.wlog is not None else None
        s.traces = dict(self.traces)
        s.ghost = dict(self.ghost)
        s.searches = self.searches
        s.allocs = self.allocs
        return s

    def assume(self, *fs):
        self.pc = self.pc.extend(*fs)

    def new(self, type_, name):
        oid = new_oid()
        self.mem[oid] = Cells(type_, name, self.token)
        return oid

    def newarr(self, arr):
        oid = new_oid()
        self.mem[oid] = arr
        return oid

    def cells(self, oid):
        return self.mem[oid]

    def setcell(self, oid, path, v):
        o = self.mem[oid]
        if o.owner is not self.token:
            o = o.copy(self.token)
            self.mem[oid] = o
        o.cells[path] = v
        if self.wlog is not None:
            self.wlog.add((oid, path))


# ------------------------------------------------------------------ type-directed helpers
def sub_type(ex, t, path):
    for c in path:
        if t[0] == 'arr':
            t = t[2]
        elif t[0] == 'rec':
            t = ex.field_type(t[1], c)
        elif t[0] == 'ref':
            return sub_type(ex, t[1], path)
        else:
            raise Unsupported('path %r in %r' % (path, t))
    return t


def leaf_paths(ex, t, pre=()):
    if t[0] == 'arr':
        for i in range(t[1]):
            for p in leaf_paths(ex, t[2], pre + (i,)):
                yield p
    elif t[0] == 'rec' and t[1] in ex.prog.records:
        for f, ft, _ in ex.prog.records[t[1]]:
            for p in leaf_paths(ex, ptype(ft), pre + (f,)):
                yield p
    else:
        yield pre



# ------------------------------------------------------------------ value helpers
def conv(v, sort):
    if sort == 'b':
        if isinstance(v, Formula):
            return v
        if isinstance(v, Poly):
            return ne(v, 0)
        if isinstance(v, Ptr):
            return Not(v.null)
        raise Unsupported('to bool: %r' % (v,))
    if isinstance(v, Formula):
        return ind(v)
    if isinstance(v, Poly):
        return v
    raise Unsupported('scalar from %r' % (v,))


def zero_of(t):
    if t == 'b':
        return FALSE
    if t[0] == 'ptr':
        return NULL
    return ZERO


def uninit_of(t, name):
    n = fresh_name('uninit:' + name)
    if t == 'b':
        return bsym(n)
    if t in ('i', 'r'):
        return sym(n, t)
    if t[0] == 'ptr':
        return Ptr(None, bsym(n))
    return Opaque('uninit ' + name)


def mix(c, a, b):
    if c.op == 'true':
        return a
    if c.op == 'false':
        return b
    if same_val(a, b):
        return a
    if isinstance(a, Formula) and isinstance(b, Poly):
        a = ind(a)
    if isinstance(b, Formula) and isinstance(a, Poly):
        b = ind(b)
    if isinstance(a, Poly) and isinstance(b, Poly):
        return ite(c, a, b)
    if isinstance(a, Formula) and isinstance(b, Formula):
        return itef(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.lv is None or b.lv is None or same_lv(a.lv, b.lv):
            return Ptr(a.lv if a.lv is not None else b.lv, itef(c, a.null, b.null))
        if isinstance(a.lv, ArrLV) and isinstance(b.lv, ArrLV) and a.lv.o == b.lv.o and a.lv.pre == b.lv.pre:
            return Ptr(ArrLV(a.lv.o, a.lv.pre, ite(c, a.lv.off, b.lv.off)), itef(c, a.null, b.null))
    if isinstance(a, ItVal) and isinstance(b, ItVal) and a.o == b.o:
        return ItVal(a.o, ite(c, a.pos, b.pos))
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return a if isinstance(b, Opaque) else b
    raise CannotMerge()


def lexcmp(op, a, b):
    if op == '==':
        return And(*[eq(x, y) for x, y in zip(a, b)])
    if op == '!=':
        return Not(And(*[eq(x, y) for x, y in zip(a, b)]))
    if op == '>':
        return lexcmp('<', b, a)
    if op == '>=':
        return lexcmp('<=', b, a)
    r = TRUE if op == '<=' else FALSE
    for x, y in reversed(list(zip(a, b))):
        r = Or(lt(x, y), And(eq(x, y), r))
    return r
