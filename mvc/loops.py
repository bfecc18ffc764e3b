"""Statements and loops.  A loop of symbolic length is summarised: the induction variables are
guessed and the guess is checked on a generic iteration; the iterations are shown independent
(or commuting) by z3; then the loop is one quantified event per array slot and a sum / exists per
scalar.  Loops with a loop-carried state are cut at their head with candidate invariants
(strongest inductive subset)."""
from term import *
import term as T
from mem import *
from smt import check_sat, intern_ctx
from vals import *
from evalx import kids, strip

MAXUNROLL = 6000


class Restart(Exception):
    pass


def has_break(n, top=True):
    k = n.get('kind')
    if k == 'BreakStmt':
        return True
    if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt', 'SwitchStmt', 'LambdaExpr') and not top:
        return any(has_return(c) for c in kids(n))
    if k == 'ReturnStmt':
        return True
    return any(has_break(c, False) for c in kids(n))


def has_return(n):
    return n.get('kind') == 'ReturnStmt' or any(has_return(c) for c in kids(n))


def has_call(n):
    return n.get('kind') in ('CallExpr', 'CXXMemberCallExpr') or any(has_call(c) for c in kids(n))


class LoopMixin(object):
    probing = False
    lenient = False

    # -------------------------------------------------------------- statements
    def stmt(self, n, tu):
        key = ('s', id(n))
        f = self.comp.get(key)
        if f is None:
            m = getattr(self, 's_' + n['kind'], None)
            if m is None:
                g = self.disc(n, tu)
                line = n.get('_line')

                def f(st):
                    LOG.line = line
                    g(st)
                    return [('n', st)] if st.pc.ids is not None else []
            else:
                f = m(n, tu)
            self.comp[key] = f
        return f

    def seq(self, fs):
        def go(st):
            cur = [st]
            done = []
            for f in fs:
                nxt = []
                for s in cur:
                    for k, r in f(s):
                        if k == 'n':
                            nxt.append(r)
                        else:
                            done.append((k, r))
                cur = nxt
                if not cur:
                    break
            return [('n', s) for s in cur] + done
        return go

    def s_CompoundStmt(self, n, tu):
        ks = kids(n)
        f = self.seq([self.stmt(k, tu) for k in ks])
        decls = [d['id'] for k in ks if k['kind'] == 'DeclStmt' for d in kids(k)
                 if d['kind'] == 'VarDecl' and ntype(d)[0] != 'ref']
        if not decls:
            return f

        def go(st):
            outs = f(st)
            for k, s in outs:
                for i in decls:
                    lv = s.env.pop(i, None)
                    if isinstance(lv, CellLV) and lv.o in s.mem and not isinstance(s.mem[lv.o], (Arr, RList)):
                        del s.mem[lv.o]
            return outs
        return go

    def s_DeclStmt(self, n, tu):
        fs = []
        for d in kids(n):
            if d['kind'] == 'VarDecl':
                fs.append(self.declare(d, tu))
            elif d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'UsingDirectiveDecl', 'UsingDecl'):
                pass
            else:
                raise Unsupported('declaration %s' % d['kind'])

        def go(st):
            for f in fs:
                f(st)
            return [('n', st)]
        return go

    def s_NullStmt(self, n, tu):
        return lambda st: [('n', st)]

    def s_BreakStmt(self, n, tu):
        return lambda st: [('b', st)]

    def s_ContinueStmt(self, n, tu):
        return lambda st: [('c', st)]

    def s_ReturnStmt(self, n, tu):
        ks = kids(n)
        if not ks:
            return lambda st: [('r', st)]
        f = self.val(ks[0], tu)

        def go(st):
            st.ret = f(st)
            return [('r', st)]
        return go

    def s_IfStmt(self, n, tu):
        ks = kids(n)
        pre = []
        if n.get('hasInit') or n.get('hasVar'):
            raise Unsupported('if with declaration')
        fc = self.cond(ks[0], tu)
        ft = self.stmt(ks[1], tu)
        fe = self.stmt(ks[2], tu) if len(ks) > 2 else (lambda st: [('n', st)])

        def go(st):
            c = fc(st)
            d = st.pc.decide(c)
            if d is True:
                return ft(st)
            if d is False:
                return fe(st)
            base = st.pc
            s2 = st.copy()
            st.assume(c)
            s2.assume(Not(c))
            outs = ft(st) + fe(s2)
            return self.try_merge(outs, base)
        return go

    def s_SwitchStmt(self, n, tu):
        ks = kids(n)
        if len(ks) != 2 or ks[1]['kind'] != 'CompoundStmt':
            raise Unsupported('switch')
        fv = self.val(ks[0], tu)
        labels, fs = [], []                 # (value or None for default, index of its first statement)

        def flat(m):
            if m['kind'] == 'CaseStmt':
                c = kids(m)
                if len(c) != 2:
                    raise Unsupported('case range')
                labels.append((self.val(c[0], tu), len(fs)))
                flat(c[1])
            elif m['kind'] == 'DefaultStmt':
                labels.append((None, len(fs)))
                flat(kids(m)[0])
            else:
                fs.append(self.stmt(m, tu))
        for k in kids(ks[1]):
            flat(k)
        decls = [d['id'] for k in kids(ks[1]) if k['kind'] == 'DeclStmt' for d in kids(k)]
        if decls:
            raise Unsupported('declaration in a switch')

        def go(st):
            v = fv(st)
            if not isinstance(v, Poly):
                raise Unsupported('switch on %r' % (v,))
            base, outs, none = st.pc, [], TRUE
            alts = []
            for f, at in labels:
                if f is not None:
                    c = eq(v, f(st))
                    alts.append((c, at))
                    none = And(none, Not(c))
            alts.append((none, next((at for f, at in labels if f is None), len(fs))))
            for c, at in alts:
                d = base.decide(c)
                if d is False:
                    continue
                s = st.copy()
                if d is not True:
                    s.assume(c)
                outs += [('n' if k == 'b' else k, r) for k, r in self.seq(fs[at:])(s)]
                if d is True:
                    break
            return self.try_merge(outs, base) if len(outs) > 1 else outs
        return go

    # -------------------------------------------------------------- loops: front
    def s_ForStmt(self, n, tu):
        raw = n['inner']
        init, _, cond, inc, body = [x if x and 'kind' in x else None for x in raw[:5]]
        finit = self.stmt(init, tu) if init else None
        fc = self.cond(cond, tu) if cond else (lambda st: TRUE)
        fi = self.disc(inc, tu) if inc else (lambda st: None)
        fb = self.stmt(body, tu)
        decls = []
        if init and init['kind'] == 'DeclStmt':
            decls = [d['id'] for d in kids(init) if d['kind'] == 'VarDecl']

        def go(st):
            if finit:
                finit(st)
            outs = self.loop_or_split(st, fc, fb, fi, n, tu, [inc] if inc else [], body, cond)
            for k, s in outs:
                for i in decls:
                    lv = s.env.pop(i, None)
                    if isinstance(lv, CellLV):
                        s.mem.pop(lv.o, None)
            return outs
        return go

    def s_WhileStmt(self, n, tu):
        ks = kids(n)
        fc, fb = self.cond(ks[0], tu), self.stmt(ks[1], tu)
        return lambda st: self.loop_or_split(st, fc, fb, lambda s: None, n, tu, [], ks[1], ks[0])

    def loop_or_split(self, st, fc, fb, fi, n, tu, incs, body, cond):
        """while (A && B) S, when it cannot be summarised as it stands: while (A) { if (!B) break; S }"""
        c = strip(cond) if cond else None
        if c is None or c.get('kind') != 'BinaryOperator' or c.get('opcode') != '&&':
            return self.loop(st, fc, fb, fi, False, n, tu, incs, body)
        s0 = st.copy()
        log = (len(LOG.failed), {k: list(v) for k, v in LOG.counts.items()}, set(LOG.seen))
        try:
            return self.loop(st, fc, fb, fi, False, n, tu, incs, body)
        except Unsupported as e:
            if not any(w in str(e) for w in ('uncounted loop', 'condition')):
                raise
        except Refuted:
            # B was evaluated for an arbitrary iteration: the split form evaluates it where A holds
            pass
        del LOG.failed[log[0]:]
        LOG.counts, LOG.seen = log[1], log[2]
        key = ('split', id(n))
        if key not in self.comp:
            a, b = kids(c)
            ln = n.get('_line')
            t = {'type': {'qualType': 'bool'}, '_line': ln, 'valueCategory': 'prvalue'}
            no = dict(t, kind='UnaryOperator', opcode='!', isPostfix=False, inner=[b])
            br = {'kind': 'IfStmt', '_line': ln, 'inner': [no, {'kind': 'BreakStmt', '_line': ln}]}
            body2 = {'kind': 'CompoundStmt', '_line': ln, 'inner': [br, body]}
            n2 = dict(n)
            if n['kind'] == 'WhileStmt':
                n2['inner'] = [a, body2]
            else:
                n2['inner'] = list(n['inner'])
                n2['inner'][2], n2['inner'][4] = a, body2
            self.comp[key] = (n2, a, body2)
        n2, a, body2 = self.comp[key]
        return self.loop_or_split(s0, self.cond(a, tu), self.stmt(body2, tu), fi, n2, tu, incs, body2, a)

    def s_DoStmt(self, n, tu):
        ks = kids(n)
        fb, fc = self.stmt(ks[0], tu), self.cond(ks[1], tu)
        return lambda st: self.loop(st, fc, fb, lambda s: None, True, n, tu, [], ks[0])

    def s_CXXForRangeStmt(self, n, tu):
        ks = [k for k in kids(n) if k.get('kind')]
        body = ks[-1]
        var = ks[-2]
        inc = ks[-3]
        cond = ks[-4]
        pre = [self.stmt(k, tu) for k in ks[:-4]]
        fc, fi = self.cond(cond, tu), self.disc(inc, tu)
        fv, fb0 = self.stmt(var, tu), self.stmt(body, tu)
        fb = self.seq([fv, fb0])

        def go(st):
            for p in pre:
                p(st)
            return self.loop(st, fc, fb, fi, False, n, tu, [inc], body)
        return go

    # -------------------------------------------------------------- loops: driver
    def loop(self, st, fc, fb, fi, post, n, tu, incs, body):
        """dispatch: concrete unrolling while the condition is a constant"""
        base = st.pc
        active = [st]
        done = []
        first = True
        for it in range(MAXUNROLL):
            nxt = []
            for s in active:
                if post and first:
                    c = TRUE
                    # a do-while: decide symbolic or concrete by a dry evaluation at the end
                    symb = (self.curfn and self.curfn[-1] in self.providers) or self.post_symbolic(s, fc, n, tu, incs, body)
                    if symb:
                        outs = self.symbolic(s, fc, fb, fi, post, n, tu, incs, body)
                        done += [(k, r) for k, r in outs]
                        continue
                else:
                    c = fc(s)
                if c.op == 'false':
                    done.append(('n', s))
                    continue
                if first and c.op == 'true' and self.long_search(n):
                    done += self.symbolic(s, fc, fb, fi, post, n, tu, incs, body)
                    continue
                if c.op != 'true':
                    d = s.pc.decide(c)
                    if d is False:
                        done.append(('n', s))
                        continue
                    if post:
                        raise Unsupported('do-while turned symbolic')
                    done += self.symbolic(s, fc, fb, fi, post, n, tu, incs, body)
                    continue
                for k, r in fb(s):
                    if k in ('n', 'c'):
                        fi(r)
                        nxt.append(r)
                    elif k == 'b':
                        done.append(('n', r))
                    else:
                        done.append((k, r))
            first = False
            if not nxt:
                break
            if len(nxt) > 1:
                try:
                    nxt = [self.merge(nxt, base)]
                except CannotMerge:
                    pass
            active = nxt
        else:
            raise Unsupported('loop unrolled %d times' % MAXUNROLL)
        return self.try_merge(done, base) if len(done) > 1 else done

    def long_search(self, n):
        """a loop with an early exit around calls, in a function with invariant candidates: cut, not unrolled"""
        return bool(self.curfn) and self.curfn[-1] in self.providers and has_break(n) and has_call(n)

    def post_symbolic(self, s, fc, n, tu, incs, body):
        try:
            t = s.copy()
            for d in self.step_stmts(body):
                self.disc(d, tu)(t)
            c = fc(t)
            return c.op not in ('true', 'false')
        except (Unsupported, Refuted, KeyError):
            return True

    def symbolic(self, st, fc, fb, fi, post, n, tu, incs, body):
        where, line = LOG.where, n.get('_line')
        prov = self.providers.get(self.curfn[-1]) if self.curfn else None
        lp = getattr(self, 'list_provider', None)
        if lp is not None and not has_break(n) and \
                any(isinstance(st.mem[o].cells.get(p), ItVal) for o, p in self.guess_steps(st, incs, body, tu)):
            return self.houdini_loop(st, fc, fb, fi, post, n, tu, incs, body, lp)
        if prov is not None:
            nf = len(LOG.failed)
            saved = st.copy()
            soft = has_break(n) or n['kind'] in ('DoStmt', 'WhileStmt')
            try:
                return self.counted(st, fc, fb, fi, post, n, tu, incs, body)
            except (Unsupported, Refuted, CannotMerge) as e:
                if isinstance(e, Refuted) and not soft:
                    raise
                del LOG.failed[nf:]
                self.adopt(st, saved)
            return self.houdini_loop(st, fc, fb, fi, post, n, tu, incs, body, prov)
        try:
            return self.counted(st, fc, fb, fi, post, n, tu, incs, body)
        except CannotMerge:
            raise Unsupported('branches of a loop body do not merge (line %s)' % line)
        except Unsupported as e:
            if '@' not in str(e):
                raise type(e)('%s @%s:%s' % (e, where, line))
            raise

    # -------------------------------------------------------------- guessing
    def step_stmts(self, body):
        out = []
        for k in (kids(body) if body['kind'] == 'CompoundStmt' else [body]):
            s = strip(k)
            if s['kind'] == 'CompoundStmt':
                out += self.step_stmts(s)
                continue
            if s['kind'] == 'CXXOperatorCallExpr' and \
                    any(y.get('referencedDecl', {}).get('name') in ('operator++', 'operator--')
                        for x in kids(s)[:1] for y in [x] + kids(x)):
                out.append(s)
                continue
            if s['kind'] == 'UnaryOperator' and s['opcode'] in ('++', '--') or \
                    s['kind'] == 'CompoundAssignOperator' and s['opcode'] in ('+=', '-='):
                tgt = strip(kids(s)[0])
                if tgt['kind'] in ('DeclRefExpr', 'UnaryOperator', 'MemberExpr'):
                    out.append(s)
        return out

    def guess_steps(self, st0, incs, body, tu):
        t = st0.copy()
        t.wlog = set()
        for d in list(incs) + self.step_stmts(body):
            try:
                self.disc(d, tu)(t)
            except (Unsupported, Refuted, KeyError):
                pass
        steps = {}
        for (o, p) in t.wlog:
            if o not in st0.mem or isinstance(st0.mem[o], (Arr, RList)):
                continue
            a, b = st0.mem[o].cells.get(p), t.mem[o].cells.get(p)
            d = self.delta(a, b)
            if d is not None:
                steps[(o, p)] = d
        return steps

    def delta(self, a, b):
        if isinstance(a, Poly) and isinstance(b, Poly):
            return b - a
        try:
            if isinstance(a, ItVal) and isinstance(b, ItVal) or isinstance(a, Ptr) and isinstance(b, Ptr):
                return self.ptr_diff(b, a)
        except Unsupported:
            pass
        return None

    def guess_written(self, st0, n):
        """cells assigned syntactically in the loop"""
        W = set()

        def base_of(m):
            m = strip(m)
            while m['kind'] in ('ImplicitCastExpr', 'ArraySubscriptExpr', 'ParenExpr', 'MemberExpr', 'UnaryOperator'):
                m = strip(kids(m)[0])
            return m

        def mark(m):
            b = base_of(m)
            if b['kind'] != 'DeclRefExpr':
                return
            lv = st0.env.get(b['referencedDecl']['id'])
            if not isinstance(lv, CellLV) or lv.o not in st0.mem:
                return
            direct = strip(m) is b
            o = st0.mem[lv.o]
            if isinstance(o, (Arr, RList)):
                return
            if direct:
                W.add((lv.o, lv.p))
                return
            v = o.cells.get(lv.p)
            if isinstance(v, Ptr) and not isinstance(v.lv, CellLV):
                return
            if isinstance(v, Ptr) and isinstance(v.lv, CellLV):
                oo = st0.mem.get(v.lv.o)
                if isinstance(oo, Cells) and v.lv.p[:1] and isinstance(v.lv.p[-1], int):
                    for p in oo.cells:
                        if p[:len(v.lv.p) - 1] == v.lv.p[:-1]:
                            W.add((v.lv.o, p))
                elif isinstance(oo, Cells):
                    W.add((v.lv.o, v.lv.p))
                return
            for p in o.cells:
                if p[:len(lv.p)] == lv.p:
                    W.add((lv.o, p))

        def walk(m):
            k = m.get('kind')
            if k in ('CompoundAssignOperator',) or k == 'BinaryOperator' and m.get('opcode') == '=':
                mark(kids(m)[0])
            elif k == 'UnaryOperator' and m.get('opcode') in ('++', '--'):
                mark(kids(m)[0])
            for c in kids(m):
                walk(c)
        walk(n)
        return W

    # -------------------------------------------------------------- counted loops
    def shift(self, v, d):
        if isinstance(v, Poly):
            return v + d
        return self.plus(v, d)

    def havoc(self, st, o, p):
        obj = st.mem[o]
        t = sub_type(self, obj.type, p)
        old = obj.cells.get(p)
        if isinstance(old, (Stream, ListRef)):
            return old
        if t == 'b':
            return bsym(fresh_name('h'))
        if t in ('i', 'r'):
            return sym(fresh_name('h'), t)
        if isinstance(old, ItVal):
            return ItVal(old.o, sym(fresh_name('h'), 'i'))
        if t[0] == 'ptr':
            return Ptr(None, bsym(fresh_name('h')))
        return Opaque('havoc')

    def trip(self, c, q, post, st):
        """number of iterations from the condition as a function of the iteration number q"""
        qa = next(iter(q.atoms()))
        if c.op == 'and':
            # conjuncts independent of q must hold throughout
            dep = [f for f in c.args if qa in term_fv(f)]
            ind_ = [f for f in c.args if qa not in term_fv(f)]
            if len(dep) == 1 and st.pc.decide(And(*ind_)) is True:
                c = dep[0]
        if c.op == 'le' or c.op == 'lt':
            p = c.args[0]
            a = p.t.get(((qa, 1),), 0)
            b = p - q * a
            if qa in b.fv() or not isinstance(a, int) or a <= 0:
                raise Unsupported('condition %r' % c)
            if c.op == 'lt':
                raise Unsupported('real condition')
            if a == 1:
                T_ = ONE - b
            else:
                # q <= -b/a
                nb = -b
                qq = {}
                for m, k in nb.t.items():
                    if m:
                        if k % a:
                            raise Unsupported('stride %d' % a)
                        qq[m] = k // a
                    else:
                        qq[m] = k // a
                T_ = Poly({m: k for m, k in qq.items() if k}) + 1
        elif c.op == 'not' and c.args[0].op == 'eq':
            p = c.args[0].args[0]
            a = p.t.get(((qa, 1),), 0)
            b = p - q * a
            if qa in b.fv() or a not in (1, -1):
                raise Unsupported('condition %r' % c)
            T_ = -b * a
            if st.pc.decide(le(0, T_)) is not True:
                raise Unsupported('!= loop may not end')
        else:
            raise Unsupported('uncounted loop %r' % c)
        if post:
            T_ = T_ + 1
            if st.pc.decide(le(1, T_)) is not True:
                raise Unsupported('do-while trip count')
        return T_

    def counted(self, st0, fc, fb, fi, post, n, tu, incs, body):
        W = self.guess_written(st0, n)
        steps = {k: d for k, d in self.guess_steps(st0, incs, body, tu).items()}
        W |= set(steps)
        stable = {oid for oid, a in st0.mem.items() if isinstance(a, Arr) and a.sort in ('i', 'b')}
        wild = set()
        for attempt in range(12):
            try:
                return self.counted1(st0, fc, fb, fi, post, n, tu, W, steps, stable, wild)
            except Restart:
                continue
        raise Unsupported('loop summary did not stabilise')

    def counted1(self, st0, fc, fb, fi, post, n, tu, W, steps, stable, wild):
        q = fresh('q', 'i')
        qa = ATOMS[next(iter(q.atoms()))]
        inits = {}
        for o, p in sorted(W, key=repr):
            inits[(o, p)] = self.read_leaf(st0, st0.mem[o], o, p)
        # trip count
        s = st0.copy()
        hav = {}
        for k in W:
            if k in steps:
                s.setcell(k[0], k[1], self.shift(inits[k], steps[k] * (q + 1 if post else q)))
            else:
                hav[k] = self.havoc(st0, *k)
                if isinstance(inits[k], Ptr) and inits[k].null.op == 'false' and isinstance(inits[k].lv, ArrLV) and k not in wild:
                    # a pointer walking through one array; checked after the body
                    hav[k] = Ptr(ArrLV(inits[k].lv.o, inits[k].lv.pre, sym(fresh_name('h'), 'i')))
                s.setcell(k[0], k[1], hav[k])
        c = fc(s)
        T_ = self.trip(c, q, post, st0)
        if any(ATOMS[a].kind == 'sym' and ATOMS[a].args[0].startswith('h#') for a in T_.fv()):
            raise Unsupported('trip count depends on loop state')
        # control variable in flat form
        box, runs = self.iteration_space(st0, T_, q, inits, steps, n)
        # generic iterations
        res = []
        bases = {}
        for (num, guard, qs) in runs:
            s = st0.copy()
            s.wlog = set()
            s.traces = {}
            for k in W:
                s.setcell(k[0], k[1], self.shift(inits[k], steps[k] * num) if k in steps else hav[k])
            s.wlog = set()
            for oid, a in list(s.mem.items()):
                if isinstance(a, Arr) and oid not in stable:
                    lb = bases.get(oid)
                    if lb is None:
                        lb = LoopBase(a)
                        lb.prev = st0.mem[oid].copy()
                        bases[oid] = lb
                    a.base = lb
                    a.heads = {}
            rng = [And(le(0, P(a)), lt(P(a), z)) for a, z in qs] + [guard]
            s.pc = s.pc.extend(*rng)
            if not s.pc.consistent():
                continue
            base_pc = s.pc
            self.loopdepth += 1
            probe = s.copy()
            try:
                outs = fb(s)
            except Undecodable:
                # an index built from a running counter: find the counter's constant step and start over
                if self.lenient or not self.running(probe, fb, fi, hav, steps, qs):
                    raise
                raise Restart()
            finally:
                self.loopdepth -= 1
            norm, exits = [], []
            for k, r in outs:
                if k in ('n', 'c'):
                    fi(r)
                    norm.append(r)
                else:
                    exits.append((k, r))
            npcs = [r.pc for r in norm]
            if len(norm) > 1:
                norm = [self.merge(norm, base_pc)]
            allst = norm + [r for _, r in exits]
            new = set()
            for r in allst:
                for k in r.wlog:
                    if k[0] in st0.mem and not isinstance(st0.mem[k[0]], (Arr, RList)) and k not in W:
                        new.add(k)
            if new:
                W |= new
                raise Restart()
            for k, h in hav.items():
                if isinstance(h, Ptr) and h.lv is not None:
                    for r in allst:
                        v = r.mem[k[0]].cells.get(k[1])
                        if not (isinstance(v, Ptr) and v.null.op == 'false' and isinstance(v.lv, ArrLV) and v.lv.o == h.lv.o and v.lv.pre == h.lv.pre):
                            wild.add(k)
                            raise Restart()
            # integer arrays (connectivity) are taken as not written by the loop; checked here
            moved = {oid for oid in stable for r in allst if oid in r.mem and
                     (r.mem[oid].heads != st0.mem[oid].heads or r.mem[oid].base is not st0.mem[oid].base or r.mem[oid].alive is not st0.mem[oid].alive)}
            if moved:
                stable -= moved
                raise Restart()
            for r in norm:
                for k in list(steps):
                    want = self.shift(inits[k], steps[k] * (num + 1))
                    got = r.mem[k[0]].cells.get(k[1])
                    if not self.veq(got, want, r.pc):
                        d = self.delta(inits[k] if not isinstance(inits[k], Poly) else P(inits[k]), got)
                        del steps[k]
                        raise Restart()
                for oid, o in st0.mem.items():
                    if isinstance(o, RList) and r.mem[oid].size != o.size:
                        raise Unsupported('list grows in a loop')
                if any(r.ghost.get(g) is not v and not same_val(r.ghost.get(g), v) for g, v in st0.ghost.items()) \
                        or len(r.ghost) != len(st0.ghost):
                    raise Unsupported('ghost state changes in a loop')
                for oid in r.allocs[len(st0.allocs):]:
                    if oid in r.mem and (not isinstance(r.mem[oid], Arr) or r.mem[oid].alive is True):
                        raise Unsupported('allocation in a loop')
            res.append((num, guard, qs, norm, exits, base_pc))
        if any(ex for _, _, _, _, ex, _ in res):
            return self.search(st0, res, T_, W, steps, inits, hav, bases, fb, npcs)
        if getattr(self, 'witness', ()) and len(res) == 1 and len(qs) == 1 and hav:
            o = self.single(st0, probe, T_, num, qs[0], steps, inits, hav, bases, fb, fi)
            if o is not None:
                return o
        return self.summarise(st0, res, T_, W, steps, inits, hav, bases, box)

    def single(self, st0, probe, T_, num, q, steps, inits, hav, bases, fb, fi):
        """a loop whose iterations, all but a known one, change nothing: that iteration alone"""
        qa, size = q
        for w in self.witness:
            if st0.pc.decide(And(le(0, w), lt(w, size))) is not True:
                continue
            s = probe.copy()
            s.assume(Not(eq(P(qa), w)))
            idle = True
            for k, r in fb(s):
                if k not in ('n', 'c'):
                    return None
                fi(r)
                idle = idle and not any(r.mem[oid].heads for oid in bases if oid in r.mem) and not any(r.traces.values()) and \
                    all(same_val(r.mem[k[0]].cells.get(k[1]), h) for k, h in hav.items())
            if not idle:
                continue
            hit = st0.copy()
            wlog, hit.wlog = hit.wlog, set()
            n = subst(num, {qa.id: w})
            for k in steps:
                hit.setcell(k[0], k[1], self.shift(inits[k], steps[k] * n))
            out = []
            for kind, r in fb(hit):
                if kind not in ('n', 'c'):
                    return None
                for k in steps:
                    r.setcell(k[0], k[1], self.final_induction(st0, inits[k], steps[k], T_))
                r.wlog = (wlog | r.wlog) if wlog is not None else None
                out.append(('n', r))
            LOG.ok('loop-summary')
            return out
        return None

    def running(self, s, fb, fi, hav, steps, qs):
        """only a guess: the step is checked on the generic iteration of the restarted loop"""
        nf, self.lenient = len(LOG.failed), True
        found = {}
        try:
            outs = [r for k, r in fb(s) if k in ('n', 'c')]
            for r in outs:
                fi(r)
            own = {a.id for a, _ in qs}
            for k, h in hav.items():
                ds = {self.delta(h, r.mem[k[0]].cells.get(k[1])) for r in outs}
                if not ds or None in ds:
                    continue
                d = ds.pop()
                if not ds and d != ZERO and not (d.fv() & own) and \
                        not any(ATOMS[a].kind == 'sym' and ATOMS[a].args[0].startswith('h#') for a in d.fv()):
                    found[k] = d
        except (Unsupported, Refuted, CannotMerge):
            pass
        finally:
            self.lenient = False
            del LOG.failed[nf:]
        steps.update(found)
        return bool(found)

    def veq(self, a, b, pc):
        if isinstance(a, Poly) and isinstance(b, Poly):
            return a == b or deep(a - b, pc, 'ite') == ZERO
        return same_val(a, b)

    def iteration_space(self, st0, T_, q, inits, steps, n):
        """list of (iteration number poly, guard, q box).  Flat ranges that factor into the grid
        are split into digits, with the innermost constant factor enumerated."""
        qa = ATOMS[next(iter(q.atoms()))]
        plain = [(q, TRUE, ((qa, T_),))]
        c = T_.const()
        if c is not None:
            raise Unsupported('constant trip count')
        # offset of the control variable: try T + v0 for every integer induction variable of step 1
        offs = [ZERO]
        for k, d in steps.items():
            v = inits[k]
            if isinstance(v, Poly) and d == ONE and v.t and v not in offs:
                offs.append(v)
            elif isinstance(v, Ptr) and isinstance(v.lv, ArrLV) and d == ONE and v.lv.off.t and v.lv.off not in offs:
                offs.append(v.lv.off)
        for off in offs:
            if off.t and self.linear(T_):
                continue
            f = self.factor(T_ + off)
            if f is None:
                continue
            grid, ns = f
            if len(grid) == 1 and ns == 1:
                return None, plain
            if ns > 700:
                raise Unsupported('%d slots' % ns)
            qs = tuple((mk_atom('sym', (fresh_name('q'),), 'i'), g) for g in grid)
            flat = ZERO
            for a, g in qs:
                flat = flat * g + P(a)
            runs = []
            rng = st0.pc.extend(*[And(le(0, P(a)), lt(P(a), g)) for a, g in qs])
            for s in range(ns):
                v = flat * ns + s
                guard = TRUE
                if off.t:
                    guard = self.cmp('>=', v, off, rng)
                    if not self.linear_f(guard):
                        guard = None
                        break
                runs.append((v - off, guard, qs))
            if guard is None:
                continue
            return None, runs
        return None, plain

    def linear_f(self, f):
        if f.op in ('and', 'or', 'not'):
            return all(self.linear_f(x) for x in f.args)
        if f.op in ('le', 'lt', 'eq'):
            return self.linear(f.args[0])
        return True

    # -------------------------------------------------------------- summary
    def ren(self, qs, tag):
        return {a.id: P(mk_atom('sym', (fresh_name(tag),), 'i')) for a, _ in qs}

    def conflict(self, ctx, e1, e2, same_run):
        """can iteration q of e1 and another iteration q' of e2 touch the same place?
        e = (qs, guard, ev)"""
        qs1, g1, ev1 = e1
        qs2, g2, ev2 = e2
        key = ('cf', ctx, tuple(a.id for a, _ in qs1), g1.id, ev1.guard.id, ev1.coords, ev1.q,
               tuple(a.id for a, _ in qs2), g2.id, ev2.guard.id, ev2.coords, ev2.q, same_run)
        r = self.cc.get(key)
        if r is not None:
            return r == 'y'
        sg = self.ren(qs2 + ev2.q, "q'")
        sg1 = self.ren(ev1.q, 'qi')
        fs = [And(le(0, P(a)), lt(P(a), z)) for a, z in qs1] + [g1, subst(ev1.guard, sg1)]
        fs += [And(le(0, sg1[a.id]), lt(sg1[a.id], subst(z, sg1))) for a, z in ev1.q]
        fs += [subst(And(le(0, P(a)), lt(P(a), z)), sg) for a, z in qs2 + ev2.q] + [subst(g2, sg), subst(ev2.guard, sg)]
        for c1, c2 in zip(ev1.coords, ev2.coords):
            fs.append(eq(subst(c1, sg1), subst(c2, sg)))
        if same_run:
            fs.append(Or(*[ne(P(a), sg[a.id]) for a, _ in qs1]))
        r = self.sat_nl(ctx, fs)
        self.cc[key] = 'y' if r else 'n'
        return r

    def sat_nl(self, ctx, fs):
        cj = And(*fs)
        if cj.op == 'false':
            return False
        cx = ctx.extend(*fs)
        return check_sat(cx.fs) != 'unsat'

    def read_conflict(self, ctx, qs, guard, co, e2, same_run):
        d = Ev.__new__(Ev)
        d.q, d.guard, d.coords = (), TRUE, tuple(co)
        return self.conflict(ctx, (qs, guard, d), e2, same_run)

    def collect(self, st0, res, bases):
        """events per (array, slot): list of (run index, ev) in order"""
        evs = {}
        for ri, (num, guard, qs, norm, exits, bpc) in enumerate(res):
            for r in norm:
                for oid, lb in bases.items():
                    a = r.mem.get(oid)
                    if a is None:
                        continue
                    if a.alive is not st0.mem[oid].alive:
                        raise Unsupported('array freed in a loop')
                    for slot, h in a.heads.items():
                        chain = []
                        while h is not lb:
                            if h.kind != 'ev':
                                raise Unsupported('array replaced in a loop')
                            chain.append(h)
                            h = h.parent
                        if chain:
                            evs.setdefault((oid, slot), []).extend((ri, e) for e in reversed(chain))
        return evs

    def localiser(self, st0, ri, run, evs, bases, roots, allruns, ctx, extra_q=()):
        num, guard, qs = run[0], run[1], run[2]
        lb2oid = {lb: oid for oid, lb in bases.items()}

        def onsel(node, slot, co, sort):
            oid = lb2oid.get(node)
            if oid is None:
                return None
            for (rj, e) in evs.get((oid, slot), ()):
                r2 = allruns[rj]
                if self.read_conflict(ctx, qs + tuple(extra_q), guard, co, (r2[2], r2[1], e), False if rj != ri else True):
                    raise Unsupported('iterations depend on each other through %s' % node.prev.name)
            return node.prev.read(slot, co, ctx)
        return Deep(ctx, 'ite', roots, onsel)

    def summarise(self, st0, res, T_, W, steps, inits, hav, bases, box):
        allruns = [(r[0], r[1], r[2]) for r in res]
        evs = self.collect(st0, res, bases)
        roots = set(bases.values())
        lb2oid = {lb: oid for oid, lb in bases.items()}
        # self-accumulation
        conv_ev = {}
        for (oid, slot), lst in evs.items():
            lb = bases[oid]
            out = []
            for ri, e in lst:
                if e.op == 'set' and isinstance(e.val, Poly):
                    sa = mk_atom('sel', (lb, slot, e.coords), st0.mem[oid].sort)
                    if e.val.t.get(((sa.id, 1),)) == 1:
                        rest = e.val - P(sa)
                        if sa.id not in rest.fv():
                            ne_ = Ev(e.parent, e.q, e.guard, e.coords, 'add', rest)
                            out.append((ri, ne_))
                            continue
                out.append((ri, e))
            conv_ev[(oid, slot)] = out
        evs = conv_ev
        ctx0 = st0.pc
        # array events: localise, check pairwise, append
        newheads = {}
        for (oid, slot), lst in evs.items():
            loc = []
            for ri, e in lst:
                run = res[ri]
                cx = ctx0.extend(*([And(le(0, P(a)), lt(P(a), z)) for a, z in run[2] + e.q] + [run[1], ]))
                L = self.localiser(st0, ri, run, evs, bases, roots, allruns, cx, e.q)
                co = tuple(L(c) for c in e.coords)
                g = L(e.guard)
                if g.op != 'true':
                    cx2 = cx.extend(g)
                    L2 = self.localiser(st0, ri, run, evs, bases, roots, allruns, cx2, e.q)
                else:
                    L2 = L
                v = L2(e.val)
                self.no_havoc(v, hav)
                self.no_havoc(g, hav)
                for c in co:
                    self.no_havoc(c, hav)
                loc.append((ri, e, co, g, v))
            for i in range(len(loc)):
                for j in range(i, len(loc)):
                    ri, e1, co1, g1, v1 = loc[i]
                    rj, e2, co2, g2, v2 = loc[j]
                    if e1.op == 'add' and e2.op == 'add':
                        continue
                    if isinstance(v1, Poly) and isinstance(v2, Poly) and e1.op == e2.op == 'set' and v1 == v2 and v1.const() is not None:
                        continue
                    x1 = Ev(e1.parent, e1.q, g1, co1, e1.op, v1)
                    x2 = Ev(e2.parent, e2.q, g2, co2, e2.op, v2)
                    if self.conflict(ctx0, (res[ri][2], res[ri][1], x1), (res[rj][2], res[rj][1], x2), ri == rj):
                        if e1.op == e2.op == 'set' and self.idempotent(res[ri], x1, res[rj], x2):
                            continue
                        raise Unsupported('iterations write the same place of %s' % st0.mem[oid].name)
            h = st0.mem[oid].head(slot)
            for ri, e, co, g, v in loc:
                h = Ev(h, tuple(res[ri][2]) + e.q, And(res[ri][1], g), co, e.op, v)
            newheads[(oid, slot)] = h
        # scalars
        newcells = {}
        for k in sorted(W, key=repr):
            if k in steps:
                newcells[k] = self.final_induction(st0, inits[k], steps[k], T_)
                continue
            h = hav[k]
            outs = [(ri, res[ri][3][0].mem[k[0]].cells.get(k[1])) for ri in range(len(res)) if res[ri][3]]
            if all(same_val(v, h) for _, v in outs):
                newcells[k] = inits[k]
                continue
            newcells[k] = self.final_scalar(st0, k, h, outs, inits[k], T_, res, evs, bases, roots, allruns, hav)
        traces = {}
        keys = set()
        for r in res:
            for s in r[3]:
                keys |= set(s.traces)
        for key in keys:
            segs = []
            for ri, r in enumerate(res):
                if not r[3]:
                    continue
                cx = ctx0.extend(*([And(le(0, P(a)), lt(P(a), z)) for a, z in r[2]] + [r[1]]))
                L = self.localiser(st0, ri, r, evs, bases, roots, allruns, cx)
                segs.append(self.map_trace(r[3][0].traces.get(key, ()), L))
            traces[key] = st0.traces.get(key, ()) + (('loop', tuple(res[0][2]), tuple(r[1] for r in res), tuple(segs)),)
        for (oid, slot), h in newheads.items():
            st0.mem[oid].heads[slot] = h
        for k, v in newcells.items():
            st0.setcell(k[0], k[1], v)
        for key, t in traces.items():
            st0.traces[key] = t
        LOG.ok('loop-summary')
        return [('n', st0)]

    def map_trace(self, toks, L):
        out = []
        for t in toks:
            out.append(self.map_tok(t, L))
        return tuple(out)

    def map_tok(self, t, L):
        if t[0] == 'out':
            return ('out', self.map_val(t[1], L))
        if t[0] == 'if':
            return ('if', L(t[1]), self.map_trace(t[2], L), self.map_trace(t[3], L))
        if t[0] == 'loop':
            return ('loop', t[1], t[2], tuple(self.map_trace(s, L) for s in t[3]))
        return t

    def map_val(self, v, L):
        if isinstance(v, (Poly, Formula)):
            return L(v)
        return v

    def idempotent(self, r1, x1, r2, x2):
        """the same value wherever two iterations meet: value independent of the iteration"""
        ids1 = {a.id for a, _ in r1[2] + x1.q}
        ids2 = {a.id for a, _ in r2[2] + x2.q}
        return same_val(x1.val, x2.val) and not (term_fv(x1.val) & (ids1 | ids2))

    def no_havoc(self, v, hav):
        for h in hav.values():
            if isinstance(h, (Poly, Formula)):
                ids = {a for a in term_fv(h)}
                if term_fv(v) & ids:
                    raise Unsupported('loop-carried scalar')

    def final_induction(self, st0, v, d, T_):
        if st0.pc.decide(le(0, T_)) is True:
            return self.shift(v, d * T_)
        return self.shift(v, d * ite(le(0, T_), T_, ZERO))

    def final_scalar(self, st0, k, h, outs, init, T_, res, evs, bases, roots, allruns, hav):
        unknown = lambda: self.havoc(st0, *k)
        hs = set()
        for x in hav.values():
            if isinstance(x, (Poly, Formula)):
                hs |= term_fv(x)
        own = term_fv(h) if isinstance(h, (Poly, Formula)) else frozenset()
        vals = []
        for ri, v in outs:
            r = res[ri]
            cx = st0.pc.extend(*([And(le(0, P(a)), lt(P(a), z)) for a, z in r[2]] + [r[1]]))
            if not isinstance(v, (Poly, Formula)):
                return unknown()
            try:
                L = self.localiser(st0, ri, r, evs, bases, roots, allruns, cx)
                vals.append((ri, L(v)))
            except Unsupported:
                return unknown()
        pos = st0.pc.decide(le(0, T_)) is True
        if isinstance(h, Poly):
            ds = [(ri, v - h) for ri, v in vals]
            if all(not (d.fv() & hs) for _, d in ds):
                tot = ZERO
                for ri, d in ds:
                    r = res[ri]
                    bx = tuple(r[2])
                    if not pos:
                        bx = tuple((a, z if st0.pc.decide(le(0, z)) is True else ite(le(0, z), z, ZERO)) for a, z in bx)
                    tot = tot + Sum(bx, d * ind(r[1]))
                return init + tot
        elif isinstance(h, Formula):
            fs = []
            for ri, v in vals:
                # v = h or f
                f1 = subst(v, {next(iter(own)): TRUE}) if own else v
                f0 = subst(v, {next(iter(own)): FALSE}) if own else v
                if term_fv(f0) & hs or term_fv(f1) & hs:
                    return unknown()
                if f1.op != 'true' and st0.pc.decide(f1) is not True:
                    fs = None
                    break
                fs.append((ri, f0))
            if fs is not None:
                out = init
                for ri, f in fs:
                    r = res[ri]
                    out = Or(out, Exists(tuple(r[2]), And(f, r[1])))
                return out
            fs = []
            for ri, v in vals:
                f1 = subst(v, {next(iter(own)): TRUE})
                f0 = subst(v, {next(iter(own)): FALSE})
                if f0.op != 'false':
                    fs = None
                    break
                fs.append((ri, f1))
            if fs is not None:
                out = init
                for ri, f in fs:
                    r = res[ri]
                    out = And(out, Not(Exists(tuple(r[2]), And(Not(f), r[1]))))
                return out
        # overwritten in every iteration: the value of the last one
        if len(vals) == 1 and len(res) == 1 and len(res[0][2]) == 1 and not (term_fv(vals[0][1]) & hs) and \
                res[0][1].op == 'true':
            qa, z = res[0][2][0]
            last = subst(vals[0][1], {qa.id: T_ - 1})
            if st0.pc.decide(le(1, T_)) is True:
                return last
            if isinstance(last, (Poly, Formula)) and isinstance(init, type(last)):
                return mix(le(1, T_), last, init)
        return unknown()

    # -------------------------------------------------------------- search loops
    def search(self, st0, res, T_, W, steps, inits, hav, bases, fb, npcs):
        """for (...) if (c(q)) { effects; break; }  : first hit, or none"""
        if len(res) != 1 or len(res[0][2]) != 1 or res[0][1].op != 'true':
            raise Unsupported('break in a loop')
        num, guard, qs, norm, exits, bpc = res[0]
        (qa, size), = qs
        for r in norm:
            if any(r.mem[oid].heads for oid in bases if oid in r.mem) or any(r.traces.values()):
                raise Unsupported('search loop with effects')
            for k in W:
                if k not in steps and not same_val(r.mem[k[0]].cells.get(k[1]), hav[k]):
                    raise Unsupported('search loop with effects on a variable')
        if not norm:
            raise Unsupported('loop without a normal iteration')
        # an iteration leaves the loop exactly when it does not complete normally
        c = Not(Or(*[And(*[f for f in pc.fs if f.id not in bpc.ids]) for pc in npcs]))
        roots = set(bases.values())
        rb0 = lambda node, slot, co, sort: node.prev.read(slot, co, bpc) if node in roots else None
        c = Deep(bpc, 'ite', roots, rb0)(c)         # under the iteration's own assumptions only
        sg = {}
        for k, h in hav.items():
            if isinstance(h, (Poly, Formula)) and isinstance(inits[k], (Poly, Formula)):
                for a in term_fv(h):
                    sg[a] = inits[k]
        c = subst(c, sg)
        out = []
        ex_f = Exists(((qa, size),), c)
        d = st0.pc.decide(ex_f)
        at = P(qa)
        for w in getattr(self, 'witness', ()):
            # an element known to satisfy the condition
            if st0.pc.decide(And(le(0, w), lt(w, size), deep(subst(c, {qa.id: w}), st0.pc, 'ite'))) is True:
                d = True
                if st0.pc.extend(And(le(0, at), lt(at, size)), c).decide(eq(at, w)) is True:
                    at = w
        # not found
        miss = st0.copy()
        if d is not True:
            miss.assume(Not(ex_f))
            for k in steps:
                miss.setcell(k[0], k[1], self.final_induction(st0, inits[k], steps[k], T_))
            miss.searches = st0.searches + (('miss', qa, size, c),)
            out.append(('n', miss))
        if d is not False:
            # the iterations before the first hit changed nothing: run that iteration from the state before the loop
            hit = st0.copy()
            wlog = hit.wlog
            hit.wlog = set()
            n = subst(num, {qa.id: at})
            for k in steps:
                hit.setcell(k[0], k[1], self.shift(inits[k], steps[k] * n))
            hit.assume(And(le(0, at), lt(at, size)), subst(c, {qa.id: at}), ex_f)
            hit.searches = st0.searches + (('hit', qa, size, c),)
            for kind, r in fb(hit):
                if kind in ('n', 'c'):
                    continue
                r.wlog = (wlog | r.wlog) if wlog is not None else None
                out.append(('n' if kind == 'b' else kind, r))
        LOG.ok('loop-summary')
        return out

    # -------------------------------------------------------------- loops with invariants
    def probe_writes(self, st0, fc, fb, fi, post, W, WA):
        """cheap pass over the body from an arbitrary state, to find what it writes"""
        s = st0.copy()
        for k in sorted(W, key=repr):
            s.setcell(k[0], k[1], self.havoc(st0, *k))
        s.wlog = set()
        for oid, a in list(s.mem.items()):
            if isinstance(a, Arr) and a.sort == 'r':
                if a.base.kind == 'base' and a.base.hook is not None and not a.heads:
                    continue
                a.base = Base(fresh_name('probe:' + a.name))
                a.heads = {}
        pre = {oid: (a.base, dict(a.heads)) for oid, a in s.mem.items() if isinstance(a, Arr)}
        log = (len(LOG.failed), {k: list(v) for k, v in LOG.counts.items()}, set(LOG.seen))
        was, self.probing = self.probing, True
        try:
            outs = fb(s)
        except (Unsupported, Refuted, CannotMerge, Fork):
            return
        finally:
            self.probing = was
            del LOG.failed[log[0]:]
            LOG.counts, LOG.seen = log[1], log[2]
        for k, r in outs:
            for w in r.wlog:
                if w[0] in st0.mem and not isinstance(st0.mem[w[0]], (Arr, RList)):
                    W.add(w)
            for oid, (b, h) in pre.items():
                if oid in r.mem and (r.mem[oid].base is not b or r.mem[oid].heads != h):
                    WA.add(oid)

    def houdini_loop(self, st0, fc, fb, fi, post, n, tu, incs, body, prov):
        W = self.guess_written(st0, n) | set(self.guess_steps(st0, incs, body, tu))
        WA = set()
        cands = None
        dropped = set()
        self.probe_writes(st0, fc, fb, fi, post, W, WA)
        for attempt in range(40):
            s = st0.copy()
            s.wlog = set()
            hav = {}
            for k in sorted(W, key=repr):
                hav[k] = self.havoc(st0, *k)
                s.setcell(k[0], k[1], hav[k])
            s.wlog = set()
            for oid in WA:
                a = s.mem[oid]
                a.base = Base(fresh_name('head:' + a.name))
                a.heads = {}
            ghosts = {}
            for g, v in st0.ghost.items():
                if isinstance(v, (Poly, Formula)):
                    s.ghost[g] = sym(fresh_name('gh'), 'r' if g != 'nsolve' else 'i') if isinstance(v, Poly) else bsym(fresh_name('gh'))
            allc = prov(self, st0, W, WA, n) if not self.probing else []
            cands = [c for c in allc if c.key not in dropped]
            bad = [c for c in cands if not c.holds(self, st0, st0)]
            if bad:
                dropped |= {c.key for c in bad}
                continue
            for c in cands:
                c.assume(self, st0, s)
            head_bases = {oid: s.mem[oid].base for oid in WA}
            exits, backs, rets = [], [], []
            cur = []
            if not post:
                c = fc(s)
                d = s.pc.decide(c)
                if d is not True:
                    e = s.copy()
                    e.assume(Not(c))
                    exits.append(e)
                if d is not False:
                    s.assume(c)
                    cur.append(s)
            else:
                cur.append(s)
            entry_heads = {oid: (a.base, dict(a.heads)) for oid, a in st0.mem.items() if isinstance(a, Arr)}
            for s1 in cur:
                for k, r in fb(s1):
                    if k == 'b':
                        exits.append(r)
                    elif k == 'r':
                        rets.append(r)
                    else:
                        fi(r)
                        if post:
                            c = fc(r)
                            d = r.pc.decide(c)
                            if d is not True:
                                e = r.copy()
                                e.assume(Not(c))
                                exits.append(e)
                            if d is not False:
                                r.assume(c)
                                backs.append(r)
                        else:
                            backs.append(r)
            newW, newA = set(), set()
            for r in exits + backs + rets:
                for k in r.wlog:
                    if k[0] in st0.mem and not isinstance(st0.mem[k[0]], (Arr, RList)) and k not in W:
                        newW.add(k)
                for oid, a in st0.mem.items():
                    if isinstance(a, Arr) and oid not in WA and oid in r.mem:
                        if r.mem[oid].heads != a.heads or r.mem[oid].base is not a.base:
                            newA.add(oid)
                if r.allocs != st0.allocs:
                    for oid in r.allocs[len(st0.allocs):]:
                        if oid in r.mem and isinstance(r.mem[oid], Arr) and r.mem[oid].alive is True:
                            raise Unsupported('allocation in a loop')
            if newW or newA:
                W |= newW
                WA |= newA
                continue
            bad = set()
            for r in backs:
                for c in cands:
                    if not c.holds(self, st0, r):
                        bad.add(c.key)
            if bad:
                dropped |= bad
                continue
            for c in cands:
                LOG.ok('loop-invariant')
            if hasattr(prov, 'final') and not self.probing:
                def first():
                    f = st0.copy()
                    f.wlog = set()
                    if not post:
                        f.assume(fc(f))
                    if not f.pc.consistent():
                        return []
                    out = []
                    for k, r in fb(f):
                        if k == 'n' or k == 'c':
                            fi(r)
                        out.append((k, r))
                    return out
                prov.final(self, st0, backs, exits, rets, first)
            self.invariants = getattr(self, 'invariants', [])
            self.invariants.append((self.curfn[-1], n.get('_line'), [c.desc for c in cands]))
            out = []
            for r in exits:
                if r.pc.consistent():
                    out.append(('n', r))
            for r in rets:
                if r.pc.consistent():
                    out.append(('r', r))
            for _, r in out:
                r.wlog = (st0.wlog | r.wlog) if st0.wlog is not None else None
            return out
        raise Unsupported('invariant search did not end')
