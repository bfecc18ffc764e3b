"""The log writer write_info_files: what each call appends to the three log files, for every list of Gauss points."""
from vtuu import *
from vtuu import Bad

LOGS = ('micropp_convergence.dat', 'micropp_eps_sig_ctan.dat', 'micropp_int_vars_n.dat')


class Lines(Scan):
    def text(self, s):
        for ch in s:
            if ch == '\n':
                self.endword()
                self.ev.append(('nl',))
            elif ch.isspace():
                self.endword()
            elif self.word and isinstance(self.word[-1], str):
                self.word[-1] += ch
            else:
                self.word.append(ch)


def lines_scan(tr):
    s = Lines()
    for t in tr:
        if t[0] == 'out':
            v = t[1]
            if isinstance(v, Str):
                s.text(v.s)
            elif isinstance(v, Char):
                s.text(chr(v.v))
            elif isinstance(v, (Poly, Formula)):
                if s.word:
                    raise Unsupported('glued values')
                s.value(v)
            else:
                raise Unsupported('output of %r' % (v,))
        elif t[0] in ('loop', 'if'):
            if s.word:
                raise Unsupported('value glued to a loop in the output')
            if t[0] == 'loop':
                s.ev.append(('loop', t[1], [(g, lines_scan(seg)) for g, seg in zip(t[2], t[3])]))
            else:
                s.ev.append(('if', t[1], lines_scan(t[2]), lines_scan(t[3])))
        else:
            raise Unsupported('stream operation %s' % t[0])
    if s.word and not isinstance(s.word[-1], str):
        raise Unsupported('segment ends in a number')
    s.endword()
    return s.ev


def files_of(o):
    """file name -> tokens appended, in order; modes"""
    out, modes = {}, {}
    for sid, tr in o.traces.items():
        cur = None
        for t in tr:
            if t[0] == 'open':
                if not isinstance(t[1], Str):
                    raise Unsupported('file name %r' % (t[1],))
                cur = t[1].s
                out.setdefault(cur, [])
                modes.setdefault(cur, []).append(tuple(m for x in t[2] for m in x.args))
            elif t[0] == 'close':
                cur = None
            elif t[0] in ('if', 'loop') and cur is None:
                raise Unsupported('output outside an open file')
            elif cur is None:
                LOG.fail('post', 'output to a file that is not open', False)
            else:
                out[cur].append(t)
    return out, modes


def lines(ev):
    ls = [[]]
    for e in ev:
        if e[0] == 'nl':
            ls.append([])
        else:
            ls[-1].append(e)
    if ls[-1]:
        raise Unsupported('the last line is not ended')
    return ls[:-1]


def comment(l):
    return not l or l[0][0] == 'word' and isinstance(l[0][1][0], str) and l[0][1][0].startswith('#')


def resolve(ev, pc):
    out = []
    for e in ev:
        if e[0] == 'if':
            d = pc.decide(e[1])
            if d is None:
                raise Unsupported('conditional output')
            out += resolve(e[2] if d else e[3], pc)
        elif e[0] == 'loop':
            out.append(('loop', e[1], [(g, resolve(s, pc)) for g, s in e[2]]))
        else:
            out.append(e)
    return out


def seq_concrete(ev, sg, pc, out):
    for e in ev:
        if e[0] == 'word':
            v = number(e[1])
            out.append(subst(v, sg) if v is not None else ''.join(map(str, e[1])))
        elif e[0] == 'nl':
            out.append('\n')
        elif e[0] == 'if':
            c = subst(e[1], sg)
            d = pc.decide(c) if c.op not in ('true', 'false') else c.op == 'true'
            if d is None:
                raise Unsupported('conditional output')
            seq_concrete(e[2] if d else e[3], sg, pc, out)
        else:
            ns = []
            for a, s in e[1]:
                k = subst(s, sg).const()
                if k is None:
                    raise Unsupported('loop bound %r' % (s,))
                ns.append(range(int(k)))
            for vals in itertools.product(*ns):
                s2 = dict(sg)
                for (a, _), v in zip(e[1], vals):
                    s2[a.id] = P(v)
                for g, sub in e[2]:
                    c = subst(g, s2)
                    d = pc.decide(c) if c.op not in ('true', 'false') else c.op == 'true'
                    if d is None:
                        raise Unsupported('conditional output')
                    if d:
                        seq_concrete(sub, s2, pc, out)


def spec_values(c, o, name, g, cx):
    """values logged for the point at position g: list of scalars, then (optionally) per element"""
    F = lambda *p: field_at(o, c, p, g, cx)
    if name == LOGS[0]:
        v = [ite(F('int_vars_n'), ONE, ZERO), F('inv_max')]
        for i in range(1 + c.nvoi):
            v += [F('nr_its', i), F('nr_err', i)]
        return v
    return [F('macro_strain', i) for i in range(6)] + [F('macro_stress', i) for i in range(6)] + [F('macro_ctan', i) for i in range(36)]


def field_at(o, c, path, g, cx):
    return o.mem[o.mem[c.list].fields[path]].read(0, (g,), cx)


def history(c, o, g, dg, s, cx):
    h = field_at(o, c, ('int_vars_n',), g, cx)
    a = o.mem[o.mem[c.list].fields[('int_vars_n', '*')]]
    d = cx.decide(h)
    v = a.read(s, (g,) + dg, cx)
    return v if d is True else ZERO if d is False else ite(h, v, ZERO)


def data_line(ex, o, c, name, l):
    """the line lists, for every Gauss point in order, the specified values and then a bar"""
    NV = 56
    if len(l) == 1 and l[0][0] == 'loop' and len(l[0][1]) == 1 and l[0][1][0][1] == c.G and len(l[0][2]) == 1 and l[0][2][0][0].op == 'true':
        (a, _), = l[0][1]
        g = P(a)
        base = o.pc.extend(le(0, g), lt(g, c.G))
        h = field_at(o, c, ('int_vars_n',), g, base)
        ok = True
        for cx in (base.extend(h), base.extend(Not(h))):
            body = resolve(l[0][2][0][1], cx)
            if not body or body[-1] != ('word', ('|',)):
                ok = False
                break
            body = body[:-1]
            if name != LOGS[2]:
                vals = [number(e[1]) if e[0] == 'word' else None for e in body]
                w = spec_values(c, o, name, g, cx)
                if None in vals or len(vals) != len(w):
                    ok = False
                    break
                for k, (x, y) in enumerate(zip(vals, w)):
                    same(ex, cx, x, y, 'post', '%s: value %d of a point' % (name, k))
            else:
                if len(body) != 1 or body[0][0] != 'loop':
                    ok = False
                    break
                bx, words = body[0][1], []
                for gd, sub in body[0][2]:
                    if gd.op != 'true' or any(e[0] != 'word' for e in sub):
                        words = None
                        break
                    words += [number(e[1]) for e in sub]
                if words is None or None in words or len(words) != NV or not shape(bx, c.egrid):
                    ok = False
                    break
                dg = tuple(sym('el.%d' % i, 'i') for i in range(c.dim))
                ce = cx.extend(*[And(le(0, d), lt(d, n)) for d, n in zip(dg, c.egrid)])
                sg = shape(bx, c.egrid)(dg)
                for s, x in enumerate(words):
                    same(ex, ce, subst(x, sg), history(c, o, g, dg, s, ce), 'post', '%s: history variable %d' % (name, s))
        if ok:
            return
    # another shape: compare the sequences on concrete lists and grids
    for G, sizes in ((1, (2, 3, 2)), (2, (3, 2, 3))):
        sg = {next(iter(c.G.atoms())): P(G)}
        for n, v in zip((c.nx, c.ny, c.nz), sizes):
            if n.atoms():
                sg[next(iter(n.atoms()))] = P(v)
        m = {'Gauss points': G, 'nx': sizes[0], 'ny': sizes[1], 'nz': sizes[2]}
        for bits in range(1 << G):
            pc = o.pc.extend(*[eq(P(ATOMS[i]), v) for i, v in sg.items()])
            for i in range(G):
                h = field_at(o, c, ('int_vars_n',), P(i), pc)
                pc = pc.extend(h if bits >> i & 1 else Not(h))
            got, exp = [], []
            seq_concrete(l, sg, pc, got)
            for i in range(G):
                if name != LOGS[2]:
                    exp += spec_values(c, o, name, P(i), pc)
                else:
                    for vals in itertools.product(*[range(int(subst(n, sg).const())) for n in c.egrid]):
                        exp += [history(c, o, P(i), tuple(P(v) for v in vals), s, pc) for s in range(NV)]
                exp.append('|')
            if len(got) != len(exp):
                LOG.fail('post', '%s: %d entries on the line instead of %d' % (name, len(got), len(exp)), True, m)
                return
            for k, (x, y) in enumerate(zip(got, exp)):
                if isinstance(x, str) or isinstance(y, str):
                    if x is y or isinstance(x, str) and x == y:
                        continue
                    LOG.fail('post', '%s: entry %d of the line is %s instead of %s' % (name, k, x, y), True, m)
                    return
                r = prove_equal(ex, pc, x, subst(y, sg), 'post', name)
                if r is not None:
                    LOG.fail('post', '%s entry %d: %s' % (name, k, r['desc']), r['refuted'], m)
                    return
    LOG.fail('post', '%s: shape not recognised (equal on small cases)' % name, False)


@unit('write_info/{0}D/{1}', 'micropp_t::write_info_files', *[(d, f) for d in (2, 3) for f in ('first', 'later')])
def u_info(prog, dim, which):
    """one line per call and file; the header only in the first call; no other state changes"""
    ex, st, c, k = gp_cell(prog, dim)
    q = 'micropp_t::write_info_files'
    st.setcell(c.o, ('output_files_header',), FALSE if which == 'first' else TRUE)
    pre = st.copy()
    w = st.copy()
    w.setcell(c.o, ('output_files_header',), TRUE)
    LOG.where = q
    outs = run(ex, q, st, c.this, [])
    if not outs:
        LOG.fail('vacuity', 'no final state of %s' % q, False)
    for o in outs:
        LOG.where = q
        compare_states(ex, pre, o, w, 'post')
        leaks(ex, pre, o)
        fs, modes = files_of(o)
        for f in fs:
            if f not in LOGS and fs[f]:
                LOG.fail('post', 'another file, %s' % f, False)
        for f in LOGS:
            if f not in fs:
                LOG.fail('post', '%s is not written' % f, True, {})
                continue
            for md in modes[f]:
                if 'app' in md and 'trunc' not in md:
                    LOG.ok('post')
                elif 'ate' in md or 'in' in md:
                    raise Unsupported('open mode')
                else:
                    LOG.fail('post', '%s is truncated: its earlier lines are lost' % f, True, {})
            ls = lines(lines_scan(fs[f]))
            n = 0
            while n < len(ls) and comment(ls[n]):
                n += 1
            head, data = ls[:n], ls[n:]
            if len(data) != 1:
                LOG.fail('post', '%s: %d lines of data in one call' % (f, len(data)), not data or not any(comment(x) for x in data), {})
                continue
            LOG.ok('post')
            if which == 'later':
                if head:
                    LOG.fail('post', '%s: header repeated' % f, True, {})
                else:
                    LOG.ok('post')
            elif f != LOGS[2]:
                ids = [e for e in (head[0] if head else []) if e[0] == 'loop']
                if not head:
                    LOG.fail('post', '%s: no header' % f, True, {})
                elif len(ids) == 1 and len(ids[0][1]) == 1 and ids[0][1][0][1] == c.G and len(ids[0][2]) == 1 and \
                        len(ids[0][2][0][1]) == 1 and ids[0][2][0][1][0][0] == 'word':
                    g = P(ids[0][1][0][0])
                    cx = o.pc.extend(le(0, g), lt(g, c.G))
                    v = number(ids[0][2][0][1][0][1])
                    if v is None:
                        raise Unsupported('header')
                    same(ex, cx, v, field_at(o, c, ('id',), g, cx), 'post', '%s: identifiers in the header' % f)
                else:
                    LOG.fail('post', '%s: identifiers in the header' % f, False)
            data_line(ex, o, c, f, data[0])
