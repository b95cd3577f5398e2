"""Loop summarisation.

The cells (variables, fields, container contents) that a loop modifies are found by iterating abstract runs of its body
to a fixed point; each cell becomes a recurrence  m(k+1) = next(k, m(k)).  Recurrences are solved to closed forms where
possible (last value, sums, products, appended sequences, element-wise stores, searches) and otherwise kept as `rec`
nodes.  Exits (return, raise, break) become conditions `exists k`, with the state of the first such iteration.
"""
from . import terms as T
from .terms import mk, TRUE, FALSE, NONE, ZERO, ONE, num, ite, band, bor, bnot, idx, seq, concat, fv

MAXROUNDS = 8
UNROLL = 6


def run_loop(I, s, n, elem):
    import ast
    if n is not None:
        n = I.assume(n)
        if T.isnum(n) and (n.args[0] <= UNROLL or n.args[0] <= 2 * UNROLL and objects(I, n, elem)):
            return unroll(I, s, max(0, int(n.args[0])), elem)
    return Loop(I, s, n, elem).run()


def unroll(I, s, n, elem):
    fr = I.fr
    sb, sc = fr.breaks, fr.continues
    broken = []
    st = I.st
    for i in range(n):
        fr.breaks, fr.continues = [], []
        I.st = st
        I.assign(s.target, I.box(elem(num(i))))
        end = I.block(s.body, I.st)
        ends = ([end] if end is not None else []) + fr.continues
        broken += fr.breaks
        st = mergeall(I, ends)
        if st is None:
            break
    fr.breaks, fr.continues = sb, sc
    if st is not None and s.orelse:
        st = I.block(s.orelse, st)
    I.st = mergeall(I, ([st] if st is not None else []) + broken)


def unroll_while(I, s, limit=16):
    """while loop whose condition is known in every iteration"""
    import ast
    from .interp import Diverge
    if isinstance(s.test, ast.Constant) or I.loopdepth:
        return False
    fr = I.fr
    st0 = I.st
    saved = (list(fr.raises), list(fr.returns) if hasattr(fr, "returns") else None, list(I.events), fr.breaks, fr.continues)

    def back():
        fr.raises[:] = saved[0]
        if saved[1] is not None:
            fr.returns[:] = saved[1]
        I.events[:] = saved[2]
        fr.breaks, fr.continues = saved[3], saved[4]
        I.st = st0
        return False
    I.st = st0.copy()
    broken = []
    for n in range(limit + 1):
        try:
            c = I.cond(I.expr(s.test))
        except Diverge:
            return back()
        if c is FALSE:
            break
        if c is not TRUE or n == limit:
            return back()
        fr.breaks, fr.continues = [], []
        end = I.block(s.body, I.st)
        ends = ([end] if end is not None else []) + fr.continues
        broken += fr.breaks
        I.st = mergeall(I, ends)
        if I.st is None:
            break
    fr.breaks, fr.continues = saved[3], saved[4]
    st = I.st
    if st is not None and s.orelse:
        st = I.block(s.orelse, st)
    I.st = mergeall(I, ([st] if st is not None else []) + broken)
    return True


def objects(I, n, elem):
    return any(I.objterm(elem(num(i))).op == 'inst' for i in range(int(n.args[0])))


def mergeall(I, ends):
    if not ends:
        return None
    cur = ends[0]
    for e in ends[1:]:
        cur = I.merge(e.pc, e, cur)
    return cur


def fold(I, f, it, init, node):
    from .interp import Diverge
    n, elem = I.iteration(it)
    if T.isnum(n) and n.args[0] <= 8:
        k0 = 0
        acc = init
        if acc is None:
            acc, k0 = elem(ZERO), 1
        for i in range(k0, int(n.args[0])):
            acc = I.call(f, [acc, I.box(elem(num(i)))], {}, node)
        return acc
    off = ZERO
    if init is None:
        init, off, n = elem(ZERO), ONE, T.sub(n, ONE)
    k = T.fresh()
    mu = T.fresh('mu' if not T.isscalar(I.rd(init)) else 'mus')
    I.loopdepth += 1
    try:
        r = I.rd(I.call(f, [I.box(mu), I.box(elem(T.add(k, off)))], {}, node))
    finally:
        I.loopdepth -= 1
    m = solve_one(k, mu, I.rd(init), r)
    return m(n)


class Loop(object):
    def __init__(self, I, s, n, elem):
        self.I, self.s, self.n, self.elem = I, s, n, elem
        self.place = {}      # cell -> placeholder container at the start of an iteration

    def run(self):
        import ast
        I, s = self.I, self.s
        fr = I.fr
        st0 = I.st
        self.k = k = T.fresh('k')
        cells = {}       # key -> mu
        arr = set()      # keys that are not scalar
        I.loopdepth += 1
        outer_b, outer_c = fr.breaks, fr.continues
        pc0 = st0.pc
        I.pcs.append(pc0)
        try:
            for _ in range(MAXROUNDS):
                snap = self.snapshot()
                hdr, out = self.body(st0, cells, arr)
                new = self.changed(hdr, out, cells)
                flip = [c for c in cells if c not in arr and not self.scalar_end(hdr, out, c)]
                if not new and not flip:
                    break
                self.rollback(snap)
                for c in new:
                    cells[c] = None
                    if not self.scalar_init(st0, c):
                        arr.add(c)
                arr.update(flip)
            else:
                I.note_unknown('loop without fixed point')
        finally:
            I.loopdepth -= 1
            I.pcs.pop()
            fr.breaks, fr.continues = outer_b, outer_c
        self.finish(st0, pc0, hdr, out, cells)

    # ---------------------------------------------------------------------------------------- abstract body runs
    def snapshot(self):
        I = self.I
        return len(I.events), dict(I.unknown), len(I.fr.returns), len(I.fr.raises), len(I.heldby)

    def rollback(self, s):
        I = self.I
        del I.events[s[0]:]
        I.unknown = s[1]
        del I.fr.returns[s[2]:]
        del I.fr.raises[s[3]:]
        del I.heldby[s[4]:]

    def body(self, st0, cells, arr):
        import ast
        from .interp import Diverge, LocMeta
        I, s, k = self.I, self.s, self.k
        fr = I.fr
        st = st0.copy()
        st.pc = TRUE
        self.mus = {}
        for c in cells:
            mu = T.fresh('mu' if c in arr else 'mus')
            self.mus[c] = mu
            kind, key = c
            if kind == 'heap':
                st.heap[key] = mu
            else:
                d = st.env if kind == 'env' else st.attrs
                old = d.get(key)
                if c in arr:
                    al = []
                    if old is not None:
                        al = [old]
                    prev = getattr(self, 'ends', {}).get(c)
                    l = self.place.get(c)
                    if l is None:
                        l = self.place[c] = mk('loc', I.prog.pkg, next(I.nloc))
                    kd = I.kind(old) if old is not None else 'unknown'
                    if prev is not None:
                        I.st = st
                        k2 = self.endkinds.get(c, kd)
                        kd = k2 if kd in ('unknown', 'none') or k2 == kd else ('ndarray' if 'ndarray' in (kd, k2)
                                                                              else 'unknown')
                    I.meta[l] = LocMeta(kd, alias=al)
                    st.heap[l] = mu
                    d[key] = l
                else:
                    d[key] = mu
        hdr = st.copy()
        nret, nra = len(fr.returns), len(fr.raises)
        fr.breaks, fr.continues = [], []
        I.st = st
        stop = None
        try:
            if self.n is None:
                c = I.cond(I.expr(s.test))
                self.test = c
                st = I.st
                I.add_facts(st, c, True)
            else:
                I.assign(s.target, I.box(self.elem(k)))
                st = I.st
            end = I.block(s.body, st)
        except Diverge:
            end = None
        ends = ([end] if end is not None else []) + fr.continues
        out = {'end': mergeall(I, ends), 'breaks': list(fr.breaks), 'returns': fr.returns[nret:],
               'raises': fr.raises[nra:]}
        self.nret, self.nra = nret, nra
        e = out['end']
        self.ends, self.endkinds = {}, {}
        if e is not None:
            for c in cells:
                kind, key = c
                if kind != 'heap':
                    v = (e.env if kind == 'env' else e.attrs).get(key)
                    if v is not None:
                        self.ends[c] = v
                        self.endkinds[c] = I.kind(v)
        return hdr, out

    def changed(self, hdr, out, cells):
        new = []
        states = [x for x in [out['end']] + out['breaks'] + [x[0] for x in out['returns']] +
                  [x[0] for x in out['raises']] if x is not None]
        for st in states:
            for nm, a, b in (('env', hdr.env, st.env), ('heap', hdr.heap, st.heap), ('attr', hdr.attrs, st.attrs)):
                if nm == 'env' and st is not out['end'] and st not in out['breaks']:
                    continue
                for key, v in b.items():
                    o = a.get(key)
                    if o is v:
                        continue
                    if nm == 'heap' and (o is None or key in self.place.values()):
                        continue     # allocated inside, or the container that a cell holds
                    if nm == 'attr' and self.k in fv(key[0]):
                        continue     # field of the element object: handled as a family
                    if nm == 'attr' and key[0].op == 'inst' and o is None and \
                            not any(kk[0] is key[0] for kk in hdr.attrs):
                        continue     # object created inside
                    c = (nm, key)
                    if c not in cells and c not in new:
                        new.append(c)
        return new

    def cell(self, st, c):
        """content of a cell in a state"""
        I = self.I
        kind, key = c
        old = I.st
        I.st = st
        try:
            if kind == 'heap':
                v = st.heap.get(key)
            elif kind == 'env':
                v = st.env.get(key)
            else:
                v = st.attrs.get(key)
                if v is None:
                    v = I.init_or_copy(key)
            if v is None:
                return T.UNDEF
            if v.op in ('fun', 'clo', 'bm', 'lib', 'cls', 'enumv', 'zipv', 'itv'):
                return v
            return I.rd(v)
        finally:
            I.st = old

    def scalar_init(self, st0, c):
        v = self.cell(st0, c)
        return v is T.UNDEF or T.isscalar(v) or T.isbool(v) or T.isconst(v)

    def scalar_end(self, hdr, out, c):
        if out['end'] is None:
            return True
        v = self.cell(out['end'], c)
        return T.isscalar(v) or T.isbool(v) or T.isconst(v) or v is self.mus.get(c)

    # ---------------------------------------------------------------------------------------- closing
    def finish(self, st0, pc0, hdr, out, cells):
        I, k, s = self.I, self.k, self.s
        fr = I.fr
        inits = {c: self.cell(st0, c) for c in cells}
        end = out['end']
        nexts = {c: (self.cell(end, c) if end is not None else self.mus[c]) for c in cells}
        sol = solve(k, cells, self.mus, inits, nexts)    # c -> (lambda j: value at start of iteration j)
        solk = {self.mus[c]: sol[c](k) for c in cells}
        memo1, memos = {}, {}
        at = lambda t, j: T.subst(T.subst(t, solk, memo1), {k: j}, memos.setdefault(j, {}))
        exits = [st.pc for st in out['breaks']] + [x[0].pc for x in out['returns']] + [x[0].pc for x in out['raises']]
        E = FALSE
        for c in exits:
            E = bor(E, c)
        del fr.returns[self.nret:]
        del fr.raises[self.nra:]
        v = T.fresh('k')
        if self.n is None:
            stop = bor(bnot(at(self.test, v)), FALSE)
            Ev = at(E, v)
            n = while_count(v, bor(stop, Ev), stop, Ev)
            exited = at(band(self.test, E), n) if E is not FALSE else FALSE
            K = n
        else:
            n = self.n
            Ev = at(E, v)
            exited = T.any_(n, v, Ev) if E is not FALSE else FALSE
            K = T.first(n, v, Ev) if E is not FALSE else ZERO
        if I.st is None:
            I.st = st0
        exited = I.assume(exited)

        def close_state(st, j, pc):
            """state of the body at iteration j, made absolute"""
            r = st0.copy()
            f = lambda t: at(t, j) if t is not None else None
            for l, t in st.heap.items():
                if t is not None and (fv(t)):
                    t = f(t)
                r.heap[l] = t
            r.env = {x: (f(y) if fv(y) else y) for x, y in st.env.items()}
            for key, y in st.attrs.items():
                o = key[0]
                if self.k in fv(o):
                    o = f(o)
                r.attrs[(o, key[1])] = f(y) if fv(y) else y
            r.pc = pc
            r.facts = dict(st0.facts)
            return r

        # exits
        if exited is not FALSE:
            for st, val in out['returns']:
                c = band(exited, at(st.pc, K))
                r = close_state(st, K, band(pc0, c))
                I.add_facts(r, c, True)
                I.st = r
                val = self.subst_val(val, at, K)
                fr.returns.append((r, val))
            for st, e, line in out['raises']:
                c = band(exited, at(st.pc, K))
                r = close_state(st, K, band(pc0, c))
                I.add_facts(r, c, True)
                r.env = dict(st.env)
                fr.raises.append((r, e, line))
        # normal end
        normal = None
        if exited is not TRUE and (end is not None or True):
            r = st0.copy()
            if exited is not FALSE:
                I.add_facts(r, exited, False)
                r.pc = band(pc0, bnot(exited))
            I.st = r
            jn = n
            for c in cells:
                kind, key = c
                val = sol[c](jn)
                if exited is not FALSE:
                    val = T.assume(val, r.facts)
                if kind == 'heap':
                    r.heap[key] = val
                else:
                    d = r.env if kind == 'env' else r.attrs
                    if val is T.UNDEF:
                        continue
                    d[key] = self.rebox(val, c)
            # fields of element objects written in every iteration
            if end is not None:
                for key, y in end.attrs.items():
                    o = key[0]
                    if k in fv(o) and o.op == 'idx' and o.args[1] is k and k not in fv(o.args[0]):
                        I.st = end
                        content = I.rd(y) if y.op not in ('clo', 'fun', 'bm') else y
                        I.st = r
                        content = T.subst(content, solk, memo1)
                        r.attrs[(mk('eachof', o.args[0]), key[1])] = T.lam([k], content)
            normal = r
            if s.orelse:
                normal = I.block(s.orelse, normal)
        ends = [normal] if normal is not None else []
        for st in out['breaks']:
            c = band(exited, at(st.pc, K))
            r = close_state(st, K, band(pc0, c))
            I.add_facts(r, c, True)
            ends.append(r)
        cur = None
        if ends:
            cur = ends[0]
            for e in ends[1:]:
                cur = I.merge(e.pc, e, cur)
            if len(ends) > 1 and not out['returns'] and not out['raises']:
                cur.pc = pc0
        I.st = cur

    def subst_val(self, val, at, K):
        if val.op in ('loc', 'view'):
            if val.op == 'view':
                return T.subst(val, {self.k: K}) if fv(val) else val
            return val
        return at(val, K) if fv(val) else val

    def rebox(self, val, c):
        I = self.I
        if val.op in ('fun', 'clo', 'bm', 'lib', 'cls', 'enumv', 'zipv', 'itv'):
            return val
        if T.isscalar(val) or T.isbool(val) or T.isconst(val):
            return val
        v = self.ends.get(c)
        kind = self.endkinds.get(c, 'unknown')
        al = [v] if v is not None and v.op in ('loc', 'view', 'ite') else []
        return I.alloc(val, kind, alias=al)


def while_count(v, any_stop, stop, E):
    # while i < N with i = v: N iterations
    if E is FALSE and stop.op == 'ite' and stop.args[1] is FALSE and stop.args[2] is TRUE and stop.args[0].op == 'ltz':
        d = stop.args[0].args[0]          # continue while d < 0
        r = T.sub(d, v)
        if v not in fv(r):
            return T.neg(r)
    return T.iters(v, any_stop)


# ---------------------------------------------------------------------------------------------------- recurrences
def solve(k, cells, mus, inits, nexts):
    """closed forms of simultaneous recurrences"""
    sol = {}
    todo = list(cells)
    nexts = dict(nexts)
    mset = {mus[c]: c for c in cells}
    while todo:
        deps = {c: {mset[x] for x in fv(nexts[c]) if x in mset and mset[x] in todo} for c in todo}
        ready = [c for c in todo if deps[c] <= {c}]
        if ready:
            for c in ready:
                f = solve_one(k, mus[c], inits[c], nexts[c])
                sol[c] = f
                todo.remove(c)
            m = {mus[c]: sol[c](k) for c in ready}
            for c in todo:
                nexts[c] = T.subst(nexts[c], m)
            continue
        # strongly connected component: smallest closed set
        best = None
        for c in todo:
            scc = {c}
            work = [c]
            while work:
                x = work.pop()
                for y in deps[x]:
                    if y not in scc:
                        scc.add(y)
                        work.append(y)
            if best is None or len(scc) < len(best):
                best = scc
        # order by the shape of the recurrence so that equal systems give equal nodes
        scc = sorted(best, key=lambda c: (str(c[0]), cellname(c)))
        scc = canonical_order(k, [mus[c] for c in scc], [inits[c] for c in scc], [nexts[c] for c in scc], scc)
        r = T.rec(k, [mus[c] for c in scc], [inits[c] for c in scc], [nexts[c] for c in scc])
        for j, c in enumerate(scc):
            sol[c] = (lambda r, j: lambda kk: T.at(r, j, kk))(r, j)
            todo.remove(c)
        m = {mus[c]: sol[c](k) for c in scc}
        for c in todo:
            nexts[c] = T.subst(nexts[c], m)
    return sol


def cellname(c):
    k = c[1]
    if isinstance(k, str):
        return k
    if isinstance(k, tuple):
        return k[1]
    return '%012d' % k.id


def canonical_order(k, ms, inits, nexts, keys):
    def sig(i):
        # shape of next with all cells anonymised
        an = T.fresh('arr')
        t = T.subst(nexts[i], {m: mk('anon', 'self' if m is ms[i] else 'other') for m in ms})
        t = T.subst(t, {k: mk('anon', 'k')})
        return (inits[i].op, T.size(t), t.id)
    order = sorted(range(len(keys)), key=sig)
    return [keys[i] for i in order]


def solve_one(k, mu, init, nxt):
    """function j -> value at start of iteration j"""
    if nxt is mu or nxt is init and mu not in fv(nxt) and k not in fv(nxt):
        return lambda j: init
    if mu not in fv(nxt):
        return lambda j: T.lag(k, nxt, init, j)
    # appended elements
    d = appended(mu, nxt)
    if d is not None:
        return lambda j: concat(init, T.cat(T.tmap(j, k2(k), T.subst(d, {k: k2(k)}))))
    # search: keep or set
    c, v = conditional_set(mu, nxt)
    if c is not None:
        def search(j):
            w = T.fresh('k')
            cw = T.subst(c, {k: w})
            found = T.any_(j, w, cw)
            return ite(found, T.subst(v, {k: T.lastix(j, w, cw)}), init)
        return search
    # sums
    d = added(mu, nxt)
    if d is not None:
        def total(j):
            w = T.fresh('k')
            m = T.tmap(j, w, T.subst(d, {k: w}))
            if T.isscalar(d):
                s = T.tsum(m)
            else:
                s = T.tsumax(m, ZERO)
            return T.add(init, s)
        return total
    # products
    d = multiplied(mu, nxt)
    if d is not None:
        def product(j):
            w = T.fresh('k')
            m = T.tmap(j, w, T.subst(d, {k: w}))
            return T.mul(init, T.tprod(m) if T.isscalar(d) else mk('prodax', m, ZERO))
        return product
    # element stores
    r = stored(mu, nxt, init, k)
    if r is not None:
        i, x = r

        def fill(j):
            w = T.fresh('k')
            return T.mapstore(j, w, T.subst(i, {k: w}), T.subst(x, {k: w}), init)
        return fill
    # one fixed element of a container changes
    if nxt.op == 'store' and nxt.args[0] is mu and mu not in fv(nxt.args[1]) and k not in fv(nxt.args[1]) and \
            nxt.args[1].op not in ('slice_', 'seq') and not T.isbool(nxt.args[1]):
        i = nxt.args[1]
        nu = T.fresh('arr')
        body = T.subst(nxt.args[2], {idx(mu, i): nu})
        if mu not in fv(body):
            f = solve_one(k, nu, idx(init, i), body)
            return lambda j: T.store(init, i, f(j))
    # a choice that does not change during the loop
    if nxt.op == 'ite' and mu not in fv(nxt.args[0]) and k not in fv(nxt.args[0]):
        c, a, b = nxt.args
        fa, fb = solve_one(k, mu, T.assume(init, {c: True}), a), solve_one(k, mu, T.assume(init, {c: False}), b)
        return lambda j: ite(c, fa(j), fb(j))
    r = T.rec(k, [mu], [init], [nxt])
    return lambda j: T.at(r, 0, j)


_k2 = {}


def k2(k):
    if k not in _k2:
        _k2[k] = T.fresh('k')
    return _k2[k]


def appended(mu, t):
    if t is mu:
        return seq()
    if t.op == 'concat' and t.args[0] is mu and not any(mu in fv(a) for a in t.args[1:]):
        return concat(*t.args[1:])
    if t.op == 'ite' and mu not in fv(t.args[0]):
        a, b = appended(mu, t.args[1]), appended(mu, t.args[2])
        if a is not None and b is not None:
            return ite(t.args[0], a, b)
    return None


def conditional_set(mu, t):
    """t = c ? v : mu"""
    if t.op == 'ite' and mu not in fv(t.args[0]):
        c, a, b = t.args
        if a is mu and mu not in fv(b):
            return bnot(c), b
        if b is mu and mu not in fv(a):
            return c, a
        for x, y, cc in ((a, b, c), (b, a, bnot(c))):
            # c ? x : (nested keep)
            if mu not in fv(x):
                c2, v2 = conditional_set(mu, y)
                if c2 is not None:
                    return bor(cc, c2), ite(cc, x, v2)
            if x is mu:
                c2, v2 = conditional_set(mu, y)
                if c2 is not None:
                    return band(bnot(cc), c2), v2
        c1, v1 = conditional_set(mu, a)
        c2, v2 = conditional_set(mu, b)
        if c1 is not None and c2 is not None:
            return ite(c, c1, c2), ite(c, v1, v2)
    return None, None


def added(mu, t):
    if t is mu:
        return ZERO
    if t.op == 'add':
        d = T.sub(t, mu)
        if mu not in fv(d):
            return d
    if t.op == 'ite' and mu not in fv(t.args[0]):
        a, b = added(mu, t.args[1]), added(mu, t.args[2])
        if a is not None and b is not None:
            return ite(t.args[0], a, b)
    return None


def multiplied(mu, t):
    if t is mu:
        return ONE
    if t.op in ('mono', 'add'):
        d = T.div(t, mu)
        if mu not in fv(d):
            return d
    return None


def stored(mu, t, init, k):
    if t.op == 'store' and t.args[0] is mu:
        i, x = t.args[1], t.args[2]
        if mu in fv(i) or i.op in ('slice_', 'seq') or k not in fv(i):
            return None
        d = T.sub(i, k)
        e = T.add(i, k)
        if k in fv(d) and k in fv(e):
            return None
        if mu in fv(x):
            cur = idx(mu, i)
            x2 = T.subst(x, {cur: T.idx(init, i)}) if cur.op != 'ix' else x
            if mu in fv(x2):
                return None
            x = x2
        return i, x
    return None
