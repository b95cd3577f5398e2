"""Gated-SSA construction by abstract interpretation of the syntax tree.

Every value is a hash-consed term (vp.terms).  Mutable containers are references (loc/view terms) into a store of
contents, so aliases, views and in-place operations are tracked; joins are gating nodes (ite); loops are summarised by
recurrence closed forms (or `rec` nodes).  Nothing of the analysed program is executed: operations build graph nodes.
"""
import ast
import itertools
from . import terms as T, ndsub
from .terms import mk, TRUE, FALSE, NONE, ZERO, ONE, num, string, ite, band, bor, bnot, truth, idx, seq, concat, fv

MAXDEPTH = 14


class Unsupported(Exception):
    pass


def scalarish(t):
    if T.isscalar(t) or t.op == 'str':
        return True
    return t.op == 'idx' and t.args[0].op == 'seq' and all(scalarish(x) for x in t.args[0].args)


class LocMeta(object):
    __slots__ = ('kind', 'root', 'site', 'alias', 'ealias')

    def __init__(self, kind, root=None, site=None, alias=(), ealias=()):
        self.kind, self.root, self.site, self.alias = kind, root, site, tuple(alias)
        self.ealias = tuple(ealias)      # containers whose elements this container shares


class State(object):
    __slots__ = ('env', 'heap', 'attrs', 'facts', 'pc')

    def __init__(self):
        self.env, self.heap, self.attrs, self.facts, self.pc = {}, {}, {}, {}, TRUE

    def copy(self):
        s = State()
        s.env, s.heap, s.attrs = dict(self.env), dict(self.heap), dict(self.attrs)
        s.facts, s.pc = dict(self.facts), self.pc
        return s


def isref(t):
    """a reference, or a choice in which some alternative is one"""
    return t.op in ('loc', 'view') or t.op == 'ite' and (isref(t.args[1]) or isref(t.args[2]))


def isobj(t):
    return t.op in ('inst', 'fun', 'bm', 'clo', 'cls') or t.op == 'ite' and isobj(t.args[1]) and isobj(t.args[2])


class Event(object):
    __slots__ = ('kind', 'what', 'pc', 'func', 'line', 'args')

    def __init__(self, kind, what, pc, func, line, args=()):
        self.kind, self.what, self.pc, self.func, self.line, self.args = kind, what, pc, func, line, args

    def __repr__(self):
        return '%s %s @%s:%s if %s' % (self.kind, self.what, self.func, self.line, self.pc)


class Frame(object):
    def __init__(self, func, mod):
        self.func, self.mod = func, mod
        self.returns = []     # (state, value)
        self.raises = []      # (state, exc T, line)
        self.breaks = None
        self.continues = None
        self.trys = []        # stack of handler class lists
        self.closure = {}


# names of model-interface methods that stay uninterpreted functions of receiver, receiver configuration and arguments
OPAQUE_METHODS = {'processedPdf', 'pdf', 'pmf', 'computeForwardPrior', 'computeBackwardPrior', 'estimateParameterValues',
                  'function', 'density', 'prior', 'jeffreys'}

SCALARISH = {'t', 'n', 'num', 'i', 'j', 'idx', 'nJobs', 'c', 'alpha', 'axis', 'sigma1', 'sigma2', 'rho', 'gamma',
             'forwardOnly', 'evidenceOnly', 'silent', 'density', 'plot', 'local', 'storeHistory'}
SCALAR_ATTRS = {'segmentLength', 'tOffset', 'logEvidence', 'tmCount', 'firstStep', 'storeHistory', 'isContinuous',
                'multiplyLikelihoods', 'fitWarningCounter', 'name', 'time'}
MULTI_D = {'posteriorSequence', 'grid', 'marginalGrid', 'parameterPosterior', 'transitionModelPosterior',
           'posteriorMeanValues', 'averagePosteriorSequence', 'hyperParameterDistribution', 'hyperGridValues',
           'hyperParameterSequence', 'logEvidenceList', 'allHyperGridValues', 'transitionModelSequence',
           'localTransitionModelSequence', 'hyperPriorValues', 'hyperParameterValues', 'boundaries', 'rawData',
           'formattedData', 'hyperGridConstants'}


# list operations after which an index denotes another element (True: any index, False: negative indices only)
SHIFTING = {'pop': True, 'insert': True, 'remove': True, 'reverse': True, 'sort': True, 'del': True, 'clear': True,
            'append': False, 'extend': False}


class Interp(object):
    def __init__(self, prog, opaque=(), modular=None):
        self.prog = prog
        self.meta = {}
        self.nloc = itertools.count()
        self.events = []
        self.fr = None
        self.frames = []
        self.pcs = []
        self.objcls = {}
        self.closures = {}
        self.nclo = itertools.count()
        self.calls = []
        self.unknown = {}
        self.loopdepth = 0
        self.opaque = set(opaque)
        self.modular = modular or {}
        self.analysed = set()
        self.sites = 0
        self.st = None
        self.line = 0
        self.curname = ''
        self.libcalls = {}
        self.final_raises = []
        self.heldby = []
        self.shared = []
        from . import libs
        self.libs = libs

    # ------------------------------------------------------------------------------------------------ store
    def alloc(self, content, kind='unknown', root=None, alias=(), ealias=()):
        l = mk('loc', self.prog.pkg, next(self.nloc))
        self.meta[l] = LocMeta(kind, root, (self.fr.func.qual if self.fr and self.fr.func else None, self.line), alias,
                               [x for x in ealias if x.op in ('loc', 'view', 'ite')])
        self.st.heap[l] = content
        return l

    def rd(self, t):
        """content of a value: references replaced by what they denote"""
        if not T.hasloc(t):
            return t
        if t.op == 'loc':
            return self.rd(self.st.heap[t])
        if t.op == 'view':
            return self.view_content(t)
        memo = {}

        def go(x):
            if not T.hasloc(x):
                return x
            r = memo.get(x)
            if r is None:
                if x.op in ('loc', 'view'):
                    r = self.rd(x)
                elif T.bound_of(x):
                    r = T._rebuild_bound(x, [go(a) if isinstance(a, T.T) else a for a in x.args])
                else:
                    r = T.rebuild(x, [go(a) if isinstance(a, T.T) else a for a in x.args])
                memo[x] = r
            return r
        return go(t)

    def view_content(self, v):
        base, op = v.args[0], v.args[1]
        b = self.rd(base)
        if op == 'idx':
            return self.assume(idx(b, self.rd(v.args[2])))
        if op == 'T':
            return T.transpose(b)
        raise AssertionError(op)

    def assume(self, t):
        f = self.st.facts
        return T.assume(t, f) if f else t

    def rdc(self, t):
        return self.assume(self.rd(t))

    def res(self, t):
        return t

    def noteheld(self, container, v):
        """a container now holds a reference to v"""
        self.heldby.append((container, v, self.fr.func.qual if self.fr and self.fr.func else '?', self.line))

    def seqcontent(self, v):
        """content of an iterable, iterators expanded"""
        if v.op in ('enumv', 'zipv', 'itv'):
            n, e = self.iteration(v)
            k = T.fresh()
            return T.tmap(n, k, self.rd(e(k)))
        c = self.rdc(v)
        if c.op in ('dict', 'dictdel', 'dictset', 'dictupd', 'dictmap'):
            return keys_of(c)
        return c

    def reify(self, v):
        """a value as a plain graph node; function values become lambda nodes"""
        if v.op == 'clo':
            node = self.closures[v][0]
            names = [x.arg for x in node.args.args]
            vs = [T.fresh('arr') for _ in names]
            saved, ev = self.st, list(self.events)
            self.st = self.st.copy()
            try:
                r = self.rd(self.call(v, list(vs), {}))
            except Diverge:
                r = mk('diverge')
            finally:
                self.st, self.events = saved, ev
            return T.lam(vs, r)
        if v.op in ('fun', 'bm'):
            return mk('fnref', v.args[-1].split('.')[-1])
        if v.op == 'cls':
            return mk('fnref', v.args[0])
        if v.op == 'lib':
            return mk('libref', v.args[0])
        if v.op == 'star':
            return mk('star', self.reify(v.args[0]))
        if v.op in ('enumv', 'zipv', 'itv'):
            return self.seqcontent(v)
        c = self.rdc(v)
        if c.op in ('seq', 'dict') and any(x.op in ('clo', 'fun', 'bm', 'lib', 'cls') for x in T.kids(c)):
            return mk(c.op, *[self.reify(x) for x in c.args])
        if c.op in ('clo', 'fun', 'bm', 'lib', 'cls'):
            return self.reify(c)
        return c

    def kind(self, t):
        if t.op == 'loc':
            return self.meta[t].kind
        if t.op == 'view':
            if t.args[1] == 'idx':
                return 'unknown'
            return self.kind(t.args[0])
        if t.op == 'ite':
            a, b = self.kind(t.args[1]), self.kind(t.args[2])
            return a if a == b else (a if b == 'none' else (b if a == 'none' else 'unknown'))
        if t.op == 'none':
            return 'none'
        if t.op == 'str':
            return 'str'
        if t.op == 'seq':
            return 'list'
        if T.isscalar(t):
            return 'scalar'
        if t.op in ('add', 'mono', 'log', 'zeros', 'ones', 'where', 'max2', 'min2', 'abs', 'sumax'):
            return 'ndarray'
        return 'unknown'

    def roots(self, t):
        """initial objects a value may share storage with"""
        out = set()
        st = [t]
        seen = set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'loc':
                m = self.meta[x]
                if m.root is not None:
                    out.add(m.root)
                st.extend(m.alias)
            elif x.op == 'view':
                st.append(x.args[0])
                if x.args[0].op == 'loc':
                    st.extend(self.meta[x.args[0]].ealias)
            elif x.op == 'ite':
                st.extend(x.args[1:])
        return out

    def write(self, t, f, what='in-place'):
        """apply f to the content of the container denoted by t"""
        for r in self.roots(t):
            self.event('mutate', r, args=(what,))
        if what in SHIFTING and t.op == 'loc':
            self.pin(t, SHIFTING[what])
        self._write(t, f)

    def pin(self, loc, every):
        """positions in a list are about to shift: elements that were taken out of it before become values"""
        st = self.st
        hit = {}

        def look(v):
            if T.hasloc(v):
                for x in T.subterms(v):
                    if x.op == 'view' and x.args[0] is loc and x.args[1] == 'idx' and x not in hit and \
                            (every or T.isnum(x.args[2]) and x.args[2].args[0] < 0):
                        c = self.rd(x)
                        hit[x] = self.box(c)
        for d in (st.env, st.attrs, st.heap):
            for v in list(d.values()):
                if hasattr(v, 'op'):
                    look(v)
        if not hit:
            return

        def sub(v):
            if v in hit:
                return hit[v]
            if not hasattr(v, 'op') or not T.hasloc(v):
                return v
            return T.subst(v, hit)
        for d in (st.env, st.attrs, st.heap):
            for k, v in list(d.items()):
                if hasattr(v, 'op') and T.hasloc(v):
                    d[k] = sub(v)

    def _write(self, t, f, facts=None, path=TRUE):
        """facts: what is known where the write happens, path: the condition under which it happens"""
        st = self.st
        if t.op == 'loc':
            o = self.rd(t)
            n = f(o)
            st.heap[t] = n if path is TRUE else ite(path, T.assume(n, facts), o)
        elif t.op == 'view':
            base, op = t.args[0], t.args[1]
            if op == 'idx':
                i = self.rd(t.args[2])
                self._write(base, lambda o: T.store(o, i, f(idx(o, i))), facts, path)
            elif op == 'T':
                self._write(base, lambda o: T.transpose(f(T.transpose(o))), facts, path)
            else:
                self._write(base, f, facts, path)
        elif t.op == 'ite':
            facts = facts or {}
            c, a, b = t.args
            cs = T.assume(c, facts)
            if cs is not FALSE:
                ft = dict(facts)
                ft.update({c: True, cs: True})
                self._write(a, f, ft, band(path, c))
            if cs is not TRUE:
                ff = dict(facts)
                ff.update({c: False, cs: False})
                self._write(b, f, ff, band(path, bnot(c)))
        elif t.op not in ('undef', 'none', 'diverge'):
            self.note_unknown('write to a value without identity')

    def box(self, t, kind=None):
        """give a fresh container identity when it is bound to a name"""
        if t.op in ('num', 'str', 'bool', 'none', 'loc', 'view', 'fun', 'bm', 'clo', 'lib', 'cls', 'inst', 'E', 'PI',
                    'INF', 'NAN', 'undef', 'sym', 'len', 'fmt', 'ix', 'bv', 'seq', 'superof', 'exc', 'partial',
                    'zipv', 'enumv', 'itv'):
            return t
        if t.op == 'ite':
            a, b = self.box(t.args[1], kind), self.box(t.args[2], kind)
            return T.mkite(t.args[0], a, b)
        if T.isscalar(t) or T.isbool(t) and kind is None:
            return t
        return self.alloc(t, kind or self.kind(t))

    # ------------------------------------------------------------------------------------------------ events
    def abspc(self):
        r = self.st.pc if self.st is not None else TRUE
        for p in reversed(self.pcs):
            r = band(p, r)
        return r

    def event(self, kind, what, args=()):
        self.events.append(Event(kind, what, self.abspc(), self.fr.func.qual if self.fr and self.fr.func else '?',
                                 self.line, args))

    def note_unknown(self, what):
        self.unknown[what] = self.unknown.get(what, 0) + 1

    # ------------------------------------------------------------------------------------------------ attributes
    def objterm(self, v):
        """identity term of an object value"""
        if v.op in ('loc', 'view'):
            v = self.rd(v)
        if v.op == 'idx' and v.args[0].op == 'seq' and any(x.op == 'inst' for x in v.args[0].args):
            # one of several objects: case distinction
            es, i = v.args[0].args, v.args[1]
            if i.op not in ('slice_', 'seq') and len(es) <= 6:
                r = es[-1]
                for k in range(len(es) - 2, -1, -1):
                    r = ite(T.eq(i, num(k)), es[k], r)
                return r
        return v

    def init_attr(self, o, name):
        t = T.attr(o, name)
        if t.op != 'attr':
            return t
        key = ('init', o, name)
        if name in SCALAR_ATTRS:
            return t
        # one shared location per initial field
        l = self.closures.get(key)
        if l is None:
            l = mk('loc', self.prog.pkg, next(self.nloc))
            self.meta[l] = LocMeta(self.fieldkind(name), root=t)
            self.closures[key] = l
        if l not in self.st.heap:
            self.st.heap[l] = t
        return l

    def fieldkind(self, name):
        return {'gridSize': 'list', 'latticeConstant': 'list', 'parameterNames': 'list', 'grid': 'list',
                'marginalGrid': 'list', 'boundaries': 'list', 'hyperParameterNames': 'list',
                'hyperParameterValues': 'list', 'flatHyperParameters': 'list', 'flatHyperParameterNames': 'list',
                'transitionModels': 'list', 'transitionModelNames': 'list', 'tmCounts': 'list'}.get(name, 'unknown')

    def getattr(self, v, name):
        st = self.st
        if v.op == 'ite':
            return ite(v.args[0], self.getattr(v.args[1], name), self.getattr(v.args[2], name))
        if v.op == 'lib':
            return self.libs.libattr(self, v.args[0] + '.' + name)
        if v.op == 'cls':
            c = v.args[0]
            f = self.prog.method(c, name)
            if f is not None:
                return mk('fun', f.qual)
            if name == '__name__':
                return string(c)
            return mk('attr', v, name)
        if v.op == 'superof':
            f = self.prog.method(v.args[1], name, after=v.args[2])
            if f is None:
                return mk('lib', 'builtins.object.' + name)
            return mk('bm', v.args[0], f.qual)
        if v.op == 'exc' and False:
            pass
        r = self.libs.valueattr(self, v, name)
        if r is not None:
            return r
        o = self.objterm(v)
        if o.op == 'ite':
            return ite(o.args[0], self.getattr(o.args[1], name), self.getattr(o.args[2], name))
        w = st.attrs.get((o, name))
        if w is not None:
            return w
        c = self.objcls.get(o)
        if o.op == 'inst':
            c = o.args[1]
        if c is not None:
            f = self.prog.method(c, name)
            if f is not None:
                if 'property' in f.decos:
                    return self.call_func(f, [v], {})
                if 'staticmethod' in f.decos:
                    return mk('fun', f.qual)
                return mk('bm', o, f.qual)
            if o.op == 'inst':
                src = self.closures.get(('copyof', o))
                if src is not None:
                    return self.getattr(src, name)
                dead = self.st
                self.maybe_raise(TRUE, 'AttributeError')
                if self.st is not dead and self.st.pc is FALSE:
                    raise Diverge()
                return mk('attr', o, name)
        if name == '__class__':
            return mk('typeof', o)
        return self.init_attr(o, name)

    def setattr(self, v, name, val):
        if v.op == 'ite':
            c, a, b = v.args
            for o, pol in ((a, True), (b, False)):
                old = self.getattr(o, name)
                self.setattr(o, name, ite(c, val, old) if pol else ite(c, old, val))
            return
        o = self.objterm(v)
        if o.op == 'ite':
            return self.setattr(o, name, val)
        self.event('setattr', (o, name))
        r = [x for x in self.roots(val)]
        if r:
            self.event('escape', (o, name), args=tuple(r))
        self.st.attrs[(o, name)] = val

    # ------------------------------------------------------------------------------------------------ control helpers
    def cond(self, v):
        c = v
        if T.hasloc(c):
            c = self.rd(c)
        c = truth(self.objtruth(self.assume(c)))
        return self.assume(c)

    def objtruth(self, c):
        if c.op == 'inst':
            k = c.args[1]
            if k in self.prog.classes and not any(self.prog.method(k, m) for m in ('__bool__', '__len__')) and \
                    k not in ('Parameter', 'HyperParameter'):
                return TRUE
        elif c.op == 'ite':
            return ite(c.args[0], self.objtruth(c.args[1]), self.objtruth(c.args[2]))
        return c

    def add_facts(self, st, c, val):
        for a, v in T.literals(c, val).items():
            st.facts[a] = v

    def fork(self, c):
        """(then-state, else-state); either may be None"""
        st = self.st
        if c is TRUE:
            return st, None
        if c is FALSE:
            return None, st
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = band(s1.pc, c), band(s2.pc, bnot(c))
        self.add_facts(s1, c, True)
        self.add_facts(s2, c, False)
        return s1, s2

    def merge(self, c, s1, s2):
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        s = State()
        s.pc = bor(s1.pc, s2.pc)
        s.facts = {k: v for k, v in s1.facts.items() if s2.facts.get(k) is v}

        def phi(a, b):
            if a is b:
                return a
            if a is None:
                return b
            if b is None:
                return a
            if a is T.UNDEF:
                return b
            if b is T.UNDEF:
                return a
            return ite(c, a, b)
        for k in list(s1.env) + [k for k in s2.env if k not in s1.env]:
            s.env[k] = phi(s1.env.get(k), s2.env.get(k))
        for k in list(s1.heap) + [k for k in s2.heap if k not in s1.heap]:
            a, b = s1.heap.get(k), s2.heap.get(k)
            s.heap[k] = phi(a, b)
        old = self.st
        for k in list(s1.attrs) + [k for k in s2.attrs if k not in s1.attrs]:
            a, b = s1.attrs.get(k), s2.attrs.get(k)
            if a is not b and (a is None or b is None):
                self.st = s
                iv = self.init_or_copy(k)
                a = iv if a is None else a
                b = iv if b is None else b
            s.attrs[k] = phi(a, b)
        self.st = old
        return s

    def init_or_copy(self, k):
        o, name = k
        if o.op == 'inst':
            src = self.closures.get(('copyof', o))
            if src is not None:
                return self.getattr(src, name)
            return T.UNDEF
        if name.startswith('#'):
            return mk('attr', o, name)
        return self.init_attr(o, name)

    def maybe_raise(self, cnd, exc, line=None):
        """implicit exception: only relevant when a surrounding handler can observe it"""
        if not any(self.catches(h, exc) for fr in self.frames for h in fr.trys):
            return
        cnd = self.cond(cnd)
        if cnd is FALSE:
            return
        s1, s2 = self.fork(cnd)
        if s1 is not None:
            self.fr.raises.append((s1, mk('exc', exc, True), self.line))
        if s2 is None:
            # everything raises: continue with a dead state (facts contradictory); mark by FALSE pc
            s2 = self.st.copy()
            s2.pc = FALSE
        self.st = s2

    @staticmethod
    def catches(handlers, exc):
        for h in handlers:
            if h is None or h in ('Exception', 'BaseException') or h == exc:
                return True
            if h == 'LookupError' and exc in ('KeyError', 'IndexError'):
                return True
        return False

    # ------------------------------------------------------------------------------------------------ functions
    def call_func(self, f, args, kwargs, selfcls=None):
        """inline a package function"""
        if f.qual in self.modular:
            r = self.modular[f.qual](self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        if f.qual in self.opaque or f.name in self.opaque or \
                f.isgen and not self.explicit(args) or \
                self.callkey(f, args) in self.calls or len(self.calls) > MAXDEPTH:
            if self.callkey(f, args) in self.calls:
                self.unknown['recursion in ' + f.qual] = self.unknown.get('recursion in ' + f.qual, 0) + 1
            return self.opaque_call(f.qual, args, kwargs)
        self.analysed.add(f.qual)
        fr = Frame(f, f.mod)
        env = self.bind(f.node.args, args, kwargs, f)
        if f.isgen:
            # the sequence of yielded values, computed eagerly
            out = self.alloc(seq(), 'list')
            env['<yield>'] = out
            self.run_body(f.node.body, fr, env, self.callkey(f, args))
            return out
        return self.run_body(f.node.body, fr, env, self.callkey(f, args))

    def callkey(self, f, args):
        k = (f.qual,) + tuple(o.id for o in (self.objterm(a) for a in args) if o.op == 'inst')
        if self.explicit(args):
            k += tuple(self.rd(a).id for a in args)
        return k

    def explicit(self, args):
        """some argument is a sequence of known length (recursion on its elements ends)"""
        return any(a.op in ('loc', 'seq', 'view') and self.rd(a).op == 'seq' and len(self.rd(a).args) <= 12 for a in args)

    def opaque_call(self, name, args, kwargs):
        ts = [self.rd(a) for a in args] + [mk('kw', k, self.rd(v)) for k, v in sorted(kwargs.items())]
        return self.box(mk('call', name, *ts))

    def run_body(self, body, fr, env, qual):
        outer_env, outer_pc = self.st.env, self.st.pc
        self.frames.append(fr)
        self.calls.append(qual)
        self.pcs.append(outer_pc)
        old, self.fr = self.fr, fr
        oldline = self.line
        self.st.env = env
        self.st.pc = TRUE
        try:
            end = self.block(body, self.st)
        finally:
            self.frames.pop()
            self.calls.pop()
            self.pcs.pop()
            self.fr = old
            self.line = oldline
        rets = list(fr.returns)
        if end is not None:
            rets.append((end, NONE))
        for s, e, l in fr.raises:
            s.env = dict(outer_env)
            s.pc = band(outer_pc, s.pc)
            if self.fr is not None:
                self.fr.raises.append((s, e, l))
            else:
                self.final_raises.append((s, e, l))
        if not rets:
            s = self.st.copy() if self.st is not None else fr.raises[-1][0].copy() if fr.raises else State()
            s.env, s.pc = outer_env, FALSE
            self.st = s
            raise Diverge()
        st, val = rets[-1]
        for s, v in reversed(rets[:-1]):
            c = s.pc
            st = self.merge_ret(c, s, v, st, val)
            st, val = st
        if fr.raises:
            # surviving paths: the raise conditions are false from here on
            c = st.pc
            for a, b in T.literals(c, True).items():
                st.facts[a] = b
        st.env = outer_env
        st.pc = band(outer_pc, st.pc) if fr.raises else outer_pc
        self.st = st
        return val

    def merge_ret(self, c, s1, v1, s2, v2):
        st = self.merge(c, s1, s2)
        if v1 is v2:
            return st, v1
        self.st = st
        # box immediates so that choices of references stay references
        return st, ite(c, v1, v2)

    def bind(self, a, args, kwargs, f):
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        nd = len(names) - len(a.defaults)
        for j, n in enumerate(names):
            if args and args[0].op == 'star':
                # unpacked sequence of unknown length
                c = args[0].args[0]
                v = idx(c, ZERO)
                if n in kwargs:
                    continue
                if j >= nd:
                    v = ite(T.mk_pos(T.tlen(c)), v, self.rd(self.const_expr(a.defaults[j - nd])))
                env[n] = self.box(v)
                args[0] = mk('star', T.tslice(c, ONE, NONE, NONE))
            elif args:
                env[n] = self.box(args.pop(0))
            elif n in kwargs:
                env[n] = self.box(kwargs.pop(n))
        if a.vararg:
            if len(args) == 1 and args[0].op == 'star':
                env[a.vararg.arg] = args[0].args[0]
            else:
                env[a.vararg.arg] = seq(*args)
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kwargs:
                env[x.arg] = self.box(kwargs.pop(x.arg))
            elif d is not None:
                defaults[x.arg] = d
        star = kwargs.pop('**', None)
        for n, d in defaults.items():
            if n not in env:
                dv = self.const_expr(d)
                if star is not None:
                    key = string(n)
                    dv = ite(mk('in', key, self.rd(star)), mk('idx', self.rd(star), key), dv)
                env[n] = dv
        for n in names:
            if n not in env:
                env[n] = mk('missing', n) if star is None else mk('idx', self.rd(star), string(n))
        if a.kwarg:
            items = []
            for k, v in kwargs.items():
                items += [string(k), v]
            d = mk('dict', *items) if items or star is None else None
            if star is not None:
                known = [n for n in names if n in defaults]
                d0 = self.rd(star)
                for n in known:
                    d0 = dictdel(d0, string(n))
                if items:
                    d0 = mk('dictupd', mk('dict', *items), d0)
                d = d0
            env[a.kwarg.arg] = self.alloc(d, 'dict')
        return env

    def const_expr(self, d):
        try:
            v = ast.literal_eval(d)
        except Exception:
            return self.expr(d)
        return self.const(v)

    def const(self, v):
        if v is None:
            return NONE
        if isinstance(v, bool):
            return T.boolean(v)
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, str):
            return string(v)
        if isinstance(v, (list, tuple)):
            return seq(*[self.const(x) for x in v])
        if isinstance(v, dict):
            items = []
            for k, x in v.items():
                items += [self.const(k), self.const(x)]
            return mk('dict', *items)
        if isinstance(v, complex) or isinstance(v, bytes):
            return mk('const', repr(v))
        return mk('const', repr(v))

    # ------------------------------------------------------------------------------------------------ statements
    def block(self, stmts, st):
        self.st = st
        for s in stmts:
            if self.st is None:
                return None
            self.line = getattr(s, 'lineno', self.line)
            try:
                self.stmt(s)
            except Diverge:
                self.st = None
        return self.st

    def stmt(self, s):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s line %d' % (type(s).__name__, s.lineno))
        self.sites += 1
        m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            v = self.expr(s.value.value) if s.value.value is not None else NONE
            self.libs.METHODS['append'](self, self.st.env['<yield>'], [v], {})
            return
        if isinstance(s.value, ast.YieldFrom):
            self.libs.METHODS['extend'](self, self.st.env['<yield>'], [self.expr(s.value.value)], {})
            return
        self.expr(s.value)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            self.st.env[a.asname or a.name.split('.')[0]] = mk('lib', a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, s):
        for a in s.names:
            if s.level:
                self.st.env[a.asname or a.name] = self.global_name_full(
                    self.prog.pkg + '.' + (s.module + '.' if s.module else '') + a.name)
            else:
                self.st.env[a.asname or a.name] = mk('lib', s.module + '.' + a.name)

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_Assert(self, s):
        c = self.cond(self.expr(s.test))
        s1, s2 = self.fork(c)
        if s2 is not None:
            self.fr.raises.append((s2, mk('exc', 'AssertionError', False), self.line))
        self.st = s1

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.expr(t.value)
                i = self.rd(self.index(t.slice))
                self.write(b, lambda o: dictdel(o, i) if o.op in ('dict', 'dictdel') or i.op == 'str'
                           else mk('delitem', o, i), 'del')
            elif isinstance(t, ast.Name):
                self.st.env.pop(t.id, None)

    def s_Return(self, s):
        v = self.expr(s.value) if s.value is not None else NONE
        v = self.box(v)
        self.fr.returns.append((self.st, v))
        self.st = None

    def s_Raise(self, s):
        name = '?'
        if s.exc is None:
            name = '<reraise>'
        else:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            if isinstance(s.exc, ast.Call):
                for a in s.exc.args:
                    self.expr(a)
            from .model import dotted
            d = dotted(e)
            if d:
                name = self.prog.resolve(self.fr.mod, d).split('.')[-1]
                v = self.st.env.get(d)
                if v is not None and v.op == 'exc':
                    name = v.args[0]
        if name == '<reraise>':
            cur = self.st.env.get('<exc>')
            name = cur.args[0] if cur is not None else 'Exception'
        self.fr.raises.append((self.st, mk('exc', name, False), self.line))
        self.st = None

    def s_If(self, s):
        c = self.cond(self.expr(s.test))
        if self.st is None:
            return
        s1, s2 = self.fork(c)
        base = self.st
        e1 = self.block(s.body, s1) if s1 is not None else None
        e2 = self.block(s.orelse, s2) if s2 is not None else None
        if e1 is None and e2 is None:
            self.st = None
        elif e1 is None:
            self.st = e2
        elif e2 is None:
            self.st = e1
        else:
            self.st = self.merge(c, e1, e2)

    def s_FunctionDef(self, s):
        self.st.env[s.name] = self.make_closure(s)

    def make_closure(self, node):
        c = mk('clo', self.prog.pkg, next(self.nclo))
        self.closures[c] = (node, self.st.env, self.fr)
        return c

    def s_Assign(self, s):
        v = self.expr(s.value)
        v = self.box(v)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.box(self.expr(s.value)))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value)
            if t.attr in ('shape', 'flags'):
                return
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.expr(t.value)
            i = self.rd(self.index(t.slice))
            val = v
            self.setitem(b, i, val)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            for j, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, self.box(T.tslice(self.rd(v), num(j), NONE if j == n - 1 else
                                                           num(j - n + 1), NONE)))
                else:
                    self.assign(e, self.box(self.elem(v, num(j))))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Unsupported('assign to ' + type(t).__name__)

    def setitem(self, b, i, val):
        b, i, val = ndsub.plain(self, b), ndsub.plain(self, i), ndsub.plain(self, val)
        k = self.kind(b)
        if k == 'list' and not T.isbool(i):
            v = val if val.op in ('loc', 'view') and self.loopdepth == 0 else self.rd(val)
        else:
            v = self.rd(val)
        i = self.assume(i)
        if i.op == 'ite' and T.isbool(i) is False:
            pass
        self.write(b, lambda o: self.store(o, i, v), 'item assignment')

    def store(self, o, i, v):
        if o.op in ('dict', 'dictdel', 'dictupd') or i.op == 'str':
            return dictset(o, i, v)
        if o.op == 'ite':
            return ite(o.args[0], self.store(o.args[1], i, v), self.store(o.args[2], i, v))
        return T.store(o, i, v)

    def s_AugAssign(self, s):
        op = s.op
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            v = self.expr(s.value)
            r = self.inplace(cur, op, v)
            if r is not None:
                self.st.env[t.id] = r
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value)
            cur = self.getattr(o, t.attr)
            v = self.expr(s.value)
            r = self.inplace(cur, op, v)
            if r is not None:
                self.setattr(o, t.attr, r)
        else:
            b = self.expr(t.value)
            i = self.index(t.slice)
            ic = self.rd(i)
            v = self.expr(s.value)
            cur = self.elem(b, i)
            vc = self.rd(v)
            if cur.op == 'loc' or cur.op == 'ite' and isref(cur):     # list of containers held by reference
                r = self.inplace(cur, op, v)
                if r is not None:
                    self.setitem(b, ic, r)
                return
            if b.op == 'loc' and self.meta[b].ealias:
                for r in self.roots(mk('view', b, 'idx', ic)) - self.roots(b):
                    if r.op == 'attr' and r.args[1] in MULTI_D:
                        self.event('mutate', r, args=('augmented assignment of shared element',))
            self.write(b, lambda o: self.store(o, ic, self.arith(op, self.getitem_content(o, ic), vc)),
                       'augmented item assignment')

    def inplace(self, cur, op, v):
        """returns the rebound value or None when the operation happened in place"""
        if isref(cur) and cur.op == 'ite':
            c = cur.args[0]
            s1, s2 = self.fork(c)
            if s1 is not None and s2 is not None:
                self.st = s1
                r1 = self.inplace(cur.args[1], op, v)
                r1 = cur.args[1] if r1 is None else r1
                s1 = self.st
                self.st = s2
                r2 = self.inplace(cur.args[2], op, v)
                r2 = cur.args[2] if r2 is None else r2
                s2 = self.st
                self.st = self.merge(c, s1, s2)
                return ite(c, r1, r2)
        k = self.kind(cur)
        mutable = cur.op in ('loc', 'view')
        if mutable and cur.op == 'view' and cur.args[1] == 'idx':
            c = self.rd(cur)
            if T.isscalar(c) or not self.multidim(cur):
                mutable = False
        if mutable and k == 'unknown' and cur.op == 'loc' and T.isscalar(self.rd(cur)):
            mutable = False
        vc = self.rd(v)
        if mutable and k == 'list' and isinstance(op, ast.Add):
            self.write(cur, lambda o: concat(o, tolist(vc)), 'list +=')
            return None
        if mutable and k != 'list':
            self.write(cur, lambda o: self.arith(op, o, vc), 'in-place arithmetic')
            return None
        if k == 'list' and isinstance(op, ast.Add):
            return self.alloc(concat(self.rd(cur), tolist(vc)), 'list')
        return self.box(self.binop(op, cur, v))

    def multidim(self, view):
        """may an element of this container be an array (so that augmented assignment works in place)?"""
        b = view.args[0]
        c = self.rd(b)
        for r in self.roots(view):
            if r.op == 'attr' and r.args[1] in MULTI_D or r.op == 'sym' and r.args[0].split(':')[-1] in MULTI_D:
                return True
        if c.op == 'attr':
            return c.args[1] in MULTI_D
        if c.op == 'sym':
            return c.args[0].split(':')[-1] in MULTI_D
        if c.op in ('map', 'seq', 'zeros', 'ones', 'mapstore', 'store'):
            e = idx(c, ZERO)
            return not T.isscalar(e) and e.op in ('zeros', 'ones', 'map', 'seq', 'add', 'mono')
        return False

    def s_With(self, s):
        for it in s.items:
            v = self.expr(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        r = self.block(s.body, self.st)
        self.st = r

    def s_Break(self, s):
        self.fr.breaks.append(self.st)
        self.st = None

    def s_Continue(self, s):
        self.fr.continues.append(self.st)
        self.st = None

    # -------------------------------------------------------------------------------------------------- try
    def s_Try(self, s):
        fr = self.fr
        hs = []
        from .model import dotted
        for h in s.handlers:
            if h.type is None:
                hs.append([None])
            elif isinstance(h.type, ast.Tuple):
                hs.append([self.prog.resolve(fr.mod, dotted(e) or '?').split('.')[-1] for e in h.type.elts])
            else:
                hs.append([self.prog.resolve(fr.mod, dotted(h.type) or '?').split('.')[-1]])
        allh = [x for h in hs for x in h]
        saved_raises, fr.raises = fr.raises, []
        saved_returns = fr.returns
        fin = s.finalbody
        if fin:
            fr.returns = []
            saved_b, saved_c = fr.breaks, fr.continues
            fr.breaks = [] if saved_b is not None else None
            fr.continues = [] if saved_c is not None else None
        fr.trys.append(allh)
        entry_pc = self.st.pc
        try:
            end = self.block(s.body, self.st)
        finally:
            fr.trys.pop()
        if end is not None and s.orelse:
            end = self.block(s.orelse, end)
        caught, fr.raises = fr.raises, []
        ends = [end] if end is not None else []
        for st, e, line in caught:
            handled = False
            for h, cl in zip(s.handlers, hs):
                if self.catches(cl, e.args[0]):
                    handled = True
                    st = st.copy()
                    if h.name:
                        st.env[h.name] = e
                    prev = st.env.get('<exc>')
                    st.env['<exc>'] = e
                    r = self.block(h.body, st)
                    if r is not None:
                        if prev is None:
                            r.env.pop('<exc>', None)
                        ends.append(r)
                    break
            if not handled:
                fr.raises.append((st, e, line))
        cur = None
        if ends:
            cur = ends[-1]
            for r in reversed(ends[:-1]):
                cur = self.merge(r.pc, r, cur)
        if fin:
            raised, fr.raises = fr.raises, []
            rets, fr.returns = fr.returns, saved_returns
            for st, e, line in raised:
                r = self.block(fin, st.copy())
                if r is not None:
                    fr.raises.append((r, e, line))
            for st, v in rets:
                r = self.block(fin, st.copy())
                if r is not None:
                    fr.returns.append((r, v))
            if saved_b is not None:
                bs, fr.breaks = fr.breaks, saved_b
                for st in bs:
                    r = self.block(fin, st)
                    if r is not None:
                        fr.breaks.append(r)
            if saved_c is not None:
                cs, fr.continues = fr.continues, saved_c
                for st in cs:
                    r = self.block(fin, st)
                    if r is not None:
                        fr.continues.append(r)
            if cur is not None:
                cur = self.block(fin, cur)
        fr.raises = saved_raises + fr.raises
        self.st = cur

    # -------------------------------------------------------------------------------------------------- loops
    def s_For(self, s):
        it = self.expr(s.iter)
        n, elem = self.iteration(it)
        from .loops import run_loop
        run_loop(self, s, n, elem)

    def s_While(self, s):
        from .loops import run_loop, unroll_while
        if not unroll_while(self, s):
            run_loop(self, s, None, None)

    def iteration(self, it):
        """(length, k -> element value)"""
        if it.op == 'enumv':
            n, e = self.iteration(it.args[0])
            off = it.args[1]
            return n, lambda k: seq(T.add(k, off), self.box(e(k)))
        if it.op == 'zipv':
            parts = [self.iteration(x) for x in it.args]
            n = T.minlen(*[p[0] for p in parts])
            return n, lambda k: seq(*[self.box(p[1](k)) for p in parts])
        if it.op == 'itv':
            return self.iteration(it.args[0])
        if it.op == 'ite':
            # same iteration space wrapped differently (progress bar or not)
            a, b = self.strip_it(it.args[1]), self.strip_it(it.args[2])
            if a is b:
                return self.iteration(a)
            if a.op == b.op == 'enumv' or a.op == b.op == 'zipv':
                return self.iteration(mk(a.op, *[x if x is y else ite(it.args[0], x, y)
                                                 for x, y in zip(a.args, b.args)]))
            c = ite(it.args[0], self.rd(a), self.rd(b))
            return T.tlen(c), lambda k: idx(c, k)
        c = self.rd(it)
        if c.op in ('dict', 'dictdel', 'dictupd'):
            c = keys_of(c)
            return T.tlen(c), lambda k: idx(c, k)
        n = T.tlen(c)
        return n, lambda k: self.elem(it, k)

    def strip_it(self, x):
        while x.op == 'itv':
            x = x.args[0]
        if x.op == 'ite':
            a, b = self.strip_it(x.args[1]), self.strip_it(x.args[2])
            return ite(x.args[0], a, b)
        if x.op == 'loc':
            c = self.st.heap[x]
            m = self.meta[x]
            if m.root is None and not T.hasloc(c):
                return c
        return x

    # ------------------------------------------------------------------------------------------------ expressions
    def expr(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s line %d' % (type(e).__name__, getattr(e, 'lineno', 0)))
        if self.st is None:
            raise Diverge()
        r = m(e)
        if self.st is None:
            raise Diverge()
        return r

    def e_Constant(self, e):
        if e.value is Ellipsis:
            return mk('ellipsis')
        return self.const(e.value)

    def e_Name(self, e):
        return self.lookup(e.id)

    def lookup(self, name):
        v = self.st.env.get(name)
        if v is not None:
            return v
        fr = self.fr
        c = fr.closure
        if name in c:
            return c[name]
        return self.global_name(fr.mod, name)

    def global_name(self, mod, name):
        if name in mod.funcs:
            return mk('fun', mod.funcs[name].qual)
        if name in mod.classes:
            return mk('cls', name)
        if name in mod.imports:
            return self.global_name_full(mod.imports[name])
        if name in mod.globals:
            try:
                return self.const(ast.literal_eval(mod.globals[name]))
            except Exception:
                e = mod.globals[name]
                old = self.st.env
                self.st.env = {}
                try:
                    return self.expr(e)
                finally:
                    self.st.env = old
        if name in ('True', 'False', 'None'):
            return self.const({'True': True, 'False': False, 'None': None}[name])
        import builtins
        if hasattr(builtins, name):
            return mk('lib', 'builtins.' + name)
        return mk('unbound', name)

    def global_name_full(self, full):
        if full.startswith(self.prog.pkg + '.'):
            rest = full[len(self.prog.pkg) + 1:]
            parts = rest.split('.')
            if len(parts) == 1 and parts[0] in self.prog.modules:
                return mk('lib', full)
            if len(parts) == 2 and parts[0] in self.prog.modules:
                return self.global_name(self.prog.modules[parts[0]], parts[1])
            if parts[-1] in self.prog.classes:
                return mk('cls', parts[-1])
        return self.libs.libattr(self, full)

    def e_Attribute(self, e):
        v = self.expr(e.value)
        if v.op == 'lib' and v.args[0].startswith(self.prog.pkg + '.'):
            return self.global_name_full(v.args[0] + '.' + e.attr)
        return self.getattr(v, e.attr)

    def e_Tuple(self, e):
        return self.e_List(e, box=False)

    def e_List(self, e, box=True):
        parts = []
        cur = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                if cur:
                    parts.append(seq(*cur))
                    cur = []
                parts.append(tolist(self.rd(self.expr(x.value))))
            else:
                cur.append(self.box(self.expr(x)))
        if cur or not parts:
            parts.append(seq(*cur))
        r = concat(*parts)
        return self.alloc(r, 'list') if box else r

    def e_Set(self, e):
        return mk('set', *sorted([self.rd(self.expr(x)) for x in e.elts], key=lambda t: t.id))

    def e_Dict(self, e):
        items = []
        upd = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                upd = self.rd(self.expr(v))
                continue
            items += [self.rd(self.expr(k)), self.box(self.expr(v))]
        d = mk('dict', *items)
        if upd is not None:
            d = mk('dictupd', upd, d)
        return self.alloc(d, 'dict')

    def e_JoinedStr(self, e):
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                self.expr(x.value)
        return mk('fmt', 'f-string')

    def e_Lambda(self, e):
        return self.make_closure(e)

    def e_IfExp(self, e):
        c = self.cond(self.expr(e.test))
        s1, s2 = self.fork(c)
        if s1 is None:
            return self.expr(e.orelse)
        if s2 is None:
            return self.expr(e.body)
        self.st = s1
        try:
            a = self.box(self.expr(e.body))
            s1 = self.st
        except Diverge:
            s1 = None
        self.st = s2
        try:
            b = self.box(self.expr(e.orelse))
            s2 = self.st
        except Diverge:
            s2 = None
        if s1 is None:
            self.st = s2
            return b
        if s2 is None:
            self.st = s1
            return a
        self.st = self.merge(c, s1, s2)
        return ite(c, a, b)

    def e_BoolOp(self, e):
        """short circuit, including evaluation under the facts of the earlier operands"""
        isand = isinstance(e.op, ast.And)
        v = self.expr(e.values[0])
        acc = v
        for x in e.values[1:]:
            c = self.cond(acc)
            if c is (FALSE if isand else TRUE):
                return acc if not T.isbool(self.rd(acc)) else c
            if c is (TRUE if isand else FALSE):
                acc = self.expr(x)
                continue
            s1, s2 = self.fork(c)
            go = s1 if isand else s2
            skip = s2 if isand else s1
            self.st = go
            y = self.expr(x)
            go = self.st
            if go.heap is skip.heap:
                pass
            self.st = self.merge(c, go, skip) if isand else self.merge(c, skip, go)
            yc, ac = self.rd(y), self.rd(acc)
            if T.isbool(yc) and T.isbool(ac):
                acc = ite(c, yc, FALSE) if isand else ite(c, TRUE, yc)
            elif isand:
                acc = ite(c, y, FALSE if T.isbool(ac) else acc)
            else:
                acc = ite(c, TRUE if T.isbool(ac) else acc, y)
        return acc

    def e_UnaryOp(self, e):
        v = self.expr(e.operand)
        if isinstance(e.op, ast.Not):
            return bnot(self.cond(v))
        if v.op == 'inst' and ndsub.array(self, v) is not None and isinstance(e.op, ast.USub):
            return ndsub.wrap(self, T.neg(self.rd(ndsub.array(self, v))), [v])
        c = self.rd(v)
        if isinstance(e.op, ast.USub):
            return T.neg(c)
        if isinstance(e.op, ast.Invert):
            return bnot(c) if T.isbool(c) else mk('invert', c)
        return c

    def e_BinOp(self, e):
        return self.binop(e.op, self.expr(e.left), self.expr(e.right))

    def binop(self, op, a, b):
        if a.op == 'inst' or b.op == 'inst':
            pa, pb = ndsub.plain(self, a), ndsub.plain(self, b)
            if pa is not a or pb is not b:
                return ndsub.wrap(self, self.binop(op, pa, pb), [a, b])
        ka, kb = self.kind(a), self.kind(b)
        ac, bc = self.assume(self.rd(a)), self.assume(self.rd(b))
        if (ac.op == 'pp' or bc.op == 'pp') and isinstance(op, (ast.Add, ast.BitOr)):
            return mk('pp', 'and' if isinstance(op, ast.Add) else 'or', ac, bc)
        if isinstance(op, ast.Add):
            if ac.op == 'str' and bc.op == 'str':
                return string(ac.args[0] + bc.args[0])
            if ac.op in ('str', 'fmt', 'strcat') or bc.op in ('str', 'fmt', 'strcat'):
                return mk('strcat', ac, bc)
            if (ka == 'list' and kb in ('list', 'unknown')) or (kb == 'list' and ka in ('list', 'unknown')) and \
                    self.listy(a if ka == 'unknown' else b):
                return self.alloc(concat(self.keep(a, ac), self.keep(b, bc)), 'list')
        if isinstance(op, ast.Mult):
            for (x, kx, xc), (y, ky, yc) in (((a, ka, ac), (b, kb, bc)), ((b, kb, bc), (a, ka, ac))):
                if kx == 'list' and ky != 'ndarray' and xc.op in ('seq', 'concat', 'map') and \
                        (T.isscalar(yc) or ky in ('scalar', 'unknown')):
                    return self.alloc(repeat(xc, yc), 'list')
                if xc.op == 'str':
                    return mk('strcat', xc, yc)
        if isinstance(op, ast.Mod) and ac.op in ('str', 'fmt'):
            return mk('fmt', '%')
        return self.arith(op, ac, bc)

    def keep(self, v, c):
        if v.op == 'loc' and self.loopdepth == 0:
            h = self.st.heap[v]
            if h.op in ('seq', 'concat'):
                return h
        return c

    def listy(self, v):
        return True

    def arith(self, op, a, b):
        r = self.arith0(op, a, b)
        return r

    def arith0(self, op, a, b):
        t = type(op)
        if t is ast.Add:
            return T.add(a, b)
        if t is ast.Sub:
            if a.op == 'set' or b.op == 'set':
                return mk('setdiff', a, b)
            return T.sub(a, b)
        if t is ast.Mult:
            return T.mul(a, b)
        if t is ast.Div:
            return T.div(a, b)
        if t is ast.Pow:
            return T.power(a, b)
        if t is ast.FloorDiv:
            return floordiv(a, b)
        if t is ast.Mod:
            return mk('mod', a, b)
        if t is ast.BitAnd:
            if T.isbool(a) and T.isbool(b):
                return band(a, b)
            return mk('bitand', a, b)
        if t is ast.BitOr:
            if T.isbool(a) and T.isbool(b):
                return bor(a, b)
            return mk('bitor', a, b)
        if t is ast.MatMult:
            return mk('matmul', a, b)
        return mk('binop', t.__name__, a, b)

    def e_Compare(self, e):
        left = self.expr(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.expr(r)
            c = self.compare(op, left, right)
            res = c if res is None else band(res, c)
            left = right
        return res

    def compare(self, op, a, b):
        t = type(op)
        if t not in (ast.Is, ast.IsNot, ast.In, ast.NotIn):
            a, b = ndsub.plain(self, a), ndsub.plain(self, b)
        ac, bc = self.assume(self.rd(a)), self.assume(self.rd(b))
        if t in (ast.Is, ast.IsNot):
            if bc is NONE:
                r = T.isnone(ac)
            elif ac is NONE:
                r = T.isnone(bc)
            elif bc.op in ('bool',) :
                r = truth(ac) if bc is TRUE else bnot(truth(ac))
            elif a is b or ac is bc:
                r = TRUE
            elif ac.op == 'inst' and bc.op == 'inst':
                r = FALSE
            else:
                r = self.cmpeq(ac, bc, 'is')
            return r if t is ast.Is else bnot(r)
        if t in (ast.Eq, ast.NotEq):
            for x, xc, yc in ((a, ac, bc), (b, bc, ac)):
                if xc.op == 'seq' and scalarish(yc) and self.kind(x) == 'ndarray':
                    # elementwise comparison of an array of known length
                    return seq(*[self.cmpeq(z, yc) if t is ast.Eq else bnot(self.cmpeq(z, yc)) for z in xc.args])
        if t is ast.Eq:
            return self.cmpeq(ac, bc)
        if t is ast.NotEq:
            return bnot(self.cmpeq(ac, bc))
        if t is ast.Lt:
            return T.lt(ac, bc)
        if t is ast.Gt:
            return T.lt(bc, ac)
        if t is ast.LtE:
            return T.le(ac, bc)
        if t is ast.GtE:
            return T.le(bc, ac)
        if t in (ast.In, ast.NotIn):
            r = self.member(ac, bc)
            return r if t is ast.In else bnot(r)
        raise Unsupported('compare')

    def cmpeq(self, a, b, how='eq'):
        if a.op == 'ite' and T.isconst(b) or b.op == 'ite' and T.isconst(a):
            x, y = (a, b) if a.op == 'ite' else (b, a)
            return ite(x.args[0], self.cmpeq(x.args[1], y), self.cmpeq(x.args[2], y))
        if a.op in ('cls', 'lib') and b.op in ('cls', 'lib'):
            return TRUE if a is b else FALSE
        if a.op == 'typeof' or b.op == 'typeof':
            x, y = (a, b) if a.op == 'typeof' else (b, a)
            if y.op == 'typeof':
                return T.eq(a, b)
            return mk('typeis', x.args[0], self.libs.clsname(y))
        return T.eq(a, b)

    def member(self, a, b):
        if b.op in ('dict', 'dictdel', 'dictupd'):
            return dictin(b, a)
        if b.op == 'ite':
            return ite(b.args[0], self.member(a, b.args[1]), self.member(a, b.args[2]))
        if b.op in ('attr', 'sym') and (b.args[-1] in ('fixedParameterDict', 'kwargs') or
                                        str(b.args[-1]).endswith('kwargs')):
            return mk('in', a, b)
        if b.op == 'setof':
            return self.member(a, b.args[0])
        if a.op == 'str' and b.op == 'str':
            return TRUE if a.args[0] in b.args[0] else FALSE
        if b.op == 'strof' or b.op == 'str' or (b.op == 'sym' and b.args[0].endswith(':query')):
            return mk('in', a, b)
        return T.member(a, b)

    def e_Subscript(self, e):
        b = self.expr(e.value)
        i = self.index(e.slice)
        if b.op == 'lib' and b.args[0] == 'numpy.r_':
            return self.libs.call(self, 'numpy.hstack', [i if i.op == 'seq' else seq(i)], {}, e)
        return self.elem(b, i)

    def index(self, s):
        if isinstance(s, ast.Slice):
            f = lambda x: NONE if x is None else self.rd(self.expr(x))
            return mk('slice_', f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return seq(*[self.index(x) for x in s.elts])
        v = self.expr(s)
        if v is NONE:
            return mk('newaxis')
        return v

    def elem(self, b, i):
        """b[i] as a value: reference into mutable containers where numpy/list semantics share storage"""
        if isref(b) and b.op == 'ite':
            return ite(b.args[0], self.elem(b.args[1], i), self.elem(b.args[2], i))
        b, i = ndsub.plain(self, b), ndsub.plain(self, i)
        ic = self.assume(self.rd(i))
        if b.op == 'seq' and T.isnum(ic):
            n = int(ic.args[0])
            if -len(b.args) <= n < len(b.args):
                return b.args[n]
        if b.op not in ('loc', 'view'):
            return self.getitem_content(self.rd(b), ic)
        if ic.op == 'ite' and not T.isbool(ic):
            pass
        # list held by reference: keep identity of stored references
        if b.op == 'loc':
            h = self.st.heap[b]
            if T.hasloc(h) and h.op == 'seq' and T.isnum(ic):
                n = int(ic.args[0])
                if -len(h.args) <= n < len(h.args):
                    return self.held(b, h, n)
            if T.hasloc(h) and h.op == 'dict':
                for k, v in zip(h.args[::2], h.args[1::2]):
                    if k is ic:
                        return v
            if T.hasloc(h) and h.op == 'concat' and h.args[-1].op == 'seq' and T.isnum(ic) and ic.args[0] == -1:
                return h.args[-1].args[-1]
        c = self.getitem_content(self.rd(b), ic)
        if T.isscalar(c) or T.isconst(c) or T.isbool(c) or isobj(c):
            return c
        k = self.kind(b)
        if k == 'dict':
            return c
        # fancy indexing copies
        if T.isbool(ic) or ic.op in ('map', 'concat', 'filtermap', 'where1') or \
                (ic.op == 'seq' and any(x.op in ('map', 'seq', 'concat') or T.isbool(x) and x.op != 'bool' or
                                        (x.op == 'attr') for x in ic.args)):
            return self.alloc(c, 'ndarray')
        if ic.op == 'slice_':
            if k == 'list':
                if all(x is T.NONE for x in ic.args):
                    r = self.shallow(b)
                    if r is not None:
                        return r
                return self.alloc(c, 'list', ealias=[b])
            return mk('view', b, 'idx', ic)
        return mk('view', b, 'idx', ic)

    def shallow(self, v):
        """copy of a list with known elements: the elements themselves are shared"""
        if v.op != 'loc' or self.loopdepth or self.kind(v) != 'list' or self.st.heap[v].op != 'seq':
            return None
        for n in range(len(self.st.heap[v].args)):
            self.held(v, self.st.heap[v], n)
        return self.alloc(self.st.heap[v], 'list')

    def held(self, b, h, n):
        """the n-th element of a list with known elements; values that merged paths left without identity get one"""
        x = h.args[n]
        if T.hasloc(x) and x.op == 'ite' or not T.hasloc(x):
            y = self.alloc(x, 'list') if x.op == 'seq' else self.box(x)
            if y is not x:
                a = list(h.args)
                a[n] = y
                self.st.heap[b] = seq(*a)
            return y
        return x

    def getitem_content(self, c, ic):
        if c.op in ('dict', 'dictdel', 'dictupd'):
            r = dictget(c, ic)
            if r is not None:
                return r
            return mk('idx', c, ic)
        if c.op == 'ite':
            return ite(c.args[0], self.getitem_content(c.args[1], ic), self.getitem_content(c.args[2], ic))
        return self.libs.getitem(self, c, ic)

    def e_Starred(self, e):
        return mk('star', self.expr(e.value))

    def e_ListComp(self, e):
        return self.comp(e, 'list')

    def e_GeneratorExp(self, e):
        return self.comp(e, 'list')

    def e_SetComp(self, e):
        return mk('setof', self.rd(self.comp(e, 'list')))

    def e_DictComp(self, e):
        return self.comp(e, 'dict')

    def comp(self, e, kind):
        saved = self.st.env
        self.st.env = dict(saved)
        self.loopdepth += 1
        outer, self.shared = self.shared, []
        try:
            r = self.comp_gen(e, 0, kind)
        finally:
            self.loopdepth -= 1
            if self.st is not None:
                self.st.env = saved
            shared, self.shared = self.shared, outer
        if self.st is None:
            raise Diverge()
        return self.alloc(r, 'list' if kind == 'list' else 'dict', ealias=shared)

    def decided(self, g, n, elem):
        """the conditions of a comprehension are known for each of its few elements"""
        saved, ev = self.st, list(self.events)
        self.st = self.st.copy()
        try:
            for i in range(int(n.args[0])):
                x = elem(num(i))
                if self.objterm(x).op != 'inst':
                    return False
                self.assign(g.target, self.box(x))
                for t in g.ifs:
                    c = self.cond(self.expr(t))
                    if c is FALSE:
                        break
                    if c is not TRUE:
                        return False
            return True
        except Diverge:
            return False
        finally:
            self.st, self.events = saved, ev

    def comp_gen(self, e, gi, kind):
        g = e.generators[gi]
        it = self.expr(g.iter)
        n, elem = self.iteration(it)
        # few known objects: one evaluation per object
        if T.isnum(n) and n.args[0] <= 8 and kind == 'list' and gi + 1 == len(e.generators) and \
                (not g.ifs or self.decided(g, n, elem)):
            el = [elem(num(i)) for i in range(int(n.args[0]))]
            if any(self.objterm(x).op == 'inst' for x in el):
                out = []
                for x in el:
                    self.assign(g.target, self.box(x))
                    if any(self.cond(self.expr(t)) is FALSE for t in g.ifs):
                        continue
                    ve = self.expr(e.elt)
                    if ve.op in ('view', 'loc') and self.roots(ve):
                        self.shared.append(ve.args[0] if ve.op == 'view' else ve)
                    out.append(self.rd(ve))
                return seq(*out)
        k = T.fresh('k')
        heap0 = dict(self.st.heap)
        attrs0 = dict(self.st.attrs)
        self.assign(g.target, self.box(elem(k)))
        c = TRUE
        outer = self.st
        self.pcs.append(self.st.pc)
        pc0 = self.st.pc
        self.st.pc = TRUE
        facts0 = dict(self.st.facts)
        for t in g.ifs:
            ci = self.cond(self.expr(t))
            c = band(c, ci)
            self.add_facts(self.st, ci, True)
            self.st.pc = band(self.st.pc, ci)
        nr = len(self.fr.raises)
        try:
            if gi + 1 < len(e.generators):
                inner = self.comp_gen(e, gi + 1, kind)
                if kind == 'dict':
                    r = mk('dictof', n, k, inner)
                else:
                    r = T.cat(T.tmap(n, k, ite(c, inner, seq())))
            elif kind == 'dict':
                kk, vv = self.rd(self.expr(e.key)), self.rd(self.expr(e.value))
                r = T.dictmap(n, k, kk, vv)
                if T.isnum(n) and n.args[0] <= 8 and c is TRUE:
                    items = []
                    for i in range(int(n.args[0])):
                        items += [T.subst(kk, {k: num(i)}), T.subst(vv, {k: num(i)})]
                    r = mk('dict', *items)
            else:
                ve = self.expr(e.elt)
                if ve.op in ('view', 'loc') and self.roots(ve):
                    self.shared.append(ve.args[0] if ve.op == 'view' else ve)
                v = self.rd(ve)
                r = T.filtermap(n, k, c, v)
        finally:
            self.pcs.pop()
            if self.st is not None:
                self.st.pc = pc0
                self.st.facts = facts0
        # exits raised inside
        for j in range(nr, len(self.fr.raises)):
            s, ex, l = self.fr.raises[j]
            cnd = T.any_(n, k, s.pc)
            s = s.copy()
            s.pc = band(pc0, cnd)
            self.fr.raises[j] = (s, ex, l)
            self.add_facts(self.st, cnd, False)
            self.st.pc = band(self.st.pc, bnot(cnd))
        # side effects on the store inside comprehensions are not summarised: flag
        for l, v in self.st.heap.items():
            if l in heap0 and heap0[l] is not v and k in fv(v):
                self.note_unknown('store effect in comprehension')
                self.st.heap[l] = mk('unknown', 'comp-effect', next(self.nloc))
        for a, v in self.st.attrs.items():
            if attrs0.get(a) is not v and (k in fv(v)):
                self.note_unknown('attribute effect in comprehension')
        return r

    # -------------------------------------------------------------------------------------------------- calls
    def e_Call(self, e):
        f = self.expr(e.func) if not isinstance(e.func, ast.Attribute) else None
        recv = None
        if f is None:
            recv = self.expr(e.func.value)
            if recv.op == 'lib' and recv.args[0].startswith(self.prog.pkg + '.'):
                f = self.global_name_full(recv.args[0] + '.' + e.func.attr)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value)
                c = self.rd(v)
                if v.op == 'seq':
                    args.extend(v.args)
                elif c.op == 'seq':
                    args.extend(c.args)
                else:
                    args.append(mk('star', c))
            else:
                args.append(self.expr(a))
        for k in e.keywords:
            if k.arg is None:
                v = self.expr(k.value)
                c = self.rd(v)
                if c.op == 'dict' and all(x.op == 'str' for x in c.args[::2]):
                    for kk, vv in zip(c.args[::2], c.args[1::2]):
                        kwargs[kk.args[0]] = vv
                else:
                    kwargs['**'] = c
            else:
                kwargs[k.arg] = self.expr(k.value)
        self.line = e.lineno
        if f is None:
            return self.call_method(recv, e.func.attr, args, kwargs, e)
        return self.call(f, args, kwargs, e)

    def call(self, f, args, kwargs, node=None):
        if f.op == 'ite':
            c = self.assume(f.args[0])
            if c is TRUE:
                return self.call(f.args[1], args, kwargs, node)
            if c is FALSE:
                return self.call(f.args[2], args, kwargs, node)
            return self.choice(c, lambda: self.call(f.args[1], args, kwargs, node),
                               lambda: self.call(f.args[2], args, kwargs, node))
        if f.op == 'fun':
            return self.call_func(self.prog.funcs[f.args[0]], args, kwargs)
        if f.op == 'bm':
            return self.call_func(self.prog.funcs[f.args[1]], [f.args[0]] + args, kwargs)
        if f.op == 'clo':
            node_, env, fr = self.closures[f]
            nf = Frame(fr.func, fr.mod)
            nf.closure = dict(fr.closure)
            nf.closure.update(env)
            if isinstance(node_, ast.Lambda):
                body = [ast.copy_location(ast.Return(value=node_.body), node_.body)]
            else:
                body = node_.body
            if self.calls.count('<clo>%s' % f.args[1]) > 0:
                return self.opaque_call('<closure>', args, kwargs)
            b = self.bind(node_.args, args, kwargs, None)
            return self.run_body(body, nf, b, '<clo>%s' % f.args[1])
        if f.op == 'cls':
            return self.instantiate(f.args[0], args, kwargs)
        if f.op == 'lib':
            return self.libs.call(self, f.args[0], args, kwargs, node)
        if f.op == 'partial':
            return self.call(f.args[0], list(f.args[1:]) + args, kwargs, node)
        if f.op == 'vm':
            return self.libs.method(self, f.args[0], f.args[1], args, kwargs, node)
        if f.op == 'inst' and self.prog.method(f.args[1], '__call__') is not None:
            return self.call_func(self.prog.method(f.args[1], '__call__'), [f] + list(args), kwargs)
        # unknown callable (user function): uninterpreted
        fc = self.rd(f)
        return self.apply(fc, args, kwargs)

    def apply(self, fc, args, kwargs):
        if fc.op == 'ite':
            return self.choice(fc.args[0], lambda: self.apply(fc.args[1], args, kwargs),
                               lambda: self.apply(fc.args[2], args, kwargs))
        if fc.op in ('fun', 'bm', 'clo', 'cls', 'lib', 'partial'):
            return self.call(fc, args, kwargs)
        if fc.op == 'attr' and fc.args[1] in OPAQUE_METHODS - {'function', 'density', 'prior', 'jeffreys'}:
            # bound method of an opaque object that has been given another name
            return self.call_method(fc.args[0], fc.args[1], args, kwargs, None)
        ts = [self.rd(a) for a in args] + [mk('kw', k, self.rd(v)) for k, v in sorted(kwargs.items())]
        t = mk('apply', fc, *ts)
        self.maybe_raise(mk('exc?', t), 'Exception?')
        return self.alloc(t, 'unknown', alias=[a for a in args if a.op in ('loc', 'view')])

    def choice(self, c, fa, fb):
        s1, s2 = self.fork(c)
        if s1 is None:
            return fb()
        if s2 is None:
            return fa()
        self.st = s1
        try:
            a = self.box(fa())
            s1 = self.st
        except Diverge:
            s1 = None
        self.st = s2
        try:
            b = self.box(fb())
            s2 = self.st
        except Diverge:
            s2 = None
        if s1 is None and s2 is None:
            raise Diverge()
        if s1 is None:
            self.st = s2
            return b
        if s2 is None:
            self.st = s1
            return a
        self.st = self.merge(c, s1, s2)
        return ite(c, a, b)

    def instantiate(self, cname, args, kwargs):
        if cname in ('ConfigurationError', 'PostProcessingError'):
            return mk('exc', cname, False)
        c = self.prog.classes[cname]
        nw = self.prog.method(cname, '__new__')
        if nw is not None and ndsub.isarrayclass(self, cname):
            return self.call_func(nw, [mk('cls', cname)] + list(args), kwargs)
        if nw is not None:
            # array subclass with attributes: record of its arguments
            b = self.bind(nw.node.args, [NONE] + list(args), kwargs, nw)
            names = [x.arg for x in nw.node.args.args][1:]
            o = mk('inst', self.prog.pkg + str(next(self.nloc)), cname)
            for n in names:
                self.st.attrs[(o, n)] = b[n]
            return o
        o = mk('inst', self.prog.pkg + str(next(self.nloc)), cname)
        init = self.prog.method(cname, '__init__')
        if init is not None:
            self.call_func(init, [o] + list(args), kwargs)
        return o

    def call_method(self, recv, name, args, kwargs, node):
        if recv.op in ('idx', 'loc', 'view'):
            r = self.objterm(recv)
            if r.op == 'ite' and any(x.op == 'inst' or x in self.objcls for x in T.subterms_upto(r, 'ite')):
                recv = r
        if recv.op == 'ite' and name not in ('append', 'close'):
            c = self.assume(recv.args[0])
            if c is TRUE:
                return self.call_method(recv.args[1], name, args, kwargs, node)
            if c is FALSE:
                return self.call_method(recv.args[2], name, args, kwargs, node)
            return self.choice(c, lambda: self.call_method(recv.args[1], name, args, kwargs, node),
                               lambda: self.call_method(recv.args[2], name, args, kwargs, node))
        if recv.op == 'lib':
            return self.call(self.libs.libattr(self, recv.args[0] + '.' + name), args, kwargs, node)
        if recv.op in ('cls', 'superof'):
            f = self.getattr(recv, name)
            return self.call(f, args, kwargs, node)
        o = self.objterm(recv)
        c = o.args[1] if o.op == 'inst' else self.objcls.get(o)
        if (o, name) in self.st.attrs:
            return self.call(self.st.attrs[(o, name)], args, kwargs, node)
        if c is not None:
            f = self.prog.method(c, name)
            if f is not None:
                if name in OPAQUE_METHODS and o.op != 'inst' and (f.qual not in self.inline_ok):
                    return self.dyn(o, name, args, kwargs)
                if 'staticmethod' in f.decos:
                    return self.call_func(f, args, kwargs)
                return self.call_func(f, [o] + args, kwargs)
        r = self.libs.method(self, recv, name, args, kwargs, node)
        if r is not None:
            return r
        if name in OPAQUE_METHODS:
            return self.dyn(o, name, args, kwargs)
        fs = self.prog.bymethod.get(name)
        if fs and len(fs) == 1 and o.op not in ('inst',):
            return self.call_func(fs[0], [o] + args, kwargs)
        if fs:
            return self.dyn(o, name, args, kwargs)
        if o.op == 'inst' or c is not None:
            # callable stored in a field
            f = self.getattr(recv, name)
            return self.call(f, args, kwargs, node)
        self.note_unknown('method ' + name)
        return self.dyn(o, name, args, kwargs)

    inline_ok = frozenset()

    def dyn(self, o, name, args, kwargs):
        """call of a model interface method: uninterpreted function of receiver, its configuration, and arguments"""
        conf = []
        for (ob, an), v in sorted(self.st.attrs.items(), key=lambda p: (p[0][1], p[0][0].id)):
            if ob is o:
                conf.append(mk('conf', an, self.assume(self.rd(v))))
        ts = [self.rd(a) for a in args] + [mk('kw', k, self.rd(v)) for k, v in sorted(kwargs.items())] + conf
        if name in ('processedPdf', 'pdf', 'pmf'):
            ts = [t for t in ts if t.op != 'conf']
        t = mk('dyn', name, o, *ts)
        self.event('dyn', t)
        self.maybe_raise(mk('exc?', t), 'Exception?')
        return self.alloc(t, 'ndarray', alias=[a for a in args if a.op in ('loc', 'view')])


class Diverge(Exception):
    """no normal continuation"""


# ---------------------------------------------------------------------------------------------------- small helpers
def tolist(c):
    if c.op in ('dict', 'dictdel', 'dictupd'):
        return keys_of(c)
    return c


def keys_of(c):
    if c.op == 'dict':
        return seq(*c.args[::2])
    return mk('keys', c)


def repeat(x, n):
    if T.isnum(n) and 0 <= n.args[0] <= 8 and x.op == 'seq':
        return seq(*(x.args * int(n.args[0])))
    if x.op == 'seq' and len(x.args) == 1:
        v = T.fresh()
        return T.tmap(n, v, x.args[0])
    return mk('repeat', x, n)


def floordiv(a, b):
    if T.isnum(a) and T.isnum(b) and b.args[0] != 0:
        return num(a.args[0] // b.args[0])
    return mk('floor', T.div(a, b))


def dictget(c, i):
    if c.op == 'dict':
        for k, v in zip(c.args[::2], c.args[1::2]):
            if k is i:
                return v
        if all(T.isconst(k) for k in c.args[::2]) and T.isconst(i):
            return None
    if c.op == 'dictdel' and T.isconst(i) and i is not c.args[1]:
        return dictget(c.args[0], i) or mk('idx', c.args[0], i)
    if c.op == 'dictset':
        if c.args[1] is i:
            return c.args[2]
        if T.isconst(i) and T.isconst(c.args[1]):
            return dictget(c.args[0], i) or mk('idx', c.args[0], i)
    return None


def dictset(o, i, v):
    if o.op == 'dict':
        items = list(o.args)
        for j in range(0, len(items), 2):
            if items[j] is i:
                items[j + 1] = v
                return mk('dict', *items)
        if T.isconst(i) and all(T.isconst(k) for k in items[::2]):
            return mk('dict', *(items + [i, v]))
    if o.op == 'ite':
        return ite(o.args[0], dictset(o.args[1], i, v), dictset(o.args[2], i, v))
    return mk('dictset', o, i, v)


def dictdel(o, i):
    if o.op == 'dict':
        items = []
        for k, v in zip(o.args[::2], o.args[1::2]):
            if k is not i:
                items += [k, v]
        return mk('dict', *items)
    if o.op == 'dictdel':
        ks = sorted([o.args[1], i], key=lambda t: t.id)
        if ks[0] is ks[1]:
            return o
        return mk('dictdel', mk('dictdel', o.args[0], ks[0]), ks[1]) if o.args[0].op != 'dictdel' else \
            mk('dictdel', o, i)
    return mk('dictdel', o, i)


def dictin(c, k):
    if c.op == 'dict':
        r = FALSE
        for x in c.args[::2]:
            r = bor(r, T.eq(x, k))
        return r
    if c.op == 'dictdel':
        if k is c.args[1]:
            return FALSE
        if T.isconst(k):
            return dictin(c.args[0], k)
    if c.op == 'dictset':
        return bor(T.eq(c.args[1], k), dictin(c.args[0], k))
    if c.op == 'dictupd':
        return bor(dictin(c.args[0], k), dictin(c.args[1], k))
    return mk('in', k, c)
