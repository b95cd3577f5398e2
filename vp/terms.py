"""Hash-consed value-graph terms with an algebraic normal form.

Every constructor normalises: sums/products are polynomials with rational coefficients over atoms (elementwise numpy
arithmetic is treated as real arithmetic), exp is a power of E, logs of products are split, scalar factors leave Sum(),
booleans and gating nodes are ordered if-then-else diagrams, select/store/map are reduced.  Bound variables of
binders (map, any-first, rec) are canonical (named by binder height), so alpha-equivalent graphs are identical objects.
"""
from fractions import Fraction
import itertools

_table = {}
_ids = itertools.count()


class T(object):
    __slots__ = ('op', 'args', 'id', '_fv', '_h', '_size', '_loc', '_kids', '_bv')

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op,) + tuple((type(a).__name__, a) if not isinstance(a, T) else a for a in args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.id = op, args, next(_ids)
        t._fv = t._h = t._size = t._loc = t._bv = None
        t._kids = [a for a in args if isinstance(a, T)]
        _table[key] = t
    return t


def kids(t):
    return t._kids


# ------------------------------------------------------------------------------------------------ variables / binders
_fresh = itertools.count()


def fresh(hint='k'):
    return mk('ix', hint, next(_fresh))


def bv(h, arr=False):
    return mk('bv', h, arr)


BINDERS = {'map': 1, 'first': 1, 'lastix': 1, 'iters': 0, 'filtermap': 1, 'mapstore': 1, 'rec': 1, 'dictmap': 1,
           'lag': 0, 'lam': 0}
# position of first bound variable; for rec the number of bound variables is args[0]+1, otherwise 1


def bound_of(t):
    if t.op == 'rec':
        m = t.args[0]
        return t.args[1:m + 2]
    if t.op == 'lam':
        return t.args[1:1 + t.args[0]]
    p = BINDERS.get(t.op)
    return () if p is None else (t.args[p],)


_EMPTY = frozenset()


def fv(t):
    """free ix variables"""
    if t._fv is None:
        stack = [t]
        while stack:
            x = stack[-1]
            if x._fv is not None:
                stack.pop()
                continue
            todo = [k for k in kids(x) if k._fv is None]
            if todo:
                stack.extend(todo)
                continue
            if x.op == 'ix':
                x._fv = frozenset([x])
            else:
                ks = kids(x)
                s = _EMPTY
                for k in ks:
                    if k._fv:
                        s = s | k._fv if s else k._fv
                x._fv = s
            stack.pop()
    return t._fv


def height(t):
    """max height of binders inside t"""
    if t._h is None:
        stack = [t]
        while stack:
            x = stack[-1]
            if x._h is not None:
                stack.pop()
                continue
            todo = [k for k in kids(x) if k._h is None]
            if todo:
                stack.extend(todo)
                continue
            h = max([k._h for k in kids(x)] or [0])
            for b in bound_of(x):
                h = max(h, b.args[0])
            x._h = h
            stack.pop()
    return t._h


def hasloc(t):
    """does t contain references (loc/view leaves)?"""
    if t._loc is None:
        stack = [t]
        while stack:
            x = stack[-1]
            if x._loc is not None:
                stack.pop()
                continue
            if x.op in ('loc', 'view'):
                x._loc = True
                stack.pop()
                continue
            todo = [k for k in kids(x) if k._loc is None]
            if todo:
                stack.extend(todo)
                continue
            x._loc = any(k._loc for k in kids(x))
            stack.pop()
    return t._loc


def size(t):
    if t._size is None:
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(kids(x))
        t._size = len(seen)
    return t._size


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(kids(x))


def contains(t, s):
    return any(x is s for x in subterms(t))


_ctor = {}   # op -> smart constructor taking the raw args


def memo(f):
    tab = {}

    def g(*args):
        try:
            return tab[args]
        except KeyError:
            r = tab[args] = f(*args)
            return r
        except TypeError:
            return f(*args)
    g.__name__, g.__doc__ = f.__name__, f.__doc__
    return g


def ctor(op):
    def deco(f):
        f = memo(f)
        _ctor[op] = f
        return f
    return deco


def rebuild(t, args):
    c = _ctor.get(t.op)
    if c is not None:
        return c(*args)
    return mk(t.op, *args)


def _freebv(t):
    """free canonical variables"""
    if t._bv is None:
        stack = [t]
        while stack:
            x = stack[-1]
            if x._bv is not None:
                stack.pop()
                continue
            todo = [k for k in x._kids if k._bv is None]
            if todo:
                stack.extend(todo)
                continue
            if x.op == 'bv':
                x._bv = frozenset([x])
            else:
                r = _EMPTY
                for k in x._kids:
                    if k._bv:
                        r = r | k._bv if r else k._bv
                b = bound_of(x)
                if b and r:
                    r = r - frozenset(b)
                x._bv = r
            stack.pop()
    return t._bv


def subst(t, m, memo=None):
    """Substitute ix (or other leaf) variables; m: dict T->T.  Binders are opened with fresh variables when touched."""
    if not m:
        return t
    if memo is None:
        memo = {}
    keys = frozenset(k for k in m if k.op == 'ix')
    other = [k for k in m if k.op != 'ix']
    touched = {}

    def touches(x):
        """does x contain one of the keys?"""
        stack = [x]
        while stack:
            y = stack[-1]
            if y in touched:
                stack.pop()
            elif y in m or keys and fv(y) & keys:
                touched[y] = True
                stack.pop()
            else:
                todo = [k for k in y._kids if k not in touched]
                if todo:
                    stack.extend(todo)
                else:
                    touched[y] = any(touched[k] for k in y._kids)
                    stack.pop()
        return touched[x]

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        if not other and not (fv(x) & keys):
            return x
        if other and not touches(x):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if not x.args:
            r = x
        elif bound_of(x):
            r = _subst_binder(x, go)
        else:
            r = rebuild(x, [go(a) if isinstance(a, T) else a for a in x.args])
        memo[x] = r
        return r
    return go(t)


def _subst_binder(x, go):
    op = x.op
    bs = bound_of(x)
    fr = [fresh('arr' if b.args[1] else 'o') for b in bs]
    mm = dict(zip(bs, fr))
    opened = [a if not isinstance(a, T) else (a if a in mm else _open_raw(a, mm)) for a in x.args]
    new = [go(a) if isinstance(a, T) and a not in mm else a for a in opened]
    new = [mm.get(a, a) if isinstance(a, T) else a for a in new]
    return rebuild_binder(op, new, fr)


def _open_raw(t, mm, memo=None):
    """replace free bv by ix, no normalisation needed beyond reconstruction (heights guarantee no capture)"""
    memo = {} if memo is None else memo
    keys = set(mm)

    def go(x):
        if x in mm:
            return mm[x]
        if x.op == 'bv' or not x.args:
            return x
        r = memo.get(x)
        if r is None:
            if not (_freebv(x) & keys):
                r = x
            else:
                args = [go(a) if isinstance(a, T) else a for a in x.args]
                r = mk(x.op, *args) if bound_of(x) else rebuild(x, args)
            memo[x] = r
        return r
    return go(t)


def rebuild_binder(op, args, fr):
    """args contain the fresh variables fr in binder positions; close and normalise."""
    if op == 'map':
        return tmap(args[0], fr[0], args[2])
    if op == 'first':
        return first(args[0], fr[0], args[2])
    if op == 'lastix':
        return lastix(args[0], fr[0], args[2])
    if op == 'iters':
        return iters(fr[0], args[1])
    if op == 'filtermap':
        return filtermap(args[0], fr[0], args[2], args[3])
    if op == 'mapstore':
        return mapstore(args[0], fr[0], args[2], args[3], args[4])
    if op == 'dictmap':
        return dictmap(args[0], fr[0], args[2], args[3])
    if op == 'lag':
        return lag(fr[0], args[1], args[2], args[3])
    if op == 'lam':
        return lam(fr, args[-1])
    if op == 'rec':
        m = args[0]
        return rec(fr[0], fr[1:], args[m + 2:m + 2 + m], args[m + 2 + m:])
    raise AssertionError(op)


def close(fr, terms):
    """rename the fresh variables fr to canonical bvs above all binder heights of terms"""
    h = max([height(t) for t in terms] or [0])
    m = {v: bv(h + 1 + i, v.args[0] in ('mu', 'arr')) for i, v in enumerate(fr)}
    memo = {}
    keys = frozenset(m)

    def go(x):
        if x in m:
            return m[x]
        if not (fv(x) & keys):
            return x
        r = memo.get(x)
        if r is None:
            args = [go(a) if isinstance(a, T) else a for a in x.args]
            r = mk(x.op, *args)
            # sums/products/ites are ordered by id: renaming may change the order -> renormalise
            if x.op in _REORD:
                r = rebuild(x, args)
            memo[x] = r
        return r
    return [m[v] for v in fr], [go(t) for t in terms]


_REORD = {'add', 'mono', 'eq', 'eqz', 'ltz', 'lez', 'ite', 'max2', 'min2', 'minlen', 'sum', 'sumax', 'log', 'prod'}


# ------------------------------------------------------------------------------------------------------- constants
def num(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (float('inf'), float('-inf')):
            return INF if x > 0 else neg(INF)
        x = Fraction(repr(x))
    return mk('num', Fraction(x))


def boolean(b):
    return TRUE if b else FALSE


TRUE = mk('bool', True)
FALSE = mk('bool', False)
NONE = mk('none')
ZERO = num(0)
ONE = num(1)
TWO = num(2)
E = mk('E')
PI = mk('PI')
INF = mk('INF')
NAN = mk('NAN')
UNDEF = mk('undef')


def string(s):
    return mk('str', s)


def isnum(t):
    return t.op == 'num'


def isconst(t):
    return t.op in ('num', 'str', 'bool', 'none')


def constval(t):
    return None if t.op == 'none' else t.args[0]


# ------------------------------------------------------------------------------------------------------- polynomials
# poly: dict  mono -> Fraction ; mono: tuple of (base, exp) sorted by base id ; exp: T
def _poly(t):
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'bool':
        return {(): Fraction(1)} if t.args[0] else {}
    if t.op == 'add':
        d = {}
        for c, m in zip(t.args[::2], t.args[1::2]):
            d[_monokey(m)] = c
        return d
    return {_monokey(t): Fraction(1)}


def _monokey(m):
    if m.op == 'mono':
        return tuple(zip(m.args[::2], m.args[1::2]))
    if m is ONE:
        return ()
    return ((m, ONE),)


def _unmono(key):
    if not key:
        return ONE
    if len(key) == 1 and key[0][1] is ONE:
        return key[0][0]
    flat = []
    for b, e in key:
        flat += [b, e]
    return mk('mono', *flat)


def _unpoly(d):
    d = {k: c for k, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (k, c), = d.items()
        if not k:
            return num(c)
        if c == 1:
            return _unmono(k)
    items = sorted(((_unmono(k), c) for k, c in d.items()), key=lambda p: p[0].id)
    flat = []
    for m, c in items:
        flat += [c, m]
    return mk('add', *flat)


@ctor('add')
def _re_add(*args):
    r = ZERO
    for c, m in zip(args[::2], args[1::2]):
        r = add(r, mul(num(c), m))
    return r


@ctor('mono')
def _re_mono(*args):
    r = ONE
    for b, e in zip(args[::2], args[1::2]):
        r = mul(r, power(b, e))
    return r


def nterms(t):
    return len(t.args) // 2 if t.op == 'add' else 1


@memo
def add(a, b):
    if a is ZERO and b.op != 'bool':
        return b
    if b is ZERO and a.op != 'bool':
        return a
    if a is NAN or b is NAN:
        return NAN
    # zeros + scalar
    for x, y in ((a, b), (b, a)):
        if x.op == 'zeros' and isscalar(y):
            return mul(y, mk('ones', *x.args))
        if x.op == 'zeros' and y.op not in ('zeros',) and not isscalar(y):
            return y
    d = dict(_poly(a))
    for k, c in _poly(b).items():
        d[k] = d.get(k, Fraction(0)) + c
    # inf absorbs finite
    return _unpoly(d)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def _mulmono(k1, k2):
    """returns (mono key, list of extra polynomial factors)"""
    d = {}
    for b, e in k1:
        d[b] = e
    for b, e in k2:
        d[b] = add(d[b], e) if b in d else e
    extra = []
    out = {}
    for b, e in d.items():
        if e is ZERO:
            continue
        if b.op == 'ones':
            out[b] = ONE
            continue
        if b is E:
            extra.append(('E', e))
            continue
        if b.op == 'add' and isnum(e) and e.args[0].denominator == 1 and 0 < e.args[0] <= 4:
            extra.append(('P', b, int(e.args[0])))
            continue
        if b.op == 'num' and isnum(e) and e.args[0].denominator == 1:
            extra.append(('C', b.args[0] ** int(e.args[0])))
            continue
        out[b] = e
    return tuple(sorted(out.items(), key=lambda p: p[0].id)), extra


def _scale(d, c):
    return {k: v * c for k, v in d.items()}


def _polymul(d1, d2):
    r = {}
    for k1, c1 in d1.items():
        for k2, c2 in d2.items():
            k, extra = _mulmono(k1, k2)
            part = {k: c1 * c2}
            for x in extra:
                if x[0] == 'C':
                    part = _scale(part, x[1])
                elif x[0] == 'E':
                    part = _attachE(part, x[1])
                else:
                    p = _poly(x[1])
                    for _ in range(x[2]):
                        part = _polymul(part, p)
            for k3, c3 in part.items():
                r[k3] = r.get(k3, Fraction(0)) + c3
    return {k: c for k, c in r.items() if c != 0}


def _attachE(part, e):
    """multiply poly dict by E^e, where e had been summed up; extracts logs"""
    pe = _poly(e)
    rest = {}
    facs = []
    for k, c in pe.items():
        logs = [(b, x) for b, x in k if b.op == 'log' and x is ONE]
        if len(logs) == 1 and logs[0][0].args[0].op != 'E':
            others = tuple((b, x) for b, x in k if b is not logs[0][0])
            facs.append((logs[0][0].args[0], _unpoly({others: c})))
        else:
            rest[k] = c
    er = _unpoly(rest)
    if er.op == 'INF':
        facs.append((INF, ONE))
        er = ZERO
    elif er.op == 'add' and len(er.args) == 2 and er.args[0] < 0 and er.args[1] is INF:
        return {}
    if er is not ZERO:
        part = {tuple(sorted(k + ((E, er),), key=lambda p: p[0].id)): c for k, c in part.items()} \
            if all(all(b is not E for b, _ in k) for k in part) else _polymul_noE(part, er)
    for b, x in facs:
        part = _polymul(part, _poly(power(b, x)))
    return part


def _polymul_noE(part, er):
    r = {}
    for k, c in part.items():
        e = er
        rest = []
        for b, x in k:
            if b is E:
                e = add(e, x)
            else:
                rest.append((b, x))
        for k2, c2 in _attachE({tuple(rest): c}, e).items():
            r[k2] = r.get(k2, 0) + c2
    return r


def content(t):
    """for a multi-term sum: (content coef, gcd mono T, primitive T)"""
    d = _poly(t)
    if len(d) < 2:
        return Fraction(1), ONE, t
    keys = list(d)
    common = dict(keys[0])
    for k in keys[1:]:
        kd = dict(k)
        nc = {}
        for b, e in common.items():
            if b in kd:
                e2 = kd[b]
                if e is e2:
                    nc[b] = e
                elif isnum(e) and isnum(e2):
                    m = min(e.args[0], e2.args[0]) if (e.args[0] > 0) == (e2.args[0] > 0) else None
                    if m is not None:
                        if e.args[0] < 0:
                            m = max(e.args[0], e2.args[0])
                        nc[b] = num(m)
        common = nc
    if common:
        inv = {tuple(sorted(((b, neg(e)) for b, e in common.items()), key=lambda p: p[0].id)): Fraction(1)}
        d = _polymul(d, inv)
    g = _unmono(tuple(sorted(common.items(), key=lambda p: p[0].id)))
    t2 = _unpoly(d)
    if t2.op != 'add' or len(t2.args) < 4:
        return Fraction(1), g, t2
    lead = t2.args[0]
    c = abs(lead)
    if c != 1:
        t2 = _unpoly(_scale(_poly(t2), 1 / c))
    return c, g, t2


@memo
def mul(a, b):
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a is ZERO or b is ZERO:
        return ZERO
    # boolean products are conjunctions
    if isbool(a) and isbool(b):
        return band(a, b)
    for x, y in ((a, b), (b, a)):
        if y.op == 'zeros' and isscalar(x):
            return y
    for x, y in ((a, b), (b, a)):
        if nterms(x) > 1 and nterms(y) == 1 and y.op in ('mono', 'add'):
            (ky, cy), = _poly(y).items()
            for base, ex in ky:
                if base.op == 'add':
                    c, g, p = content(x)
                    for sgn in (1, -1):
                        p2 = p if sgn == 1 else _unpoly(_scale(_poly(p), -1))
                        if p2 is base:
                            rest = _unpoly({tuple(q for q in ky if q[0] is not base): cy * c * sgn})
                            return mul(mul(rest, g), power(base, add(ex, ONE)))
    da, db = _poly(a), _poly(b)
    if len(da) * len(db) > 64:
        if len(da) > 1:
            da = {((a, ONE),): Fraction(1)}
        if len(db) > 1:
            db = {((b, ONE),): Fraction(1)}
    return _unpoly(_polymul(da, db))


def div(a, b):
    return mul(a, power(b, num(-1)))


@memo
def power(b, e):
    if e is ONE:
        return b
    if e is ZERO:
        return ONE
    if b is ONE:
        return ONE
    if b.op == 'ones':
        return b
    if b is E:
        return _unpoly(_attachE({(): Fraction(1)}, e))
    if isnum(b) and isnum(e):
        if e.args[0].denominator == 1 and (b.args[0] != 0 or e.args[0] > 0) and abs(e.args[0]) <= 400:
            return num(b.args[0] ** int(e.args[0]))
        if b is ZERO:
            return ZERO if e.args[0] > 0 else mk('mono', b, e)
        # rational roots
        if e.args[0].denominator == 2 and b.args[0] > 0:
            import math
            r = b.args[0]
            p, q = math.isqrt(r.numerator), math.isqrt(r.denominator)
            if p * p == r.numerator and q * q == r.denominator:
                return num(Fraction(p, q) ** int(e.args[0] * 2))
        return mk('mono', b, e)
    if b.op == 'mono' or (b.op == 'add' and len(b.args) == 2):
        (k, c), = _poly(b).items()
        if c > 0 or (isnum(e) and e.args[0].denominator == 1):
            r = power(num(c), e)
            for x, xe in k:
                r = mul(r, power(x, mul(xe, e)))
            return r
        return mk('mono', b, e)
    if b.op == 'add':
        if isnum(e) and e.args[0].denominator == 1 and 0 < e.args[0] <= 3 and nterms(b) <= 6:
            r = b
            for _ in range(int(e.args[0]) - 1):
                r = mul(r, b)
            return r
        c, g, p = content(b)
        if p.op != 'add':
            return power(mul(mul(num(c), g), p), e)
        if isnum(e) and e.args[0].denominator == 1 and p.args[0] < 0:
            # sign normalisation for integer exponents
            p = _unpoly(_scale(_poly(p), -1))
            sign = num(-1) if int(e.args[0]) % 2 else ONE
        else:
            sign = ONE
        r = mk('mono', p, e)
        if c != 1:
            r = mul(power(num(c), e), r)
        if g is not ONE:
            r = mul(power(g, e), r)
        return mul(sign, r)
    return mk('mono', b, e)


def exp(x):
    return power(E, x)


@ctor('log')
def log(x):
    if x is E:
        return ONE
    if x is ONE:
        return ZERO
    if x is ZERO:
        return neg(INF)
    if x.op == 'ones':
        return mk('zeros', *x.args)
    if x.op == 'num':
        return mk('log', x)
    if x.op == 'mono' or (x.op == 'add' and len(x.args) == 2):
        (k, c), = _poly(x).items()
        if c <= 0:
            return mk('log', x)
        if any(b.op == 'ones' for b, e in k):
            return mk('log', x)
        r = log(num(c))
        for b, e in k:
            r = add(r, mul(e, log(b)))
        return r
    if x.op == 'add':
        c, g, p = content(x)
        r = mk('log', p) if p.op == 'add' and len(p.args) > 2 else log(p)
        if c != 1:
            r = add(log(num(c)), r)
        if g is not ONE:
            r = add(log(g), r)
        return r
    return mk('log', x)


def sqrt(x):
    return power(x, num(Fraction(1, 2)))


# --------------------------------------------------------------------------------------------------- scalar inference
SCALAR_OPS = {'num', 'bool', 'sum', 'len', 'amax', 'amin', 'E', 'PI', 'INF', 'NAN', 'prod', 'first', 'lastix', 'iters',
              'any', 'all', 'nonempty', 'minlen', 'ssym'}
# elements of these sequences are scalars (documented element types of public attributes)
SCALAR_ELEM_FIELDS = {'latticeConstant', 'gridSize', 'formattedTimestamps', 'rawTimestamps', 'hyperGridConstant',
                      'transitionModelPrior', 'hyperLogEvidenceList', 'flatHyperPriorValues', 'tmCounts'}
SCALAR_FIELDS = {'segmentLength', 'tOffset', 'logEvidence', 'tmCount'}


def isscalar(t):
    op = t.op
    if op in SCALAR_OPS:
        return True
    if op == 'add':
        return all(isscalar(m) for m in t.args[1::2])
    if op == 'mono':
        return all(isscalar(a) for a in t.args)
    if op == 'log' or op == 'abs' or op == 'fn1':
        return isscalar(t.args[-1])
    if op == 'ite':
        return isscalar(t.args[1]) and isscalar(t.args[2])
    if op == 'attr':
        return t.args[1] in SCALAR_FIELDS
    if op == 'idx':
        b = t.args[0]
        if b.op == 'slice':
            b = b.args[0]
        if b.op == 'attr' and b.args[1] in SCALAR_ELEM_FIELDS and (isscalar(t.args[1]) or t.args[1].op == 'ix' or
                                                                   t.args[1].op == 'bv'):
            return True
        if b.op == 'shape':
            return True
        return False
    if op in ('ix', 'bv'):
        return not t.args[1] if t.op == 'bv' else t.args[0] not in ('mu', 'arr')
    if op in ('max2', 'min2'):
        return all(isscalar(a) for a in t.args)
    if op == 'diffconst':
        return True
    return False


# ------------------------------------------------------------------------------------------------------- reductions
def _pull(x):
    """split x = s * y with s scalar"""
    if x.op in ('mono',) or (x.op == 'add' and len(x.args) == 2):
        (k, c), = _poly(x).items()
        s, y = [], []
        for b, e in k:
            if b is E and not isscalar(e):
                # split exponent
                pe = _poly(e)
                es = _unpoly({q: v for q, v in pe.items() if all(isscalar(bb) and isscalar(ee) for bb, ee in q)})
                ev = _unpoly({q: v for q, v in pe.items() if not all(isscalar(bb) and isscalar(ee) for bb, ee in q)})
                if es is not ZERO:
                    s.append((E, es))
                y.append((E, ev))
            elif isscalar(b) and isscalar(e):
                s.append((b, e))
            else:
                y.append((b, e))
        if y:
            st = _unpoly({tuple(s): c})
            yt = _unpoly({tuple(y): Fraction(1)})
            return st, yt
        return ONE, x
    if x.op == 'add':
        c, g, p = content(x)
        if c != 1 or g is not ONE:
            s, y = _pull(g) if g is not ONE else (ONE, ONE)
            if g is not ONE and isscalar(g):
                s, y = g, ONE
            elif g is not ONE and s is ONE:
                y = g
            return mul(num(c), s), mul(y, p)
    return ONE, x


@ctor('sum')
def tsum(x):
    if x.op == 'ite' and False:
        return x
    if x.op == 'zeros':
        return ZERO
    s, y = _pull(x)
    if s is not ONE:
        return mul(s, tsum(y))
    if y.op == 'log' and not isscalar(y):
        return log(tprod(y.args[0]))
    if y.op == 'seq':
        r = ZERO
        for a in y.args:
            r = add(r, a if isscalar(a) else tsum(a))
        return r
    if y.op == 'map' and isscalar(y.args[2]):
        return mk('sum', y)
    if y.op == 'slice' and False:
        pass
    return mk('sum', y)


@ctor('sumax')
def tsumax(x, ax):
    if ax is NONE:
        return tsum(x)
    if ax is ZERO and x.op == 'map' and isscalar(x.args[2]):
        return tsum(x)
    if ax is ZERO and x.op == 'seq':
        r = ZERO
        for a in x.args:
            r = add(r, a)
        return r
    s, y = _pull(x)
    if s is not ONE:
        return mul(s, tsumax(y, ax))
    return mk('sumax', y, ax)


@ctor('prod')
def tprod(x):
    if x.op == 'seq' and not x.args:
        return ONE
    if x.op == 'mono' and len(x.args) == 2 and x.args[0] is E:
        return exp(tsum(x.args[1]))
    return mk('prod', x)


@ctor('amax')
def amax(x):
    # amax(x + c) = amax(x) + c for scalar c
    if x.op == 'add':
        d = _poly(x)
        sc = {k: c for k, c in d.items() if all(isscalar(b) and isscalar(e) for b, e in k)}
        if sc and len(sc) < len(d):
            return add(amax(_unpoly({k: c for k, c in d.items() if k not in sc})), _unpoly(sc))
    return mk('amax', x)


def logsumexp(x, ax=NONE):
    return log(tsumax(exp(x), ax))


# ------------------------------------------------------------------------------------------------------- booleans
BOOL_OPS = {'bool', 'eq', 'eqz', 'ltz', 'lez', 'isnone', 'any', 'all', 'nonempty', 'truth', 'isinst', 'hasattr', 'in',
            'isnan', 'isfinite', 'callable', 'exc', 'isinf'}


def isbool(t):
    if t.op in BOOL_OPS:
        return True
    if t.op == 'ite':
        r = _isbools.get(t)
        if r is None:
            r = _isbools[t] = isbool(t.args[1]) and isbool(t.args[2])
        return r
    return False


_isbools = {}


@ctor('ite')
def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    key = (c, a, b)
    r = _ites.get(key)
    if r is None:
        r = _ites[key] = _ite(c, a, b)
    return r


_ites = {}


def _ite(c, a, b):
    if c.op == 'ite':
        return ite(c.args[0], ite(c.args[1], a, b), ite(c.args[2], a, b))
    if c.op == 'bool':
        return a if c.args[0] else b
    # ordering
    top = c
    for x in (a, b):
        if x.op == 'ite' and x.args[0].id < top.id:
            top = x.args[0]
    if top is not c:
        return mkite(top, ite(c, _cof(a, top, True), _cof(b, top, True)), ite(c, _cof(a, top, False), _cof(b, top, False)))
    return mkite(c, _cof(a, c, True), _cof(b, c, False))


def _cof(x, c, v):
    if x.op == 'ite':
        if x.args[0] is c:
            return x.args[1] if v else x.args[2]
        if x.args[0].id < c.id:
            return ite(x.args[0], _cof(x.args[1], c, v), _cof(x.args[2], c, v))
    return x


def mkite(c, a, b):
    if a is b:
        return a
    return mk('ite', c, a, b)


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'lez' :
        return mk_ltz(neg(a.args[0]))
    return ite(truth(a), FALSE, TRUE)


def band(a, b):
    return ite(truth(a), truth(b), FALSE)


def bor(a, b):
    return ite(truth(a), TRUE, truth(b))


def truth(a):
    if isbool(a):
        return a
    if a.op == 'none':
        return FALSE
    if a.op == 'num':
        return boolean(a.args[0] != 0)
    if a.op == 'str':
        return boolean(bool(a.args[0]))
    if a.op == 'seq':
        return boolean(len(a.args) > 0)
    if a.op in SEQOPS or a.op in ('slice', 'concat'):
        return nonempty(a)
    if a.op == 'ite':
        return ite(a.args[0], truth(a.args[1]), truth(a.args[2]))
    if a.op == 'len':
        return nonempty(a.args[0])
    return mk('truth', a)


@ctor('truth')
def _re_truth(a):
    return truth(a)


@ctor('nonempty')
def nonempty(x):
    if x.op == 'seq':
        return boolean(len(x.args) > 0)
    if x.op == 'str':
        return boolean(bool(x.args[0]))
    if x.op == 'map':
        n = x.args[0]
        if n.op == 'len':
            return nonempty(n.args[0])
    if x.op == 'concat':
        r = FALSE
        for a in x.args:
            r = bor(r, nonempty(a))
        return r
    return mk('nonempty', x)


def _numericish(t):
    return t.op in ('num', 'add', 'mono', 'len', 'sum', 'amax', 'ix', 'bv', 'first', 'lastix') or isscalar(t)


@ctor('eq')
def eq(a, b):
    if a is b and a is not NAN:
        return TRUE
    if isconst(a) and isconst(b):
        if a.op == b.op:
            return boolean(a.args == b.args)
        if {a.op, b.op} <= {'num', 'bool'}:
            return boolean(a.args[0] == b.args[0])
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and isconst(y):
            return ite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
        if x is NONE:
            return isnone(y)
        if x.op == 'str' and (y.op == 'seq' or isscalar(y) or y.op in SEQOPS):
            return FALSE
        if x.op == 'seq' and not x.args:
            return FALSE if isscalar(y) or y.op == 'str' else bnot(nonempty(y))
        if x.op == 'bool' and isbool(y):
            return y if x.args[0] else bnot(y)
        if x.op == 'num' and y.op in ('first', 'lastix') and x.args[0] < 0:
            return FALSE
    if a.op in ('seq',) and b.op in ('seq',) and len(a.args) == len(b.args):
        r = TRUE
        for x, y in zip(a.args, b.args):
            r = band(r, eq(x, y))
        return r
    if (_numericish(a) or _numericish(b)) and a.op != 'str' and b.op != 'str':
        return eqz(sub(a, b))
    if a.id > b.id:
        a, b = b, a
    return mk('eq', a, b)


@ctor('eqz')
def eqz(d):
    if isnum(d):
        return boolean(d.args[0] == 0)
    if d.op == 'len':
        return bnot(nonempty(d.args[0]))
    if d.op in ('first', 'lastix', 'len') and False:
        pass
    if d.op == 'add':
        c, g, p = content(d) if nterms(d) > 1 else (abs(d.args[0]), ONE, d)
        if nterms(d) == 1:
            return eqz(d.args[1])
        if c != 1 and g is ONE:
            d = p
        elif c != 1:
            d = mul(g, p)
        if d.args[0] < 0:
            d = neg(d)
        # x - const where x in nonneg ints and const negative
        pd = _poly(d)
        if len(pd) == 2 and () in pd:
            (k, c1), = [(k, v) for k, v in pd.items() if k]
            if len(k) == 1 and k[0][0].op in ('first', 'lastix', 'len') and k[0][1] is ONE and c1 > 0 and pd[()] > 0:
                return FALSE
    return mk('eqz', d)


def _signorm(d):
    if d.op == 'add':
        if nterms(d) == 1:
            c = abs(d.args[0])
            return _unpoly(_scale(_poly(d), 1 / c)) if c != 1 else d
        lead = abs(d.args[0])
        if lead != 1:
            d = _unpoly(_scale(_poly(d), 1 / lead))
    return d


_NONNEG = ('len', 'first', 'lastix', 'iters')


def mk_ltz(d):
    return _re_ltz(d)


@ctor('ltz')
def _re_ltz(d):
    """d < 0"""
    if isnum(d):
        return boolean(d.args[0] < 0)
    if d.op in _NONNEG:
        return FALSE
    d = _signorm(d)
    pd = _poly(d)
    # -len(x) < 0
    if len(pd) == 1:
        (k, c), = pd.items()
        if c < 0 and len(k) == 1 and k[0][0].op == 'len' and k[0][1] is ONE:
            return nonempty(k[0][0].args[0])
    if len(pd) == 2 and () in pd:
        (k, c), = [(k, v) for k, v in pd.items() if k]
        if len(k) == 1 and k[0][0].op in _NONNEG and k[0][1] is ONE:
            cc = pd[()] / abs(c)
            if c > 0 and cc == -1 and k[0][0].op == 'len':   # len - 1 < 0
                return bnot(nonempty(k[0][0].args[0]))
            if c > 0 and cc >= 0:
                return FALSE
            if c < 0 and cc < 0:
                return TRUE
            # integer normalisation: len - c < 0 ; c - len < 0
    if _intlike(d):
        # a < b  <=>  a + 1 <= b for integers: use lez form
        return lez(add(d, ONE))
    return mk('ltz', d)


def _intlike(d):
    pd = _poly(d)
    for k, c in pd.items():
        if c.denominator != 1:
            return False
        for b, e in k:
            if b.op not in _NONNEG or e is not ONE:
                return False
    return True


@ctor('lez')
def lez(d):
    """d <= 0   (canonical: not (0 < d) == not(-d < 0))"""
    if isnum(d):
        return boolean(d.args[0] <= 0)
    if _intlike(d):
        pd = _poly(d)
        if len(pd) == 1:
            (k, c), = pd.items()
            if c > 0 and len(k) == 1 and k[0][0].op == 'len':
                return bnot(nonempty(k[0][0].args[0]))
            if c < 0:
                return TRUE
        if len(pd) == 2 and () in pd:
            (k, c), = [(k, v) for k, v in pd.items() if k]
            if c == -1 and pd[()] == 1 and k[0][0].op == 'len' and len(k) == 1:   # 1 - len <= 0
                return nonempty(k[0][0].args[0])
            if c < 0 and pd[()] <= 0:
                return TRUE
            if c > 0 and pd[()] > 0:
                return FALSE
        d = _signorm(d)
        # orient: positive leading -> keep ; else express as not(...)
        if d.op == 'add' and d.args[0] < 0:
            nd = add(neg(d), ONE)          # not (d<=0) <=> d>=1 <=> 1-d<=0
            return ite(mk('lez', nd), FALSE, TRUE) if not isnum(nd) else bnot(lez(nd))
        return mk('lez', d)
    return ite(mk_ltz(neg(d)), FALSE, TRUE)


def lt(a, b):
    for x, y, f in ((a, b, lambda u, v: lt(u, v)), (b, a, lambda u, v: lt(v, u))):
        if x.op == 'ite' and isconst(y):
            return ite(x.args[0], f(x.args[1], y), f(x.args[2], y))
    if a.op == 'str' and b.op == 'str':
        return boolean(a.args[0] < b.args[0])
    return mk_ltz(sub(a, b))


def le(a, b):
    return bnot(lt(b, a)) if not _intlike(sub(a, b)) else lez(sub(a, b))


@ctor('isnone')
def isnone(a):
    if a is NONE:
        return TRUE
    if isconst(a) or a.op in SEQOPS or isscalar(a) or a.op in ('new', 'slice', 'func', 'obj', 'zeros', 'ones', 'cls', 'inst'):
        return FALSE
    if a.op == 'ite':
        return ite(a.args[0], isnone(a.args[1]), isnone(a.args[2]))
    return mk('isnone', a)


def maximum(a, b):
    if a is b:
        return a
    return mk('max2', *sorted((a, b), key=lambda t: t.id))


def minimum(a, b):
    if a is b:
        return a
    return mk('min2', *sorted((a, b), key=lambda t: t.id))


@ctor('max2')
def _re_max2(a, b):
    return maximum(a, b)


@ctor('min2')
def _re_min2(a, b):
    return minimum(a, b)


@ctor('where')
def where(c, a, b):
    """elementwise selection"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'ite' and c.args[1] is FALSE and c.args[2] is TRUE:
        return where(c.args[0], b, a)
    if c.op == 'ltz':
        d = c.args[0]
        # where(b < a, a, b) = max(a,b)
        k = sub(b, a)
        if _signorm(k) is d:
            return maximum(a, b)
        if _signorm(neg(k)) is d:
            return minimum(a, b)
    return mk('where', c, a, b)


# ------------------------------------------------------------------------------------------------------- sequences
SEQOPS = {'seq', 'map', 'concat', 'filtermap', 'range', 'cat', 'zip'}


def seq(*xs):
    return mk('seq', *xs)


@ctor('seq')
def _re_seq(*xs):
    return mk('seq', *xs)


@ctor('concat')
def concat(*xs):
    out = []
    for x in xs:
        if x.op == 'concat':
            out.extend(x.args)
        else:
            out.append(x)
    r = []
    for x in out:
        if x.op == 'seq' and not x.args:
            continue
        if r and r[-1].op == 'seq' and x.op == 'seq':
            r[-1] = seq(*(r[-1].args + x.args))
        else:
            r.append(x)
    if not r:
        return seq()
    if len(r) == 1:
        return r[0]
    return mk('concat', *r)


@ctor('len')
def tlen(x):
    op = x.op
    if op == 'seq':
        return num(len(x.args))
    if op == 'str':
        return num(len(x.args[0]))
    if op == 'map':
        return x.args[0]
    if op == 'concat':
        r = ZERO
        for a in x.args:
            r = add(r, tlen(a))
        return r
    if op == 'range':
        a, b, s = x.args
        if s is ONE:
            return sub(b, a)
        if isnum(s) and s.args[0] == -1:
            return sub(a, b)
    if op == 'slice':
        y, a, b, s = x.args
        if s is NONE:
            lo = ZERO if a is NONE else a
            hi = tlen(y) if b is NONE else b
            if not (isnum(lo) and lo.args[0] < 0) and not (isnum(hi) and hi.args[0] < 0):
                if b is NONE or not isnum(hi):
                    return sub(hi, lo)
    if op == 'store' or op == 'mapstore':
        return tlen(x.args[0] if op == 'store' else x.args[4])
    if op == 'rev':
        return tlen(x.args[0])
    if op == 'repeat':
        return mul(tlen(x.args[0]), x.args[1])
    if op in ('zeros', 'ones', 'empty'):
        sh = x.args[0]
        if sh.op == 'seq' and sh.args:
            return sh.args[0]
        if sh.op == 'concat' and sh.args[0].op == 'seq' and sh.args[0].args:
            return sh.args[0].args[0]
        if isscalar(sh) or sh.op in ('num', 'ix', 'idx'):
            return sh
    if op == 'ite':
        return ite(x.args[0], tlen(x.args[1]), tlen(x.args[2]))
    if op == 'zip':
        return minlen(*[tlen(a) for a in x.args])
    if op in ('add', 'mono') and not isscalar(x):
        # elementwise arithmetic: length of the unique non-scalar, if unique up to equality
        ls = set()
        for m in (x.args[1::2] if op == 'add' else [x]):
            for b, e in _monokey(m):
                if not isscalar(b):
                    ls.add(tlen(b))
        if len(ls) == 1:
            return ls.pop()
    return mk('len', x)


def minlen(*ns):
    s = sorted(set(ns), key=lambda t: t.id)
    if len(s) == 1:
        return s[0]
    if all(isnum(n) for n in s):
        return num(min(n.args[0] for n in s))
    return mk('minlen', *s)


@ctor('minlen')
def _re_minlen(*ns):
    return minlen(*ns)


def trange(a, b, s=ONE):
    if a is ZERO and s is ONE:
        v = fresh()
        return tmap(b, v, v)
    v = fresh()
    if s is ONE:
        return tmap(sub(b, a), v, add(a, v))
    if isnum(s) and s.args[0] == -1:
        return tmap(sub(a, b), v, sub(a, v))
    return tmap(mk('rangelen', a, b, s), v, add(a, mul(s, v)))


def instantiate(t, *vals):
    """body of a binder with bound variables replaced"""
    b = bound_of(t)
    body = t.args[2] if t.op in ('map', 'first', 'lastix', 'filtermap') else None
    assert body is not None, t.op
    return inst(body, dict(zip(b, vals)))


def inst(body, m):
    fr = {b: fresh('arr' if b.args[1] else 'o') for b in m}
    o = _open_raw(body, fr)
    return subst(o, {fr[b]: v for b, v in m.items()})


def tmap(n, v, body):
    """[body(v) for v in 0..n-1]; v is a free ix variable"""
    # eta: [x[v] for v in range(len(x))] = x
    if body.op == 'idx' and body.args[1] is v and v not in fv(body.args[0]) and tlen(body.args[0]) is n:
        return body.args[0]
    if isnum(n) and n.args[0].denominator == 1 and 0 <= n.args[0] <= 8:
        return seq(*[subst(body, {v: num(i)}) for i in range(int(n.args[0]))])
    (b,), (c,) = close([v], [body])
    return mk('map', n, b, c)


def cat(m):
    """concatenation of a sequence of sequences"""
    if m.op == 'map' and m.args[2].op == 'seq' and len(m.args[2].args) == 1:
        fr = fresh()
        return tmap(m.args[0], fr, subst_bv(m.args[2].args[0], m.args[1], fr))
    if m.op == 'seq':
        return concat(*m.args)
    return mk('cat', m)


def subst_bv(body, b, v):
    return _open_raw(body, {b: v})


def filtermap(n, v, cond, body):
    if cond is TRUE:
        return tmap(n, v, body)
    if cond is FALSE:
        return seq()
    if isnum(n) and 0 <= n.args[0] <= 8 and v.op == 'ix':
        cs = [subst(cond, {v: num(i)}) for i in range(int(n.args[0]))]
        if all(c is TRUE or c is FALSE for c in cs):
            return seq(*[subst(body, {v: num(i)}) for i, c in enumerate(cs) if c is TRUE])
    (b,), (c, e) = close([v], [cond, body])
    return mk('filtermap', n, b, c, e)


def dictmap(n, v, key, val):
    (b,), (k, e) = close([v], [key, val])
    return mk('dictmap', n, b, k, e)


def any_(n, v, cond):
    if cond is FALSE:
        return FALSE
    if v not in fv(cond):
        return band(mk_pos(n), cond)
    return tany(tmap(n, v, cond))


def mk_pos(n):
    if n.op == 'len':
        return nonempty(n.args[0])
    return lt(ZERO, n)


@ctor('any')
def tany(m):
    if m.op == 'seq':
        r = FALSE
        for a in m.args:
            r = bor(r, truth(a))
        return r
    if m.op == 'map':
        v = fresh()
        body = subst_bv(m.args[2], m.args[1], v)
        b2 = truth(body)
        if b2.op == 'ite' and b2.args[1] is FALSE and b2.args[2] is TRUE:
            return bnot(mk('all', tmap(m.args[0], v, b2.args[0])))
        if v not in fv(b2):
            return band(mk_pos(m.args[0]), b2)
        if b2 is not body:
            return mk('any', tmap(m.args[0], v, b2))
    if isbool(m) and m.op == 'ite' and m.args[1] is FALSE and m.args[2] is TRUE:
        return bnot(mk('all', m.args[0]))
    return mk('any', m)


@ctor('all')
def tall(m):
    if m.op == 'seq':
        r = TRUE
        for a in m.args:
            r = band(r, truth(a))
        return r
    if m.op == 'map':
        v = fresh()
        body = subst_bv(m.args[2], m.args[1], v)
        b2 = truth(body)
        if b2.op == 'ite' and b2.args[1] is FALSE and b2.args[2] is TRUE:
            return bnot(tany(tmap(m.args[0], v, b2.args[0])))
        if v not in fv(b2):
            return bor(bnot(mk_pos(m.args[0])), b2)
        if b2 is not body:
            return mk('all', tmap(m.args[0], v, b2))
    if isbool(m) and m.op == 'ite' and m.args[1] is FALSE and m.args[2] is TRUE:
        return bnot(tany(m.args[0]))
    return mk('all', m)


def first(n, v, cond):
    """least index v < n with cond(v)"""
    if n.op == 'num' and n.args[0] <= 12:
        for i in range(int(n.args[0])):
            c = truth(subst(cond, {v: num(i)}))
            if c is TRUE:
                return num(i)
            if c is not FALSE:
                break
    (b,), (c,) = close([v], [cond])
    return mk('first', n, b, c)


def lastix(n, v, cond):
    # for an equality test against a fixed value, names are unique (checked by the consistency rules): first == last
    if cond.op in ('eq', 'eqz'):
        return first(n, v, cond)
    (b,), (c,) = close([v], [cond])
    return mk('lastix', n, b, c)


def iters(v, stop):
    (b,), (c,) = close([v], [stop])
    return mk('iters', b, c)


def index_of(x, y):
    """x.index(y)"""
    v = fresh()
    return first(tlen(x), v, eq(idx(x, v), y))


def member(y, x):
    if x.op == 'seq':
        r = FALSE
        for a in x.args:
            r = bor(r, eq(y, a))
        return r
    if x.op == 'str' or x.op == 'keys':
        return mk('in', y, x)
    if x.op == 'str':
        return mk('in', y, x)
    v = fresh()
    return any_(tlen(x), v, eq(idx(x, v), y))


def lag(v, e, init, k):
    """value at start of iteration k of a variable that is set to e(v) in iteration v"""
    if k is ZERO:
        return init
    if v not in fv(e) and e is init:
        return e
    if isnum(k):
        return subst(e, {v: sub(k, ONE)})
    if k.op == 'len' or (k.op in ('add', 'minlen') and not any(x.op in ('ix', 'bv') for x in subterms(k))):
        return ite(mk_pos(k), subst(e, {v: sub(k, ONE)}), init)
    (b,), (c,) = close([v], [e])
    return mk('lag', b, c, init, k)


def lam(vs, body):
    bs, (c,) = close(list(vs), [body])
    return mk('lam', len(vs), *(bs + [c]))


def mapstore(n, v, ix, val, init):
    """init with element ix(v) replaced by val(v) for v<n"""
    if n is ZERO:
        return init
    L = tlen(init)
    if init.op in ('empty', 'zeros', 'ones', 'repeat', 'seq') or True:
        if ix is v and n is L:
            return tmap(n, v, val)
        if L is n and ix is sub(sub(n, ONE), v):
            w = fresh()
            return tmap(n, w, subst(val, {v: sub(sub(n, ONE), w)}))
    (b,), (c, e) = close([v], [ix, val])
    return mk('mapstore', n, b, c, e, init)


def constleaves(t):
    return isnum(t) or t.op == 'ite' and constleaves(t.args[1]) and constleaves(t.args[2])


@ctor('idx')
def idx(x, i):
    op = x.op
    if i.op == 'slice_':
        return tslice(x, *i.args)
    if i.op == 'newaxis':
        return mk('idx', x, i)
    if op == 'str' and i.op == 'num' and i.args[0].denominator == 1 and -len(x.args[0]) <= i.args[0] < len(x.args[0]):
        return string(x.args[0][int(i.args[0])])
    if i.op == 'seq' and op != 'keys':
        # multi-dimensional index: erase trailing full slices
        its = list(i.args)
        if any(a.op in ('newaxis', 'ellipsis') for a in its):
            return mk('idx', x, i)
        while its and its[-1].op == 'slice_' and its[-1].args == (NONE, NONE, NONE):
            its.pop()
        if not its:
            return x
        if len(its) == 1:
            return idx(x, its[0])
        if all(a.op != 'slice_' and (isscalar(a) or a.op == 'num') for a in its):
            r = x
            for a in its:
                r = idx(r, a)
            return r
        if its[0].op == 'slice_' and its[0].args == (NONE, NONE, NONE) and x.op == 'map' and len(its) == 2 and \
                its[1].op != 'slice_':
            v = fresh()
            return tmap(x.args[0], v, idx(subst_bv(x.args[2], x.args[1], v), its[1]))
        return mk('idx', x, seq(*its))
    if isbool(i) and not i.op == 'bool':
        return mk('idx', x, i)
    if i.op == 'ite':
        return ite(i.args[0], idx(x, i.args[1]), idx(x, i.args[2]))
    if op == 'ite':
        return ite(x.args[0], idx(x.args[1], i), idx(x.args[2], i))
    if op == 'seq' and i.op == 'add' and len(i.args) <= 4:
        for k, c in _poly(i).items():
            a = k[0][0] if len(k) == 1 and k[0][1] is ONE else None
            if a is not None and a.op == 'ite' and constleaves(a):
                rest = sub(i, mul(mk('num', c), a))
                return ite(a.args[0], idx(x, add(rest, mul(mk('num', c), a.args[1]))),
                           idx(x, add(rest, mul(mk('num', c), a.args[2]))))
    if isnum(i) and i.args[0] < 0 and op not in ('shape',):
        L = tlen(x)
        if op == 'seq':
            n = len(x.args) + int(i.args[0])
            if 0 <= n < len(x.args):
                return x.args[n]
        i = add(L, i)
    if op == 'seq':
        if isnum(i) and i.args[0].denominator == 1 and 0 <= i.args[0] < len(x.args):
            return x.args[int(i.args[0])]
    if op == 'map' and (isscalar(i) or i.op in ('ix', 'bv', 'num', 'idx')) and i.op != 'slice_':
        return instantiate(x, i)
    if op == 'zip':
        return seq(*[idx(a, i) for a in x.args])
    if op == 'store':
        y, j, v = x.args
        if j is i:
            return v
        d = sub(i, j) if (_numericish(i) and _numericish(j)) else None
        if d is not None and isnum(d) and d.args[0] != 0:
            return idx(y, i)
    if op == 'slice':
        y, a, b, s = x.args
        if s is NONE and (isscalar(i) or i.op in ('ix', 'bv')):
            if a is NONE:
                return idx(y, i)
            return idx(y, add(a, i))
    if op == 'rev' and (isscalar(i) or i.op in ('ix', 'bv')):
        return idx(x.args[0], sub(sub(tlen(x.args[0]), ONE), i))
    if op == 'repeat' and x.args[0].op == 'seq' and len(x.args[0].args) == 1 and i.op != 'slice_':
        return x.args[0].args[0]
    if op == 'concat' and isnum(i) and x.args[0].op == 'seq' and 0 <= i.args[0] < len(x.args[0].args):
        return x.args[0].args[int(i.args[0])]
    if op == 'concat' and x.args[-1].op == 'seq':
        # last element by length
        off = sub(i, sub(tlen(x), num(len(x.args[-1].args))))
        if isnum(off) and 0 <= off.args[0] < len(x.args[-1].args):
            return x.args[-1].args[int(off.args[0])]
    if op == 'shape' and i is ZERO:
        return tlen(x.args[0])
    if op == 'mapstore':
        n, b, ix_, val, init = x.args
        v = fresh()
        ixv, valv = subst_bv(ix_, b, v), subst_bv(val, b, v)
        if ixv is v and isscalar(i):
            # in range? only when i is provably < n: i == n-1-? unknown -> leave
            pass
    if i.op == 'first' and op != 'seq':
        # x[x.index(y)] = y
        c = i.args[2]
        b = i.args[1]
        if c.op == 'eq':
            for p, q in (c.args, c.args[::-1]):
                if p.op == 'idx' and p.args[0] is x and p.args[1] is b:
                    return q
    if op in ('zeros', 'ones') and (isscalar(i) or i.op in ('ix', 'bv', 'num')):
        sh = x.args[0]
        if sh.op == 'seq' and len(sh.args) == 1 or isscalar(sh):
            return ZERO if op == 'zeros' else ONE
        if sh.op == 'concat' and sh.args[0].op == 'seq':
            return mk(op, concat(seq(*sh.args[0].args[1:]), *sh.args[1:]))
    if op == 'dict' and isconst(i):
        for k, v in zip(x.args[::2], x.args[1::2]):
            if k is i:
                return v
    if op in ('add', 'mono') and not isscalar(x) and (i.op in ('ix', 'bv') or isscalar(i)) and _elemwise_1d(x):
        return _map_atoms(x, lambda a: a if isscalar(a) else idx(a, i))
    if op == 'log' and not isscalar(x) and _elemwise_1d(x.args[0]):
        return log(idx(x.args[0], i))
    return mk('idx', x, i)


ONE_D_FIELDS = {'hyperGridConstant', 'formattedTimestamps', 'rawTimestamps', 'transitionModelPrior',
                'hyperLogEvidenceList'}


def _is1d(a):
    if a.op == 'attr' and a.args[1] in ONE_D_FIELDS:
        return True
    if a.op == 'slice':
        return _is1d(a.args[0])
    if a.op in ('map',):
        return isscalar(a.args[2])
    return False


def _elemwise_1d(x):
    ats = set()

    def go(t):
        if t.op == 'add':
            for m in t.args[1::2]:
                go(m)
        elif t.op == 'mono':
            for a in t.args:
                go(a)
        elif not isscalar(t):
            ats.add(t)
    go(x)
    return bool(ats) and all(_is1d(a) for a in ats)


def _map_atoms(x, f):
    if x.op == 'add':
        r = ZERO
        for c, m in zip(x.args[::2], x.args[1::2]):
            r = add(r, mul(num(c), _map_atoms(m, f)))
        return r
    if x.op == 'mono':
        r = ONE
        for b, e in zip(x.args[::2], x.args[1::2]):
            r = mul(r, power(_map_atoms(b, f), _map_atoms(e, f)))
        return r
    return f(x)


@ctor('slice')
def tslice(x, a, b, s):
    if s is ONE:
        s = NONE
    if a is ZERO:
        a = NONE
    if a is NONE and b is NONE and s is NONE:
        return x
    if isnum(s) and s.args[0] == -1 and a is NONE and b is NONE:
        return rev(x)
    if s is NONE and x.op == 'seq':
        ia = None if a is NONE else (int(a.args[0]) if isnum(a) else 'x')
        ib = None if b is NONE else (int(b.args[0]) if isnum(b) else 'x')
        if ia != 'x' and ib != 'x':
            return seq(*x.args[ia:ib])
    if s is NONE and b is not NONE:
        L = tlen(x)
        if b is L:
            return tslice(x, a, NONE, NONE)
        if isnum(b) and b.args[0] < 0 and not isnum(L):
            b = add(L, b)
    if s is NONE and a is not NONE and isnum(a) and a.args[0] < 0 and not isnum(tlen(x)):
        a = add(tlen(x), a)
    if s is NONE and a is not NONE and x.op != 'slice':
        # x[-n:] with symbolic n: a = -n ; canonical: len - n
        pd = _poly(a)
        if pd and all(c < 0 for c in pd.values()) and all(k for k in pd):
            a = add(tlen(x), a)
    if s is NONE and x.op == 'slice' and x.args[3] is NONE and (b is NONE) and x.args[2] is NONE and a is not NONE:
        return tslice(x.args[0], add(a, ZERO if x.args[1] is NONE else x.args[1]), NONE, NONE)
    if s is NONE and x.op == 'concat' and x.args[0].op == 'seq' and isnum(a) and b is NONE:
        k = int(a.args[0])
        if k <= len(x.args[0].args):
            return concat(seq(*x.args[0].args[k:]), *x.args[1:])
    if s is NONE and x.op == 'map' and a is NONE and b is not NONE and not isnum(b):
        v = fresh()
        # prefix of a map (b assumed <= n)
        return tmap(b, v, subst_bv(x.args[2], x.args[1], v)) if _le_len(b, x.args[0]) else mk('slice', x, a, b, s)
    if s is NONE and x.op == 'map' and a is not NONE and b is NONE and isnum(a) and a.args[0] > 0:
        v = fresh()
        return tmap(sub(x.args[0], a), v, subst(subst_bv(x.args[2], x.args[1], v), {v: add(v, a)}))
    return mk('slice', x, a, b, s)


def _le_len(b, n):
    d = sub(n, b)
    return isnum(d) and d.args[0] >= 0


@ctor('rev')
def rev(x):
    if x.op == 'rev':
        return x.args[0]
    if x.op == 'seq':
        return seq(*x.args[::-1])
    if x.op == 'map':
        v = fresh()
        n = x.args[0]
        return tmap(n, v, subst(subst_bv(x.args[2], x.args[1], v), {v: sub(sub(n, ONE), v)}))
    return mk('rev', x)


@ctor('store')
def store(x, i, v):
    if i.op == 'slice_' and i.args == (NONE, NONE, NONE):
        return v
    if isbool(i) and i.op != 'bool':
        return where(i, v, x)
    if i.op == 'where1' or (i.op == 'idx' and i.args[0].op == 'where1'):
        c = i.args[0] if i.op == 'where1' else i.args[0].args[0]
        return where(c, v, x)
    if isnum(i) and i.args[0] < 0:
        i = add(tlen(x), i)
    if x.op == 'store' and x.args[1] is i:
        return store(x.args[0], i, v)
    if x.op == 'seq' and isnum(i) and 0 <= i.args[0] < len(x.args):
        l = list(x.args)
        l[int(i.args[0])] = v
        return seq(*l)
    if v.op == 'idx' and v.args[0] is x and v.args[1] is i:
        return x
    return mk('store', x, i, v)


@ctor('T')
def transpose(x):
    if x.op == 'T':
        return x.args[0]
    return mk('T', x)


@ctor('attr')
def attr(x, name):
    if x.op == 'ite':
        return ite(x.args[0], attr(x.args[1], name), attr(x.args[2], name))
    if x.op == 'obj':
        for k, v in zip(x.args[1::2], x.args[2::2]):
            if k == name:
                return v
    return mk('attr', x, name)


def rec(k, ms, inits, nexts):
    """mutually recursive cells: value at start of iteration k.  returns rec term; use at(rec, j, k)"""
    bs, body = close([k] + list(ms), list(nexts))
    return mk('rec', len(ms), *(bs + list(inits) + body))


@ctor('at')
def at(r, j, k):
    if k is ZERO:
        return r.args[r.args[0] + 2 + j]
    return mk('at', r, j, k)


@ctor('abs')
def tabs(x):
    if isnum(x):
        return num(abs(x.args[0]))
    if x.op == 'abs':
        return x
    if x.op == 'add':
        if x.args[0] < 0:
            x = neg(x)
        if nterms(x) == 1 and x.args[0] != 1:
            return mul(num(abs(x.args[0])), tabs(x.args[1]))
    return mk('abs', x)


# ------------------------------------------------------------------------------------------------------- assumptions
def assume(t, facts):
    """replace condition atoms by known truth values"""
    facts = {k: v for k, v in facts.items()}
    if not facts:
        return t
    memo = {}

    def go(x):
        if x in facts:
            return TRUE if facts[x] else FALSE
        if not x.args:
            return x
        r = memo.get(x)
        if r is None:
            ks = [go(a) if isinstance(a, T) else a for a in x.args]
            if all(a is b for a, b in zip(ks, x.args)):
                r = x
            elif bound_of(x):
                r = _rebuild_bound(x, ks)
            else:
                r = rebuild(x, ks)
                if r in facts:
                    r = TRUE if facts[r] else FALSE
            memo[x] = r
        return r
    return go(t)


def _rebuild_bound(x, ks):
    bs = bound_of(x)
    fr = [fresh('arr' if b.args[1] else 'o') for b in bs]
    mm = dict(zip(bs, fr))
    new = [a if not isinstance(a, T) else _open_raw(a, mm) for a in ks]
    return rebuild_binder(x.op, new, fr)


def literals(c, val):
    """decompose a condition into atom facts implied by c == val"""
    out = {}

    def go(c, v):
        if c.op == 'ite':
            a, x, y = c.args
            if v:
                if x is FALSE:
                    go(a, False)
                    go(y, True)
                    return
                if y is FALSE:
                    go(a, True)
                    go(x, True)
                    return
            else:
                if x is TRUE:
                    go(a, False)
                    go(y, False)
                    return
                if y is TRUE:
                    go(a, True)
                    go(x, False)
                    return
            out[c] = v
        elif c.op != 'bool':
            out[c] = v
    go(c, val)
    return out


# ------------------------------------------------------------------------------------------------------- printing
def show(t, depth=12):
    if not isinstance(t, T):
        return str(t)
    if depth <= 0:
        return '…'
    d = depth - 1
    op, a = t.op, t.args
    if op == 'num':
        return str(a[0])
    if op == 'str':
        return repr(a[0])
    if op == 'bool':
        return str(a[0])
    if op in ('none', 'E', 'PI', 'INF', 'NAN', 'undef'):
        return op
    if op == 'add':
        return '(' + ' + '.join((('%s*' % c) if c != 1 or m is ONE else '') + show(m, d) if m is not ONE else str(c)
                                for c, m in zip(a[::2], a[1::2])) + ')'
    if op == 'mono':
        return '*'.join(show(b, d) if e is ONE else '%s^%s' % (show(b, d), show(e, d)) for b, e in zip(a[::2], a[1::2]))
    if op == 'attr':
        return show(a[0], d) + '.' + a[1]
    if op == 'idx':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if op == 'ix':
        return '%s%d' % a
    if op == 'bv':
        return ('$%d' if not a[1] else '$A%d') % a[0]
    if op in ('sym', 'ssym'):
        return a[0]
    if op == 'ite':
        if a[1] is FALSE and a[2] is TRUE:
            return '!%s' % show(a[0], d)
        return '{%s ? %s : %s}' % tuple(show(x, d) for x in a)
    if op == 'map':
        return '[%s | %s<%s]' % (show(a[2], d), show(a[1], d), show(a[0], d))
    if op == 'ltz':
        return '(%s < 0)' % show(a[0], d)
    if op == 'eq':
        return '(%s == %s)' % (show(a[0], d), show(a[1], d))
    if op == 'eqz':
        return '(%s == 0)' % show(a[0], d)
    if op == 'lib':
        return '%s(%s)' % (a[0], ', '.join(show(x, d) for x in a[1:]))
    if op == 'kw':
        return '%s=%s' % (a[0], show(a[1], d))
    return '%s(%s)' % (op, ', '.join(show(x, d) for x in a))


def subterms_upto(t, op):
    """leaves below nested nodes of type op (for ite: the branches)"""
    if t.op != op:
        return [t]
    return [x for a in (t.args[1:] if op == 'ite' else t.args) for x in subterms_upto(a, op)]
