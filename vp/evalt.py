"""Random interpretation of value graphs.

Two graphs whose normal forms differ are compared by evaluating both in random typed valuations of their leaves
(Gulwani/Necula style).  Only graph nodes are evaluated, with an evaluator for each node type; methods and functions
whose body the analysis keeps uninterpreted get a fixed pseudo-random smooth interpretation that depends on all their
arguments.  A graph that needs information the valuation does not define is `Undefined` (the comparison is then left
undecided, never reported)."""
import hashlib
import numpy as np
from . import terms as T


STR = {}     # class -> text of its instances, if constant


class Undefined(Exception):
    pass


class Obj(object):
    """object of the valuation: class name and fields"""

    def __init__(self, key, cls=(), fields=None, methods=None, absent=()):
        self.key = key
        self.cls = (cls,) if isinstance(cls, str) else tuple(cls)
        self.fields = fields or {}
        self.methods = methods or {}
        self.absent = set(absent)

    def __repr__(self):
        return '<%s>' % self.key


class Opq(object):
    """opaque value determined by its key"""

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Opq) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return 'Opq%s' % (self.key,)


class Fn(object):
    def __init__(self, key, f):
        self.key, self.f = key, f

    def __call__(self, *a, **k):
        return self.f(*a, **k)


def seed_of(key):
    return int.from_bytes(hashlib.md5(repr(key).encode()).digest()[:8], 'little')


def isint(v):
    return isinstance(v, (int, np.integer)) and not isinstance(v, (bool, np.bool_))


def fingerprint(v, nums):
    """discrete structure of a value; numbers are appended to nums"""
    if v is None or isinstance(v, (str, bytes)):
        return v
    if isinstance(v, (bool, np.bool_)):
        nums.append(float(v))
        return '#'
    if isinstance(v, (int, float, np.number)):
        nums.append(float(v))
        return '#'
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ('A', v.shape) + tuple(fingerprint(x, nums) for x in v.ravel())
        if v.dtype.kind in 'US':
            return ('A', v.shape) + tuple(str(x) for x in v.ravel())
        nums.extend(float(np.real(x)) for x in v.ravel())
        return ('A', v.shape)
    if isinstance(v, (list, tuple)):
        try:
            a = np.asarray(v, dtype=float)
            nums.extend(float(x) for x in a.ravel())
            return ('A', a.shape)
        except (ValueError, TypeError):
            pass
        return ('L',) + tuple(fingerprint(x, nums) for x in v)
    if isinstance(v, dict):
        return ('D',) + tuple((str(k), fingerprint(v[k], nums)) for k in sorted(v, key=str))
    if isinstance(v, (frozenset, set)):
        return ('S',) + tuple(sorted(str(x) for x in v))
    if isinstance(v, (Obj, Opq, Fn)):
        return v.key
    if callable(v):
        return getattr(v, '__name__', 'fn')
    raise Undefined('fingerprint of %s' % type(v).__name__)


def smooth(key, args, shape, lo=0.2, hi=1.0):
    """smooth positive pseudo-random function of all numbers in args"""
    nums = []
    fp = fingerprint(list(args), nums)
    if isinstance(fp, tuple) and fp and fp[0] == 'A':
        fp = ('A*', fp[1])
    x = np.array([7.77 if n != n else (9.99 if n == np.inf else (-9.99 if n == -np.inf else n)) for n in nums])
    rng = np.random.RandomState(seed_of((key, fp, len(x))) % (2 ** 32))
    size = int(np.prod(shape)) if shape != () else 1
    w = rng.uniform(-1, 1, (size, len(x)))
    b = rng.uniform(0, 2 * np.pi, size)
    # squash large inputs so that the function stays smooth in them
    y = np.sin(w.dot(np.arcsinh(x)) + b) if len(x) else np.sin(b)
    r = lo + (hi - lo) * (y + 1) / 2
    return r.reshape(shape) if shape != () else float(r[0])


class USet(frozenset):
    """unordered collection: each side of a comparison sees its elements in another order"""
    rev = False

    def __iter__(self):
        return iter(sorted(frozenset.__iter__(self), key=str, reverse=self.rev))


def uset(x, side):
    r = USet(x)
    r.rev = bool(side)
    return r


def arr(v):
    if isinstance(v, USet):
        v = list(v)
    if isinstance(v, np.ndarray):
        return v
    if isinstance(v, (list, tuple)):
        if any(isinstance(x, (Opq, Obj)) for x in v):
            a = np.empty(len(v), dtype=object)
            a[:] = v
            return a
        try:
            r = np.array(v)
        except ValueError:
            raise Undefined('ragged')
        return r
    if isinstance(v, (bool, int, float, complex, np.number, np.bool_)):
        return v
    raise Undefined('not numeric: %s' % type(v).__name__)


def numeric(v):
    a = arr(v)
    if isinstance(a, np.ndarray) and a.dtype.kind not in 'biufc':
        raise Undefined('not numeric array')
    return a


EPS = 1e-13
LIMIT = 400

# library functions that are evaluated with the library itself
NUMPY_OK = {'diff', 'roll', 'nanmax', 'nanmin', 'nanmean', 'nanstd', 'std', 'mean', 'amin', 'argmax', 'argmin', 'cumsum', 'sort',
            'argsort', 'unique', 'ravel', 'meshgrid', 'tile', 'repeat', 'append', 'outer', 'dot', 'convolve',
            'histogram', 'floor', 'ceil', 'round', 'rint', 'sin', 'cos', 'tan', 'tanh', 'linspace', 'bincount',
            'array_split', 'swapaxes', 'moveaxis', 'expand_dims', 'insert', 'delete', 'isclose', 'allclose', 'array_equal',
            'searchsorted', 'digitize', 'sign', 'hstack', 'vstack', 'stack', 'concatenate', 'average', 'trapz', 'median',
            'nansum', 'cumprod', 'max', 'min', 'sum', 'prod', 'arange', 'flip', 'squeeze', 'reshape', 'transpose',
            'broadcast_to', 'atleast_1d', 'atleast_2d', 'logaddexp', 'log1p', 'expm1', 'count_nonzero', 'isin', 'in1d',
            'where', 'nan_to_num', 'array', 'asarray', 'any', 'all', 'tensordot', 'einsum', 'multiply', 'add', 'power', 'ix_', 'indices', 'unravel_index',
            'nditer_', 'size', 'ndim', 'shape', 'cov', 'fft.irfft', 'fft.rfft', 'fft.fft', 'fft.ifft', 'fft.fftfreq', 'linalg.norm',
            'fft.fftshift', 'log10', 'log2', 'real', 'imag', 'conj', 'square', 'sqrt', 'exp', 'log', 'abs', 'amax', 'clip',
            'maximum', 'minimum', 'isscalar', 'logspace', 'geomspace', 'full', 'zeros_like', 'ones_like', 'trunc', 'fix'}


def frozen_mvn(*a, **k):
    import scipy.stats
    d = scipy.stats.multivariate_normal(*a, **k)
    return Obj(('mvn', fp_key([list(a), k])), ('mvn',), {}, {'pdf': lambda ev, x, kw: d.pdf(x[1])})


def libfun(name):
    if name.startswith('numpy.') and name[6:] in NUMPY_OK:
        f = np
        for p in name[6:].split('.'):
            f = getattr(f, p, None)
        return f
    if name in ('gaussian_filter1d', 'shift'):
        import scipy.ndimage
        return getattr(scipy.ndimage, name)
    if name in ('fftconvolve', 'convolve2d'):
        import scipy.signal
        return getattr(scipy.signal, name)
    if name == 'factorial':
        import scipy.special
        return scipy.special.factorial
    if name.startswith('scipy.special.'):
        import scipy.special
        return getattr(scipy.special, name[14:], None)
    if name == 'scipy.stats.multivariate_normal':
        return frozen_mvn
    return {'str.format': lambda s, *a, **k: s.format(*a, **k),
            'builtins.abs': abs, 'builtins.divmod': divmod, 'str.join': lambda s, x: s.join(x),
            'builtins.pow': pow, 'math.floor': np.floor, 'math.ceil': np.ceil, 'builtins.hash': None,
            'itertools.product': lambda *a, **k: [list(x) for x in __import__('itertools').product(*a, **k)],
            'builtins.reversed': lambda x: list(x)[::-1], 
            'unique': lambda x: sorted(set(x), key=str), 'zipstar': lambda x: [list(y) for y in zip(*x)],
            'sorted': lambda x, **k: sorted(x, **k), 'itertools.chain': lambda *a: [y for x in a for y in x],
            'itertools.combinations': lambda x, r: [list(y) for y in __import__('itertools').combinations(x, r)],
            'str': str, 'builtins.ord': ord, 'builtins.chr': chr, 'builtins.divmod': divmod,
            }.get(name)


STRM = {'str.split', 'str.strip', 'str.replace', 'str.lower', 'str.upper', 'str.startswith', 'str.endswith', 'str.find',
        'str.join', 'str.count', 'str.isdigit', 'str.rstrip', 'str.lstrip', 'str.format', 'str.partition'}


class Ev(object):
    """evaluator of one side in one world; world.sym(name) gives leaf values"""

    def __init__(self, world, side=0, budget=400000):
        self.w = world
        self.side = side
        self.memo = {}
        self.recs = {}
        self.fbv = {}
        self.ver = 0
        self.budget = budget
        self.fun = world.get('#fun', {})
        self.touched = set()      # library functions without interpretation that the value depends on

    def run(self, t):
        with np.errstate(all='ignore'):
            return self.ev(t, {})

    def key(self, t, env):
        f = T._freebv(t)
        if not f:
            return (t.id,)
        return (t.id,) + tuple(sorted((b.args[0], env[b][1]) for b in f if b in env))

    def ev(self, t, env):
        k = self.key(t, env)
        r = self.memo.get(k, self)
        if r is self:
            self.budget -= 1
            if self.budget < 0:
                raise Undefined('budget')
            m = getattr(self, 'x_' + OPN.get(t.op, t.op), None)
            if m is None:
                raise Undefined('node ' + t.op)
            try:
                r = m(t, env)
            except (Undefined, RecursionError):
                raise
            except Exception as e:
                raise Undefined('%s in %s: %s' % (type(e).__name__, t.op, str(e)[:80]))
            self.memo[k] = r
        return r

    def bind(self, env, b, v):
        e = dict(env)
        if isint(v):
            e[b] = (int(v), ('i', int(v)))
        else:
            self.ver += 1
            e[b] = (v, ('v', self.ver))
        return e

    # ---------------------------------------------------------------------------------------------- leaves
    def x_num(self, t, env):
        f = t.args[0]
        return int(f) if f.denominator == 1 else float(f)

    def x_str(self, t, env):
        return t.args[0]

    def x_bool(self, t, env):
        return t.args[0]

    def x_none(self, t, env):
        return None

    def x_E(self, t, env):
        return float(np.e)

    def x_PI(self, t, env):
        return float(np.pi)

    def x_INF(self, t, env):
        return float('inf')

    def x_NAN(self, t, env):
        return float('nan')

    def x_bv(self, t, env):
        if t not in env:
            raise Undefined('free variable')
        return env[t][0]

    def x_sym(self, t, env):
        if t.args[0] in self.w:
            return self.w[t.args[0]]
        raise Undefined('leaf ' + t.args[0])

    x_ssym = x_sym

    def x_attr(self, t, env):
        o = self.ev(t.args[0], env)
        n = t.args[1]
        if isinstance(o, Obj):
            if n in o.fields:
                v = o.fields[n]
                return uset(v, self.side) if isinstance(v, frozenset) else v
            raise Undefined('field %s.%s' % (o.key, n))
        if isinstance(o, Opq):
            return Opq(('attr', o.key, n))
        raise Undefined('attribute %s' % n)

    def x_record(self, t, env):
        """frozen object created by the code: (class, name, value, ...)"""
        return Obj(('rec', t.args[0]), t.args[0], {n: self.ev(v, env) for n, v in zip(t.args[1::2], t.args[2::2])})

    def x_inst(self, t, env):
        return Obj(('inst', t.args[1]), (t.args[1],), {'__str__': STR[t.args[1]]} if t.args[1] in STR else {})

    def x_libref(self, t, env):
        if t.args[0] == 'string.ascii_lowercase':
            return 'abcdefghijklmnopqrstuvwxyz'
        f = libfun(t.args[0])
        return Fn(('lib', t.args[0]), f) if f is not None else Opq(('lib', t.args[0]))

    x_lib = x_libref

    def x_fnref(self, t, env):
        return Opq(('fn',) + t.args)

    def x_cls(self, t, env):
        return Opq(('cls', t.args[0]))

    def x_ellipsis(self, t, env):
        return Ellipsis

    def x_newaxis(self, t, env):
        return None

    def x_fmt(self, t, env):
        return Opq(('fmt',))

    def x_const(self, t, env):
        return Opq(('const', t.args[0]))

    def x_empty(self, t, env):
        sh = self.shape(t.args[0], env)
        return np.full(sh, 12345.678 if self.side == 0 else -54321.25)

    def shape(self, t, env):
        s = self.ev(t, env)
        if isinstance(s, np.ndarray):
            s = s.tolist()
        if isinstance(s, (int, float, np.number)):
            return (int(s),)
        return tuple(int(x) for x in s)

    def x_zeros(self, t, env):
        return np.zeros(self.shape(t.args[0], env))

    def x_ones(self, t, env):
        return np.ones(self.shape(t.args[0], env))

    # ---------------------------------------------------------------------------------------------- arithmetic
    def x_add(self, t, env):
        r = None
        for c, m in zip(t.args[::2], t.args[1::2]):
            v = numeric(self.ev(m, env))
            if c != 1:
                v = (int(c) if c.denominator == 1 else float(c)) * v
            elif isinstance(v, (bool, np.bool_)):
                v = int(v)
            if r is None:
                r = v
            else:
                if isinstance(r, np.ndarray) and r.dtype == bool:
                    r = r.astype(float)
                if isinstance(v, np.ndarray) and v.dtype == bool:
                    v = v.astype(float)
                r = r + v
        return r

    def x_mono(self, t, env):
        r = None
        for b, e in zip(t.args[::2], t.args[1::2]):
            v = numeric(self.ev(b, env))
            x = numeric(self.ev(e, env))
            if not (isint(x) and x == 1):
                if isinstance(v, np.ndarray):
                    v = v.astype(float) if v.dtype.kind in 'bui' else v
                elif isinstance(v, complex):
                    pass
                else:
                    v = float(v)
                if isinstance(v, float) and not isinstance(x, np.ndarray):
                    v = float(np.power(np.float64(v), x)) if not isinstance(x, complex) else v ** x
                else:
                    v = np.power(v, x)
            if r is None:
                r = v
            else:
                if isinstance(v, np.ndarray) and v.dtype == bool:
                    v = v.astype(float)
                if isinstance(r, np.ndarray) and r.dtype == bool:
                    r = r.astype(float)
                r = r * v
        return r

    def x_log(self, t, env):
        return np.log(numeric(self.ev(t.args[0], env)))

    def x_abs(self, t, env):
        return np.abs(numeric(self.ev(t.args[0], env)))

    def x_max2(self, t, env):
        r = numeric(self.ev(t.args[0], env))
        for a in t.args[1:]:
            r = np.maximum(r, numeric(self.ev(a, env)))
        return r

    def x_min2(self, t, env):
        r = numeric(self.ev(t.args[0], env))
        for a in t.args[1:]:
            r = np.minimum(r, numeric(self.ev(a, env)))
        return r

    def x_floor(self, t, env):
        return np.floor(numeric(self.ev(t.args[0], env)) + 1e-12)

    def x_mod(self, t, env):
        return numeric(self.ev(t.args[0], env)) % numeric(self.ev(t.args[1], env))

    def x_int(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, (list, np.ndarray)):
            return np.trunc(numeric(v) + 1e-12 * np.sign(numeric(v))).astype(int)
        if isinstance(v, str):
            return int(v)
        return int(v + (1e-12 if v > 0 else -1e-12))

    def x_float(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, (list, np.ndarray)):
            return numeric(v).astype(float) if np.size(v) != 1 else float(np.ravel(v)[0])
        return float(v)

    def x_matmul(self, t, env):
        return numeric(self.ev(t.args[0], env)) @ numeric(self.ev(t.args[1], env))

    # ---------------------------------------------------------------------------------------------- reductions
    def x_sum(self, t, env):
        return np.sum(numeric(self.ev(t.args[0], env)))

    def x_prod(self, t, env):
        return np.prod(numeric(self.ev(t.args[0], env)))

    def axis(self, v):
        if isinstance(v, (list, np.ndarray)):
            return tuple(int(x) for x in v)
        return int(v)

    def x_sumax(self, t, env):
        return np.sum(numeric(self.ev(t.args[0], env)), axis=self.axis(self.ev(t.args[1], env)))

    def x_prodax(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, list) and any(isinstance(x, (Opq, Obj)) for x in v):
            return Opq(('prod',) + tuple(fingerprint(x, []) for x in v)) if len(v) > 1 else v[0]
        return np.prod(numeric(v), axis=self.axis(self.ev(t.args[1], env)))

    def x_sumkeep(self, t, env):
        ax = self.ev(t.args[1], env)
        return np.sum(numeric(self.ev(t.args[0], env)), axis=self.axis(ax), keepdims=True)

    def x_amax(self, t, env):
        return np.amax(numeric(self.ev(t.args[0], env)))

    def x_squeeze(self, t, env):
        return np.squeeze(numeric(self.ev(t.args[0], env)))

    def x_reshape(self, t, env):
        return np.reshape(numeric(self.ev(t.args[0], env)), self.shape(t.args[1], env))

    def x_T(self, t, env):
        return np.transpose(arr(self.ev(t.args[0], env)))

    def x_shape(self, t, env):
        return list(np.shape(arr(self.ev(t.args[0], env))))

    def x_size(self, t, env):
        return int(np.size(arr(self.ev(t.args[0], env))))

    # ---------------------------------------------------------------------------------------------- booleans
    def cmp(self, t, env):
        d = numeric(self.ev(t.args[0], env))
        return np.where(np.abs(d) < EPS, 0, d) if isinstance(d, np.ndarray) else (0 if abs(d) < EPS else d)

    def bo(self, r):
        return r if isinstance(r, np.ndarray) and r.shape != () else bool(r)

    def x_ltz(self, t, env):
        return self.bo(self.cmp(t, env) < 0)

    def x_lez(self, t, env):
        return self.bo(self.cmp(t, env) <= 0)

    def x_eqz(self, t, env):
        return self.bo(self.cmp(t, env) == 0)

    def x_eq(self, t, env):
        return self.equal(self.ev(t.args[0], env), self.ev(t.args[1], env))

    def equal(self, a, b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                if isinstance(a, np.ndarray) and a.dtype.kind in 'USO' or \
                        isinstance(b, np.ndarray) and b.dtype.kind in 'USO':
                    return self.bo(np.asarray(a) == np.asarray(b))
                return False
            x, y = arr(a), arr(b)
            if np.shape(x) != np.shape(y):
                if np.shape(x) == () or np.shape(y) == ():
                    return self.bo(np.abs(x - y) < EPS)
                return False
            if np.asarray(x).dtype.kind in 'USO' or np.asarray(y).dtype.kind in 'USO':
                return self.bo(np.asarray(x) == np.asarray(y))
            r = np.isclose(x, y, rtol=1e-12, atol=EPS)
            return self.bo(r)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return all(bool(np.all(self.equal(x, y))) for x, y in zip(a, b))
        if isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)):
            return bool(abs(a - b) <= 1e-12 * max(1, abs(a))) if np.isfinite(a) and np.isfinite(b) else bool(a == b)
        if isinstance(a, (Obj, Fn)) or isinstance(b, (Obj, Fn)):
            return getattr(a, 'key', None) == getattr(b, 'key', 0)
        if isinstance(a, Opq) and isinstance(b, Opq):
            return a.key == b.key
        if isinstance(a, Opq) or isinstance(b, Opq):
            raise Undefined('comparison of an opaque value')
        return a == b

    def x_truth(self, t, env):
        return self.tr(self.ev(t.args[0], env))

    def tr(self, v):
        if isinstance(v, Opq):
            raise Undefined('truth of an opaque value')
        if isinstance(v, (Obj, Fn)):
            return True
        if isinstance(v, np.ndarray):
            if v.size == 1:
                return bool(v.ravel()[0])
            if v.size == 0:
                return False
            return v if v.dtype == bool else v != 0      # element-wise condition
        return bool(v)

    def x_nonempty(self, t, env):
        return len(self.ev(t.args[0], env)) > 0

    def x_isnone(self, t, env):
        v = self.ev(t.args[0], env)
        return v is None

    def x_isnan(self, t, env):
        v = self.ev(t.args[0], env)
        return self.bo(np.isnan(numeric(v).astype(float) if isinstance(numeric(v), np.ndarray) else float(v)))

    def x_isfinite(self, t, env):
        return self.bo(np.isfinite(numeric(self.ev(t.args[0], env))))

    def x_isinf(self, t, env):
        return self.bo(np.isinf(numeric(self.ev(t.args[0], env))))

    def x_any(self, t, env):
        return self.anyall(t, env, True)

    def x_all(self, t, env):
        return self.anyall(t, env, False)

    def anyall(self, t, env, isany):
        m = t.args[0]
        if m.op == 'map':
            n = self.ev(m.args[0], env)
            for i in range(int(n)):
                v = self.ev(m.args[2], self.bind(env, m.args[1], i))
                v = bool(np.any(self.tr(v))) if isany else bool(np.all(self.tr(v)))
                if v is isany:
                    return isany
            return not isany
        v = self.ev(m, env)
        if isinstance(v, list):
            return any(bool(np.any(self.tr(x))) for x in v) if isany else all(bool(np.all(self.tr(x))) for x in v)
        v = self.tr(v)
        return bool(np.any(v)) if isany else bool(np.all(v))

    def x_where(self, t, env):
        return np.where(self.ev(t.args[0], env), arr(self.ev(t.args[1], env)), arr(self.ev(t.args[2], env)))

    def x_ite(self, t, env):
        try:
            c = self.ev(t.args[0], env)
        except Undefined:
            # the diagram is ordered: a test may stand above the one that guards it; it then makes no difference
            a, b = self.ev(t.args[1], env), self.ev(t.args[2], env)
            if same(a, b):
                return a
            raise
        if isinstance(c, np.ndarray) and c.shape != ():
            if c.size == 1 and False:
                c = bool(c.ravel()[0])
            else:
                a, b = self.ev(t.args[1], env), self.ev(t.args[2], env)
                return np.where(c, arr(a), arr(b))
        return self.ev(t.args[1] if c else t.args[2], env)

    def x_isinst(self, t, env):
        v = self.ev(t.args[0], env)
        c = t.args[1] if isinstance(t.args[1], str) else self.ev(t.args[1], env)
        return isinstance_of(v, c)

    def x_typeis(self, t, env):
        v = self.ev(t.args[0], env)
        return isinstance_of(v, t.args[1], exact=True)

    def x_callable(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, Opq):
            raise Undefined('callable')
        return isinstance(v, Fn) or callable(v) and not isinstance(v, (Obj,)) or \
            isinstance(v, Obj) and '__call__' in v.methods

    def x_hasattr(self, t, env):
        v = self.ev(t.args[0], env)
        n = t.args[1] if isinstance(t.args[1], str) else self.ev(t.args[1], env)
        if isinstance(v, Obj):
            if n in v.fields or n in v.methods:
                return True
            if n in v.absent or '*' in v.absent:
                return False
            raise Undefined('hasattr %s' % n)
        if isinstance(v, Opq):
            raise Undefined('hasattr of opaque')
        return hasattr(v, n)

    def x_in(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if isinstance(b, (Opq, Obj)):
            raise Undefined('in opaque')
        if isinstance(b, (str, dict)):
            return a in b
        return any(bool(np.all(self.equal(a, x))) for x in b)

    def x_excq(self, t, env):
        h = self.w.get('#exc')
        return bool(h(t, self, env)) if h else False

    # ---------------------------------------------------------------------------------------------- sequences
    def x_seq(self, t, env):
        r = []
        for a in t.args:
            if a.op == 'star':
                r.extend(self.ev(a.args[0], env))
            else:
                r.append(self.ev(a, env))
        return r

    def x_set(self, t, env):
        return uset((self.ev(a, env) for a in t.args), self.side)

    def x_setof(self, t, env):
        return uset((hashable(x) for x in self.ev(t.args[0], env)), self.side)

    def x_setorder(self, t, env):
        return list(uset((hashable(x) for x in self.ev(t.args[0], env)), self.side))

    def x_concat(self, t, env):
        r = []
        for a in t.args:
            v = self.ev(a, env)
            if isinstance(v, dict):
                v = list(v)
            if not isinstance(v, (list, np.ndarray, tuple)):
                raise Undefined('concat of %s' % type(v).__name__)
            r.extend(list(v))
        return r

    def x_len(self, t, env):
        v = self.ev(t.args[0], env)
        return len(v)

    def x_minlen(self, t, env):
        return min(self.ev(a, env) for a in t.args)

    def x_rangelen(self, t, env):
        return len(np.arange(*[self.ev(a, env) for a in t.args]))

    def count(self, n):
        n = int(round(float(n)))
        if n > 200000:
            raise Undefined('large iteration')
        return n

    def x_map(self, t, env):
        n = self.count(self.ev(t.args[0], env))
        return [self.ev(t.args[2], self.bind(env, t.args[1], i)) for i in range(n)]

    def x_cat(self, t, env):
        r = []
        for x in self.ev(t.args[0], env):
            r.extend(list(x))
        return r

    def x_filtermap(self, t, env):
        n = self.count(self.ev(t.args[0], env))
        r = []
        for i in range(n):
            e = self.bind(env, t.args[1], i)
            if self.ev(t.args[2], e):
                r.append(self.ev(t.args[3], e))
        return r

    def x_first(self, t, env):
        n = self.count(self.ev(t.args[0], env))
        for i in range(n):
            if np.all(self.ev(t.args[2], self.bind(env, t.args[1], i))):
                return i
        raise Undefined('no such element')

    def x_lastix(self, t, env):
        n = self.count(self.ev(t.args[0], env))
        for i in range(n - 1, -1, -1):
            if np.all(self.ev(t.args[2], self.bind(env, t.args[1], i))):
                return i
        raise Undefined('no such element')

    def x_iters(self, t, env):
        for i in range(LIMIT):
            if np.all(self.ev(t.args[1], self.bind(env, t.args[0], i))):
                return i
        raise Undefined('iteration bound')

    def x_lag(self, t, env):
        b, c, init, k = t.args
        k = int(self.ev(k, env))
        if k <= 0:
            return self.ev(init, env)
        return self.ev(c, self.bind(env, b, k - 1))

    def x_at(self, t, env):
        r, j, k = t.args
        k = self.count(self.ev(k, env))
        m = r.args[0]
        key = self.key(r, env)
        st = self.recs.get(key)
        if st is None:
            st = self.recs[key] = [[self.ev(a, env) for a in r.args[m + 2:2 * m + 2]]]
        while len(st) <= k:
            e = self.bind(env, r.args[1], len(st) - 1)
            for b, v in zip(r.args[2:m + 2], st[-1]):
                e = self.bind(e, b, v)
            st.append([self.ev(a, e) for a in r.args[2 * m + 2:]])
        return st[max(k, 0)][j]

    def x_mapstore(self, t, env):
        n, b, ix, val, init = t.args
        n = self.count(self.ev(n, env))
        r = self.ev(init, env)
        r = list(r) if isinstance(r, list) else np.array(r)
        for i in range(n):
            e = self.bind(env, b, i)
            j = self.ev(ix, e)
            r = self.put(r, j, self.ev(val, e))
        return r

    def put(self, r, j, v):
        """r is owned by the caller"""
        if isinstance(r, dict):
            r[hashable(j)] = v
            return r
        if isinstance(r, list):
            if isinstance(j, (int, float, np.number)) and not isinstance(j, bool):
                r[int(j)] = v
                return r
            r = np.array(r)
        if isinstance(v, list):
            v = arr(v)
        if isinstance(r, np.ndarray):
            if isinstance(v, (Obj, Opq, str)) or isinstance(v, np.ndarray) and v.dtype == object:
                r = r.astype(object)
            elif r.dtype.kind in 'bui' and (isinstance(v, float) or isinstance(v, np.ndarray) and v.dtype.kind == 'f'):
                r = r.astype(float)
            elif r.dtype.kind == 'f' and isinstance(v, np.ndarray) and v.dtype.kind == 'c':
                r = r.astype(complex)
        r[self.ixval(j)] = v
        return r

    def ixval(self, j):
        if isinstance(j, np.ndarray) and j.dtype == object and j.ndim == 1:
            j = list(j)
        if isinstance(j, list):
            if any(isinstance(x, slice) or x is None or x is Ellipsis or isinstance(x, (list, np.ndarray)) for x in j):
                return tuple(self.ixval(x) if isinstance(x, (list, np.ndarray)) else
                             (int(x) if isinstance(x, (float, np.number)) else x) for x in j)
            return j
        if isinstance(j, float) or isinstance(j, np.floating):
            return int(j)
        if isinstance(j, np.ndarray) and j.dtype.kind == 'f':
            return j.astype(int)
        return j

    def x_store(self, t, env):
        r = self.ev(t.args[0], env)
        r = list(r) if isinstance(r, list) else (dict(r) if isinstance(r, dict) else np.array(r))
        return self.put(r, self.index(t.args[1], env), self.ev(t.args[2], env))

    def index(self, t, env):
        if t.op == 'seq':
            return tuple(self.ixval(self.ev(a, env)) for a in t.args)
        return self.ev(t, env)

    def x_idx(self, t, env):
        b = self.ev(t.args[0], env)
        i = self.index(t.args[1], env)
        if isinstance(b, frozenset):
            b = list(uset(b, self.side))
        if isinstance(b, dict):
            if t.args[1].op in ('bv', 'ix') and isint(i) and i not in b and 0 <= i < len(b):
                return list(b)[int(i)]      # iteration over a dictionary
            return b[hashable(i)]
        if isinstance(b, Opq):
            return Opq(('idx', b.key, fingerprint(i, nums_key(i))))
        if isinstance(b, (list, str)):
            if isinstance(i, bool):
                i = int(i)
            if isint(i) or isinstance(i, float):
                return b[int(i)]
            if isinstance(i, slice):
                return b[i]
            b = arr(b)
        if isinstance(b, tuple):
            r = b[i if isinstance(i, slice) else int(i)]
            return list(r) if isinstance(r, tuple) else r
        if isinstance(b, np.ndarray):
            return b[self.ixval(i)]
        raise Undefined('index of %s' % type(b).__name__)

    def x_slice_(self, t, env):
        v = [self.ev(a, env) for a in t.args]
        return slice(*[None if x is None else int(round(float(x))) for x in v])

    def x_slice(self, t, env):
        b = self.ev(t.args[0], env)
        v = [self.ev(a, env) for a in t.args[1:]]
        if isinstance(b, (Opq, Obj)) or b is None:
            raise Undefined('slice of opaque')
        return b[slice(*[None if x is None else int(round(float(x))) for x in v])]

    def x_rev(self, t, env):
        return self.ev(t.args[0], env)[::-1]

    def x_repeat(self, t, env):
        return list(self.ev(t.args[0], env)) * int(self.ev(t.args[1], env))

    def x_removed(self, t, env):
        r = list(self.ev(t.args[0], env))
        v = self.ev(t.args[1], env)
        for i, x in enumerate(r):
            if np.all(self.equal(x, v)):
                del r[i]
                return r
        raise Undefined('remove')

    def x_delitem(self, t, env):
        r = self.ev(t.args[0], env)
        r = list(r) if not isinstance(r, dict) else dict(r)
        del r[self.ev(t.args[1], env)]
        return r

    def x_where1(self, t, env):
        return [np.asarray(x) for x in np.where(arr(self.ev(t.args[0], env)))]

    def x_setdiff(self, t, env):
        return uset(frozenset(self.ev(t.args[0], env)) - frozenset(self.ev(t.args[1], env)), self.side)

    # ---------------------------------------------------------------------------------------------- dictionaries
    def x_dict(self, t, env):
        return {hashable(self.ev(k, env)): self.ev(v, env) for k, v in zip(t.args[::2], t.args[1::2])}

    def x_dictmap(self, t, env):
        n = self.count(self.ev(t.args[0], env))
        d = {}
        for i in range(n):
            e = self.bind(env, t.args[1], i)
            d[hashable(self.ev(t.args[2], e))] = self.ev(t.args[3], e)
        return d

    def dic(self, t, env):
        d = self.ev(t, env)
        if not isinstance(d, dict):
            raise Undefined('dictionary')
        return dict(d)

    def x_dictupd(self, t, env):
        d = self.dic(t.args[0], env)
        d.update(self.dic(t.args[1], env))
        return d

    def x_dictset(self, t, env):
        b = self.ev(t.args[0], env)
        if isinstance(b, Obj):
            raise Undefined('item assignment on object')
        d = self.dic(t.args[0], env)
        d[hashable(self.ev(t.args[1], env))] = self.ev(t.args[2], env)
        return d

    def x_dictdel(self, t, env):
        d = self.dic(t.args[0], env)
        d.pop(hashable(self.ev(t.args[1], env)), None)
        return d

    def x_keys(self, t, env):
        return list(self.dic(t.args[0], env))

    def x_values(self, t, env):
        return list(self.dic(t.args[0], env).values())

    def x_items(self, t, env):
        return [[k, v] for k, v in self.dic(t.args[0], env).items()]

    # ---------------------------------------------------------------------------------------------- strings
    def x_strcat(self, t, env):
        a = [self.ev(x, env) for x in t.args]
        if all(isinstance(x, str) for x in a):
            return ''.join(a)
        return Opq(('fmt',))

    def x_strof(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, Opq):
            return str(v.key)
        if isinstance(v, Obj):
            if '__str__' not in v.fields and isinstance(v.key, tuple) and v.key[0] == 'inst':
                raise Undefined('str of instance')
            return v.fields.get('__str__', str(v.key))
        if isinstance(v, float) and v == int(v):
            return str(v)
        return str(v)

    def x_nameof(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, Opq):
            return Opq(('nameof', v.key))
        if isinstance(v, (Fn, Obj)):
            return 'name_%s' % (v.key,)
        return getattr(v, '__name__')

    def x_typeof(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, Obj):
            return Opq(('cls', v.cls[0]))
        return Opq(('cls', type(v).__name__))

    def x_dtype(self, t, env):
        return Opq(('dtype', np.asarray(self.ev(t.args[0], env)).dtype.kind))

    # ---------------------------------------------------------------------------------------------- calls
    def x_lam(self, t, env):
        m = t.args[0]
        bs, body = t.args[1:1 + m], t.args[1 + m]

        def f(*a):
            e = env
            for b, v in zip(bs, a):
                e = self.bind(e, b, v)
            return self.ev(body, e)
        # extensional key: the value on probe arguments
        key = ('lam', t.id) if not T._freebv(t) else ('lam', t.id, self.key(t, env))
        return Fn(key, f)

    def callargs(self, ts, env):
        args, kw = [], {}
        for a in ts:
            if a.op == 'kw':
                v = self.ev(a.args[1], env)
                if a.args[0] == '**':
                    if not isinstance(v, dict):
                        raise Undefined('**kwargs')
                    kw.update({str(x): y for x, y in v.items()})
                else:
                    kw[a.args[0]] = v
            elif a.op == 'star':
                args.extend(list(self.ev(a.args[0], env)))
            elif a.op == 'conf':
                kw['#' + a.args[0]] = self.ev(a.args[1], env)
            else:
                args.append(self.ev(a, env))
        return args, kw

    def x_call(self, t, env):
        name = t.args[0]
        args, kw = self.callargs(t.args[1:], env)
        h = self.fun.get(name)
        if h is not None:
            return h(self, args, kw)
        if name in STRM and isinstance(args[0], str):
            r = getattr(args[0], name[4:])(*args[1:], **kw)
            return list(r) if isinstance(r, tuple) else r
        f = libfun(name)
        if f is not None:
            if any(isinstance(x, (Opq, Obj)) for x in args):
                return Opq(('call', name, fp_key([args, kw])))
            if name == 'sorted' and 'key' in kw:
                kf = kw['key']
                if isinstance(kf, Opq):
                    if kf.key not in (('lib', 'builtins.str'), ('lib', 'str')):
                        raise Undefined('sort key')
                    return sorted(args[0], key=str, reverse=bool(kw.get('reverse', False)))
            if name.startswith('numpy.') or name in ('gaussian_filter1d', 'shift', 'fftconvolve', 'convolve2d'):
                args = [self.clean(a, name) for a in args]
                kw.pop('dtype', None)
            r = f(*args, **kw)
            if isinstance(r, tuple):
                return [x for x in r]
            return r
        self.touched.add(name)
        return Opq(('call', name, fp_key([args, kw])))

    def clean(self, a, name):
        if isinstance(a, (Obj,)):
            raise Undefined('object argument of ' + name)
        if isinstance(a, frozenset):
            return list(uset(a, self.side))
        return a

    def x_apply(self, t, env):
        f = self.ev(t.args[0], env)
        args, kw = self.callargs(t.args[1:], env)
        return self.applyval(f, args, kw)

    def applyval(self, f, args, kw):
        if isinstance(f, Fn):
            return f(*args, **kw)
        if isinstance(f, Obj) and '__call__' in f.methods:
            return f.methods['__call__'](self, args, kw)
        if isinstance(f, (Opq, Obj)):
            k = f.key
            if any(isinstance(a, (Opq, Obj)) for a in args):
                return Opq(('apply', k, fp_key([args, kw])))
            sh = np.broadcast(*[np.asarray(a) for a in args if not isinstance(a, (str, dict))]).shape \
                if any(isinstance(a, (list, np.ndarray)) for a in args) else ()
            return smooth(('apply', k), [args, kw], sh)
        if callable(f):
            return f(*args, **kw)
        raise Undefined('call of a value')

    def x_dyn(self, t, env):
        name = t.args[0]
        o = self.ev(t.args[1], env)
        args, kw = self.callargs(t.args[2:], env)
        if isinstance(o, Obj):
            h = o.methods.get(name) or self.fun.get('dyn.' + name)
            if h is None and name in o.fields:
                return self.applyval(o.fields[name], args, {k: v for k, v in kw.items() if k[0] != '#'})
            if h is not None:
                return h(self, [o] + args, kw)
            return self.defaultdyn(name, o, args, kw)
        if isinstance(o, Opq):
            if any(isinstance(a, (Opq, Obj)) for a in args):
                return Opq(('dyn', name, o.key, fp_key([args, kw])))
            sh = np.broadcast(*[np.asarray(a) for a in args if not isinstance(a, (str, dict))]).shape \
                if any(isinstance(a, (list, np.ndarray)) for a in args) else ()
            return smooth(('dyn', name, o.key), [args, kw], sh)
        if 'dyn.' + name in self.fun:
            return self.fun['dyn.' + name](self, [o] + args, kw)
        raise Undefined('method %s of %s' % (name, type(o).__name__))

    def defaultdyn(self, name, o, args, kw):
        raise Undefined('method %s' % name)


OPN = {'exc?': 'excq'}


def nums_key(i):
    class L(list):
        pass
    return L()


def fp_key(v):
    nums = []
    fp = fingerprint(v, nums)
    return (fp, tuple(float('%.9g' % n) for n in nums))


def hashable(v):
    if isinstance(v, (list, tuple)):
        return tuple(hashable(x) for x in v)
    if isinstance(v, np.ndarray):
        return tuple(hashable(x) for x in v.tolist()) if v.shape != () else v.item()
    if isinstance(v, np.generic):
        return v.item()
    return v


PYT = {'str': str, 'basestring': str, 'unicode': str, 'list': (list,), 'ndarray': np.ndarray, 'int': (int, np.integer),
       'float': (float, np.floating), 'dict': dict, 'bool': (bool, np.bool_), 'tuple': tuple, 'bytes': bytes,
       'NoneType': type(None), 'Iterable': (list, tuple, dict, str, np.ndarray), 'Sequence': (list, tuple, str),
       'Number': (int, float, np.number), 'number': np.number, 'integer': np.integer, 'floating': np.floating}


def isinstance_of(v, c, exact=False):
    if isinstance(c, (list, tuple)):
        return any(isinstance_of(v, x, exact) for x in c)
    if isinstance(c, Opq):
        c = c.key[-1]
    if isinstance(c, Fn):
        c = c.key[-1]
    if not isinstance(c, str):
        raise Undefined('isinstance')
    c = c.split('.')[-1]
    if isinstance(v, Obj):
        return c in v.cls[:1] if exact else c in v.cls
    if isinstance(v, Opq):
        raise Undefined('type of an opaque value')
    if isinstance(v, Fn):
        return c in ('function', 'FunctionType', 'Callable')
    if c in PYT:
        return isinstance(v, PYT[c]) and not (c in ('int', 'Number') and isinstance(v, bool))
    return False


# ---------------------------------------------------------------------------------------------------- comparison
def same(a, b, rtol=1e-6, atol=1e-9):
    """structural equality of evaluated values up to rounding"""
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.key[0] == 'rec' and b.key[0] == 'rec':
            return a.cls == b.cls and all(n in b.fields and same(a.fields[n], b.fields[n]) for n in a.fields)
        return a.key == b.key
    if isinstance(a, Opq) or isinstance(b, Opq):
        return isinstance(a, Opq) and isinstance(b, Opq) and a.key == b.key
    if isinstance(a, Fn) or isinstance(b, Fn):
        return isinstance(a, Fn) and isinstance(b, Fn) and samefn(a, b)
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, (str, np.str_)) and isinstance(b, (str, np.str_)) and str(a) == str(b)
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and list(map(str, a)) == list(map(str, b)) and \
            all(same(x, y, rtol, atol) for x, y in zip(a.values(), b.values()))
    if isinstance(a, frozenset) or isinstance(b, frozenset):
        return isinstance(a, frozenset) and isinstance(b, frozenset) and a == b
    if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
        if isinstance(a, np.ndarray) and a.dtype != object and isinstance(b, np.ndarray) and b.dtype != object:
            if a.shape != b.shape:
                return False
            if a.dtype.kind in 'US' or b.dtype.kind in 'US':
                return bool(np.all(a == b))
            return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
        try:
            la, lb = list(a), list(b)
        except TypeError:
            # 0-d arrays and scalars
            try:
                return same(np.asarray(a).item(), np.asarray(b).item(), rtol, atol)
            except Exception:
                return False
        return len(la) == len(lb) and all(same(x, y, rtol, atol) for x, y in zip(la, lb))
    if isinstance(a, slice) and isinstance(b, slice):
        return a == b
    try:
        if a != a and b != b:
            return True
        if a == b:
            return True
        if abs(a) == np.inf or abs(b) == np.inf:
            return False
        return bool(abs(a - b) <= atol + rtol * max(abs(a), abs(b)))
    except Exception:
        return a == b


def samefn(a, b):
    if a.key == b.key:
        return True
    # extensional comparison on probe arguments
    ok = 0
    for probe in ((0.3,), (1.7,), (np.array([0.2, 0.9, 1.4]),), (0.3, 0.8), (1, 2, 3)):
        try:
            x = a(*probe)
            y = b(*probe)
        except Exception:
            continue
        if not same(x, y):
            return False
        ok += 1
    if ok == 0:
        raise Undefined('function comparison')
    return True
