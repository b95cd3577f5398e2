"""Transfer functions of library calls (builtins, numpy, scipy, ...): which graph node a call denotes, which containers
it copies, aliases or modifies, and which output it produces.  Library functions without an entry stay uninterpreted
(`call` nodes); they are assumed to be pure functions of their arguments."""
from . import terms as T, ndsub, pparse
from .terms import mk, TRUE, FALSE, NONE, ZERO, ONE, num, string, ite, band, bor, bnot, truth, idx, seq, concat

ALIAS = {
    'numpy.absolute': 'numpy.abs', 'numpy.fabs': 'numpy.abs', 'numpy.max': 'numpy.amax', 'numpy.min': 'numpy.amin',
    'numpy.true_divide': 'numpy.divide', 'numpy.product': 'numpy.prod', 'numpy.alltrue': 'numpy.all',
    'math.log': 'numpy.log', 'math.exp': 'numpy.exp', 'math.sqrt': 'numpy.sqrt', 'math.fabs': 'numpy.abs',
    'math.isnan': 'numpy.isnan', 'math.isfinite': 'numpy.isfinite', 'math.prod': 'numpy.prod',
    'numpy.asfarray': 'numpy.asarray', 'numpy.ascontiguousarray': 'numpy.asarray', 'numpy.asanyarray': 'numpy.asarray',
    'numpy.float_power': 'numpy.power', 'numpy.row_stack': 'numpy.vstack', 'operator.pow': 'numpy.power',
    'operator.add': 'numpy.add', 'operator.sub': 'numpy.subtract', 'operator.mul': 'numpy.multiply',
    'operator.floordiv': 'numpy.floor_divide', 'operator.mod': 'numpy.mod', 'numpy.remainder': 'numpy.mod',
    'operator.truediv': 'numpy.divide', 'operator.ge': 'numpy.greater_equal', 'operator.gt': 'numpy.greater',
    'operator.le': 'numpy.less_equal', 'operator.lt': 'numpy.less', 'operator.eq': 'numpy.equal',
    'operator.ne': 'numpy.not_equal', 'operator.neg': 'numpy.negative',
    'scipy.special.logsumexp': 'logsumexp', 'scipy.misc.logsumexp': 'logsumexp',
    'copy.copy': 'copy', 'copy.deepcopy': 'deepcopy', 'numpy.copy': 'numpy.array',
    'collections.OrderedDict': 'builtins.dict',
    'scipy.ndimage.filters.gaussian_filter1d': 'gaussian_filter1d', 'scipy.ndimage.gaussian_filter1d':
    'gaussian_filter1d', 'scipy.ndimage.interpolation.shift': 'shift', 'scipy.ndimage.shift': 'shift',
    'scipy.signal.fftconvolve': 'fftconvolve', 'scipy.signal.convolve2d': 'convolve2d',
    'scipy.special.factorial': 'factorial', 'scipy.optimize.minimize': 'minimize',
    'numpy.random': 'numpy.random', 'numpy.ufunc.reduce': 'reduce', 'functools.reduce': 'reduce',
    'itertools.product': 'itertools.product', 'numpy.bool': 'builtins.bool', 'numpy.bool_': 'builtins.bool',
    'numpy.float64': 'builtins.float', 'numpy.float_': 'builtins.float', 'numpy.int64': 'builtins.int',
    'sympy.stats.density': 'density', 'sympy.lambdify': 'lambdify', 'sympy.utilities.lambdify': 'lambdify',
    'inspect.getargspec': 'getargspec', 'inspect.getfullargspec': 'getargspec',
    'six.moves.range': 'builtins.range', 'builtins.xrange': 'builtins.range', 'typing.Iterable': 'Iterable',
    'collections.abc.Iterable': 'Iterable', 'collections.Iterable': 'Iterable',
}
CONST = {'numpy.pi': T.PI, 'math.pi': T.PI, 'numpy.e': T.E, 'math.e': T.E, 'numpy.inf': T.INF, 'math.inf': T.INF,
         'numpy.Inf': T.INF, 'numpy.nan': T.NAN, 'numpy.NaN': T.NAN, 'math.nan': T.NAN, 'numpy.newaxis': NONE,
         'numpy.infty': T.INF}
# argument names of functions whose optional arguments can be given by position or by name
SIG = {
    'numpy.sum': ('a', 'axis', 'dtype', 'out', 'keepdims'), 'numpy.prod': ('a', 'axis', 'dtype', 'out', 'keepdims'),
    'numpy.mean': ('a', 'axis', 'dtype', 'out', 'keepdims'), 'numpy.amax': ('a', 'axis', 'out', 'keepdims'),
    'numpy.amin': ('a', 'axis', 'out', 'keepdims'), 'numpy.any': ('a', 'axis', 'out', 'keepdims'),
    'numpy.all': ('a', 'axis', 'out', 'keepdims'), 'numpy.array': ('object', 'dtype', 'copy'),
    'numpy.asarray': ('a', 'dtype'), 'numpy.zeros': ('shape', 'dtype'), 'numpy.ones': ('shape', 'dtype'),
    'numpy.empty': ('shape', 'dtype'), 'numpy.full': ('shape', 'fill_value', 'dtype'),
    'numpy.ones_like': ('a', 'dtype'), 'numpy.zeros_like': ('a', 'dtype'), 'numpy.full_like': ('a', 'fill_value',
                                                                                               'dtype'),
    'numpy.empty_like': ('a', 'dtype'),
    'numpy.linspace': ('start', 'stop', 'num', 'endpoint'), 'numpy.diff': ('a', 'n', 'axis'),
    'numpy.reshape': ('a', 'newshape', 'order'), 'numpy.squeeze': ('a', 'axis'), 'numpy.ravel': ('a', 'order'),
    'numpy.expand_dims': ('a', 'axis'), 'numpy.concatenate': ('arrays', 'axis'), 'numpy.stack': ('arrays', 'axis'),
    'numpy.append': ('arr', 'values', 'axis'), 'numpy.tile': ('A', 'reps'), 'numpy.roll': ('a', 'shift', 'axis'),
    'numpy.cumsum': ('a', 'axis'), 'numpy.sort': ('a', 'axis'), 'numpy.argsort': ('a', 'axis'),
    'numpy.nanmax': ('a', 'axis'), 'numpy.nanmin': ('a', 'axis'), 'numpy.nanmean': ('a', 'axis'),
    'numpy.nanstd': ('a', 'axis', 'dtype', 'out', 'ddof'), 'numpy.std': ('a', 'axis', 'dtype', 'out', 'ddof'),
    'numpy.argmax': ('a', 'axis'), 'numpy.argmin': ('a', 'axis'), 'numpy.array_split': ('ary', 'indices', 'axis'),
    'numpy.split': ('ary', 'indices', 'axis'), 'numpy.transpose': ('a', 'axes'), 'numpy.repeat': ('a', 'repeats',
                                                                                                  'axis'),
    'numpy.clip': ('a', 'a_min', 'a_max', 'out'), 'numpy.where': ('condition', 'x', 'y'),
    'numpy.average': ('a', 'axis', 'weights'), 'numpy.apply_over_axes': ('func', 'a', 'axes'),
    'numpy.apply_along_axis': ('func1d', 'axis', 'arr'),
    'numpy.swapaxes': ('a', 'axis1', 'axis2'), 'numpy.moveaxis': ('a', 'source', 'destination'),
    'logsumexp': ('a', 'axis', 'b'), 'gaussian_filter1d': ('input', 'sigma', 'axis', 'order', 'output', 'mode', 'cval',
                                                           'truncate'),
    'shift': ('input', 'shift', 'output', 'order', 'mode', 'cval', 'prefilter'),
    'fftconvolve': ('in1', 'in2', 'mode'), 'convolve2d': ('in1', 'in2', 'mode', 'boundary'),
    'factorial': ('n', 'exact'), 'lambdify': ('args', 'expr', 'modules'),
    'numpy.unique': ('ar', 'return_index', 'return_inverse', 'return_counts'),
    'numpy.fft.irfft': ('a', 'n', 'axis'), 'numpy.fft.fft': ('a', 'n', 'axis'), 'numpy.fft.ifft': ('a', 'n', 'axis'),
    'minimize': ('fun', 'x0', 'args', 'method'),
}
DEFAULTS = {'axis': NONE, 'dtype': NONE, 'order': string('C'), 'endpoint': TRUE, 'keepdims': FALSE, 'out': NONE,
            'ddof': ZERO, 'copy': TRUE, 'weights': NONE, 'b': NONE, 'prefilter': TRUE, 'cval': ZERO,
            'return_index': FALSE, 'return_inverse': FALSE, 'return_counts': FALSE, 'num': num(50), 'axes': NONE,
            'output': NONE, 'truncate': num(4), 'exact': FALSE, 'reps': None, 'n': None, 'args': None}
SPECIAL_DEFAULTS = {('gaussian_filter1d', 'order'): ZERO, ('gaussian_filter1d', 'axis'): num(-1),
                    ('gaussian_filter1d', 'mode'): string('reflect'), ('shift', 'order'): num(3),
                    ('shift', 'mode'): string('constant'), ('fftconvolve', 'mode'): string('full'),
                    ('convolve2d', 'mode'): string('full'), ('numpy.diff', 'n'): ONE, ('numpy.diff', 'axis'): num(-1),
                    ('numpy.sort', 'axis'): num(-1), ('numpy.argsort', 'axis'): num(-1),
                    ('numpy.stack', 'axis'): ZERO, ('numpy.concatenate', 'axis'): ZERO,
                    ('numpy.fft.irfft', 'axis'): num(-1), ('numpy.fft.irfft', 'n'): NONE,
                    ('numpy.array_split', 'axis'): ZERO, ('numpy.expand_dims', 'axis'): None,
                    ('numpy.array', 'copy'): TRUE, ('lambdify', 'modules'): NONE, ('numpy.diff', 'axis '): NONE,
                    ('convolve2d', 'boundary'): string('fill'), ('minimize', 'args'): seq()}
OUTPUT = ('matplotlib', 'tqdm', 'warnings', 'logging', 'sys.stdout', 'sys.stderr')
EXCEPTIONS = {'ValueError', 'TypeError', 'KeyError', 'IndexError', 'AttributeError', 'Exception', 'ImportError',
              'NotImplementedError', 'RuntimeError', 'AssertionError', 'ZeroDivisionError', 'StopIteration',
              'BaseException', 'LookupError', 'ArithmeticError', 'KeyboardInterrupt', 'UserWarning',
              'DeprecationWarning', 'Warning', 'RuntimeWarning', 'FloatingPointError', 'OverflowError', 'NameError'}


def canon(name):
    seen = 0
    while name in ALIAS and seen < 4:
        n2 = ALIAS[name]
        if n2 == name:
            break
        name = n2
        seen += 1
    return name


def libattr(I, dotted):
    if dotted in CONST:
        return CONST[dotted]
    if dotted in pparse.CONSTS:
        return string(pparse.CONSTS[dotted])
    last = dotted.split('.')[-1]
    if dotted.startswith('builtins.') and last in ('True', 'False', 'None'):
        return I.const({'True': True, 'False': False, 'None': None}[last])
    return mk('lib', canon(dotted))


def clsname(t):
    if t.op == 'cls':
        return t.args[0]
    if t.op == 'lib':
        return t.args[0].split('.')[-1]
    if t.op == 'typeof':
        return 'typeof'
    return T.show(t)


# ---------------------------------------------------------------------------------------------------- value attributes
def valueattr(I, v, name):
    if v.op == 'inst' and name in ('T', 'shape', 'ndim', 'size', 'dtype', 'flat') and ndsub.array(I, v) is not None:
        return valueattr(I, ndsub.array(I, v), name)
    if v.op in ('inst', 'fun', 'bm', 'clo'):
        if name == '__name__':
            return mk('nameof', mk('fnref'))
        if name == '__doc__':
            return mk('fmt', 'doc')
        return None
    if name == 'T':
        if v.op in ('loc', 'view') and T.isscalar(I.rd(v)) is False:
            return mk('view', v, 'T')
        return T.transpose(I.rd(v))
    if name == 'shape':
        return shape(I.rd(v))
    if name == 'ndim':
        return T.tlen(shape(I.rd(v)))
    if name == 'size' and I.kind(v) != 'scalar':
        return size(I.rd(v))
    if name == 'dtype':
        return mk('dtype', I.rd(v))
    if name in ('flat',):
        return mk('call', 'numpy.ravel', I.rd(v))
    if name == '__name__':
        return mk('nameof', I.rd(v))
    if name in ('append', 'extend', 'copy', 'sum', 'index', 'remove', 'pop', 'keys', 'values', 'items', 'tolist',
                'reshape', 'format', 'split', 'join') and v.op in ('loc', 'view', 'str'):
        return mk('vm', v, name)
    c = I.rd(v) if v.op in ('loc', 'view') else v
    if c.op == 'dict' and name == 'args':
        return None
    return None


def ifloordiv(a, b):
    from .interp import floordiv
    return floordiv(a, b)


def shape(x):
    if x.op in ('zeros', 'ones', 'empty'):
        return x.args[0]
    if x.op == 'ite':
        return ite(x.args[0], shape(x.args[1]), shape(x.args[2]))
    if x.op in ('map', 'seq') and (x.op == 'map' or x.args):
        e = T.idx(x, ZERO)
        if T.isscalar(e):
            return seq(T.tlen(x))
        if x.op == 'seq' and len(x.args) <= 8:
            # equal known shapes of all elements
            r = [shape(y) for y in x.args]
            if r[0].op == 'seq' and all(y is r[0] for y in r):
                return seq(T.tlen(x), *r[0].args)
    if x.op in ('mono', 'add'):
        r = {shape(y) for y in T.kids(x) if not T.isscalar(y)}
        if len(r) == 1 and list(r)[0].op == 'seq':
            return list(r)[0]
    return mk('shape', x)


def size(x):
    if x.op in ('map', 'seq') and (x.op == 'map' or x.args) and T.isscalar(T.idx(x, ZERO)):
        return T.tlen(x)
    return mk('size', x)


T._ctor['shape'] = shape


def getitem(I, c, ic):
    return T.idx(c, ic)


# ---------------------------------------------------------------------------------------------------- binding
def bindargs(name, args, kwargs):
    """dictionary of canonical arguments, defaults dropped; None if not bindable"""
    sig = SIG.get(name)
    if sig is None or any(a.op == 'star' for a in args) or '**' in kwargs or len(args) > len(sig):
        return None
    d = {}
    for n, a in zip(sig, args):
        d[n] = a
    for k, v in kwargs.items():
        d[k] = v
    for k in list(d):
        dv = SPECIAL_DEFAULTS.get((name, k), DEFAULTS.get(k))
        if k != sig[0] and dv is not None and d[k] is dv:
            del d[k]
    return d


def generic(I, name, args, kwargs):
    """uninterpreted library function"""
    d = bindargs(name, args, kwargs)
    if d is not None:
        sig = SIG[name]
        pos = []
        rest = dict(d)
        for n in sig:
            if n in rest and len(pos) == sig.index(n):
                pos.append(rest.pop(n))
            else:
                break
        ts = [I.reify(a) for a in pos] + [mk('kw', k, I.reify(v)) for k, v in sorted(rest.items())]
    else:
        ts = [I.reify(a) for a in args] + [mk('kw', k, I.reify(v)) for k, v in sorted(kwargs.items())]
    return mk('call', name, *ts)


FUN = {}


def fn(*names):
    def deco(f):
        for n in names:
            FUN[n] = f
        return f
    return deco


def call(I, name, args, kwargs, node):
    name = canon(name)
    I.curname = name
    if name not in ndsub.PLAIN and (any(a.op in ('inst', 'loc', 'idx') for a in args) or kwargs):
        ps = [ndsub.plain(I, a) for a in args]
        kws = {k: ndsub.plain(I, a) for k, a in kwargs.items()}
        if any(p is not a for p, a in zip(ps, args)) or any(kws[k] is not kwargs[k] for k in kws):
            r = call(I, name, ps, kws, node)
            if name in ndsub.ELEMENTWISE and 'out' not in kwargs:
                return ndsub.wrap(I, r, args)
            return r
    last = name.split('.')[-1]
    if name.startswith('pyparsing.') and last in pparse.MAKE:
        return mk('pp', pparse.MAKE[last], *[I.rd(a) for a in args if I.rd(a).op != 'bool'])
    if any(name.startswith(p) for p in OUTPUT):
        return output(I, name, args, kwargs)
    if last in EXCEPTIONS and name.startswith('builtins.'):
        return mk('exc', last, False)
    f = FUN.get(name)
    if f is not None:
        r = f(I, args, kwargs, node)
        if r is not None:
            return r
    if name in EFFECT:
        I.event('effect', name)
    I.libcalls[name] = I.libcalls.get(name, 0) + 1
    # an uninterpreted function: a view may be returned by shape functions
    t = generic(I, name, args, kwargs)
    if any(h for fr in I.frames for h in fr.trys):
        I.maybe_raise(mk('exc?', t), 'Exception?')
    if last in ALIASING and args and args[0].op in ('loc', 'view'):
        return I.alloc(t, 'ndarray', alias=[args[0]])
    return I.alloc(t, 'ndarray' if name.startswith('numpy.') or name in ('gaussian_filter1d', 'shift', 'fftconvolve',
                                                                         'convolve2d') else 'unknown')


ALIASING = {'squeeze', 'ravel', 'reshape', 'transpose', 'swapaxes', 'moveaxis', 'expand_dims', 'atleast_1d',
            'atleast_2d', 'broadcast_to', 'apply_over_axes', 'asarray', 'array_split', 'split', 'diagonal',
            'nditer', 'meshgrid_'}
EFFECT = {'open', 'builtins.open', 'builtins.input', 'os.environ', 'os.getenv', 'time.time'}


def output(I, name, args, kwargs):
    last = name.split('.')[-1]
    if name.startswith('tqdm'):
        d = kwargs.get('disable')
        I.event('progress', last, (truth(I.rdc(d)),) if d is not None and d is not NONE else ())
        if args:
            return mk('itv', args[0])
        return NONE
    if name.startswith('warnings'):
        I.event('warn', last)
        return NONE
    I.event('plot', last, drawn(I, args, kwargs))
    return mk('call', name, *([I.reify(a) for a in args if a.op not in ('clo',)][:0]))


DRAWING = {'add_subplot', 'bar3d', 'set_xlabel', 'set_ylabel', 'set_zlabel', 'set_title', 'imshow', 'fill_between',
           'set_xticks', 'set_yticks', 'set_xlim', 'set_ylim'}


def drawn(I, args, kwargs):
    """contents of the arguments of an output call"""
    return tuple(I.reify(a) for a in args) + tuple(
        mk('seq', string(k), I.reify(v)) if k != '**' else I.reify(v) for k, v in sorted(kwargs.items()))


# ---------------------------------------------------------------------------------------------------- builtins
@fn('builtins.print')
def _print(I, a, k, n):
    I.event('print', a[0].args[0] if a and a[0].op == 'str' else 'text', drawn(I, a, {}))
    return NONE


@fn('builtins.len')
def _len(I, a, k, n):
    return T.tlen(I.rdc(a[0]))


@fn('builtins.slice')
def _slice(I, a, k, n):
    v = [I.rd(x) for x in a]
    if not 1 <= len(v) <= 3 or k:
        return None
    v = [NONE, v[0], NONE] if len(v) == 1 else v + [NONE] * (3 - len(v))
    return mk('slice_', *v)


@fn('builtins.range')
def _range(I, a, k, n):
    a = [I.rdc(x) for x in a]
    if len(a) == 1:
        r = T.trange(ZERO, a[0])
    elif len(a) == 2:
        r = T.trange(a[0], a[1])
    else:
        r = T.trange(*a)
    return I.alloc(r, 'list')


@fn('numpy.arange')
def _arange(I, a, k, n):
    a = [I.rdc(x) for x in a]
    k = {x: I.rdc(y) for x, y in k.items() if x != 'dtype'}
    if not a and 'stop' in k:
        a = [k.pop('start', ZERO), k.pop('stop')] + ([k.pop('step')] if 'step' in k else [])
    if len(a) == 1:
        r = T.trange(ZERO, a[0])
    elif len(a) == 2 and not k:
        r = T.trange(a[0], a[1])
    elif len(a) == 3 and T.isnum(a[2]) and a[2].args[0] in (1, -1):
        r = T.trange(*a)
    else:
        return None
    return I.alloc(r, 'ndarray')


@fn('builtins.enumerate')
def _enumerate(I, a, k, n):
    off = a[1] if len(a) > 1 else k.get('start', ZERO)
    return mk('enumv', a[0], I.rd(off))


@fn('builtins.zip')
def _zip(I, a, k, n):
    if len(a) == 1 and a[0].op == 'star':
        c = a[0].args[0]
        return mk('call', 'zipstar', c)
    return mk('zipv', *a)


@fn('builtins.iter')
def _iter(I, a, k, n):
    return mk('itv', a[0])


@fn('builtins.reversed')
def _reversed(I, a, k, n):
    return I.alloc(T.rev(I.seqcontent(a[0])), 'list')


@fn('builtins.list', 'builtins.tuple')
def _list(I, a, k, n):
    if not a:
        return I.alloc(seq(), 'list')
    r = I.shallow(a[0])
    if r is not None:
        return r
    c = I.seqcontent(a[0])
    if c.op == 'setof':
        c = mk('setorder', c.args[0])
    return I.alloc(c, 'list', ealias=[a[0]])


@fn('builtins.dict')
def _dict(I, a, k, n):
    items = []
    for x, v in k.items():
        if x == '**':
            return None
        items += [string(x), v]
    d = mk('dict', *items)
    if a:
        c = I.rdc(a[0]) if a[0].op not in ('zipv', 'enumv', 'itv') else I.seqcontent(a[0])
        if c.op in ('dict', 'dictdel', 'dictset', 'dictupd', 'dictmap'):
            return I.alloc(c if not items else mk('dictupd', c, d), 'dict')
        v = T.fresh()
        e = idx(c, v)
        r = T.dictmap(T.tlen(c), v, idx(e, ZERO), idx(e, ONE))
        if c.op == 'seq' and all(x.op == 'seq' and len(x.args) == 2 for x in c.args):
            r = mk('dict', *[y for x in c.args for y in x.args])
        return I.alloc(r, 'dict')
    return I.alloc(d, 'dict')


@fn('builtins.set', 'builtins.frozenset')
def _set(I, a, k, n):
    if not a:
        return mk('setof', seq())
    return mk('setof', I.seqcontent(a[0]))


@fn('builtins.str')
def _str(I, a, k, n):
    if not a:
        return string('')
    v = a[0]
    o = I.objterm(v)
    if o.op == 'str':
        return o
    if o.op == 'num':
        return mk('call', 'str', o)
    c = o.args[1] if o.op == 'inst' else I.objcls.get(o)
    if c is not None:
        f = I.prog.method(c, '__str__')
        if f is not None:
            return I.call_func(f, [o], {})
    return mk('strof', I.rdc(v))


@fn('builtins.int')
def _int(I, a, k, n):
    c = I.rdc(a[0]) if a else ZERO
    if T.isnum(c):
        return num(int(c.args[0]))
    return mk('int', c)


@fn('builtins.float')
def _float(I, a, k, n):
    c = I.rdc(a[0]) if a else ZERO
    if c.op == 'str':
        try:
            return num(float(c.args[0]))
        except ValueError:
            pass
    if T.isscalar(c):
        return c
    return mk('float', c)


@fn('builtins.bool')
def _bool(I, a, k, n):
    return I.cond(a[0]) if a else FALSE


@fn('builtins.abs', 'numpy.abs')
def _abs(I, a, k, n):
    return T.tabs(I.rdc(a[0]))


@fn('builtins.round')
def _round(I, a, k, n):
    return None


@fn('builtins.sum')
def _bsum(I, a, k, n):
    c = I.seqcontent(a[0])
    r = sumaxis(c, ZERO)
    if len(a) > 1:
        st = I.rdc(a[1])
        if st.op == 'seq' and not st.args:
            return I.alloc(T.cat(c), 'list')
        r = T.add(st, r)
    return r


@fn('builtins.max', 'builtins.min')
def _bmax(I, a, k, n):
    f = T.maximum if 'max' in I.curname else T.minimum
    if k:
        return None
    if len(a) == 1:
        c = I.seqcontent(a[0])
        if c.op == 'seq' and c.args:
            r = c.args[0]
            for x in c.args[1:]:
                r = f(r, x)
            return r
        return T.amax(c) if f is T.maximum else T.neg(T.amax(T.neg(c)))
    r = I.rdc(a[0])
    for x in a[1:]:
        r = f(r, I.rdc(x))
    return r


def _axis(I, a, k, pos=1):
    ax = a[pos] if len(a) > pos else k.get('axis', NONE)
    return I.rdc(ax)


def _extra(a, k, names=('axis',), npos=2):
    return len(a) > npos or any(x not in names and not (x == 'dtype') for x in k)


def sumaxis(c, ax):
    if ax is NONE:
        return T.tsum(c)
    if ax is ZERO and (c.op == 'map' and T.isscalar(c.args[2]) or c.op == 'seq' and all(T.isscalar(x) for x in c.args)):
        return T.tsum(c)
    if ax.op == 'seq' and len(ax.args) == 1:
        ax = ax.args[0]
    return T.tsumax(c, ax)


@fn('numpy.sum')
def _npsum(I, a, k, n):
    if _extra(a, k):
        return None
    c = I.seqcontent(a[0] if a else k['a'])
    return I.res(sumaxis(c, _axis(I, a, k)))


@fn('numpy.mean')
def _mean(I, a, k, n):
    if _extra(a, k):
        return None
    c = I.seqcontent(a[0])
    ax = _axis(I, a, k)
    if ax is NONE:
        return T.div(T.tsum(c), size(c))
    return I.res(T.div(sumaxis(c, ax), idx(shape(c), ax) if ax is not ZERO else T.tlen(c)))


@fn('numpy.prod')
def _prod(I, a, k, n):
    if _extra(a, k):
        return None
    c = I.seqcontent(a[0])
    ax = _axis(I, a, k)
    if ax is NONE or (ax is ZERO and c.op in ('map', 'seq') and all(T.isscalar(x) for x in
                                                                  ([c.args[2]] if c.op == 'map' else c.args))):
        if c.op == 'seq':
            r = ONE
            if all(T.isscalar(x) for x in c.args):
                for x in c.args:
                    r = T.mul(r, x)
                return r
        return T.tprod(c)
    return I.res(mk('prodax', c, ax))


@fn('numpy.amax', 'numpy.amin')
def _amax(I, a, k, n):
    if _extra(a, k) or _axis(I, a, k) is not NONE:
        return None
    c = I.seqcontent(a[0])
    return T.amax(c) if I.curname == 'numpy.amax' else T.neg(T.amax(T.neg(c)))


@fn('numpy.any', 'builtins.any')
def _any(I, a, k, n):
    if _axis(I, a, k) is not NONE or _extra(a, k):
        return None
    return T.tany(truthmap(I.seqcontent(a[0])))


@fn('numpy.all', 'builtins.all')
def _all(I, a, k, n):
    if _axis(I, a, k) is not NONE or _extra(a, k):
        return None
    c = I.seqcontent(a[0])
    if c.op == 'eq' and c.args[0].op == 'shape' and c.args[1].op == 'shape':
        return c
    return T.tall(truthmap(c))


def truthmap(c):
    return c


@fn('builtins.sorted')
def _sorted(I, a, k, n):
    c = I.seqcontent(a[0])
    ks = [mk('kw', x, I.reify(y)) for x, y in sorted(k.items())]
    if c.op == 'setof':
        return I.alloc(mk('call', 'sorted', mk('call', 'unique', c.args[0]), *ks), 'list')
    return I.alloc(mk('call', 'sorted', c, *ks), 'list')


@fn('builtins.map')
def _map(I, a, k, n):
    its = [I.iteration(x) for x in a[1:]]
    nn = T.minlen(*[x[0] for x in its])
    v = T.fresh()
    I.loopdepth += 1
    try:
        r = I.rd(I.call(a[0], [I.box(x[1](v)) for x in its], {}, n))
    finally:
        I.loopdepth -= 1
    return I.alloc(T.tmap(nn, v, r), 'list')


@fn('builtins.filter')
def _filter(I, a, k, n):
    nn, e = I.iteration(a[1])
    v = T.fresh()
    x = I.box(e(v))
    c = truth(I.rd(I.call(a[0], [x], {}, n)))
    return I.alloc(T.filtermap(nn, v, c, I.rd(x)), 'list')


@fn('builtins.next')
def _next(I, a, k, n):
    c = I.seqcontent(a[0])
    d = a[1] if len(a) > 1 else None
    if c.op == 'filtermap':
        nn, b, cnd, val = c.args
        v = T.fresh()
        cv = T.subst_bv(cnd, b, v)
        f = T.first(nn, v, cv)
        found = T.any_(nn, v, cv)
        w = T.fresh()
        r = T.subst(T.subst_bv(val, b, w), {w: f})
        if d is None:
            I.maybe_raise(bnot(found), 'StopIteration')
            return r
        return ite(found, r, d)
    r = idx(c, ZERO)
    return r if d is None else ite(T.nonempty(c), r, d)


@fn('numpy.unique')
def _unique(I, a, k, n):
    if len(a) == 1 and not k:
        c = I.rdc(a[0])
        if c.op == 'seq' and all(x.op == 'str' for x in c.args):
            u = sorted({x.args[0] for x in c.args})
            return I.alloc(seq(*[T.string(x) for x in u]), 'ndarray')
    return None


@fn('builtins.isinstance')
def _isinstance(I, a, k, n):
    v, cl = a
    cs = list(I.rd(cl).args) if I.rd(cl).op == 'seq' else [cl]
    r = FALSE
    for c in cs:
        r = bor(r, isinst(I, v, clsname(c)))
    return r


NUMERICK = {'int', 'float', 'Number', 'Real', 'Integral', 'number', 'complex'}


def isinst(I, v, c):
    o = I.objterm(v)
    if o.op == 'ite':
        return ite(o.args[0], isinst(I, o.args[1], c), isinst(I, o.args[2], c))
    k = o.args[1] if o.op == 'inst' else I.objcls.get(o)
    if k is not None:
        if c in I.prog.classes:
            return T.boolean(c in [x for x in I.prog.mro(k)])
        if c in ('object',):
            return TRUE
        if k in ('Parameter', 'HyperParameter') and c in ('ndarray', 'Iterable'):
            return TRUE
        return FALSE
    if c == 'object':
        return TRUE
    if o.op == 'none':
        return T.boolean(c == 'NoneType')
    if o.op in ('str', 'strof', 'strcat', 'fmt'):
        return T.boolean(c in ('str', 'basestring', 'Iterable'))
    if T.isbool(o) and o.op == 'bool':
        return T.boolean(c in ('bool', 'int'))
    if o.op == 'num':
        return T.boolean(c in ('float',) or c in NUMERICK)
    if o.op == 'ssym' and c in ('list', 'tuple', 'str', 'ndarray', 'Iterable', 'dict', 'Sequence'):
        return FALSE
    if o.op in ('dict', 'dictdel', 'dictset', 'dictupd'):
        return T.boolean(c in ('dict', 'Iterable', 'OrderedDict', 'Mapping'))
    kind = I.kind(v)
    init = o.op in ('attr', 'sym', 'idx', 'apply', 'missing')
    if not init:
        if kind == 'ndarray':
            return T.boolean(c in ('ndarray', 'Iterable'))
        if kind == 'list':
            return T.boolean(c in ('list', 'tuple', 'Iterable', 'Sequence'))
        if o.op in ('seq', 'concat', 'map', 'filtermap'):
            return T.boolean(c in ('list', 'tuple', 'Iterable', 'Sequence', 'ndarray'))
    if o.op in ('floor', 'add', 'mono', 'exp', 'log', 'mod', 'sumax', 'amax') and c in ('str', 'basestring', 'dict'):
        return FALSE
    if c in ('tuple', 'Sequence'):
        c = 'list'
    return mk('isinst', o, c)


@fn('builtins.hasattr')
def _hasattr(I, a, k, n):
    name = I.rd(a[1])
    o = I.objterm(a[0])
    if name.op != 'str':
        return None
    nm = name.args[0]
    if a[0].op == 'lib' and a[0].args[0] in DIR and nm in ' '.join(DIR.values()).split():
        return T.boolean(nm in DIR[a[0].args[0]].split())
    if o.op != 'inst' and I.kind(a[0]) == 'ndarray' and nm in ('prob', 'name', 'time', 'study'):
        return FALSE
    if nm == '__call__':
        return iscallable(I, o)
    if nm in ('__iter__', '__len__', '__getitem__'):
        return isinst(I, a[0], 'Iterable')
    c = o.args[1] if o.op == 'inst' else I.objcls.get(o)
    if (o, nm) in I.st.attrs:
        return TRUE
    if c is not None and I.prog.method(c, nm) is not None:
        return TRUE
    if o.op == 'inst':
        return FALSE
    if c is not None:
        return T.boolean(nm in I.prog.fields(c))
    return mk('hasattr', o, nm)


def iscallable(I, o):
    if o.op == 'num':
        return FALSE
    if o.op in ('fun', 'bm', 'clo', 'lib', 'cls', 'partial'):
        return TRUE
    if o.op in ('none', 'str', 'num', 'bool', 'seq', 'map', 'dict'):
        return FALSE
    if o.op == 'ite':
        return ite(o.args[0], iscallable(I, o.args[1]), iscallable(I, o.args[2]))
    return mk('callable', o)


@fn('builtins.callable')
def _callable(I, a, k, n):
    return iscallable(I, I.objterm(a[0]))


@fn('builtins.getattr')
def _getattr(I, a, k, n):
    nm = I.rd(a[1])
    if nm.op != 'str':
        return mk('call', 'getattr', *[I.reify(x) for x in a])
    if len(a) == 3:
        h = _hasattr(I, a[:2], {}, n)
        h = I.assume(h)
        if h is FALSE:
            return a[2]
        return ite(h, I.getattr(a[0], nm.args[0]), a[2])
    return I.getattr(a[0], nm.args[0])


@fn('builtins.setattr')
def _setattr(I, a, k, n):
    nm = I.rd(a[1])
    if nm.op != 'str':
        I.note_unknown('setattr with computed name')
        return NONE
    I.setattr(a[0], nm.args[0], I.box(a[2]))
    return NONE


@fn('builtins.type')
def _type(I, a, k, n):
    o = I.objterm(a[0])
    if o.op == 'inst':
        return mk('cls', o.args[1])
    if o in I.objcls:
        return mk('cls', I.objcls[o])
    if o.op == 'str':
        return mk('lib', 'builtins.str')
    if o.op == 'num':
        return mk('lib', 'builtins.float')
    if o.op == 'lib':
        return mk('lib', 'builtins.function')
    c = I.rd(a[0])
    if c.op == 'num':
        return mk('lib', 'builtins.float')
    return mk('typeof', o)


@fn('builtins.super')
def _super(I, a, k, n):
    fr = I.fr
    if not a:
        s = I.st.env.get('self')
        if s is None and fr.func is not None:
            s = I.st.env.get(fr.func.node.args.args[0].arg)
        after = fr.func.cls
    else:
        after = a[0].args[0] if a[0].op == 'cls' else fr.func.cls
        s = a[1]
    o = I.objterm(s)
    c = o.args[1] if o.op == 'inst' else I.objcls.get(o, after)
    return mk('superof', o, c, after)


@fn('builtins.id', 'builtins.hash', 'builtins.globals', 'builtins.locals', 'builtins.vars')
def _id(I, a, k, n):
    I.event('nondet', I.curname)
    return mk('call', I.curname, *[I.reify(x) for x in a])


@fn('copy', 'deepcopy')
def _copy(I, a, k, n):
    o = I.objterm(a[0])
    if o.op == 'inst' or o in I.objcls:
        c = o.args[1] if o.op == 'inst' else I.objcls[o]
        r = mk('inst', I.prog.pkg + str(next(I.nloc)), c)
        I.closures[('copyof', r)] = o
        snap = dict((key[1], v) for key, v in I.st.attrs.items() if key[0] is o)
        for nm, v in snap.items():
            if I.curname == 'deepcopy' and v.op in ('loc', 'view'):
                v = I.alloc(I.rd(v), I.kind(v))
            I.st.attrs[(r, nm)] = v
        if I.curname == 'deepcopy':
            I.closures[('deep', r)] = True
        return r
    if a[0].op in ('loc', 'view', 'seq') or T.hasloc(a[0]):
        v = a[0]
        r = I.shallow(v) if I.curname == 'copy' else None
        if r is not None:
            return r
        if I.curname == 'copy' and v.op == 'loc' and T.hasloc(I.st.heap[v]) and I.loopdepth == 0:
            return I.alloc(I.st.heap[v], I.kind(v))
        kk = I.kind(v)
        return I.alloc(I.rd(v), kk, ealias=[v] if I.curname == 'copy' and kk != 'ndarray' else ())
    return I.rdc(a[0])


POOLS = ('pathos.multiprocessing.ProcessPool', 'pathos.pools.ProcessPool', 'pathos.multiprocessing.ProcessingPool',
         'multiprocessing.Pool', 'multiprocessing.pool.Pool', 'concurrent.futures.ProcessPoolExecutor',
         'pathos.pools.ParallelPool')


@fn(*POOLS)
def _pool(I, a, k, n):
    return mk('pool', I.curname)


def transfer(I, v, memo):
    """copy of everything reachable from v, as received by another process"""
    if v.op == 'loc':
        r = memo.get(v)
        if r is None:
            r = I.alloc(ZERO, I.kind(v))
            memo[v] = r
            I.st.heap[r] = transfer(I, I.st.heap[v], memo)
        return r
    if v.op == 'inst':
        r = memo.get(v)
        if r is None:
            r = mk('inst', I.prog.pkg + str(next(I.nloc)), v.args[1])
            memo[v] = r
            for (o, nm), x in [y for y in I.st.attrs.items() if y[0][0] is v]:
                I.st.attrs[(r, nm)] = transfer(I, x, memo)
        return r
    refs = [x for x in T.subterms(v) if x.op in ('loc', 'inst')]
    if not refs:
        return v
    return T.subst(v, {x: transfer(I, x, memo) for x in refs})


def poolmap(I, args, kwargs, node):
    """each call works on its own copy of what it is given; results come back in order"""
    f, its = args[0], args[1:]
    if kwargs and set(kwargs) - {'chunksize'} or not its:
        return None
    parts = [I.iteration(x) for x in its]
    n = I.assume(T.minlen(*[p[0] for p in parts]))
    if not (T.isnum(n) and 0 <= n.args[0] <= 6):
        return None
    out = []
    for i in range(int(n.args[0])):
        memo = {}
        g = transfer(I, f, memo)
        a = [transfer(I, I.box(p[1](num(i))), memo) for p in parts]
        out.append(I.call(g, a, {}, node))
    return seq(*out)


@fn('functools.partial')
def _partial(I, a, k, n):
    return mk('partial', *a)


@fn('reduce')
def _reduce(I, a, k, n):
    """left fold"""
    from .loops import fold
    return fold(I, a[0], a[1], a[2] if len(a) > 2 else None, n)


@fn('minimize')
def _minimize(I, a, k, n):
    """the objective is a function of a point with as many entries as the start; it is evaluated at other points
    before the best one is returned"""
    d = bindargs('minimize', a, k)
    if d is None or 'fun' not in d or 'x0' not in d:
        return None
    x0 = I.seqcontent(d['x0'])
    x0 = T.assume(x0, I.st.facts) if I.st.facts else x0
    m = T.tlen(x0)
    if not T.isnum(m):
        raise NotImplementedError('minimize from a start of unknown length')
    m = int(m.args[0])
    start = [T.idx(x0, num(i)) for i in range(m)]
    extra = []
    if 'args' in d:
        c = I.seqcontent(d['args'])
        extra = [I.box(x) for x in c.args] if c.op == 'seq' else [I.box(c)]

    def probe(xs):
        return I.rd(I.call(d['fun'], [I.alloc(seq(*xs), 'ndarray')] + extra, {}, n))
    xs = [T.fresh('mus') for i in range(m)]
    st, nr = I.st.copy(), len(I.fr.raises)
    v = probe(xs)
    del I.fr.raises[nr:]
    I.st = st
    f = T.lam(xs, v)
    opts = [mk('kw', x, I.reify(y)) for x, y in sorted(d.items()) if x not in ('fun', 'x0', 'args', 'method')]
    probe([T.idx(mk('call', 'lastpoint', f, seq(*start), *opts), num(i)) for i in range(m)])
    if I.st is None:
        I.st = st
    best = mk('call', 'bestpoint', f, seq(*start), *opts)
    o = mk('inst', 'OptimizeResult' + str(next(I.nloc)), 'OptimizeResult')
    I.st.attrs[(o, 'x')] = I.alloc(seq(*[T.idx(best, num(i)) for i in range(m)]), 'ndarray')
    I.st.attrs[(o, 'fun')] = mk('apply', f, *[T.idx(best, num(i)) for i in range(m)])
    I.st.attrs[(o, 'success')] = TRUE
    return o


# ---------------------------------------------------------------------------------------------------- numpy
def unary(name, f):
    @fn(name)
    def _(I, a, k, n, f=f):
        if k and not set(k) <= {'dtype'} or len(a) != 1:
            return outarg(I, a, k, f)
        return I.res(f(I.rdc(a[0])))


def binary(name, f):
    @fn(name)
    def _(I, a, k, n, f=f):
        if k or len(a) != 2:
            return outarg(I, a, k, f)
        return I.res(f(I.rdc(a[0]), I.rdc(a[1])))


def outarg(I, a, k, f):
    """ufunc with out=: in-place modification"""
    import inspect
    nin = len(inspect.signature(f).parameters)
    out = k.get('out', a[nin] if len(a) > nin else None)
    if out is None or set(k) - {'out', 'dtype'}:
        return None
    if out.op == 'seq':
        out = out.args[0]
    v = f(*[I.rdc(x) for x in a[:nin]])
    I.write(out, lambda o: v, 'out=')
    return out


unary('numpy.exp', lambda x: T.exp(x))
unary('numpy.log', lambda x: T.log(x))
unary('numpy.log10', lambda x: T.div(T.log(x), T.log(num(10))))
unary('numpy.log2', lambda x: T.div(T.log(x), T.log(num(2))))
unary('numpy.log1p', lambda x: T.log(T.add(ONE, x)))
unary('numpy.expm1', lambda x: T.sub(T.exp(x), ONE))
unary('numpy.sqrt', lambda x: T.sqrt(x))
unary('numpy.square', lambda x: T.mul(x, x))
unary('numpy.negative', lambda x: T.neg(x))
unary('numpy.reciprocal', lambda x: T.div(ONE, x))
unary('numpy.isnan', lambda x: mk('isnan', x))
unary('numpy.isfinite', lambda x: mk('isfinite', x))
unary('numpy.isinf', lambda x: mk('isinf', x))
unary('numpy.logical_not', lambda x: bnot(x))
unary('numpy.shape', shape)
unary('numpy.size', size)
unary('numpy.ndim', lambda x: T.tlen(shape(x)))
binary('numpy.add', T.add)
binary('numpy.subtract', T.sub)
binary('numpy.multiply', T.mul)
binary('numpy.divide', T.div)
binary('numpy.power', T.power)
binary('numpy.floor_divide', lambda a, b: ifloordiv(a, b))
binary('numpy.mod', lambda a, b: mk('mod', a, b))
binary('numpy.maximum', T.maximum)
binary('numpy.minimum', T.minimum)
binary('numpy.logaddexp', lambda a, b: T.log(T.add(T.exp(a), T.exp(b))))
binary('numpy.greater', lambda a, b: T.lt(b, a))
binary('numpy.less', lambda a, b: T.lt(a, b))
binary('numpy.greater_equal', lambda a, b: T.le(b, a))
binary('numpy.less_equal', lambda a, b: T.le(a, b))
binary('numpy.equal', lambda a, b: T.eq(a, b))
binary('numpy.not_equal', lambda a, b: bnot(T.eq(a, b)))
binary('numpy.logical_and', lambda a, b: band(a, b))
binary('numpy.logical_or', lambda a, b: bor(a, b))
binary('numpy.array_equal', lambda a, b: T.tall(T.eq(a, b)) if not (a is b) else TRUE)


@fn('numpy.array', 'numpy.asarray')
def _array(I, a, k, n):
    if not a:
        return None
    v = a[0]
    for x in (list(a[1:]) + list(k.values())):
        pass
    cp = k.get('copy', TRUE)
    c = I.seqcontent(v)
    dt = k.get('dtype', a[1] if len(a) > 1 else None)
    if v.op in ('loc', 'view') and (I.curname == 'numpy.asarray' or I.rd(cp) is FALSE):
        kk = I.kind(v)
        if kk in ('ndarray', 'unknown'):
            if kk == 'ndarray':
                return v
            return I.alloc(c, 'ndarray', alias=[v])
    if c.op == 'dict':
        return None
    return I.alloc(c, 'ndarray')


def shapearg(I, v):
    c = I.rdc(v)
    if c.op in ('seq', 'concat', 'map', 'shape', 'slice', 'attr', 'zeros', 'mono', 'add', 'ite', 'idx'):
        if T.isscalar(c):
            return seq(c)
        return c
    if T.isscalar(c) or c.op in ('num', 'len', 'size'):
        return seq(c)
    return c


@fn('numpy.zeros', 'numpy.ones', 'numpy.empty')
def _zeros(I, a, k, n):
    sh = shapearg(I, a[0] if a else k['shape'])
    op = I.curname.split('.')[-1]
    if op == 'empty':
        return I.alloc(mk('empty', sh, I.prog.pkg), 'ndarray')
    return I.alloc(mk(op, sh), 'ndarray')


@fn('numpy.full')
def _full(I, a, k, n):
    sh = shapearg(I, a[0] if a else k['shape'])
    v = I.rdc(a[1] if len(a) > 1 else k['fill_value'])
    if v is ZERO:
        return I.alloc(mk('zeros', sh), 'ndarray')
    return I.alloc(T.mul(v, mk('ones', sh)), 'ndarray')


@fn('numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like', 'numpy.full_like')
def _like(I, a, k, n):
    sh = shape(I.rdc(a[0]))
    nm = I.curname.split('.')[-1]
    if nm == 'zeros_like':
        return I.alloc(mk('zeros', sh), 'ndarray')
    if nm == 'ones_like':
        return I.alloc(mk('ones', sh), 'ndarray')
    if nm == 'empty_like':
        return I.alloc(mk('empty', sh, I.prog.pkg), 'ndarray')
    v = I.rdc(a[1] if len(a) > 1 else k['fill_value'])
    return I.alloc(T.mul(v, mk('ones', sh)), 'ndarray')


@fn('numpy.where')
def _where(I, a, k, n):
    c = I.rdc(a[0])
    if len(a) == 1:
        return mk('where1', c)
    return I.alloc(T.where(c, I.rdc(a[1]), I.rdc(a[2])), 'ndarray')


@fn('numpy.nonzero', 'numpy.flatnonzero')
def _nonzero(I, a, k, n):
    c = I.rdc(a[0])
    return mk('where1', c) if I.curname == 'numpy.nonzero' else idx(mk('where1', c), ZERO)


@fn('numpy.clip')
def _clip(I, a, k, n):
    lo = a[1] if len(a) > 1 else k.get('a_min', k.get('min', NONE))
    hi = a[2] if len(a) > 2 else k.get('a_max', k.get('max', NONE))
    if 'out' in k:
        out = k['out']
    else:
        out = None
    c = I.rdc(a[0])
    lo, hi = I.rdc(lo), I.rdc(hi)
    if lo is not NONE:
        c = T.maximum(c, lo)
    if hi is not NONE:
        c = T.minimum(c, hi)
    if out is not None:
        I.write(out, lambda o: c, 'out=')
        return out
    return I.alloc(c, 'ndarray')


@fn('numpy.transpose')
def _transpose(I, a, k, n):
    if len(a) == 1 and not k:
        if a[0].op in ('loc', 'view'):
            return mk('view', a[0], 'T')
        return T.transpose(I.rdc(a[0]))
    return None


@fn('numpy.expand_dims')
def _expand(I, a, k, n):
    ax = I.rdc(a[1] if len(a) > 1 else k['axis'])
    key = {0: mk('newaxis'), -1: seq(mk('ellipsis'), mk('newaxis')),
           1: seq(mk('slice_', NONE, NONE, NONE), mk('newaxis'))}.get(int(ax.args[0]) if T.isnum(ax) else None)
    if key is None:
        return None
    return I.elem(a[0], key) if a[0].op in ('loc', 'view') else mk('idx', I.rdc(a[0]), key)


@fn('numpy.concatenate', 'numpy.hstack', 'numpy.append')
def _concat(I, a, k, n):
    if k:
        return None
    if I.curname == 'numpy.append':
        if len(a) != 2:
            return None
        x, y = I.rdc(a[0]), I.rdc(a[1])
        if T.isscalar(y):
            y = seq(y)
        if not oned(x) or not oned(y):
            return I.alloc(mk('call', 'numpy.append', x, y), 'ndarray')
        return I.alloc(concat(x, y), 'ndarray')
    c = I.rdc(a[0])
    if len(a) == 1 and c.op == 'seq' and (I.curname == 'numpy.concatenate' or all(oned(x) for x in c.args)):
        return I.alloc(concat(*[x for x in c.args]), 'ndarray')
    return None


def oned(x):
    if x.op == 'seq':
        return all(T.isscalar(y) or y.op in ('idx', 'attr', 'sym', 'apply') for y in x.args)
    if x.op == 'map':
        return T.isscalar(x.args[2])
    if x.op == 'attr':
        return x.args[1] in T.ONE_D_FIELDS
    return False


@fn('logsumexp')
def _lse(I, a, k, n):
    if set(k) - {'axis'} or len(a) > 2:
        return None
    return I.res(T.logsumexp(I.seqcontent(a[0]), _axis(I, a, k)))


@fn('numpy.average')
def _average(I, a, k, n):
    w = k.get('weights', a[2] if len(a) > 2 else None)
    ax = _axis(I, a, k)
    c = I.seqcontent(a[0])
    if w is None:
        return _mean(I, a, {x: y for x, y in k.items() if x == 'axis'}, n)
    if ax is not NONE:
        return None
    wc = I.rdc(w)
    return T.div(T.tsum(T.mul(c, wc)), T.tsum(wc))


@fn('numpy.dot', 'numpy.inner', 'numpy.vdot')
def _dot(I, a, k, n):
    x, y = I.rdc(a[0]), I.rdc(a[1])
    if oned(x) and oned(y):
        return T.tsum(T.mul(x, y))
    return None


@fn('numpy.apply_over_axes')
def _aoa(I, a, k, n):
    f = a[0]
    if f.op == 'lib' and f.args[0] in ('numpy.sum', 'builtins.sum'):
        return I.alloc(mk('sumkeep', I.rdc(a[1]), I.rdc(a[2])), 'ndarray', alias=[a[1]])
    return None


@fn('numpy.squeeze')
def _squeeze(I, a, k, n):
    if len(a) > 1 or k:
        return None
    c = I.rdc(a[0])
    if T.isscalar(c):
        return c
    return I.alloc(mk('squeeze', c), 'ndarray', alias=[a[0]])


@fn('numpy.iterable')
def _iterable(I, a, k, n):
    return isinst(I, a[0], 'Iterable')


@fn('numpy.copyto')
def _copyto(I, a, k, n):
    v = I.rdc(a[1])
    w = k.get('where')
    wc = I.rdc(w) if w is not None else None
    I.write(a[0], lambda o: v if wc is None else T.where(wc, v, o), 'copyto')
    return NONE


@fn('numpy.putmask', 'numpy.place')
def _putmask(I, a, k, n):
    v, m = I.rdc(a[2]), I.rdc(a[1])
    I.write(a[0], lambda o: T.where(m, v, o), 'putmask')
    return NONE


@fn('numpy.random.shuffle')
def _shuffle(I, a, k, n):
    I.event('nondet', I.curname)
    I.write(a[0], lambda o: mk('call', 'shuffle', o), 'shuffle')
    return NONE


# ---------------------------------------------------------------------------------------------------- methods
def method(I, recv, name, args, kwargs, node):
    if recv.op in ('itv', 'enumv', 'zipv'):
        if name in ('close', 'update', 'set_description', 'refresh'):
            return NONE
    o = I.objterm(recv)
    if o.op in ('loc', 'view') and I.rd(o).op == 'pp':
        o = I.rd(o)
    if o.op == 'pool':
        if name in ('map', 'imap', 'uimap'):
            if name == 'uimap':
                I.event('nondet', 'order of ' + name)
            return poolmap(I, args, kwargs, node) or generic(I, o.args[0] + '.' + name, args, kwargs)
        return o if name == '__enter__' else NONE
    if o.op == 'call' and isinstance(o.args[0], str) and any(o.args[0].startswith(p) for p in OUTPUT):
        I.event('plot', name, drawn(I, args, kwargs))
        return mk('call', o.args[0] + '.' + name)
    if name in DRAWING:
        I.event('plot', name, drawn(I, args, kwargs))
        return mk('call', 'matplotlib.' + name)
    if o.op == 'none':
        return None
    if name == 'close' and not args:
        return NONE
    if o.op in ('str', 'strof', 'strcat', 'fmt', 'substr') or o.op == 'call' and o.args[0] in (
            'str.format', 'str', 'str.split', 'str.join', 'str.lower', 'str.strip', 'str.replace') or \
            name in ('format', 'startswith', 'endswith', 'lower', 'upper', 'strip', 'splitlines', 'split', 'join',
                     'replace'):
        return strmethod(I, o, name, args, kwargs)
    arr = ndsub.array(I, recv)
    if arr is not None:
        if name == 'copy':
            return ndsub.new(I, o.args[1], I.alloc(I.rdc(arr), 'ndarray'), o)
        if name == 'view' and not args:
            return ndsub.new(I, o.args[1], arr, o)
        return method(I, arr, name, args, kwargs, node)
    if name == 'view' and len(args) == 1 and args[0].op == 'cls' and ndsub.isarrayclass(I, args[0].args[0]):
        v = recv if recv.op in ('loc', 'view') else I.alloc(I.rdc(recv), 'ndarray')
        return ndsub.new(I, args[0].args[0], v, I.alloc(I.rdc(recv), 'ndarray'))
    if o.op == 'pp' and name in ('parseString', 'parse_string'):
        return parsed(I, o, args, kwargs)
    if name in ('asList', 'as_list', 'tolist') and I.kind(recv) == 'list':
        return recv
    m = METHODS.get(name)
    if m is None:
        if name in NPMETHODS:
            return call(I, 'numpy.' + NPMETHODS[name], [recv] + list(args), kwargs, node)
        return None
    if o.op == 'inst' or o in I.objcls:
        return None
    I.curname = name
    return m(I, recv, args, kwargs)


NPMETHODS = {'sum': 'sum', 'prod': 'prod', 'max': 'amax', 'min': 'amin', 'mean': 'mean', 'any': 'any', 'all': 'all',
             'ravel': 'ravel', 'squeeze': 'squeeze', 'cumsum': 'cumsum', 'argmax': 'argmax', 'argmin': 'argmin',
             'argsort': 'argsort', 'dot': 'dot', 'transpose': 'transpose', 'repeat': 'repeat', 'clip': 'clip',
             'std': 'std', 'swapaxes': 'swapaxes', 'nonzero': 'nonzero', 'round': 'round', 'take': 'take'}


def strmethod(I, o, name, args, kwargs):
    if name == 'format':
        return mk('call', 'str.format', o, *[I.reify(a) for a in args] +
                  [mk('kw', k, I.reify(v)) for k, v in sorted(kwargs.items())])
    ts = [I.reify(a) for a in args]
    if o.op == 'str' and all(t.op == 'str' for t in ts) and name in ('lower', 'upper', 'strip', 'replace',
                                                                      'startswith', 'endswith', 'split'):
        r = getattr(o.args[0], name)(*[t.args[0] for t in ts])
        return I.const(r)
    r = mk('call', 'str.' + name, o, *ts)
    if name in ('split', 'splitlines'):
        return I.alloc(r, 'list')
    return r


def parsed(I, o, args, kwargs):
    q = I.rdc(args[0])
    if q.op != 'str':
        return mk('call', 'pyparsing.parse', o, I.reify(args[0]))
    al = I.rd(args[1] if len(args) > 1 else kwargs.get('parseAll', kwargs.get('parse_all', FALSE)))
    try:
        r = pparse.parse(o, q.args[0], al is TRUE)
    except pparse.NoParse:
        from .interp import Diverge
        I.fr.raises.append((I.st, mk('exc', 'ParseException', False), I.line))
        raise Diverge()
    return pparse.boxed(I, r)


@fn('re.split')
def _resplit(I, a, k, n):
    import re
    p, s = I.rdc(a[0]), I.rdc(a[1])
    if p.op != 'str' or s.op != 'str' or len(a) > 2 or k:
        return None
    return I.alloc(seq(*[NONE if x is None else string(x) for x in re.split(p.args[0], s.args[0])]), 'list')


# documented functions that a query may use (the full listing of the libraries is not needed to tell names apart)
DIR = {'numpy': 'abs arccos arcsin arctan ceil cos cosh cbrt e exp exp2 expm1 fabs floor log log10 log1p log2 maximum mean '
                'median negative pi power sign sin sinh sqrt square std sum tan tanh',
       'scipy.special': 'digamma erf erfc expit gamma gammaln j0 logit'}


@fn('builtins.dir')
def _dir(I, a, k, n):
    if len(a) == 1 and a[0].op == 'lib' and a[0].args[0] in DIR:
        return I.alloc(seq(*[string(x) for x in DIR[a[0].args[0]].split()]), 'list')
    return None


METHODS = {}


def meth(*names):
    def deco(f):
        for n in names:
            METHODS[n] = f
        return f
    return deco


def held(I, v):
    """value as stored in a list: reference kept outside loops"""
    return v if v.op in ('loc', 'view') and I.loopdepth == 0 else I.rd(v)


@meth('append')
def _append(I, r, a, k):
    v = I.box(a[0])
    I.noteheld(r, v)
    h = held(I, v)
    I.write(r, lambda o: concat(o, seq(h)), 'append')
    return NONE


@meth('extend')
def _extend(I, r, a, k):
    c = I.seqcontent(a[0])
    I.write(r, lambda o: concat(o, c), 'extend')
    return NONE


@meth('insert')
def _insert(I, r, a, k):
    i, v = I.rdc(a[0]), held(I, I.box(a[1]))
    I.write(r, lambda o: concat(seq(v), o) if i is ZERO else concat(T.tslice(o, NONE, i, NONE), seq(v),
                                                                    T.tslice(o, i, NONE, NONE)), 'insert')
    return NONE


@meth('remove')
def _remove(I, r, a, k):
    v = I.rdc(a[0])
    I.maybe_raise(bnot(I.member(v, I.rdc(r))), 'ValueError')
    I.write(r, lambda o: removed(o, v), 'remove')
    return NONE


def removed(o, v):
    if o.op == 'seq' and all(T.isconst(x) for x in o.args) and T.isconst(v):
        l = list(o.args)
        if v in l:
            l.remove(v)
            return seq(*l)
    return mk('removed', o, v)


@meth('pop')
def _pop(I, r, a, k):
    from .interp import dictget, dictdel, dictin
    c = I.rdc(r)
    a = [x for x in a]
    isd = I.kind(r) == 'dict' or c.op in ('dict', 'dictdel', 'dictset', 'dictupd') or len(a) == 2 or \
        (a and I.rd(a[0]).op == 'str')
    if isd:
        key = I.rdc(a[0])
        inn = I.assume(dictin(c, key))
        got = dictget(c, key)
        if got is None:
            got = mk('idx', c, key)
        if len(a) == 2:
            res = ite(inn, got, a[1])
        else:
            I.maybe_raise(bnot(inn), 'KeyError')
            res = got
        I.write(r, lambda o: dictdel(o, key), 'pop')
        return res
    if not a:
        res = idx(c, num(-1))
        I.write(r, lambda o: T.tslice(o, NONE, num(-1), NONE), 'pop')
        return res
    i = I.rdc(a[0])
    res = idx(c, i)
    I.write(r, lambda o: T.tslice(o, ONE, NONE, NONE) if i is ZERO else
            (T.tslice(o, NONE, num(-1), NONE) if T.isnum(i) and i.args[0] == -1 else mk('delitem', o, i)), 'pop')
    return res


@meth('clear')
def _clear(I, r, a, k):
    e = mk('dict') if I.kind(r) == 'dict' else seq()
    I.write(r, lambda o: e, 'clear')
    return NONE


@meth('index')
def _index(I, r, a, k):
    c, v = I.rdc(r), I.rdc(a[0])
    I.maybe_raise(bnot(I.member(v, c)), 'ValueError')
    return T.index_of(c, v)


@meth('count')
def _count(I, r, a, k):
    c, v = I.rdc(r), I.rdc(a[0])
    w = T.fresh()
    return T.tsum(T.tmap(T.tlen(c), w, ite(T.eq(idx(c, w), v), ONE, ZERO)))


@meth('sort')
def _sort(I, r, a, k):
    ks = [mk('kw', x, I.reify(y)) for x, y in sorted(k.items())]
    I.write(r, lambda o: mk('call', 'sorted', o, *ks), 'sort')
    return NONE


@meth('reverse')
def _reverse(I, r, a, k):
    I.write(r, lambda o: T.rev(o), 'reverse')
    return NONE


@meth('fill')
def _fill(I, r, a, k):
    v = I.rdc(a[0])
    I.write(r, lambda o: mk('zeros', shape(o)) if v is ZERO else T.mul(v, mk('ones', shape(o))), 'fill')
    return NONE


@meth('copy')
def _mcopy(I, r, a, k):
    kk = I.kind(r)
    if kk == 'list' and r.op == 'loc' and I.loopdepth == 0:
        return I.shallow(r) or I.alloc(I.st.heap[r], kk)
    c = I.rdc(r)
    if T.isscalar(c):
        return c
    return I.alloc(c, kk)


@meth('astype')
def _astype(I, r, a, k):
    c = I.rdc(r)
    t = I.rd(a[0]) if a else NONE
    if t.op == 'lib' and t.args[0] in ('builtins.int',):
        return I.alloc(mk('int', c), 'ndarray')
    if t.op == 'lib' and t.args[0] in ('builtins.bool',):
        return I.alloc(truth(c) if T.isbool(c) else bnot(T.eq(c, ZERO)), 'ndarray')
    return I.alloc(c, 'ndarray')


@meth('tolist')
def _tolist(I, r, a, k):
    return I.alloc(I.rdc(r), 'list')


@meth('flatten')
def _flatten(I, r, a, k):
    if a or k:
        return None
    return I.alloc(mk('call', 'numpy.ravel', I.rdc(r)), 'ndarray')


@meth('item')
def _item(I, r, a, k):
    c = I.rdc(r)
    return c if not a else idx(c, I.rdc(a[0]))


@meth('reshape')
def _reshape(I, r, a, k):
    if len(a) > 1:
        sh = seq(*[I.rdc(x) for x in a])
    else:
        sh = I.rdc(a[0])
        if T.isscalar(sh):
            sh = seq(sh)
    order = I.rd(k['order']) if 'order' in k else string('C')
    c = I.rdc(r)
    t = mk('reshape', c, sh) if order is string('C') else mk('call', 'numpy.reshape', c, sh, mk('kw', 'order', order))
    return I.alloc(t, 'ndarray', alias=[r])


@fn('numpy.reshape')
def _npreshape(I, a, k, n):
    if len(a) < 2:
        return None
    if len(a) > 2:
        k = dict(k, order=a[2])
    return _reshape(I, a[0], [a[1]], k)


@meth('keys')
def _keys(I, r, a, k):
    from .interp import keys_of
    c = I.rdc(r)
    return I.alloc(keys_of(c), 'list')


@meth('values')
def _values(I, r, a, k):
    c = I.rdc(r)
    if c.op == 'dict':
        return I.alloc(seq(*c.args[1::2]), 'list')
    return I.alloc(mk('values', c), 'list')


@meth('items')
def _items(I, r, a, k):
    c = I.rdc(r)
    if c.op == 'dict':
        return I.alloc(seq(*[seq(x, y) for x, y in zip(c.args[::2], c.args[1::2])]), 'list')
    return I.alloc(mk('items', c), 'list')


@meth('get')
def _get(I, r, a, k):
    from .interp import dictget, dictin
    c, key = I.rdc(r), I.rdc(a[0])
    d = a[1] if len(a) > 1 else NONE
    got = dictget(c, key)
    if got is None:
        got = mk('idx', c, key)
    return ite(I.assume(dictin(c, key)), got, d)


@meth('setdefault')
def _setdefault(I, r, a, k):
    from .interp import dictget, dictin, dictset
    c, key = I.rdc(r), I.rdc(a[0])
    d = a[1] if len(a) > 1 else NONE
    got = dictget(c, key)
    if got is None:
        got = mk('idx', c, key)
    inn = I.assume(dictin(c, key))
    res = ite(inn, got, I.rd(d))
    I.write(r, lambda o: ite(inn, o, dictset(o, key, I.rd(d))), 'setdefault')
    return res


@meth('update')
def _update(I, r, a, k):
    from .interp import dictset
    items = []
    c = I.rdc(a[0]) if a else mk('dict')

    def f(o):
        if c.op == 'dict':
            for x, y in zip(c.args[::2], c.args[1::2]):
                o = dictset(o, x, y)
        else:
            o = mk('dictupd', o, c)
        for x, y in k.items():
            o = dictset(o, string(x), I.rd(y))
        return o
    I.write(r, f, 'update')
    return NONE


@meth('difference')
def _difference(I, r, a, k):
    x = I.rdc(r)
    y = I.rdc(a[0])
    if x.op == 'setof':
        yy = y.args[0] if y.op == 'setof' else y
        n = T.tlen(x.args[0])
        v = T.fresh()
        return mk('setof', T.filtermap(n, v, bnot(I.member(idx(x.args[0], v), yy)), idx(x.args[0], v)))
    return None


@meth('issubset')
def _issubset(I, r, a, k):
    x, y = I.rdc(r), I.rdc(a[0])
    if x.op == 'setof':
        yy = y.args[0] if y.op == 'setof' else y
        v = T.fresh()
        return bnot(T.any_(T.tlen(x.args[0]), v, bnot(I.member(idx(x.args[0], v), yy))))
    return None


@meth('add')
def _sadd(I, r, a, k):
    c = I.rdc(r)
    if c.op in ('setof', 'set'):
        v = I.rdc(a[0])
        I.write(r, lambda o: mk('setof', concat(o.args[0], seq(v))) if o.op == 'setof' else o, 'add')
        return NONE
    return None
