import numpy as np
from .. import worlds as W
from ..evalt import Obj, Fn, Opq, smooth
from ..terms import mk, seq, string, TRUE, FALSE
from ..compare import SEED, TIER
from .. import terms as T

RULE = ('value graph of <model>(names, values).pdf(grid, segment), obtained by abstract interpretation of the '
        'constructor and the likelihood, equals the graph of the documented density (normal form, or equal in all '
        'random valuations of grid, data and parameter names)')
MIN = 12
MODELS = {'Bernoulli': 1, 'Poisson': 1, 'Gaussian': 2, 'GaussianMean': 1, 'Laplace': 2, 'WhiteNoise': 1, 'AR1': 2,
          'ScaledAR1': 2}
SEG = {'AR1': 2, 'ScaledAR1': 2}
sym = lambda n: mk('sym', n)


def valuations(cls, np_, n=12):
    out = []
    for i in range(n):
        r = W.rng(SEED, 'c18', cls, i)
        sizes = [3, 4][:np_] if i % 3 else [5, 1][:np_]
        grid = [r.uniform(0.05, 0.95 if cls in ('Bernoulli', 'AR1', 'ScaledAR1') else 4., sizes) for _ in range(np_)]
        if cls == 'Bernoulli' and i % 4 == 1:
            grid[0] = np.array([-0.5, 0., 0.3, 1., 1.7])
            if i % 8 == 1:
                grid[0] = grid[0].reshape(5, 1)
        if cls in ('AR1', 'ScaledAR1', 'Gaussian', 'GaussianMean', 'Laplace') and i % 3 == 1:
            grid[0] = -grid[0]
        k = SEG.get(cls, 1)
        if cls == 'Bernoulli':
            seg = np.array([float(i % 2)])
        elif cls == 'Poisson':
            seg = np.array([i % 7])
            if i == 5:
                seg = np.array([25])
        elif cls == 'GaussianMean':
            seg = np.array([[r.uniform(-2, 2), r.uniform(0.3, 2)]])
        else:
            seg = r.uniform(-3, 3, k)
        out.append(W.world(grid=grid, seg=seg, va=np.linspace(0, 1, 3), vb=np.linspace(1, 2, 3), **{'#name': i}))
    return out


def check(ctx):
    n = 12 if TIER == 'quick' else 60
    for cls, k in MODELS.items():
        f = ctx.method(cls, 'pdf')
        args = [string('a'), sym('va'), string('b'), sym('vb')][:2 * k]
        rc = ctx.code('scen.pdf', [mk('cls', cls), seq(*args), mk('dict'), sym('grid'), sym('seg')])
        rr = ctx.spec('obs.%s_pdf' % cls, [sym('m'), sym('grid'), sym('seg')])
        ctx.equiv(cls + ' likelihood', rc, rr, valuations(cls, k, n), site=f.qual)
    wrapped(ctx)
    for name, rc, rr, ws, site in wrappers(ctx, n):
        ctx.equiv(name + ' construction', rc, rr, ws, site=site, raises=False)


def wrapped(ctx):
    # NumPy: function(data point, *grids in declared order)
    f = ctx.method('NumPy', 'pdf')
    ws = []
    for i in range(8):
        r = W.rng(SEED, 'c18np', i)
        k = 1 + i % 3
        fn = Obj('userfun', ('function',), {'__name__': 'userfun', '#args': ['data'] + ['p%d' % j for j in range(k)]},
                 {'__call__': lambda ev, a, kw: smooth('uf', [a, kw], np.shape(a[1]))})
        grid = [r.uniform(0, 1, [3, 2, 4][:k]) for _ in range(k)]
        names = []
        for j in range(k):
            names += ['p%d' % j, r.uniform(0, 1, 3)]
        fun = dict(W.FUN)
        fun['getargspec'] = lambda ev, a, kw: Obj('spec', (), {'args': a[0].fields['#args']})
        ws.append(W.world(fn=fn, grid=grid, seg=r.uniform(0, 1, (1, 2) if i % 2 else (1,)), args=names,
                          **{'#fun': fun}))
    rc = ctx.code('scen.pdf', [mk('cls', 'NumPy'), mk('concat', seq(sym('fn')), sym('args')), mk('dict'), sym('grid'),
                               sym('seg')])
    rr = ctx.spec('obs.NumPy_wrapped', [sym('fn'), sym('args'), sym('grid'), sym('seg')])
    ctx.equiv('NumPy likelihood', rc, rr, ws, site=f.qual, raises=False)
    # SciPy
    f = ctx.method('SciPy', 'pdf')
    ws = []
    for i in range(12):
        r = W.rng(SEED, 'c18sp', i)
        cont = i % 2 == 0
        names = [['loc', 'scale'], ['loc'], ['a', 'loc', 'b'], ['b', 'a']][i % 4] if cont else \
            [['a', 'loc'], ['b', 'loc', 'a'], ['loc']][i % 3]
        fixed = {} if i % 3 == 0 else {'c': 0.7}
        shapes = 'a, b, c'
        k = len(names)
        grid = [r.uniform(0, 1, [3, 2, 4][:k]) for _ in range(k)]
        args = []
        for x in names:
            args += [x, r.uniform(0, 1, 3)]
        meth = {'pmf': lambda ev, a, kw: smooth('pmf', [a[1:], kw], np.shape(ev.w['grid'][0]))}
        if cont:
            meth = {'pdf': lambda ev, a, kw: smooth('pdf', [a[1:], kw], np.shape(ev.w['grid'][0]))}
        rv = Obj('rv', ('rv',), dict(__module__='scipy.stats._dist', name='nm', shapes=shapes), meth)
        fun = dict(W.FUN)
        fun['builtins.dir'] = lambda ev, a, kw: list(a[0].methods) + list(a[0].fields)
        ws.append(W.world(rv=rv, grid=grid, seg=r.uniform(0, 1, 1), args=args if i != 11 else [], fixed=fixed,
                          **{'#fun': fun, '#cont': cont}))
    rc = ctx.code('scen.pdf', [mk('cls', 'SciPy'), mk('concat', seq(sym('rv')), sym('args')),
                               mk('dict', string('fixedParameters'), sym('fixed')), sym('grid'), sym('seg')])
    rr = ctx.spec('obs.SciPy_wrapped', [sym('rv'), sym('args'), sym('fixed'), sym('grid'), sym('seg')])
    ctx.equiv('SciPy likelihood', rc, rr, ws, site=f.qual, raises=False)
    # SymPy
    f = ctx.method('SymPy', 'pdf')
    ws = []
    for i in range(10):
        r = W.rng(SEED, 'c18sy', i)
        k = 1 + i % 3
        syms = [Opq('s%d' % j) for j in range(k)]
        order = list(r.permutation(k)) if i % 4 else list(range(k))
        args = []
        for j in order:
            args += ["s%d" % j, r.uniform(0, 1, 3)]
        d = Obj('rv.dist', (), dict(free_symbols=frozenset(syms)))
        a1 = Obj('rv.a', (), dict(distribution=d))
        rv = Obj('rv', ('RandomSymbol',), dict(__module__='sympy.stats.rv', _sorted_args=[a1, a1], __str__='x'))
        grid = [r.uniform(0, 1, [3, 2, 4][:k]) for _ in range(k)]
        fun = dict(W.FUN)
        fun['sorted'] = lambda ev, a, kw: sorted(a[0], key=str)
        prior = Fn('prior', lambda *a: 1.)
        ws.append(W.world(rv=rv, grid=grid, seg=r.uniform(0, 1, 1), args=args if i % 5 else [], prior=prior,
                          **{'#fun': fun}))
    rc = ctx.code('scen.pdf', [mk('cls', 'SymPy'), mk('concat', seq(sym('rv')), sym('args')),
                               mk('dict', string('prior'), sym('prior')), sym('grid'), sym('seg')])
    rr = ctx.spec('obs.SymPy_wrapped', [sym('rv'), sym('args'), sym('grid'), sym('seg')])
    ctx.equiv('SymPy likelihood', rc, rr, ws, site=f.qual, raises=False)


def wrappers(ctx, n):
    """models around functions and distributions: accepted or rejected, names, values, settings"""
    def listing(ev, a, kw):
        return list(a[0].methods) + list(a[0].fields)
    fun = dict(W.FUN)
    fun['getargspec'] = lambda ev, a, kw: Obj('spec', (), {'args': a[0].fields['#args']})
    fun['builtins.dir'] = listing
    fun['sorted'] = lambda ev, a, kw: sorted(a[0], key=str)
    wn, wp, wy = [], [], []
    for i in range(2 * n):
        r = W.rng(SEED, 'c18w', i)
        prior = [None, np.ones(3), Fn('prior', lambda *a: 1.)][i % 3]
        k, m = 1 + i % 3, 1 + (i // 3) % 3 if i % 2 else 1 + i % 3
        fn = Obj('userfun', ('function',), {'__name__': 'userfun',
                                            '#args': [['data', 'data', 'x'][i % 3 if i % 5 == 2 else 0]] +
                                            ['q%d' % j for j in range(m)]},
                 {'__call__': lambda ev, a, kw: smooth('uf', [a, kw], ())})
        names = []
        for j in range(k):
            names += ['p%d' % j, r.uniform(0, 1, 3)]
        wn.append(W.world(fn=fn, args=names, prior=prior, **{'#fun': fun, '#name': i}))
        # distributions of scipy.stats
        shapes = [None, 'a', 'a, b', 'c, a, b'][(i // 2) % 4]
        free = ([] if shapes is None else shapes.split(', ')) + (['loc', 'scale'] if i % 2 else ['loc'])
        fixed = {x: 0.5 for x in [[], ['loc'], ['a'], ['scale', 'loc']][(i // 3) % 4]}
        use = [x for x in free if x not in fixed]
        use = [use[j] for j in r.permutation(len(use))][:2 if i % 5 else 4]
        if i % 4 == 3:
            use = use + [['z', 'scale', 'loc'][(i // 4) % 3]]
        names = []
        for x in use if i % 7 else []:
            names += [x, r.uniform(0, 1, 3)]
        h = lambda ev, a, kw: smooth('h', [a[1:], kw], ())
        meth = {x: h for x in (['pdf', 'logpdf'] if i % 2 else ['pmf', 'logpmf']) + ['cdf', 'rvs', 'ppf']}
        mod = 'scipy.stats._dist' if i % 6 else ['numpy.stats._dist', 'scipy.special'][(i // 6) % 2]
        rv = Obj('rv', ('rv',), dict(__module__=mod, name='nm', shapes=shapes), meth)
        wp.append(W.world(rv=rv, args=names, fixed=fixed, prior=prior, **{'#fun': fun, '#name': i}))
        # random variables of sympy.stats
        syms = [Opq('s%d' % j) for j in range(k)]
        use = ['s%d' % j for j in r.permutation(k)][:k if i % 5 else 1] + (['t'] if i % 4 == 1 else [])
        names = []
        for x in use if i % 7 else []:
            names += [x, r.uniform(0, 1, 3)]
        a1 = Obj('rv.a', (), dict(distribution=Obj('rv.dist', (), dict(free_symbols=frozenset(syms)))))
        mod = 'sympy.stats.rv' if i % 6 else ['scipy.stats.rv', 'sympy.core'][(i // 6) % 2]
        rv = Obj('rv', ('RandomSymbol',), dict(__module__=mod, _sorted_args=[a1, a1], __str__='x'))
        wy.append(W.world(rv=rv, args=names, prior=prior or 1., **{'#fun': fun, '#name': i})
                  if not isinstance(prior, np.ndarray) else
                  W.world(rv=rv, args=names, prior=prior, **{'#fun': fun, '#name': i}))
    out = []
    P = [string('prior'), sym('prior')]
    for cls, first, kw, extra, ws in (('NumPy', 'fn', [], [], wn),
                                      ('SciPy', 'rv', [string('fixedParameters'), sym('fixed')], [sym('fixed')], wp),
                                      ('SymPy', 'rv', [], [], wy)):
        rc = ctx.code('scen.wrapper', [mk('cls', cls), mk('concat', seq(sym(first)), sym('args')), mk('dict', *(P + kw))])
        rr = ctx.spec('obs.%s_model' % cls, [sym(first), sym('args')] + extra + [sym('prior')])
        out.append((cls, rc, rr, ws, cls + '.__init__'))
    return out
