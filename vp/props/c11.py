import numpy as np
from .. import worlds as W, terms as T
from ..terms import mk, seq, string, bnot
from ..evalt import Fn, smooth
from ..compare import SEED, TIER

RULE = ('value graphs of the hyper-parameter combinations, joint prior values, grid constants, names and value lists after '
        'a hyper-study fit, for single, combined, serial, nested and two-parameter transition models built by their own '
        'constructors, equal the Cartesian product, products of normalised hyper-priors and spacings of the definition; '
        'likewise for a model added to an online study')
MIN = 24
sym = lambda n: mk('sym', n)
CLS = dict(H='HyperStudy', K='CombinedTransitionModel', Q='SerialTransitionModel', B='BreakPoint', C='ChangePoint',
           A='Static', W='GaussianRandomWalk', R='RegimeSwitch', V='AlphaStableRandomWalk', O='OnlineStudy')
# names in model order; index of the value/prior symbol of each
CASES = {
    'single': (['a'], [0]),
    'combined': (['b', 'a'], [0, 1]),
    'serial': (['z', 'a', 'y', 'x'], [0, 1, 2, 3]),
    'nested': (['c', 'd', 'b', 'a'], [0, 1, 2, 3]),
    'pair': (['s', 'a'], [0, 1]),
}
PARTS = ['combinations', 'prior values', 'grid constants', 'names', 'values']


def args(ctx, f, **syms):
    a = []
    for x in ctx.func(f).node.args.args:
        a.append(mk('cls', CLS[x.arg]) if x.arg in CLS else sym(x.arg))
    return a


def values(r, kind, j):
    d = float(r.uniform(0.3, 1.2))
    k = 2 + int(r.randint(0, 3))
    if kind == 'even':
        return r.uniform(0.1, 1) + d * np.arange(k)
    if kind == 'down':
        return r.uniform(3, 4) - d * np.arange(k)
    if kind == 'odd':
        return np.cumsum(r.uniform(0.2, 1.3, k + 1))
    if kind == 'one':
        return np.array([r.uniform(0.1, 1)])
    return float(r.uniform(0.1, 1))


def prior(r, kind, key, v):
    n = np.size(v)
    if kind == 'array':
        return r.uniform(0.1, 1, n)
    if kind == 'function':
        return Fn(('hp', key), lambda x: float(smooth(('hyperprior', key), [x], ())) + 1.5)
    if kind == 'sympy':
        return W.rv('rv' + key)
    return None


def worlds(tag, n, times=()):
    """times: indices of values that are time stamps"""
    out = []
    kinds = ['even', 'odd', 'one', 'down', 'even', 'odd', 'scalar']
    pk = ['none', 'function', 'array', 'sympy', 'none']
    for i in range(n):
        r = W.rng(SEED, 'c11', tag, i)
        w = W.inputs(i, SEED, key='c11' + tag, n=6 + i % 2, prior='none', seg=1 + i % 2)
        stamps = w['ts'] if w['ts'] is not None and len(w['ts']) == len(w['data']) else np.arange(len(w['data']))
        stamps = np.asarray(stamps)[w['om'].fields['segmentLength'] - 1:]
        for j in range(4):
            k = kinds[(i + 2 * j) % len(kinds)] if tag != 'online' else kinds[(i + 2 * j) % 6]
            v = values(r, k, j)
            p = pk[(i + j) % len(pk)]
            if j in times:
                q = times.index(j)
                if (i + q) % 3 == 0:
                    v = 'all'
                    p = 'none' if p == 'array' else p
                elif (i + q) % 3 == 1:
                    v = np.asarray(stamps[1 + q:4 + q], dtype=float)
                else:
                    v = float(stamps[1 + 2 * q])
            if np.ndim(v) == 0 and not isinstance(v, str) and p in ('array', 'function'):
                p = 'none'
            w['v%d' % j] = v
            w['p%d' % j] = prior(r, p, '%s%d.%d' % (tag, i, j), v)
        out.append(W.world(**w))
    return out


def check(ctx):
    n = 14 if TIER == 'quick' else 70
    ctx.method('HyperStudy', 'fit')
    for case, (names, order) in CASES.items():
        rc = ctx.code('scen.grid_' + case, args(ctx, 'scen.grid_' + case), opaque=['Study.fit'])
        a = [sym(x) for x in ('data', 'ts', 'om')] + [seq(*[sym('v%d' % k) for k in order]),
                                                     seq(*[sym('p%d' % k) for k in order]),
                                                     seq(*[string(x) for x in names])]
        rr = ctx.spec('hyper.grid', a)
        guard = bnot(rr.raisecond())
        times = {'serial': [2, 3], 'nested': [2, 3]}.get(case, [])
        ws = worlds(case, n, times)
        for k, part in enumerate(PARTS):
            ctx.same('%s: %s' % (case, part), T.idx(rc.retc, T.num(k)), T.idx(rr.retc, T.num(k)), ws, guard,
                     'HyperStudy._createHyperGrid')
