import numpy as np
from .. import worlds as W
from ..evalt import Obj, Fn, smooth
from ..terms import mk, seq, string
from ..compare import SEED, TIER

RULE = ('value graph of the result of <model>(values, target).computeForwardPrior/BackwardPrior(distribution, t), '
        'obtained by abstract interpretation of constructor and transformation, equals the graph of the documented '
        'transformation; also after the model object was used before with other values, grid and study')
MIN = 20
sym = lambda n: mk('sym', n)
X = ['s0', 's1', 's2']

# class: (constructor keywords, reference arguments)
MODELS = {
    'Static': ({}, []),
    'GaussianRandomWalk': (dict(value='s0', target='target'), ['s0', 'target']),
    'AlphaStableRandomWalk': (dict(value1='s0', value2='s1', target='target'), ['s0', 's1', 'target']),
    'Independent': ({}, []),
    'RegimeSwitch': (dict(value='s0'), ['s0']),
    'NotEqual': (dict(value='s0'), ['s0']),
    'BivariateRandomWalk': (dict(value1='s0', value2='s1', value3='s2'), ['s0', 's1', 's2']),
}


def valuations(cls, n):
    out = []
    for i in range(n):
        r = W.rng(SEED, 'c09', cls, i)
        k = {'AlphaStableRandomWalk': 1 + i % 2, 'BivariateRandomWalk': 2}.get(cls, 1 + i % 3)
        names = ['beta', 'alpha', 'gamma'][:k]
        sizes = [[4, 6, 3], [5, 3, 2], [6, 7, 4]][(i // 2) % 3][:k]
        pr = ['none', 'array', 'function'][(i // 3) % 3]
        S = W.study(i, SEED, names=names, sizes=sizes, prior=pr)
        S0 = W.study(i + 7, SEED, key='S0', names=names, sizes=[s + 1 for s in sizes] if i % 3 else sizes,
                     prior='none')
        # the grid spacing that the model was told is what counts
        lc = list(S.fields['latticeConstant'])
        p = r.uniform(0.1, 1, sizes)
        p /= p.sum()
        p0 = r.uniform(0.1, 1, S0.fields['gridSize'])
        p0 /= p0.sum()
        s0, s1, s2 = r.uniform(0.3, 1.2), r.uniform(0.9, 1.9), r.uniform(-0.8, 0.8)
        if cls == 'GaussianRandomWalk' and i % 4 == 3:
            s0 = 0.
        if cls in ('RegimeSwitch', 'NotEqual'):
            s0 = np.log10(np.median(p) / np.prod(lc)) if i % 3 else -7.
            if i % 5 == 4:
                s0 = -1
        v0 = [[s0 * 1.3, s1], [s0, s1 * 1.1], [s0, s1]][i % 3]
        if cls == 'BivariateRandomWalk':
            v0 = [[s0, s1, s2 * 0.5], [s0 * 1.2, s1, s2], [s0, s1, s2]][i % 3]
        lc0 = [c * (1.5 if i % 2 else 1.) for c in lc]
        tgt = names[(i // 2) % k]
        out.append(W.world(S=S, S0=S0, lc=lc, lc0=lc0, off=0, p=p, p0=p0, t=int(r.randint(0, 9)), t0=3, s0=s0, s1=s1,
                           s2=s2, v0=v0, target=tgt, **{'#name': i}))
    return out


def reused(ctx, n):
    """model objects that were used before with other values, grid and study"""
    oc = {sym('S'): 'Study', sym('S0'): 'Study'}
    for cls, (kw, ra) in MODELS.items():
        f = ctx.method(cls, 'computeForwardPrior')
        kwt = mk('dict', *[x for k, v in kw.items() for x in (string(k), sym(v))])
        tail = [sym('S'), sym('lc'), sym('off'), sym('p'), sym('t')]
        rr = ctx.spec('trans.' + cls, tail + [seq(*[sym(a) for a in ra])])
        rc = ctx.code('scen.forward_after', [mk('cls', cls), seq(), kwt] +
                      [sym(x) for x in ('S0', 'lc0', 'v0', 'p0', 't0')] + tail, objcls=oc)
        ctx.equiv(cls + ' after other use', rc, rr, valuations(cls, n), site=f.qual, raises=False)
        m = len([a for a in ra if a != 'target'])
        if not m:
            continue
        ws = valuations(cls, n)
        for i, w in enumerate(ws):
            for j in range(m):
                w['u%d' % j] = w['s%d' % j] * [1.25, 1., 0.7][(i + j) % 3]
        rc = ctx.code('scen.forward_inplace', [mk('cls', cls), seq(), kwt, seq(*[sym('u%d' % j) for j in range(m)]),
                                               seq(*[sym('s%d' % j) for j in range(m)])] + tail, objcls=oc)
        ctx.equiv(cls + ' after values changed in place', rc, rr, ws, site=f.qual, raises=False)


def check(ctx):
    n = 12 if TIER == 'quick' else 60
    oc = {sym('S'): 'Study', sym('S0'): 'Study'}
    for cls, (kw, ra) in MODELS.items():
        f = ctx.method(cls, 'computeForwardPrior')
        kwt = []
        for k, v in kw.items():
            kwt += [string(k), sym(v)]
        kwt = mk('dict', *kwt)
        ws = valuations(cls, n)
        base = [mk('cls', cls), seq(), kwt]
        tail = [sym('S'), sym('lc'), sym('off'), sym('p'), sym('t')]
        rr = ctx.spec('trans.' + cls, tail + [seq(*[sym(a) for a in ra])])
        rc = ctx.code('scen.forward', base + tail, objcls=oc)
        ctx.equiv(cls + ' forward', rc, rr, ws, site=f.qual, raises=False)
        rc = ctx.code('scen.backward', base + tail, objcls=oc)
        ctx.equiv(cls + ' backward', rc, rr, ws, site=f.qual, raises=False)
    reused(ctx, n)
    # deterministic
    f = ctx.method('Deterministic', 'computeForwardPrior')
    ws = []
    for i in range(n):
        r = W.rng(SEED, 'c09det', i)
        k = 1 + i % 3
        names = ['beta', 'alpha', 'gamma'][:k]
        sizes = [[4, 6, 3], [5, 3, 2], [6, 7, 4]][(i // 2) % 3][:k]
        S = W.study(i, SEED, names=names, sizes=sizes)
        nd = 1 + (i // 2) % 3
        dn = ['q%d' % j for j in range(nd)]
        dv = [float(r.uniform(0.5, 1.5)) for j in range(nd)]
        fn = Obj('userfun', ('function',), {'__name__': 'userfun', '#args': ['t'] + dn, '#defaults': tuple(dv)},
                 {'__call__': lambda ev, a, kw: 1.7 * float(smooth('uf', [a, sorted(kw.items())], ()))})
        p = r.uniform(0.1, 1, sizes)
        p /= p.sum()
        fun = dict(W.FUN)
        spec = lambda ev, a, kw: Obj('spec', (), {'args': a[0].fields['#args'], 'defaults': a[0].fields['#defaults']})
        fun['getargspec'] = fun['getfullargspec'] = spec
        ws.append(W.world(S=S, lc=S.fields['latticeConstant'], off=[0, 3][i % 2], p=p, t=int(r.randint(3, 9)), fn=fn,
                          target=names[(i // 2) % k], params=dict(zip(dn, dv)), **{'#fun': fun, '#name': i}))
    kwt = mk('dict', string('function'), sym('fn'), string('target'), sym('target'))
    tail = [sym('S'), sym('lc'), sym('off'), sym('p'), sym('t')]
    for d, q in (('forward', 'Deterministic'), ('backward', 'Deterministic_back')):
        rc = ctx.code('scen.' + d, [mk('cls', 'Deterministic'), seq(), kwt] + tail, objcls=oc)
        rr = ctx.spec('trans.' + q, tail + [seq(sym('fn'), sym('target'), sym('params'))])
        ctx.equiv('Deterministic ' + d, rc, rr, ws, site=f.qual, raises=False)
