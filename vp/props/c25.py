import numpy as np
from .. import worlds as W, terms as T
from ..terms import mk, TRUE, FALSE, NONE, bnot, num, seq, string
from ..compare import SEED, TIER
from . import c11

RULE = ('value graphs of the hyper-parameter values, evidence, posteriors and means after an optimisation equal those of '
        'fresh studies whose transition models are constructed with the values: the objective handed to the minimiser is '
        'the negative log-evidence as a function of exactly the chosen values (compared as a graph with bound variables), '
        'the start point, the assignment of the result and the final fit; one standard fit per combination for '
        'hyper-studies; reading every name of every shape of transition model')
MIN = 60
sym = lambda n: mk('sym', n)
NAMES = {'one': ['a'], 'several': ['b', 'a'], 'combined': ['b', 'a'], 'nested': ['b', 'd', 'a', 'c'],
         'point': ['b', 't', 'a'], 'only point': ['t'], 'serial': ['b', 'a', 't'],
         'three parts': ['b', 'a', 't', 's'], 'inside': ['c', 'b', 't'], 'around': ['b', 'c', 'd', 't']}
PARTS = ['hyper-parameter values', 'log-evidence', 'local evidence', 'posteriors', 'means', 'selection']
POINTS = {'t', 's'}


def args(ctx, f, cls, **kw):
    return [kw[x.arg] if x.arg in kw else mk('cls', cls) if x.arg == 'H' else mk('cls', 'Study') if x.arg == 'U' else
            mk('cls', c11.CLS[x.arg]) if x.arg in c11.CLS else sym(x.arg) for x in ctx.func('scen.' + f).node.args.args]


def worlds(tag, n, shape, cls, grid=False):
    out = []
    names = NAMES[shape]
    for i in range(n):
        r = W.rng(SEED, 'c25', tag, i)
        w = W.inputs(i, SEED, key='c25' + tag, n=4 + i % 2, seg=1 + i % 2, this=cls, prior=['none', 'array', 'function'][i % 3],
                     sizes=[[3], [2, 3], [4]][i % 3], names=[['beta'], ['beta', 'alpha'], ['rate']][i % 3])
        for k in range(4):
            v = r.uniform(0.3, 1.2)
            if k < len(names) and names[k] in POINTS:
                v = float(1 + i % 2) + (names[k] == 's')
            if grid:
                v = v + np.arange(1 + (i + k) % 2 if len(names) > 2 else 1 + (i + k) % 3) * float(r.uniform(0.1, 0.4))
                if k < len(names) and names[k] in POINTS:
                    v = [np.array([1, 2]), np.array([2])][i % 2]
            w['v%d' % k] = v
        w['tol'] = 0.01
        out.append(W.world(**w))
    return out


def cases():
    c = [('one', None), ('one', ['a']), ('one', 'a'), ('several', None), ('several', ['a']), ('several', ['a', 'b']),
         ('combined', None), ('combined', ['b']), ('combined', 'a'), ('combined', ['a', 'b']), ('nested', None),
         ('nested', ['c', 'd']), ('nested', 'a'), ('point', None), ('point', ['t']), ('point', ['a', 't']),
         ('serial', None), ('serial', ['t', 'b']), ('three parts', ['s']), ('three parts', ['t', 'a']),
          ('inside', ['t']), ('around', ['t', 'c'])]
    return c


def chosen(x):
    return NONE if x is None else string(x) if isinstance(x, str) else seq(*[string(y) for y in x])


def check(ctx):
    n = 5 if TIER == 'quick' else 30
    ctx.method('Study', 'optimize')
    for k, (shape, sel) in enumerate(cases()):
        fo = TRUE if k % 3 == 2 else FALSE
        tol = sym('tol') if sel is not None and k % 2 else NONE
        kw = dict(shape=string(shape), fo=fo, tol=tol)
        rr = ctx.code('scen.optimum_meant', args(ctx, 'optimum_meant', 'Study', indices=indices(shape, sel), **kw), opaque=['scen.law'])
        rc = ctx.code('scen.optimum', args(ctx, 'optimum', 'Study', chosen=chosen(sel), **kw), opaque=['scen.law'])
        compare(ctx, 'optimum of %s in %s' % (sel, shape), rc, rr, worlds('opt%d' % k, n, shape, 'Study'))
    again = [('several', ['b'], ['a']), ('nested', ['d', 'b'], ['c']), ('combined', None, 'a'), ('point', ['t'], None)]
    for k, (shape, first, sel) in enumerate(again):
        kw = dict(shape=string(shape), fo=FALSE, tol=NONE, chosen=chosen(sel))
        rr = ctx.code('scen.optimum_again_meant', args(ctx, 'optimum_again_meant', 'Study', first=indices(shape, first),
                                                       indices=indices(shape, sel), **kw), opaque=['scen.law'])
        rc = ctx.code('scen.optimum_again', args(ctx, 'optimum_again', 'Study', first=chosen(first), **kw),
                      opaque=['scen.law'])
        compare(ctx, 'optimum of %s after %s in %s' % (sel, first, shape), rc, rr,
                worlds('again%d' % k, n, shape, 'Study'))
    # names that cannot be optimised
    for k, (shape, sel) in enumerate([('one', 'x'), ('several', ['a', 'x']), ('nested', ['x']), ('combined', ['x', 'b']),
                                      ('only point', None)]):
        rc = ctx.code('scen.optimum', args(ctx, 'optimum', 'Study', chosen=chosen(sel), shape=string(shape), fo=FALSE,
                                           tol=NONE), opaque=['scen.law'])
        ws = worlds('unknown%d' % k, n, shape, 'Study')
        ctx.same('optimum of %s in %s is rejected' % (sel, shape), rc.raisecond('ConfigurationError'), TRUE, ws, None,
                 'Study.optimize')
    ctx.method('Study', 'getHyperParameterValue')
    for shape, names in NAMES.items():
        ws = worlds('look' + shape, n, shape, 'Study')
        rc = ctx.code('scen.looked_up', args(ctx, 'looked_up', 'Study', shape=string(shape)), opaque=['scen.law'])
        for k, x in enumerate(names):
            ctx.same('value of %s in %s' % (x, shape), T.idx(rc.retc, num(k)), sym('v%d' % k), ws, TRUE,
                     'Study.getHyperParameterValue')


def indices(shape, sel):
    names = NAMES[shape]
    order = [x for x in names if x not in POINTS] if sel is None else [sel] if isinstance(sel, str) else sel
    return seq(*[num(names.index(x)) for x in order])


def compare(ctx, name, rc, rr, ws):
    for j, part in enumerate(PARTS):
        ctx.same('%s: %s' % (name, part), T.idx(rc.retc, num(j)), T.idx(rr.retc, num(j)), ws, bnot(rr.raisecond()),
                 'Study.optimize')
