import numpy as np
from .. import worlds as W, terms as T
from ..terms import mk, TRUE, FALSE, bnot
from ..compare import SEED, TIER
from . import c11

RULE = ('value graphs of evidence, local evidence, average posterior, means, hyper-parameter distribution and list of '
        'evidences after a hyper-study fit (constructor to fit inlined, transition models arbitrary) equal those of the '
        'average over one standard fit per combination, weighted by evidence, hyper-prior and grid constants')
MIN = 20
sym = lambda n: mk('sym', n)
PARTS = ['log-evidence', 'log10-evidence', 'local evidence', 'posteriors', 'means', 'hyper-parameter distribution',
         'evidence per combination']


def args(ctx, f, fo, eo, cls='HyperStudy'):
    a = []
    for x in ctx.func(f).node.args.args:
        n = x.arg
        a.append(fo if n == 'fo' else eo if n == 'eo' else mk('cls', cls) if n == 'H' else
                 mk('cls', c11.CLS[n]) if n in c11.CLS else sym(n))
    return a


def worlds(tag, n, cls='HyperStudy', one=False):
    out = []
    kinds = ['even', 'odd', 'down', 'one', 'odd']
    pk = ['none', 'function', 'array', 'none']
    for i in range(n):
        r = W.rng(SEED, 'c12', tag, i)
        w = W.inputs(i, SEED, key='c12' + tag, n=4, seg=1 + i % 2, this=cls,
                     prior=['none', 'array', 'function'][i % 3], sizes=[[3], [2, 3], [4]][i % 3],
                     names=[['beta'], ['beta', 'alpha'], ['rate']][i % 3])
        for j in range(2):
            v = c11.values(r, kinds[(i + 2 * j) % 5] if not one else 'one', j)
            if len(v) > 3:
                v = v[:3]
            w['v%d' % j] = v
            w['p%d' % j] = c11.prior(r, pk[(i + j) % 4], '%s%d.%d' % (tag, i, j), v)
        out.append(W.world(**w))
    return out


def check(ctx):
    n = 8 if TIER == 'quick' else 60
    ctx.method('HyperStudy', 'fit')
    for case in ('one', 'two', 'none'):
        for fo, eo in ((FALSE, FALSE), (TRUE, FALSE), (FALSE, TRUE)):
            if case == 'two' and fo is TRUE:
                continue
            f = 'hyperfit_' + case
            rc = ctx.code('scen.' + f, args(ctx, 'scen.' + f, fo, eo), opaque=['scen.law'])
            rr = ctx.spec('hyper.' + f, args2(ctx, 'hyper.' + f, fo, eo), opaque=['hyper.law'])
            guard = bnot(rr.raisecond())
            ws = worlds(case, n)
            mode = 'forward only' if fo is TRUE else 'evidence only' if eo is TRUE else 'full'
            for k, part in enumerate(PARTS):
                if eo is TRUE and k in (3, 4) or case == 'none' and k > 4:
                    continue
                ctx.same('%s (%s): %s' % (f, mode, part), T.idx(rc.retc, T.num(k)), T.idx(rr.retc, T.num(k)), ws,
                         guard, 'HyperStudy.fit')


def args2(ctx, f, fo, eo):
    return [fo if x.arg == 'fo' else eo if x.arg == 'eo' else sym(x.arg)
            for x in ctx.ref.funcs[f].node.args.args]
