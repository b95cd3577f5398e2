import numpy as np
from .. import worlds as W, terms as T
from ..terms import mk, TRUE, FALSE, bnot, num, seq
from ..compare import SEED, TIER
from . import c11, c12

RULE = ('value graphs of log-evidence, transition-model probabilities (overall and local), averaged parameter posterior and '
        'hyper-parameter distributions after 1 to 5 steps of an online study (constructor to step inlined, arbitrary data '
        'points, observation model, transition models, hyper-priors and model prior) equal those of sequential Bayesian '
        'filtering per model and combination')
MIN = 25
sym = lambda n: mk('sym', n)
PARTS = ['log-evidence', 'transition-model probabilities', 'local transition-model probabilities', 'posterior',
         'hyper-parameter distributions']
HISTORY = ['posterior sequence', 'mean values', 'hyper-parameter sequence', 'transition-model sequence',
           'local transition-model sequence', 'time stamps']


def worlds(tag, n, steps, history=None, seg=None):
    out = []
    kinds = ['even', 'odd', 'down', 'one', 'odd']
    pk = ['none', 'function', 'array', 'none', 'sympy']
    for i in range(n):
        r = W.rng(SEED, 'c15', tag, i)
        w = W.inputs(i, SEED, key='c15' + tag, n=max(steps, 2), seg=seg or (1 + i % 2 if steps > 1 else 1), this='OnlineStudy',
                     prior=['none', 'array', 'function'][i % 3], sizes=[[3], [2, 3], [4]][i % 3],
                     names=[['beta'], ['beta', 'alpha'], ['rate']][i % 3])
        w['data'] = np.array(w['data'])[:steps]
        w['#steps'] = steps
        for k in range(steps):
            w['d%d' % k] = w['data'][k]
        for j in range(2):
            v = c11.values(r, kinds[(i + 2 * j) % 5], j)[:3]
            w['v%d' % j] = v
            w['p%d' % j] = c11.prior(r, pk[(i + j) % 5], '%s%d.%d' % (tag, i, j), v)
        w['tp'] = None if i % 3 == 0 else np.array([0.25, 0.75]) if i % 3 == 1 else r.uniform(0.1, 1, 2)
        w['history'] = bool(i % 2) if history is None else history
        out.append(W.world(**w))
    return out


def args(ctx, f, steps, code=True, kind='number'):
    a = c12.args(ctx, 'scen.' + f, FALSE, FALSE) if code else c12.args2(ctx, 'online.' + f, FALSE, FALSE)
    return [seq(*[points(k, kind) for k in range(steps)]) if code and x is sym('data') else x for x in a]


def points(k, kind):
    d = mk('ssym', 'd%d' % k)
    return d if kind == 'number' else seq(d)


def cases():
    c = [('online_plain', 1), ('online_plain', 3), ('online_plain', 5), ('online_single', 1), ('online_single', 3),
         ('online_two', 1), ('online_two', 2), ('online_two', 3)]
    if TIER != 'quick':
        c += [('online_single', 5), ('online_two', 4), ('online_two', 5)]
    return c


def runs(ctx, f, steps, kind='number'):
    rc = ctx.code('scen.' + f, args(ctx, f, steps, True, kind), opaque=['scen.law'])
    rr = ctx.spec('online.' + f, args(ctx, f, steps, False), opaque=['online.law'])
    return rc, rr


def check(ctx):
    n = 12 if TIER == 'quick' else 60
    ctx.method('OnlineStudy', 'step')
    for f, steps in cases():
        rc, rr = runs(ctx, f, steps)
        ws = worlds(f + str(steps), n, steps)
        for k, part in enumerate(PARTS):
            ctx.same('%s, %d steps: %s' % (f, steps, part), T.idx(rc.retc, num(k)), T.idx(rr.retc, num(k)), ws,
                     bnot(rr.raisecond()), 'OnlineStudy.step')
        if f == 'online_two' and steps == 3:
            rp = ctx.spec('online.online_proper', args(ctx, 'online_proper', steps, False), opaque=['online.law'])
            for k, part in enumerate(['evidence of a weighted average', 'model prior in probabilities']):
                ctx.same('online %s' % part, T.idx(rc.retc, num(k)), T.idx(rp.retc, num(k)), ws,
                         bnot(rp.raisecond()), 'OnlineStudy.step')
