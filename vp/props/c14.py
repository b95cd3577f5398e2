import numpy as np
from .. import worlds as W, terms as T
from ..terms import mk, TRUE, FALSE, bnot, num
from ..compare import SEED, TIER
from . import c11, c12

RULE = ('value graphs of all results of a change-point fit (constructor to fit inlined; change-points or serial break-points '
        'around arbitrary models) equal those of the average over the strictly increasing combinations with rescaled '
        'hyper-prior, with zero probability for all others; duration distributions equal the collected differences; models '
        'without such points, with both kinds or with several serial models raise')
MIN = 30
sym = lambda n: mk('sym', n)
PARTS = ['log-evidence', 'local evidence', 'posteriors', 'means', 'distribution', 'prior values', 'values']


def worlds(tag, n, cls='ChangepointStudy', three=False):
    out = []
    pk = ['none', 'function', 'array', 'none']
    kinds = ['even', 'odd', 'one', 'down']
    for i in range(n):
        r = W.rng(SEED, 'c14', tag, i)
        w = W.inputs(i, SEED, key='c14' + tag, n=5 + i % 2, seg=1 + i % 2, this=cls,
                     prior=['none', 'array', 'function'][i % 3], sizes=[[3], [2, 3], [4]][i % 3],
                     names=[['beta'], ['beta', 'alpha'], ['rate']][i % 3])
        stamps = w['ts'] if w['ts'] is not None and len(w['ts']) == len(w['data']) else np.arange(len(w['data']))
        stamps = np.asarray(stamps, dtype=float)[w['om'].fields['segmentLength'] - 1:]
        for j in range(3):
            p = pk[(i + j) % 4]
            if j == 2 and three:
                v = stamps[-3:][::-1] if i % 4 == 1 else stamps[[1, -2]]
                if len(set(v)) < len(v):
                    v = stamps[-2:-1]
            elif j == 2:
                v = c11.values(r, kinds[i % 4], j)[:2]
            else:
                k = (i + j) % 4
                if k == 0:
                    v = 'all'
                    p = 'none' if p == 'array' else p
                elif k == 1:
                    v = stamps[1:3] if j else stamps[0:3]
                elif k == 2:
                    v = stamps[[1, 3]] if j else stamps[[2, 0]]
                else:
                    v = stamps[2:3] if j else stamps[0:1]
            w['v%d' % j] = v
            w['p%d' % j] = c11.prior(r, p, '%s%d.%d' % (tag, i, j), v)
        out.append(W.world(**w))
    return out


def check(ctx):
    n = 9 if TIER == 'quick' else 60
    ctx.method('ChangepointStudy', 'fit')
    cases = [('changes_one', FALSE, FALSE), ('changes_one', TRUE, FALSE), ('changes_two', FALSE, FALSE),
             ('changes_two', FALSE, TRUE), ('breaks_two', FALSE, FALSE), ('breaks_nested', TRUE, FALSE),
             ('changes_three', FALSE, TRUE)]
    if TIER != 'quick':
        cases += [('breaks_nested', FALSE, FALSE), ('breaks_two', FALSE, TRUE)]
    for f, fo, eo in cases:
        rc = ctx.code('scen.' + f, c12.args(ctx, 'scen.' + f, fo, eo, 'ChangepointStudy'), opaque=['scen.law'])
        rr = ctx.spec('points.' + f, c12.args2(ctx, 'points.' + f, fo, eo), opaque=['points.law'])
        guard = bnot(rr.raisecond())
        ws = worlds(f, n, three=f.endswith('three'))
        mode = 'forward only' if fo is TRUE else 'evidence only' if eo is TRUE else 'full'
        for k, part in enumerate(PARTS):
            if eo is TRUE and k in (2, 3):
                continue
            ctx.same('%s (%s): %s' % (f, mode, part), T.idx(rc.retc, num(k)), T.idx(rr.retc, num(k)), ws, guard,
                     'ChangepointStudy.fit')
    f = 'durations'
    rc = ctx.code('scen.' + f, c12.args(ctx, 'scen.' + f, FALSE, TRUE, 'ChangepointStudy'), opaque=['scen.law'])
    rr = ctx.spec('points.' + f, c12.args2(ctx, 'points.' + f, FALSE, TRUE), opaque=['points.law'])
    ws = worlds(f, 2 * n)
    for k, part in enumerate(['duration', 'duration (names swapped)', 'distribution of the second point',
                              'distribution of the first point']):
        for j, what in enumerate(['values', 'probabilities']):
            ctx.same('%s after a fit: %s' % (part, what), T.idx(T.idx(rc.retc, num(k)), num(j)),
                     T.idx(T.idx(rr.retc, num(k)), num(j)), ws, bnot(rr.raisecond()),
                     'ChangepointStudy.getDurationDistribution' if k < 2 else 'HyperStudy.getHyperParameterDistribution')
    for f in ('points_none', 'points_both', 'points_twice'):
        rc = ctx.code('scen.' + f, c12.args(ctx, 'scen.' + f, FALSE, FALSE, 'ChangepointStudy'),
                      opaque=['scen.law', 'Study.fit'])
        ctx.same('%s is rejected' % f, rc.raisecond(), TRUE, worlds(f, n), None, 'ChangepointStudy.fit')
