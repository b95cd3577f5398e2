import numpy as np
from . import fitcommon as F, c12
from .. import worlds as W, terms as T
from ..terms import mk, TRUE, FALSE
from ..compare import TIER, SEED

RULE = ('value graphs of stored data and time stamps after loadData, of data segments and their time stamps after fit, '
        'and of the time step selected by time-addressed queries equal the definition')
MIN = 8
sym = F.sym


def loads(n):
    ws = []
    for i in range(n):
        r = W.rng(SEED, 'c24', i)
        m = 3 + i % 4
        d = r.uniform(0, 1, (m, 2) if i % 3 == 1 else m)
        ts = [None, np.arange(m) + 4, list(r.uniform(0, 9, m)), np.arange(m + 1), list(range(m - 1)), []][i % 6]
        if i % 2:
            d = d.tolist()
        ws.append(W.world(data=d, ts=ts, silent=True, **{'#name': i}))
    return ws


def check(ctx):
    n = 12 if TIER == 'quick' else 60
    ctx.method('Study', 'loadData')
    args = [sym('data'), sym('ts'), TRUE]
    ctx.equiv('loadData', ctx.code('scen.load', [mk('cls', 'Study')] + args), ctx.spec('study.load', args), loads(n),
              site='Study.loadData')
    for name, fo, eo in (('evidence only', FALSE, TRUE), ('forward only', TRUE, FALSE), ('full', FALSE, FALSE)):
        rc, rr = F.code(ctx, fo, eo), F.spec(ctx, fo, eo)
        ws = F.worlds('c24', n, fo is TRUE, eo is TRUE)
        F.compare(ctx, name, rc, rr, ws, (5, 6))
        F.compare(ctx, name + ' (no time stamps)', rc, rr,
                  F.worlds('c24n', n, fo is TRUE, eo is TRUE, stamps=False), (5, 0))
        lens = [2] if eo is TRUE else [2, 3]
        for k in lens:
            ctx.same('%s: number of %s' % (name, F.FIELDS[k]), T.tlen(T.idx(rc.retc, T.num(k))),
                     T.tlen(T.idx(rr.retc, T.num(k))), ws, T.bnot(rr.raisecond()), 'Study.fit')
    # the value 'all' of a change-point or break-point
    for cls in ('ChangepointStudy', 'HyperStudy'):
        rc = ctx.code('scen.changes_one', c12.args(ctx, 'scen.changes_one', FALSE, TRUE, cls), opaque=['scen.law'])
        rr = ctx.spec('points.changes_one', c12.args2(ctx, 'points.changes_one', FALSE, TRUE), opaque=['points.law'])
        ws = []
        for i in range(n):
            r = W.rng(SEED, 'c24all', i)
            w = W.inputs(i, SEED, key='c24all', n=5 + i % 2, seg=1 + i % 3, this=cls, sizes=[3], names=['rate'])
            w['v0'], w['p0'] = 'all', None
            ws.append(W.world(**w))
        ctx.same("%s: time stamps denoted by 'all'" % cls, T.idx(rc.retc, T.num(6)), T.idx(rr.retc, T.num(6)), ws,
                 T.bnot(rr.raisecond()), 'HyperStudy._createHyperGrid')
        ctx.same("%s: probabilities of the time stamps denoted by 'all'" % cls, T.idx(rc.retc, T.num(4)),
                 T.idx(rr.retc, T.num(4)), ws, T.bnot(rr.raisecond()), 'HyperStudy._createHyperGrid')
