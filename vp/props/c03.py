import numpy as np
from .. import worlds as W, terms as T
from ..terms import mk, TRUE, FALSE, NONE, bnot, num, seq, string
from ..compare import SEED, TIER
from . import c09, c10, c12, c14, fitcommon

RULE = ('value graphs of all results after a history of loading, configuring, fitting (also failing) and querying, followed by '
        'a fit of the current configuration, equal the graphs of that configuration alone; the hyper-parameter values of the '
        'models after a fit are the same graphs as before')
MIN = 60
sym = lambda n: mk('sym', n)


def two(tag, n, estimate=False):
    """two sets of inputs"""
    out = []
    for i in range(n):
        w = W.inputs(i, SEED, key='c03' + tag, prior=['none', 'array', 'function', 'constant'][i % 4])
        v = W.inputs(i + 1 + i % 3, SEED, key='c03x' + tag, prior=['array', 'none'][i % 2],
                     n=[3, 5, 8][i % 3] if tag != 'om' else len(w['data']))
        v['om'].key = 'om0'
        w.update(data0=v['data'], ts0=v['ts'], om0=v['om'], tm0=W.model('tm0'), fo0=bool(i % 2), eo0=bool(i // 2 % 2),
                 name=w['om'].fields['parameterNames'][0], t='avg')
        if tag == 'zero':
            d = v['data'][1]
            w['#zero'] = (lambda d: lambda s: float(np.ravel(s)[-1]) == float(d))(d)
            w['om0'] = w['om']
        out.append(W.world(**w))
    return out


CASES = [('refit', ['data0', 'ts0', 'om0', 'tm0'], 'all'), ('refit_data', ['data0', 'ts0'], 'data'),
         ('refit_om', ['om0'], 'om'), ('refit_tm', ['tm0'], 'tm')]
MODES = [('full', FALSE, FALSE), ('forward only', TRUE, FALSE), ('evidence only', FALSE, TRUE)]


def check(ctx):
    n = 10 if TIER == 'quick' else 60
    C = mk('cls', 'Study')
    for f, before, tag in CASES:
        ws = two(tag, n)
        for (m0, fo0, eo0), (m, fo, eo) in ((MODES[0], MODES[0]), (MODES[0], MODES[2]), (MODES[2], MODES[1])):
            a = [C] + [sym(x) for x in before] + [fo0, eo0] + [sym(x) for x in ('data', 'ts', 'om', 'tm')] + [fo, eo]
            rc = ctx.code('scen.' + f, a)
            rr = fitcommon.spec(ctx, fo, eo)
            fitcommon.compare(ctx, '%s (%s after %s)' % (f, m, m0), rc, rr, ws, range(7))
    # aborted fit before
    ws = two('zero', n)
    rc = ctx.code('scen.refit_data', [C, sym('data0'), sym('ts0'), FALSE, FALSE] +
                  [sym(x) for x in ('data', 'ts', 'om', 'tm')] + [FALSE, FALSE])
    fitcommon.compare(ctx, 'after an aborted fit', rc, fitcommon.spec(ctx, FALSE, FALSE), ws, range(7))
    ws = two('same', n)
    for (m0, fo0, eo0), (m, fo, eo) in ((MODES[0], MODES[0]), (MODES[0], MODES[2]), (MODES[1], MODES[0])):
        rc = ctx.code('scen.refit_same', [C, fo0, eo0] + [sym(x) for x in ('data', 'ts', 'om', 'tm')] + [fo, eo] +
                      [sym('name'), sym('t')])
        fitcommon.compare(ctx, 'again (%s after %s)' % (m, m0), rc, fitcommon.spec(ctx, fo, eo), ws, range(7))
    ws = two('shared', n)
    rc = ctx.code('scen.refit_shared', [C] + [sym(x) for x in ('data0', 'om0', 'data', 'ts', 'om', 'tm')] + [FALSE, FALSE])
    fitcommon.compare(ctx, 'model shared with another study', rc, fitcommon.spec(ctx, FALSE, FALSE), ws, range(7))
    hyper(ctx, 6 if TIER == 'quick' else 30)
    kept(ctx, 8 if TIER == 'quick' else 40)
    c09.reused(ctx, n)
    reused(ctx, 24 if TIER == 'quick' else 96)


def hyper(ctx, n):
    for f in ('hyper_again', 'hyper_other', 'hyper_failed'):
        for mode, fo, eo in (MODES[0], MODES[2]):
            if f == 'hyper_again':
                a = [TRUE if x is sym('fo0') else FALSE if x is sym('eo0') else x
                     for x in c12.args(ctx, 'scen.' + f, fo, eo)]
            else:
                a = c12.args(ctx, 'scen.' + f, fo, eo)
            rc = ctx.code('scen.' + f, a, opaque=['scen.law'])
            rr = ctx.spec('hyper.hyperfit_one', c12.args2(ctx, 'hyper.hyperfit_one', fo, eo), opaque=['hyper.law'])
            ws = c12.worlds('c03' + f, n)
            guard = bnot(rr.raisecond())
            for k, part in enumerate(c12.PARTS):
                if eo is TRUE and k in (3, 4):
                    continue
                ctx.same('%s (%s): %s' % (f, mode, part), T.idx(rc.retc, num(k)), T.idx(rr.retc, num(k)), ws, guard,
                         'HyperStudy.fit')
            ctx.same('%s (%s): hyper-parameter values' % (f, mode), T.idx(rc.retc, num(7)), seq(sym('v0')), ws, guard,
                     'HyperStudy.fit')
    for f in ('points_again', 'points_reload'):
        ws = c14.worlds('c03' + f, n)
        if f == 'points_reload':
            for i, w in enumerate(ws):
                w['data0'] = W.rng(SEED, 'c03', i).uniform(0.5, 3, 3 + i % 4)
                w['v0'] = 'all'
                if w['p0'] is not None and not hasattr(w['p0'], 'f') and not callable(w['p0']):
                    w['p0'] = None
        rc = ctx.code('scen.' + f, c12.args(ctx, 'scen.' + f, FALSE, FALSE, 'ChangepointStudy'), opaque=['scen.law'])
        rr = ctx.spec('points.changes_one', c12.args2(ctx, 'points.changes_one', FALSE, FALSE), opaque=['points.law'])
        for k, part in enumerate(c14.PARTS):
            ctx.same('%s: %s' % (f, part), T.idx(rc.retc, num(k)), T.idx(rr.retc, num(k)), ws, bnot(rr.raisecond()),
                     'ChangepointStudy.fit')


def kept(ctx, n):
    """values of the models after a fit"""
    for f, cls, want, eo in (('kept_one', 'HyperStudy', ['v0'], FALSE), ('kept_two', 'HyperStudy', ['v2', 'v1', 'v0'], TRUE),
                             ('kept_points', 'ChangepointStudy', ['v0', 'v2', 'v1'], TRUE),
                             ('kept_study', 'Study', [None, 'v1', 'v0'], FALSE)):
        ws = c14.worlds('c03' + f, n, cls)
        for i, w in enumerate(ws):
            if f == 'kept_study':
                w['v0'], w['v1'] = w['data'].size - 2, 0.7
            elif f != 'kept_points':
                w['v1'] = w['v2'] * 2
                if f == 'kept_two':
                    w['v0'] = 'all' if i % 2 else np.array([1, 2])
                else:
                    w['v0'] = w['v2']
                w['p0'] = w['p1'] = w['p2'] = None
        rc = ctx.code('scen.' + f, c12.args(ctx, 'scen.' + f, FALSE, eo, cls), opaque=['scen.law'])
        for k, v in enumerate(want):
            ctx.same('%s: values of model %d' % (f, k), T.idx(rc.retc, num(k)), seq(sym(v) if v else T.num(0.3)), ws,
                     bnot(rc.raisecond()), cls + '.fit')


def reused(ctx, n):
    """composed models that were used before with other values, grid and study"""
    S, C, B, P = [mk('cls', x) for x in ('SerialTransitionModel', 'CombinedTransitionModel', 'BreakPoint', 'ChangePoint')]
    oc = {sym('S'): 'Study', sym('S0'): 'Study'}
    om = dict(oc)
    for m in ('m0', 'm1', 'm2'):
        om[sym(m)] = 'GaussianRandomWalk'

    def worlds(tag):
        ws = c10.valuations('c03' + tag, n)
        for i, w in enumerate(ws):
            r = W.rng(SEED, 'c03' + tag, i)
            S0 = W.study(i + 5, SEED, key='S0', prior=['none', 'array'][i % 2])
            p0 = r.uniform(0.1, 1, S0.fields['gridSize'])
            w.update(S0=S0, lc0=[1.3 * c for c in S0.fields['latticeConstant']], p0=p0 / p0.sum(), t0=w['t'],
                     u0=[w['v0'] - 1, w['t'], w['v0'] + 1][i % 3], u1=w['v1'] + 2, vv=[[w['t'], w['v0']][i % 2]])
        return ws

    tail = [sym(x) for x in ('S', 'lc', 'off', 'p', 't')]
    rc = ctx.code('scen.forward_after', [P, seq(), mk('dict', string('value'), sym('v0'))] +
                  [sym(x) for x in ('S0', 'lc0', 'vv', 'p0', 't0')] + tail, objcls=oc)
    rr = ctx.spec('trans.ChangePoint', tail + [seq(sym('v0'))])
    ctx.equiv('ChangePoint after other use', rc, rr, worlds('cp'), site='ChangePoint', raises=False)
    for k in ('bb', 'cb'):
        rc = ctx.code('scen.serial_after', [S, B, P, string(k)] + [sym(x) for x in (
            'm0', 'm1', 'm2', 'u0', 'u1', 'S0', 'lc0', 'p0', 't0', 'v0', 'v1')] + tail, objcls=om)
        rr = ctx.spec('trans.serial_forward', [string(k)] + [sym(x) for x in ('m0', 'm1', 'm2', 'v0', 'v1')] + tail)
        ctx.equiv('Serial %s after other use' % k, rc, rr, worlds(k), site='SerialTransitionModel', raises=False)
    rc = ctx.code('scen.combined_after', [C] + [sym(x) for x in ('m0', 'm1', 'm2', 'S0', 'lc0', 'p0', 't0')] + tail,
                  objcls=om)
    rr = ctx.spec('trans.combined_forward', [sym(x) for x in ('m0', 'm1', 'm2')] + tail)
    ctx.equiv('Combined after other use', rc, rr, worlds('c'), site='CombinedTransitionModel', raises=False)
