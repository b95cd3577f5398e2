import numpy as np
from .. import worlds as W, terms as T, collect
from ..terms import mk, TRUE, FALSE, bnot, band, bor, num
from ..compare import SEED, TIER, evaluate
from ..evalt import Undefined
from . import c02, c11, c12, c13, c21, c27, fitcommon

RULE = ('in valuations where all parameter values have zero probability at some step of the forward or backward pass the graph '
        'of the log-evidence is minus infinity and a warning is reached; combinations of zero evidence have weight zero in the '
        'graphs of averaged posterior and hyper-parameter distribution; no observable graph of any analysed call sequence '
        'depends on the contents of an uninitialised array')
MIN = 60
sym = lambda n: mk('sym', n)


def zeros(i, w):
    """likelihood or transformations that vanish at some step"""
    k = i % 6
    n = len(w['data'])
    d = w['data']
    if k == 0:
        w['#zero'] = lambda seg: float(np.ravel(seg)[-1]) == float(d[n - 1])
    elif k == 1:
        w['#zero'] = lambda seg: float(np.ravel(seg)[-1]) == float(d[n // 2])
    elif k == 2:
        w['#zero'] = lambda seg: True
    elif k == 3:
        w['#trans'] = lambda way, t, values: 0. if way == 'fwd' and i % 4 < 3 else 1.
    elif k == 4:
        w['#trans'] = lambda way, t, values: 0. if way == 'bwd' else 1.
    return w


def law(ev, a, k):
    way, key, p, t, lc, values, off = a
    r = W.law(ev, a, k)
    z = ev.w.get('#trans')
    return r if z is None else r * z(way, t, values)


FUN = dict(W.FUN)
FUN.update({x + '.law': law for x in ('scen', 'hyper', 'points', 'online')})


def worlds(n):
    ws = fitcommon.worlds('c26', n)
    out = []
    for i, w in enumerate(ws):
        w = zeros(i, dict(w))
        z = w.get('#trans')
        if z is not None:
            for name, way in (('computeForwardPrior', 'fwd'), ('computeBackwardPrior', 'bwd')):
                f = W.TRANS[name]
                w['tm'].methods[name] = (lambda f, way, z: lambda ev, a, kw: f(ev, a, kw) * z(way, a[2], None))(f, way, z)
        w['#scale'] = 1e-7 if i % 6 == 5 else 1.
        w['#name'] = '%s, zero case %d' % (w['#name'], i % 6)
        out.append(w)
    return out


def hyperworlds(tag, n):
    out = []
    for i, w in enumerate(c12.worlds('c26' + tag, n)):
        w = dict(w)
        v = w['v0']
        first = float(np.ravel(v)[0])
        if i % 4 == 3:
            w['#zero'] = lambda seg: True
        else:
            way = ['fwd', 'bwd', 'fwd'][i % 3]
            w['#trans'] = (lambda first, way, i: lambda wy, t, values: 0. if wy == way and np.size(values) and float(
                np.ravel(values)[0]) == first else 1.)(first, way, i)
        w['#fun'] = FUN
        w['#scale'] = 1.
        out.append(w)
    return out


def check(ctx):
    n = 18 if TIER == 'quick' else 72
    for mode, fo, eo in (('full', FALSE, FALSE), ('forward only', TRUE, FALSE), ('evidence only', FALSE, TRUE)):
        ws = worlds(n)
        rc = fitcommon.code(ctx, fo, eo)
        rr = ctx.spec('study.impossible', [sym(x) for x in ('this', 'data', 'ts', 'om', 'tm')] + [fo, eo])
        guard = bnot(rr.raisecond())
        ctx.same('fit (%s): log-evidence' % mode, T.idx(rc.retc, num(0)), T.idx(rr.retc, num(0)), ws, guard, 'Study.fit')
        if not rc.failed:
            es = [e for e in rc.events if e.kind in ('print', 'warn') and (e.kind == 'warn' or c21.warning(e, []))]
            c = FALSE
            for e in es:
                c = bor(c, e.pc)
            loop = any(x.op in ('ix', 'mu', 'bv') for x in T.subterms(c))
            if not loop:
                ctx.same('fit (%s): warning' % mode, band(c, T.idx(rr.retc, num(1))), T.idx(rr.retc, num(1)), ws, guard,
                         'Study.fit')
            else:
                ctx.rule('fit (%s): warning' % mode, bool(es), 'no warning is printed in Study.fit', 'Study.fit')
            uninitialised(ctx, 'fit (%s)' % mode, rc, ws, 'Study.fit')
    for f in ('one', 'two'):
        for fo, eo in ((FALSE, FALSE), (TRUE, FALSE), (FALSE, TRUE)):
            if f == 'two' and fo is TRUE:
                continue
            mode = 'forward only' if fo is TRUE else 'evidence only' if eo is TRUE else 'full'
            rc = ctx.code('scen.hyperfit_' + f, c12.args(ctx, 'scen.hyperfit_' + f, fo, eo), opaque=['scen.law'])
            rr = ctx.spec('hyper.zero_' + f, c12.args2(ctx, 'hyper.zero_' + f, fo, eo), opaque=['hyper.law'])
            ws = hyperworlds(f, 8 if TIER == 'quick' else 40)
            judge(ctx, 'hyper-study of %s (%s)' % (f, mode), rc, rr, ws, eo, 'HyperStudy.fit')
    rc = ctx.code('scen.parallel_one', [num(2) if x is sym('jobs') else x for x in
                                        c12.args(ctx, 'scen.parallel_one', FALSE, FALSE)], opaque=['scen.law'])
    rr = ctx.spec('hyper.zero_one', c12.args2(ctx, 'hyper.zero_one', FALSE, FALSE), opaque=['hyper.law'])
    judge(ctx, 'parallel hyper-study', rc, rr, hyperworlds('p', 8), FALSE, 'HyperStudy._parallelFit')
    for k, r in enumerate(collect.runs(ctx, ['c04', 'c06', 'c08', 'c09', 'c10', 'c11', 'c15', 'c16', 'c17', 'c24'])):
        uninitialised(ctx, '%s %s (run %d of %s)' % (r.qual, r.name, k, r.mod), r.rc, r.worlds, r.qual)


def judge(ctx, name, rc, rr, ws, eo, site):
    guard = bnot(rr.raisecond())
    ctx.same(name + ': log-evidence', T.idx(rc.retc, num(0)), T.idx(rr.retc, num(0)), ws, guard, site)
    finite = band(guard, T.gt(T.idx(rr.retc, num(0)), mk('call', 'minus infinity')) if False else guard)
    if eo is not TRUE:
        ctx.same(name + ': average posterior', T.idx(rc.retc, num(3)), T.idx(rr.retc, num(1)), ws, finite, site, eq=given)
    ctx.same(name + ': hyper-parameter distribution', T.idx(rc.retc, num(5)), T.idx(rr.retc, num(2)), ws, finite, site,
             eq=given)
    uninitialised(ctx, name, rc, ws, site)


def given(x, y):
    """nothing is specified if all combinations are impossible or there is only one"""
    from ..evalt import same
    return True if np.size(y) == 0 else same(x, y)


def uninitialised(ctx, name, rc, ws, site):
    if rc.failed:
        ctx.same(name + ': uninitialised', rc.retc, T.NONE, ws)
        return
    n = 0
    for what, t in c27.observables(rc):
        if any(x.op == 'empty' for x in T.subterms(t)):
            n += 1
            ctx.same('%s: %s does not depend on uninitialised memory' % (name, what), t, t, ws,
                     bnot(rc.raisecond()) if rc.raises else None, site, force=True)
    if not n:
        ctx.rule(name + ': no uninitialised array is observable', True, '', site)
