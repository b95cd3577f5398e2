import numpy as np
from .. import worlds as W
from ..evalt import Obj, Fn, smooth
from ..terms import mk, seq, string
from ..compare import SEED, TIER

RULE = ('value graph of the result of computeForwardPrior/BackwardPrior of change-point, serial, combined and nested '
        'models (with arbitrary sub-models that see the study, grid spacing and time offset they were given), obtained '
        'by abstract interpretation of constructor and transformation, equals the graph of the definition')
MIN = 12
sym = lambda n: mk('sym', n)


def valuations(what, n):
    out = []
    for i in range(n):
        r = W.rng(SEED, 'c10', what, i)
        S = W.study(i, SEED, prior=['none', 'array', 'function'][i % 3], sizes=None)
        sizes = S.fields['gridSize']
        p = r.uniform(0.1, 1, sizes)
        p /= p.sum()
        v0 = int(r.randint(2, 5))
        v1 = v0 + int(r.randint(1, 4))
        t = [v0, v1, v0 - 1, v1 - 1, v0 + 1, v1 + 1, 0, v1 + 3][i % 8]
        t0 = [v0, 0, v1][i % 3]
        if i // 8 % 3 == 1:      # times need not be integers
            v0, v1 = v0 + 0.5, v1 + 0.25
        ms = {m: W.model(m, cls=('GaussianRandomWalk', 'TransitionModel')) for m in ('m0', 'm1', 'm2')}
        out.append(W.world(S=S, lc=list(S.fields['latticeConstant']), off=[0, 2][i % 2], p=p, t=t,
                           t0=t0, v0=v0, v1=v1,
                           kinds=['bb', 'bc', 'cb', 'cc'][(i // 8 + i) % 4], **ms, **{'#name': i}))
    return out


def check(ctx):
    n = 32 if TIER == 'quick' else 128
    oc = {sym('S'): 'Study'}
    om = dict(oc)
    for m in ('m0', 'm1', 'm2'):
        om[sym(m)] = 'GaussianRandomWalk'
    ctx.method('ChangePoint', 'computeForwardPrior')
    tail = [sym('S'), sym('lc'), sym('off'), sym('p'), sym('t')]
    for d in ('forward', 'backward'):
        rc = ctx.code('scen.' + d, [mk('cls', 'ChangePoint'), seq(), mk('dict', string('value'), sym('v0'))] + tail,
                      objcls=oc)
        rr = ctx.spec('trans.ChangePoint' + ('_back' if d == 'backward' else ''), tail + [seq(sym('v0'))])
        ctx.equiv('ChangePoint ' + d, rc, rr, valuations('cp' + d, n), site='ChangePoint', raises=False)
        S, C, B, P = [mk('cls', x) for x in ('SerialTransitionModel', 'CombinedTransitionModel', 'BreakPoint',
                                             'ChangePoint')]
        for k in ('bb', 'bc', 'cb', 'cc'):
            args = [string(k)] + [sym(x) for x in ('m0', 'm1', 'm2', 'v0', 'v1', 'S', 'lc', 'off', 'p', 't')]
            rc = ctx.code('scen.serial_' + d, [S, B, P] + args, objcls=om)
            rr = ctx.spec('trans.serial_' + d, args)
            ctx.equiv('Serial %s %s' % (k, d), rc, rr, valuations('s%s%s' % (k, d), n), site='SerialTransitionModel',
                      raises=False)
        args = [sym(x) for x in ('m0', 'm1', 'm2', 'S', 'lc', 'off', 'p', 't')]
        rc = ctx.code('scen.combined_' + d, [C] + args, objcls=om)
        rr = ctx.spec('trans.combined_' + d, args)
        ctx.equiv('Combined ' + d, rc, rr, valuations('c' + d, n), site='CombinedTransitionModel', raises=False)
        args = [sym(x) for x in ('m0', 'm1', 'm2', 'v0', 'v1', 'S', 'lc', 'p', 't')]
        rc = ctx.code('scen.nested_' + d, [S, C, B, P] + args, objcls=om)
        rr = ctx.spec('trans.nested_' + d, args)
        ctx.equiv('nested ' + d, rc, rr, valuations('n' + d, n), site='SerialTransitionModel', raises=False)
    args = [sym(x) for x in ('m0', 'm1', 'm2', 'v0', 'S', 'lc', 'p', 't')]
    rc = ctx.code('scen.nested2_forward', [S, C, B] + args, objcls=om)
    rr = ctx.spec('trans.nested2_forward', args)
    ctx.equiv('serial in combined', rc, rr, valuations('n2', n), site='CombinedTransitionModel', raises=False)
    args = [sym(x) for x in ('m0', 'm1', 'v0', 'S', 'lc', 'p', 't0', 't')]
    rc = ctx.code('scen.serial_twice', [S, B] + args, objcls=om)
    rr = ctx.spec('trans.serial_twice', args)
    ctx.equiv('serial, second call', rc, rr, valuations('twice', n), site='SerialTransitionModel', raises=False)
    # scale of the reset distribution (known finding: probabilities are multiplied by the cell volume)
    ws = valuations('scale', n)
    for w in ws:
        w['t'] = w['v0']
    rr = ctx.spec('trans.Independent', tail + [seq()])
    rc = ctx.code('scen.forward', [mk('cls', 'ChangePoint'), seq(), mk('dict', string('value'), sym('v0'))] + tail,
                  objcls=oc)
    ctx.equiv('ChangePoint reset scale', rc, rr, ws, site='ChangePoint.computeForwardPrior', raises=False)
    args = [string('cc')] + [sym(x) for x in ('m0', 'm1', 'm2', 'v0', 'v1', 'S', 'lc', 'off', 'p', 't')]
    rc = ctx.code('scen.serial_forward', [S, B, P] + args, objcls=om)
    ctx.equiv('Serial reset scale', rc, rr, ws, site='SerialTransitionModel.computeForwardPrior', raises=False)
