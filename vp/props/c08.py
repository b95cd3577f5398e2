import numpy as np
from . import fitcommon as F
from .. import worlds as W, terms as T
from ..terms import mk, TRUE, FALSE
from ..compare import TIER, SEED

RULE = ('value graphs of parameter values, sizes, boundaries, lattice constants, grids and the lattice constant of the '
        'transition model after setObservationModel equal the definition, for both orders of setting the models and '
        'when the observation model is replaced; value graphs of oint and cint equal the definition')
MIN = 20
sym = F.sym
NAMES = ['parameter values', 'sizes', 'boundaries', 'lattice constants', 'grid', 'lattice constant of transition model',
         'observation model', 'study of transition model']


def check(ctx):
    n = 12 if TIER == 'quick' else 60
    ctx.method('Study', 'setObservationModel')
    ws = []
    for i in range(n):
        w = W.inputs(i, SEED, key='c08', estimate=i % 3 == 1, irregular=True)
        w['om0'] = W.inputs(i + 1, SEED, key='c08b', irregular=True)['om']
        w['om0'].key = 'om0'
        if i % 4 == 3:     # values of small scale
            f = w['om'].fields
            f['parameterValues'] = [None if v is None else np.asarray(v) * 1e-4 for v in f['parameterValues']]
        ws.append(W.world(**w))
    C = mk('cls', 'Study')
    for what, sc, args in (('observation model first', 'setom', [sym('data'), sym('om'), sym('tm'), FALSE]),
                           ('transition model first', 'setom', [sym('data'), sym('om'), sym('tm'), TRUE]),
                           ('replaced', 'setom_twice', [sym('data'), sym('om0'), sym('om'), sym('tm')])):
        rc = ctx.code('scen.' + sc, [C] + args)
        rr = ctx.spec('study.' + sc, [sym('this')] + args)
        for k, nm in enumerate(NAMES):
            ctx.same('%s: %s' % (what, nm), T.idx(rc.retc, T.num(k)), T.idx(rr.retc, T.num(k)), ws, None,
                     'Study.setObservationModel')
    for f in ('oint', 'cint'):
        ws = []
        for i in range(10):
            r = W.rng(SEED, f, i)
            ws.append(W.world(a=float(r.uniform(-3, 1)), b=float(r.uniform(1.5, 4)), n=2 + i))
        ctx.func('helper.' + f)
        a = [sym('a'), sym('b'), sym('n')]
        ctx.equiv(f, ctx.code('helper.' + f, a), ctx.spec('study.' + f, a), ws, site='helper.' + f)
