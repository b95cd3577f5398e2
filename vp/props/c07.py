from . import fitcommon as F
from .. import worlds as W, terms as T
from ..terms import TRUE, FALSE
from ..compare import TIER, SEED

RULE = ('value graphs of evidence and posterior of a fit, for each form of the prior (none, array, function, constant '
        'function, SymPy variables), equal those obtained with the prior density of the definition; the condition under '
        'which the fit rejects a prior equals the definition for wrong shape, number, kind and free symbols')
MIN = 8


def check(ctx):
    n = 6 if TIER == 'quick' else 40
    ctx.method('Study', 'fit')
    rc, rr = F.code(ctx, TRUE, FALSE), F.spec(ctx, TRUE, FALSE)
    for p in ('none', 'array', 'function', 'constant', 'sympy'):
        F.compare(ctx, 'prior ' + p, rc, rr, F.worlds('c07' + p, n, True, False, prior=p), (0, 3))
    for p in ('none', 'array', 'function', 'constant', 'sympy', 'badshape', 'badcount', 'badkind', 'free'):
        ws = F.worlds('c07' + p, n, True, False, prior=p)
        ctx.same('prior %s rejection' % p, rc.raisecond('ConfigurationError'), rr.raisecond(), ws, None, 'Study.fit')
