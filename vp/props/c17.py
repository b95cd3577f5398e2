import numpy as np
from .. import worlds as W, terms as T
from ..evalt import Obj, smooth
from ..terms import mk, seq, string, TRUE, FALSE
from ..compare import SEED, TIER
from . import fitcommon as F
from .c18 import MODELS, SEG

RULE = ('value graph of processedPdf (for a generic model and for every built-in model with its own likelihood) equals the '
        'definition: ones for a segment with missing values, product over dimensions for independent dimensions; fits '
        'and online steps obtain every likelihood through it')
MIN = 10
sym = F.sym


def valuations(cls, k, n):
    out = []
    for i in range(n):
        r = W.rng(SEED, 'c17', cls, i)
        sizes = [3, 4][:k]
        grid = [r.uniform(0.1, 0.9, sizes) for _ in range(k)]
        L = SEG.get(cls, 1) if cls else 1 + i % 2
        nd = [None, 1, 2, 3][(i // 2) % 4]
        if cls == 'GaussianMean':
            nd = 2
        shape = (L,) if nd is None else (L, nd)
        seg = r.uniform(-2, 2, shape)
        if cls in ('Bernoulli', 'Poisson'):
            seg = r.randint(0, 2, shape).astype(float)
        if i % 3:
            seg.flat[int(r.randint(seg.size))] = np.nan
        if i % 7 == 6:
            seg[:] = np.nan
        ml = bool(i % 2) if cls is None else cls != 'GaussianMean'
        m = Obj('m', (cls or 'Gaussian',), dict(multiplyLikelihoods=ml), {'pdf': W.m_rawpdf})
        out.append(W.world(m=m, grid=grid, seg=seg, va=np.linspace(0, 1, 3), vb=np.linspace(1, 2, 3), **{'#name': i}))
    return out


def check(ctx):
    n = 16 if TIER == 'quick' else 100
    f = ctx.method('Gaussian', 'processedPdf')
    args = [sym('m'), sym('grid'), sym('seg')]
    rc = ctx.code(f.qual, args, objcls={sym('m'): 'Gaussian'}, inline=[f.qual])
    rr = ctx.spec('obs.processedPdf', args)
    ctx.equiv('processed likelihood', rc, rr, valuations(None, 2, n), site=f.qual)
    for cls, k in MODELS.items():
        ctx.method(cls, 'processedPdf')
        a = [string('a'), sym('va'), string('b'), sym('vb')][:2 * k]
        rc = ctx.code('scen.processed', [mk('cls', cls), seq(*a), mk('dict'), sym('grid'), sym('seg')])
        rr = ctx.spec('obs.processed_builtin', [mk('fun', 'obs.%s_pdf' % cls), FALSE if cls == 'GaussianMean' else TRUE,
                                                sym('grid'), sym('seg')])
        ctx.equiv('%s processed likelihood' % cls, rc, rr, valuations(cls, k, n), site=cls)
    # the fit uses it
    for name, fo, eo in (('evidence only', FALSE, TRUE), ('full', FALSE, FALSE)):
        F.compare(ctx, 'fit (%s)' % name, F.code(ctx, fo, eo), F.spec(ctx, fo, eo),
                  F.worlds('c17', 6, fo is TRUE, eo is TRUE), (0,) if eo is TRUE else (2, 3))
