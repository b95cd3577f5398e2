"""Runs of the standard fit, shared by several properties."""
from .. import worlds as W, terms as T
from ..terms import mk, TRUE, FALSE
from ..compare import SEED, TIER

sym = lambda n: mk('sym', n)
FIELDS = ['log-evidence', 'log10-evidence', 'local evidence', 'posteriors', 'mean values', 'time stamps', 'segments']


def worlds(tag, n, fo=None, eo=None, **kw):
    out = []
    for i in range(n):
        k = dict(kw)
        k.setdefault('prior', ['none', 'array', 'function', 'constant'][i % 4])
        w = W.inputs(i, SEED, key=tag, **k)
        w.update(fo=bool((i // 2) % 2) if fo is None else fo, eo=bool(i % 2) if eo is None else eo, silent=True)
        out.append(W.world(**w))
    return out


def code(ctx, fo, eo):
    return ctx.code('scen.fit', [mk('cls', 'Study')] + [sym(x) for x in ('data', 'ts', 'om', 'tm')] +
                    [fo, eo, TRUE])


def spec(ctx, fo, eo):
    return ctx.spec('study.fit', [sym(x) for x in ('this', 'data', 'ts', 'om', 'tm')] + [fo, eo])


def compare(ctx, name, rc, rr, ws, which, site='Study.fit'):
    guard = T.bnot(rr.raisecond())
    for k in which:
        ctx.same('%s: %s' % (name, FIELDS[k]), T.idx(rc.retc, T.num(k)), T.idx(rr.retc, T.num(k)), ws, guard, site)
