import numpy as np
from .. import worlds as W, terms as T
from ..terms import mk, TRUE, FALSE
from ..compare import TIER, SEED
from ..evalt import Obj

RULE = ('value graph of the result of every query method, with the stored state of the study as free variables, equals '
        'the graph of the definition (sum over exactly the other axes, values of the requested parameter, densities '
        'divided by its spacing), for several numbers and orders of parameters, times and time averages')
MIN = 24
sym = lambda n: mk('sym', n)


def worlds(tag, n, cls):
    out = []
    for i in range(n):
        S = W.queried(i, SEED, tag, cls)
        f = S.fields
        names = f['observationModel'].fields['parameterNames']
        ts = list(f['formattedTimestamps'])
        w = dict(S=S, t=ts[(i * 2 + 1) % len(ts)] if i % 4 != 3 else 'avg', name=names[(i // 2) % len(names)],
                 density=bool(i % 2), local=bool(i % 3 % 2), x=np.array([0.3, 0.9, 1.4]),
                 ts=None if i % 5 == 4 else ts[i % len(ts)])
        if cls == 'OnlineStudy':
            hn = [x for h in f['hyperParameterNames'] for x in h]
            w['tname'] = f['transitionModelNames'][i % len(f['transitionModelNames'])]
            w['tt'] = ts[i % len(ts)]
        else:
            hn = f.get('flatHyperParameterNames') or ['']
        w['hname'] = hn[i % len(hn)]
        w['hname2'] = hn[(i + 1 + (i // 3) % max(len(hn) - 1, 1)) % len(hn)]
        out.append(W.world(**w, **{'#name': i}))
    return out


Q = [
    ('Study', 'getParameterDistribution', ['t', 'name'], ['density'], 'distribution'),
    ('Study', 'getParameterDistributions', ['name'], ['density'], 'distributions'),
    ('Study', 'getParameterMeanValues', ['name'], [], 'means'),
    ('Study', 'simulate', ['x'], ['ts', 'density'], 'simulate'),
    ('HyperStudy', 'getParameterDistribution', ['t', 'name'], ['density'], 'distribution'),
    ('HyperStudy', 'getHyperParameterDistribution', ['hname'], [], 'hyper_distribution'),
    ('HyperStudy', 'getJointHyperParameterDistribution', ['names'], [], 'joint_distribution'),
    ('ChangepointStudy', 'getHyperParameterDistribution', ['hname'], [], 'hyper_distribution'),
    ('ChangepointStudy', 'getDurationDistribution', ['names'], [], 'duration'),
    ('OnlineStudy', 'getCurrentParameterDistribution', ['name'], ['density'], 'current'),
    ('OnlineStudy', 'getParameterDistribution', ['t', 'name'], ['density'], 'past'),
    ('OnlineStudy', 'getParameterDistributions', ['name'], ['density'], 'pasts'),
    ('OnlineStudy', 'getCurrentParameterMeanValue', ['name'], [], 'current_mean'),
    ('OnlineStudy', 'getParameterMeanValue', ['tt', 'name'], [], 'past_mean'),
    ('OnlineStudy', 'getParameterMeanValues', ['name'], [], 'past_means'),
    ('OnlineStudy', 'getHyperParameterDistribution', ['t', 'hname'], [], 'online_hyper'),
    ('OnlineStudy', 'getCurrentHyperParameterDistribution', ['hname'], [], 'online_hyper_current'),
    ('OnlineStudy', 'getHyperParameterDistributions', ['hname'], [], 'online_hypers'),
    ('OnlineStudy', 'getHyperParameterMeanValue', ['tt', 'hname'], [], 'online_hyper_mean'),
    ('OnlineStudy', 'getHyperParameterMeanValues', ['hname'], [], 'online_hyper_means'),
    ('OnlineStudy', 'getCurrentTransitionModelDistribution', [], ['local'], 'tm_current'),
    ('OnlineStudy', 'getCurrentTransitionModelProbability', ['tname'], ['local'], 'tm_probability'),
    ('OnlineStudy', 'getTransitionModelDistributions', [], ['local'], 'tm_all'),
    ('OnlineStudy', 'getTransitionModelProbabilities', ['tname'], ['local'], 'tm_probabilities'),
]


def arg(a):
    return T.seq(sym('hname'), sym('hname2')) if a == 'names' else sym(a)


def pos(v, k):
    return T.idx(v, T.num(k))


def check(ctx):
    n = 16 if TIER == 'quick' else 96
    for cls, meth, args, kw, ref in Q:
        f = ctx.method(cls, meth)
        S = sym('S')
        a = [arg(x) for x in args]
        k = {('t' if x == 'ts' else x): sym(x) for x in kw}
        rc = ctx.code(f.qual, [S] + a, k, objcls={S: cls}, inline=[f.qual])
        rr = ctx.spec('query.' + ref, [S] + a + [sym(x) for x in kw])
        ws = worlds('%s.%s' % (cls, meth), n, cls)
        ctx.equiv('%s.%s' % (cls, meth), rc, rr, ws, site=f.qual, raises=False)
