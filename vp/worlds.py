"""Random typed valuations of the leaves of value graphs."""
import zlib
import numpy as np
from .evalt import Obj, Opq, Fn, smooth, fingerprint, Undefined, fp_key


def rng(seed, *key):
    from .evalt import seed_of
    return np.random.RandomState(seed_of((seed,) + key) % (2 ** 32))


def flat(x):
    r = []
    for y in x:
        r.extend(flat(y)) if isinstance(y, (list, tuple)) else r.append(y)
    return r


def nested_index(lst, q):
    """path of q in a nested list (documented behaviour of recursiveIndex)"""
    for i, y in enumerate(lst):
        if isinstance(y, list):
            r = nested_index(y, q)
            if r:
                return [i] + r
        elif isinstance(y, str) and y == q:
            return [i]
    return []


FUN = {
    'helper.createColormap': lambda ev, a, k: Opq(('colormap', fp_key(a))),
    'lambdify': lambda ev, a, k: Opq(('lambdify', fp_key(a[0]), fp_key(a[1]))),
    'helper.flatten': lambda ev, a, k: flat(a[0]),
    'helper.recursiveIndex': lambda ev, a, k: nested_index(a[0], a[1]),
}


def law(ev, a, k):
    """transformation of a user-defined transition model"""
    way, key, p, t, lc, values, off = a
    return smooth((way, key), [p, t, lc, values, off], np.shape(p))



def points(f, x0, k):
    r = np.random.RandomState(zlib.crc32(repr(sorted(k.items())).encode()) % 2**31)
    x0 = [float(x) for x in x0]
    out = [x0] + [[x * (1 + 0.25 * s) for x, s in zip(x0, r.uniform(-1, 1, len(x0)))] for i in range(3)]
    return out


def bestpoint(ev, a, k):
    """one of a few points, the one with the smallest value"""
    f, x0 = a
    o = points(f, x0, k)
    return list(min(o, key=lambda x: float(f(*x))))


def lastpoint(ev, a, k):
    return points(a[0], a[1], k)[-1]


FUN['bestpoint'] = bestpoint
FUN['lastpoint'] = lastpoint
FUN['scen.law'] = FUN['hyper.law'] = FUN['points.law'] = FUN['online.law'] = law


def eff(o, kw, name):
    """field of a model object as seen by a method call: assigned before the call, or initial"""
    if '#' + name in kw:
        return kw['#' + name]
    return o.fields.get(name)


def studykey(s):
    return s.key if isinstance(s, (Obj, Opq)) else None


def m_pdf(ev, a, kw):
    o, grid, seg = a[0], a[1], a[2]
    z = ev.w.get('#zero')
    r = smooth(('pdf', o.key), [grid, seg], np.shape(grid[0]))
    if np.any(np.isnan(np.asarray(seg, dtype=float))):
        r = np.ones(np.shape(grid[0]))      # documented: missing values carry no information
    if z is not None and z(seg):
        r = np.zeros(np.shape(grid[0]))
    return r * ev.w.get('#scale', 1.)


def m_rawpdf(ev, a, kw):
    return smooth(('rawpdf', a[0].key), [a[1], a[2]], np.shape(a[1][0]))


def m_trans(name):
    def f(ev, a, kw):
        o, post, t = a[0], a[1], a[2]
        return smooth((name, o.key, studykey(eff(o, kw, 'study'))),
                      [post, t, eff(o, kw, 'latticeConstant'), eff(o, kw, 'tOffset'),
                       eff(o, kw, 'hyperParameterValues')], np.shape(post))
    return f


def m_estimate(ev, a, kw):
    o, name, raw = a[0], a[1], a[2]
    return float(smooth(('est', o.key, name), [raw], ())) + 0.3 * np.arange(4)


TRANS = {'computeForwardPrior': m_trans('fwd'), 'computeBackwardPrior': m_trans('bwd')}


def inputs(i, seed, prior='none', key='in', estimate=False, n=None, irregular=False, stamps=True, seg=None, tm=None,
           this='Study', names=None, sizes=None, missing=True, **extra):
    """i-th random set of user inputs: data, time stamps, observation model, transition model"""
    S = study(i, seed, key=key, prior=prior, n=n, seg=seg, regular_time=i % 3 != 2, names=names, sizes=sizes)
    f = S.fields
    vals = [m.copy() for m in f['marginalGrid']]
    if irregular and i % 2:
        vals[-1] = vals[-1] + 0.1 * np.arange(len(vals[-1])) ** 2
    if i % 5 == 3:
        vals[0] = vals[0][::-1].copy()
    if estimate and i % 2:
        vals[0] = None
    if missing and i % 4 == 2:
        f['rawData'][len(f['rawData']) - 2] = np.nan
    om = f['observationModel']
    om.fields['parameterValues'] = vals
    ts = f['rawTimestamps'] if stamps else None
    if stamps and i % 5 == 4:
        ts = ts[:-1] if i % 2 else list(ts)
    d = dict(data=f['rawData'], ts=ts, om=om, tm=tm or model('tm'), this=Obj(('inst', this), (this,), {}),
             **{'#name': '%s %d (prior %s)' % (key, i, prior)})
    # likelihoods are densities: their scale is arbitrary
    d['#scale'] = {5: 1e-5, 10: 1e4, 13: 1e-8}.get(i, 1.)
    d.update(extra)
    return d


def model(key, fields=None, cls=('TransitionModel',)):
    f = dict(__str__=key, hyperParameterNames=['h_' + key], hyperParameterValues=[0.37], prior=None, latticeConstant=None,
             study=None, tOffset=0, prior_=None)
    f.update(fields or {})
    return Obj(key, cls, f, dict(TRANS), absent=['*'])


def obsmodel(key, names, r, prior=None, seg=1, values=None, **extra):
    f = dict(parameterNames=list(names), segmentLength=seg, prior=prior, multiplyLikelihoods=False,
             parameterValues=values, name='obs', defaultParameters=True, __str__='obs')
    f.update(extra)
    return Obj(key, ('ObservationModel',), f, {'processedPdf': m_pdf, 'estimateParameterValues': m_estimate,
                                               'pdf': m_rawpdf},
               absent=['*'])


def irregular_axis(i, sizes):
    j = i // 2 % len(sizes) if len(sizes) else 0
    return j if i % 4 in (2, 3) and len(sizes) and sizes[j] > 2 else False


def grids(r, sizes, irregular=False):
    """irregular: index of a parameter with categorical values, or False"""
    marg, lc = [], []
    for j, n in enumerate(sizes):
        a = r.uniform(0.2, 1.0)
        d = r.uniform(0.3, 0.8)
        if irregular is not False and irregular == j:
            marg.append(a + np.cumsum(r.uniform(0.3, 0.8, n)))
            lc.append(1)
            continue
        marg.append(a + d * np.arange(n))
        lc.append(float(d))
    grid = [np.array(g) for g in np.meshgrid(*marg, indexing='ij')] if len(sizes) else []
    return marg, grid, lc


def study(i, seed, key='S', cls='Study', names=None, sizes=None, n=None, seg=None, prior='none', regular_time=True,
          tm=None, **extra):
    """i-th random study"""
    r = rng(seed, key, i)
    if names is None:
        names = ['beta', 'alpha', 'gamma'][:1 + i % 3]
    if sizes is None:
        sizes = [3, 4, 2][:len(names)] if i % 2 == 0 else [4, 3, 5][:len(names)]
    if seg is None:
        seg = 1 + (i // 2) % 2
    if n is None:
        n = 4 + i % 3
    marg, grid, lc = grids(r, sizes, irregular_axis(i, sizes))
    data = np.round(r.uniform(0.5, 3, n), 3)
    ts = np.arange(n) + (0 if i % 2 else 5) if regular_time else np.cumsum(r.randint(1, 4, n))
    pr = None
    if prior == 'array':
        pr = r.uniform(0.2, 1, sizes)
    elif prior == 'function':
        pr = Fn(('prior', i), lambda *a: smooth(('userprior', i), [list(a)], np.shape(a[0])))
    elif prior == 'constant':
        pr = Fn(('prior1', i), lambda *a: 1.0)
    elif prior == 'sympy':
        pr = [rv('rv%d' % j) for j in range(len(names))]
        if len(names) == 1 and i % 2:
            pr = pr[0]
    elif prior == 'badshape':
        pr = r.uniform(0.2, 1, [s + 1 for s in sizes])
    elif prior == 'badcount':
        pr = [rv('rv%d' % j) for j in range(len(names) + 1)]
    elif prior == 'badkind':
        pr = [1.0 for j in range(len(names))]
    elif prior == 'free':
        pr = [rv('rv%d' % j, free=('q',) if j == len(names) - 1 else ()) for j in range(len(names))]
    om = obsmodel('om', names, r, pr, seg)
    f = dict(rawData=data, rawTimestamps=ts, observationModel=om, transitionModel=tm or model('tm'), grid=grid,
             gridSize=list(sizes), latticeConstant=lc, marginalGrid=marg, boundaries=[[m[0], m[-1]] for m in marg],
             fitWarningCounter=0, formattedData=data, formattedTimestamps=ts, selectedHyperParameters=[],
             parser=Opq('parser'), posteriorSequence=[], posteriorMeanValues=[], logEvidence=0,
             localEvidence=[])
    f['parameterNames'] = list(names)
    f.update(extra)
    S = Obj(key, MRO.get(cls, (cls,)), f, absent=['*'])
    return S


MRO = {'Study': ('Study',), 'HyperStudy': ('HyperStudy', 'Study'),
       'ChangepointStudy': ('ChangepointStudy', 'HyperStudy', 'Study'),
       'OnlineStudy': ('OnlineStudy', 'HyperStudy', 'Study')}


def rv(key, free=()):
    d = Obj(key + '.dist', ('Distribution',), dict(free_symbols=frozenset(free)), absent=['*'])
    a1 = Obj(key + '.a1', ('SymbolArg',), dict(distribution=d), absent=['*'])
    return Obj(key, ('RandomSymbol',), dict(_sorted_args=[a1, a1]), absent=['*'])


def fitted(i, seed, cls='Study', T=None, **kw):
    """study with the results of a fit"""
    S = study(i, seed, cls=cls, **kw)
    f = S.fields
    r = rng(seed, 'fit', i)
    seg = f['observationModel'].fields['segmentLength']
    n = len(f['rawData']) - seg + 1
    p = r.uniform(0.1, 1, [n] + f['gridSize'])
    p = p / p.reshape(n, -1).sum(1).reshape([n] + [1] * len(f['gridSize']))
    f['posteriorSequence'] = p
    f['formattedTimestamps'] = np.asarray(f['rawTimestamps'])[seg - 1:]
    f['formattedData'] = np.array([f['rawData'][j:j + seg] for j in range(n)])
    f['posteriorMeanValues'] = np.array([[np.sum(p[t] * g) for t in range(n)] for g in f['grid']])
    f['logEvidence'] = float(r.uniform(-9, -2))
    f['localEvidence'] = r.uniform(0.2, 1, n)
    return S


def hyper_fields(r, i, names, single=True):
    """values, grid, constants, distribution of a hyper-study"""
    vals, const = [], []
    for j, nm in enumerate(names):
        k = [3, 4, 2][(i + j) % 3]
        if j % 2 == 0:
            d = float(r.uniform(0.3, 1.5))
            vals.append(r.uniform(0, 1) + d * np.arange(k))
            const.append(d)
        else:
            vals.append(np.cumsum(r.uniform(0.2, 1.0, k)))
            const.append(1 if k > 2 else float(vals[-1][1] - vals[-1][0]))
    mesh = np.meshgrid(*vals, indexing='ij')
    hv = np.array([m.ravel() for m in mesh]).T
    d = r.uniform(0.1, 1, len(hv))
    d = d / np.sum(d) / np.prod(const)
    return vals, np.array(const), hv, d


def queried(i, seed, tag, cls):
    """study of any kind after inference"""
    S = fitted(i, seed, cls=cls)
    f = S.fields
    r = rng(seed, tag, i)
    if cls == 'HyperStudy':
        names = ['h1', 'h0', 'h2', 'h3'][:2 + i % 3]
        vals, const, hv, d = hyper_fields(r, i, names)
        f['transitionModel'] = model('tm', dict(hyperParameterNames=names, hyperParameterValues=list(vals)))
        f.update(flatHyperParameters=list(vals), flatHyperParameterNames=names, hyperGridConstant=const,
                 hyperGridValues=hv, hyperParameterDistribution=d)
    elif cls == 'ChangepointStudy':
        n = 2 + i % 2
        names = ['t1', 't0', 't2'][:n]
        d = [1., 1., 0.5][i % 3]
        vals = [d * (np.arange(4) + (j if i % 2 else 0)) for j in range(n)]
        mesh = np.meshgrid(*vals, indexing='ij')
        allv = np.array([m.ravel() for m in mesh]).T
        mask = np.all(allv[:, 1:] > allv[:, :-1], axis=1)
        p = r.uniform(0.1, 1, len(allv)) * mask
        const = np.array([d] * n)
        f['transitionModel'] = model('tm', dict(hyperParameterNames=names, hyperParameterValues=list(vals)))
        f.update(flatHyperParameters=list(vals), flatHyperParameterNames=names, hyperGridConstant=const,
                 hyperGridValues=allv[mask], allHyperGridValues=allv,
                 hyperParameterDistribution=p / p.sum() / np.prod(const))
    elif cls == 'OnlineStudy':
        T = len(f['formattedTimestamps'])
        tms, hn, vs, cs, hvs = [], [], [], [], []
        for k in range(1 + i % 3):
            names = [['a', 'b'], ['c'], ['e', 'd', 'f']][(k + i) % 3]
            vals, const, hv, d = hyper_fields(r, i + k, names)
            tms.append(model('tm%d' % k, dict(hyperParameterNames=names, hyperParameterValues=list(vals))))
            hn.append(names)
            vs.append(list(vals))
            cs.append(const)
            hvs.append(hv)

        def dist():
            o = []
            for k in range(len(tms)):
                d = r.uniform(0.1, 1, len(hvs[k]))
                o.append(d / d.sum() / np.prod(cs[k]))
            return o

        def probs():
            d = r.uniform(0.1, 1, len(tms))
            return d / d.sum()
        hseq = [dist() for t in range(T)]
        tseq = [probs() for t in range(T)]
        lseq = [probs() for t in range(T)]
        p = f['posteriorSequence']
        f.update(transitionModels=tms, hyperParameterNames=hn, allFlatHyperParameterValues=vs, hyperGridConstants=cs,
                 hyperParameterValues=hvs, transitionModelNames=['model %d' % k for k in range(len(tms))],
                 storeHistory=True, formattedTimestamps=list(f['formattedTimestamps']),
                 posteriorSequence=list(p), marginalizedPosterior=p[-1].copy(),
                 posteriorMeanValues=list(f['posteriorMeanValues'].T), hyperParameterSequence=hseq,
                 transitionModelSequence=tseq, localTransitionModelSequence=lseq,
                 hyperParameterDistribution=[x.copy() for x in hseq[-1]], transitionModelDistribution=tseq[-1].copy(),
                 localTransitionModelDistribution=lseq[-1].copy(), transitionModel=tms[-1])
    return S


def world(**syms):
    w = dict(syms)
    w.setdefault('#fun', FUN)
    return w
