"""Reference definitions of the reported distributions."""
import numpy as np


class PostProcessingError(Exception):
    pass


def marginal(dist, j):
    """sum over all axes but j"""
    n = np.ndim(dist)
    for k in range(n):
        if n - 1 - k != j:
            dist = np.sum(dist, axis=n - 1 - k)
    return dist


def marginal2(dist, i, j):
    """sum over all axes but i and j, first axis of the result: i"""
    n = np.ndim(dist)
    for k in range(n):
        if n - 1 - k != j and n - 1 - k != i:
            dist = np.sum(dist, axis=n - 1 - k)
    if i > j:
        return dist.T
    return dist


def parameter(S, name):
    names = S.observationModel.parameterNames
    if name not in names:
        raise PostProcessingError('name')
    return names.index(name)


def time(S, t):
    ts = list(S.formattedTimestamps)
    if t not in ts:
        raise PostProcessingError('time')
    return ts.index(t)


def distribution(S, t, name, density):
    if len(S.posteriorSequence) == 0:
        raise PostProcessingError('not fitted')
    if t == 'avg':
        dist = np.mean(S.posteriorSequence, axis=0)
    else:
        dist = S.posteriorSequence[time(S, t)]
    j = parameter(S, name)
    p = marginal(dist, j)
    if density:
        p = p / S.latticeConstant[j]
    return [S.marginalGrid[j], p]


def distributions(S, name, density):
    if len(S.posteriorSequence) == 0:
        raise PostProcessingError('not fitted')
    j = parameter(S, name)
    p = np.array([marginal(x, j) for x in S.posteriorSequence])
    if density:
        p = p / S.latticeConstant[j]
    return [S.marginalGrid[j], p]


def current(S, name, density):
    j = parameter(S, name)
    p = marginal(S.marginalizedPosterior, j)
    if density:
        p = p / S.latticeConstant[j]
    return [S.marginalGrid[j], p]


def means(S, name):
    return S.posteriorMeanValues[parameter(S, name)]


def simulate(S, x, t, density):
    if t is None:
        dist = np.mean(S.posteriorSequence, axis=0)
    else:
        dist = S.posteriorSequence[time(S, t)]
    p = np.array([np.sum(dist * S.observationModel.pdf(S.grid, [xi])) for xi in x])
    if density:
        return p
    return p / np.sum(p)


# ------------------------------------------------------------------------------------------------ hyper-studies
def hyper(S, name):
    if name not in S.flatHyperParameterNames:
        raise PostProcessingError('name')
    return S.flatHyperParameterNames.index(name)


def size(values):
    if isinstance(values, (int, float)):
        return 1
    return len(values)


def hyper_joint(dist, values, constants):
    """probabilities on the hyper-parameter grid"""
    return np.reshape(dist, [size(v) for v in values]) * np.prod(constants)


def hyper_distribution(S, name):
    if len(S.hyperGridValues) < 2:
        raise PostProcessingError('one combination')
    j = hyper(S, name)
    p = hyper_joint(S.hyperParameterDistribution, S.flatHyperParameters, S.hyperGridConstant)
    return [S.flatHyperParameters[j], marginal(p, j)]


def joint_distribution(S, names):
    if len(S.hyperGridValues) < 2:
        raise PostProcessingError('one combination')
    i = hyper(S, names[0])
    j = hyper(S, names[1])
    p = hyper_joint(S.hyperParameterDistribution, S.flatHyperParameters, S.hyperGridConstant)
    return [S.flatHyperParameters[i], S.flatHyperParameters[j], marginal2(p, i, j)]


def duration(S, names):
    i = hyper(S, names[0])
    j = hyper(S, names[1])
    if i > j:
        i, j = j, i
    d = np.unique([v[j] - v[i] for v in S.hyperGridValues])
    p = np.array([sum([S.hyperParameterDistribution[k] for k in range(len(S.allHyperGridValues))
                       if abs(S.allHyperGridValues[k][j] - S.allHyperGridValues[k][i] - x) < 1e-9]) for x in d])
    return [d, p / np.sum(p)]


# ------------------------------------------------------------------------------------------------ online studies
def history(S):
    if not S.storeHistory:
        raise PostProcessingError('no history')


def past(S, t, name, density):
    history(S)
    return distribution(S, t, name, density)


def pasts(S, name, density):
    history(S)
    return distributions(S, name, density)


def current_mean(S, name):
    j = parameter(S, name)
    return np.sum(S.marginalizedPosterior * S.grid[j])


def past_mean(S, t, name):
    history(S)
    j = parameter(S, name)
    return np.sum(S.posteriorSequence[time(S, t)] * S.grid[j])


def past_means(S, name):
    history(S)
    j = parameter(S, name)
    return [m[j] for m in S.posteriorMeanValues]


def tm(S, name):
    """[transition model, hyper-parameter] of that name"""
    for i in range(len(S.hyperParameterNames)):
        if name in S.hyperParameterNames[i]:
            return [i, S.hyperParameterNames[i].index(name)]
    raise PostProcessingError('name')


def online_marginal(S, dist, m, j):
    p = hyper_joint(dist, S.allFlatHyperParameterValues[m], S.hyperGridConstants[m])
    return [S.allFlatHyperParameterValues[m][j], marginal(p, j)]


def online_hyper(S, t, name):
    history(S)
    m, j = tm(S, name)
    if t == 'avg':
        dist = np.mean([h[m] for h in S.hyperParameterSequence], axis=0)
    else:
        dist = S.hyperParameterSequence[time(S, t)][m]
    return online_marginal(S, dist, m, j)


def online_hyper_current(S, name):
    m, j = tm(S, name)
    return online_marginal(S, S.hyperParameterDistribution[m], m, j)


def online_hypers(S, name):
    history(S)
    m, j = tm(S, name)
    values = np.unique(S.allFlatHyperParameterValues[m][j])
    p = [online_marginal(S, h[m], m, j)[1] for h in S.hyperParameterSequence]
    return [values, p]


def online_hyper_mean(S, t, name):
    history(S)
    x, p = online_hyper(S, t, name)
    return np.sum(x * p)


def online_hyper_means(S, name):
    history(S)
    m, j = tm(S, name)
    r = []
    for h in S.hyperParameterSequence:
        x, p = online_marginal(S, h[m], m, j)
        r.append(np.sum(x * p))
    return r


def tm_current(S, local):
    return [S.transitionModelNames, S.localTransitionModelDistribution if local else S.transitionModelDistribution]


def tm_probability(S, name, local):
    k = S.transitionModelNames.index(name)
    return S.localTransitionModelDistribution[k] if local else S.transitionModelDistribution[k]


def tm_all(S, local):
    history(S)
    return [S.transitionModelNames, S.localTransitionModelSequence if local else S.transitionModelSequence]


def tm_probabilities(S, name, local):
    history(S)
    k = S.transitionModelNames.index(name)
    return [x[k] for x in (S.localTransitionModelSequence if local else S.transitionModelSequence)]
