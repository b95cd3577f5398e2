"""Reference definition of the standard inference algorithm, from a user's inputs to the results."""
import numpy as np
from .prior import prior, ConfigurationError


class Grid(object):
    """what setting an observation model means"""

    def __init__(self, om, data):
        self.observationModel = om
        self.marginalGrid = []
        self.latticeConstant = []
        self.gridSize = []
        self.boundaries = []
        for j in range(len(om.parameterNames)):
            v = om.parameterValues[j]
            if v is None:
                v = om.estimateParameterValues(om.parameterNames[j], data)
            v = np.array(v, dtype=float)
            self.marginalGrid.append(v)
            self.gridSize.append(len(v))
            self.boundaries.append([v[0], v[-1]])
            if np.any(np.abs(np.diff(np.diff(v))) > 10**-10):
                self.latticeConstant.append(1.)
            else:
                self.latticeConstant.append(np.abs(v[0] - v[1]))
        self.grid = [x for x in np.meshgrid(*self.marginalGrid, indexing='ij')]


def timestamps(data, ts):
    if ts is not None:
        if len(ts) == len(data):
            return np.array(ts)
    return np.arange(len(data))


def segments(data, n):
    return np.array([data[i:i + n] for i in range(len(data) - n + 1)])


def forward(G, tm, data, ts):
    """[distributions, norms] of the forward pass"""
    alpha = prior(G)
    out = []
    norms = []
    for i in range(len(data)):
        a = alpha * G.observationModel.processedPdf(G.grid, data[i])
        norm = np.sum(a)
        a = a / norm
        out.append(a)
        norms.append(norm)
        alpha = tm.computeForwardPrior(a, ts[i])
    return [out, norms]


def fit(this, data, ts, om, tm, forwardOnly, evidenceOnly):
    """[log-evidence, log10-evidence, local evidence, posteriors, means, time stamps, segments]"""
    G = Grid(om, data)
    tm.study = this
    tm.latticeConstant = G.latticeConstant
    volume = np.prod(G.latticeConstant)
    seg = segments(data, om.segmentLength)
    stamps = timestamps(data, ts)[om.segmentLength - 1:]
    f = forward(G, tm, seg, stamps)
    alphas, norms = f
    logev = sum([np.log(x) for x in norms]) + np.log(volume)
    local = [x * volume for x in norms]
    if evidenceOnly:
        return [logev, logev / np.log(10), local, [], [], stamps, seg]
    if forwardOnly:
        post = alphas
    else:
        n = len(seg)
        beta = np.ones(G.gridSize)
        beta = beta / np.sum(beta)
        post = []
        local = []
        for k in range(n):
            i = n - 1 - k
            p = alphas[i] * beta
            p = p / np.sum(p)
            post.append(p)
            like = om.processedPdf(G.grid, seg[i])
            local.append(1. / (np.sum(p / like) * volume))
            b = tm.computeBackwardPrior(beta * like, stamps[i])
            beta = b / np.sum(b)
        post = post[::-1]
        local = local[::-1]
    means = [[np.sum(p * G.grid[j]) for p in post] for j in range(len(G.grid))]
    return [logev, logev / np.log(10), local, post, means, stamps, seg]


def setom(this, data, om, tm, first):
    G = Grid(om, data)
    return [G.marginalGrid, G.gridSize, G.boundaries, G.latticeConstant, G.grid, G.latticeConstant, om, this]


def setom_twice(this, data, om0, om, tm):
    Grid(om0, data)
    return setom(this, data, om, tm, False)


def oint(start, stop, num):
    step = (stop - start) / (num + 1)
    return np.array([start + (k + 1) * step for k in range(num)])


def cint(start, stop, num):
    step = (stop - start) / (num - 1)
    return np.array([start + k * step for k in range(num)])


def load(data, ts, silent):
    if isinstance(data, np.ndarray) or isinstance(data, list):
        return [data, timestamps(data, ts)]
    raise ConfigurationError('data type')


def fit_norms(this, data, ts, om, tm):
    """log-evidence of data that may be impossible"""
    G = Grid(om, data)
    tm.study = this
    tm.latticeConstant = G.latticeConstant
    seg = segments(data, om.segmentLength)
    stamps = timestamps(data, ts)[om.segmentLength - 1:]
    alpha = prior(G)
    logev = np.log(np.prod(G.latticeConstant))
    for i in range(len(seg)):
        a = alpha * om.processedPdf(G.grid, seg[i])
        norm = np.sum(a)
        if not norm > 0.:
            return -np.inf
        logev = logev + np.log(norm)
        alpha = tm.computeForwardPrior(a / norm, stamps[i])
    return logev


def impossible(this, data, ts, om, tm, forwardOnly, evidenceOnly):
    """[log-evidence, whether all values have zero probability at some step]"""
    G = Grid(om, data)
    tm.study = this
    tm.latticeConstant = G.latticeConstant
    seg = segments(data, om.segmentLength)
    stamps = timestamps(data, ts)[om.segmentLength - 1:]
    alpha = prior(G)
    logev = np.log(np.prod(G.latticeConstant))
    alphas = []
    for i in range(len(seg)):
        a = alpha * om.processedPdf(G.grid, seg[i])
        norm = np.sum(a)
        if not norm > 0.:
            return [-np.inf, True]
        logev = logev + np.log(norm)
        alphas.append(a / norm)
        alpha = tm.computeForwardPrior(a / norm, stamps[i])
    if not forwardOnly and not evidenceOnly:
        beta = np.ones(G.gridSize)
        beta = beta / np.sum(beta)
        n = len(seg)
        for k in range(n):
            i = n - 1 - k
            if not np.sum(alphas[i] * beta) > 0.:
                return [-np.inf, True]
            b = tm.computeBackwardPrior(beta * om.processedPdf(G.grid, seg[i]), stamps[i])
            beta = b / np.sum(b)
    return [logev, False]
