"""Reference definition of hyper-parameter grids and of the average model."""
import numpy as np
import sympy.abc as abc
from collections.abc import Iterable
from sympy import lambdify
from sympy.stats import density
from scipy.special import factorial
from .prior import ConfigurationError
from .study import timestamps, fit, Grid, impossible


def constant(v):
    """spacing of equally spaced values, otherwise 1"""
    if not isinstance(v, Iterable):
        return 1
    if len(v) < 2:
        return 1
    if np.all(np.abs(np.diff(np.diff(v))) < 10**-10):
        return np.abs(v[1] - v[0])
    return 1


def hyperprior(p, v, c):
    if p is None:
        w = np.ones(np.shape(v))
        return w / np.sum(w) / c
    if hasattr(p, '__call__'):
        w = np.array([p(x) for x in v])
        return w / np.sum(w) / c
    if isinstance(p, Iterable):
        if len(p) != len(v):
            raise ConfigurationError('length')
        return p / np.sum(p) / c
    if len(p._sorted_args[0].distribution.free_symbols) > 0:
        raise ConfigurationError('free')
    return lambdify([abc.x], density(p)(abc.x), modules=['numpy', {'factorial': factorial}])(v)


def expand(v, stamps):
    if isinstance(v, str):
        if v == 'all':
            return stamps[:-1]
    return v


def grid(data, ts, om, values, priors, names):
    """[combinations, joint prior values, constants, names, values]"""
    stamps = timestamps(data, ts)[om.segmentLength - 1:]
    vals = [expand(v, stamps) for v in values]
    consts = [constant(v) for v in vals]
    ps = [hyperprior(priors[j], vals[j], consts[j]) for j in range(len(names))]
    combos = np.array([x.ravel() for x in np.meshgrid(*vals, indexing='ij')]).T
    joint = np.array([x.ravel() for x in np.meshgrid(*ps, indexing='ij')]).T
    return [combos, np.prod(joint, axis=1), consts, names, vals]


class Chain(object):
    """the models m0, m1, ... one after the other, each with its share of the hyper-parameter values"""

    def __init__(self, values, combined):
        self.values = values
        self.combined = combined
        self.study = None
        self.latticeConstant = None

    def computeForwardPrior(self, p, t):
        if self.combined:
            q = law('fwd', 'm0', p, t, self.latticeConstant, [self.values[0]], 0)
            return law('fwd', 'm1', q, t, self.latticeConstant, [self.values[1]], 0)
        return law('fwd', 'm0', p, t, self.latticeConstant, [self.values[0]], 0)

    def computeBackwardPrior(self, p, t):
        if self.combined:
            q = law('bwd', 'm0', p, t, self.latticeConstant, [self.values[0]], 0)
            return law('bwd', 'm1', q, t, self.latticeConstant, [self.values[1]], 0)
        return law('bwd', 'm0', p, t, self.latticeConstant, [self.values[0]], 0)


class Fixed(object):
    """model without hyper-parameters"""

    def __init__(self):
        self.study = None
        self.latticeConstant = None

    def computeForwardPrior(self, p, t):
        return law('fwd', 'm0', p, t, self.latticeConstant, [], 0)

    def computeBackwardPrior(self, p, t):
        return law('bwd', 'm0', p, t, self.latticeConstant, [], 0)


def law(way, key, posterior, t, lc, values, off):
    raise NotImplementedError


def average(this, data, ts, om, combos, joint, consts, combined, fo, eo):
    """[log-evidence, log10-evidence, local evidence, posteriors, means, hyper-parameter distribution, evidences]"""
    fits = [fit(this, data, ts, om, Chain(x, combined), fo, eo) for x in combos]
    volume = np.prod(consts)
    les = [f[0] for f in fits]
    w = np.array([np.exp(fits[i][0]) * joint[i] * volume for i in range(len(fits))])
    total = np.sum(w)
    local = np.sum(np.array([np.array(fits[i][2]) * joint[i] * volume for i in range(len(fits))]), axis=0)
    if eo:
        return [np.log(total), np.log(total) / np.log(10), local, [], [], w / total / volume, les]
    post = np.sum(np.array([np.array(fits[i][3]) * w[i] / total for i in range(len(fits))]), axis=0)
    G = Grid(om, data)
    means = [[np.sum(p * g) for p in post] for g in G.grid]
    return [np.log(total), np.log(total) / np.log(10), local, post, means, w / total / volume, les]


def hyperfit_one(this, data, ts, om, v0, p0, fo, eo):
    g = grid(data, ts, om, [v0], [p0], ['a'])
    if len(g[0]) > 1:
        return average(this, data, ts, om, g[0], g[1], g[2], False, fo, eo)
    r = fit(this, data, ts, om, Chain(g[0][0], False), fo, eo)
    return [r[0], r[1], r[2], r[3], r[4], np.ones(1) / np.prod(g[2]), []]


def hyperfit_two(this, data, ts, om, v0, p0, v1, p1, fo, eo):
    g = grid(data, ts, om, [v0, v1], [p0, p1], ['b', 'a'])
    if len(g[0]) > 1:
        return average(this, data, ts, om, g[0], g[1], g[2], True, fo, eo)
    r = fit(this, data, ts, om, Chain(g[0][0], True), fo, eo)
    return [r[0], r[1], r[2], r[3], r[4], np.ones(1) / np.prod(g[2]), []]


def hyperfit_none(this, data, ts, om, fo, eo):
    r = fit(this, data, ts, om, Fixed(), fo, eo)
    return [r[0], r[1], r[2], r[3], r[4], [], []]


def possible(this, data, ts, om, combos, joint, consts, combined, fo, eo):
    """[log-evidence, posteriors, hyper-parameter distribution]; combinations with zero evidence have weight zero"""
    fits = [fit(this, data, ts, om, Chain(x, combined), fo, eo) for x in combos]
    zero = [impossible(this, data, ts, om, Chain(x, combined), fo, eo) for x in combos]
    volume = np.prod(consts)
    w = np.array([0. if zero[i][1] else np.exp(fits[i][0]) * joint[i] * volume for i in range(len(fits))])
    total = np.sum(w)
    if not total > 0.:
        return [-np.inf, [], []]
    if eo:
        return [np.log(total), [], w / total / volume]
    post = np.sum(np.array([np.where(zero[i][1], 0., np.array(fits[i][3])) * w[i] / total
                            for i in range(len(fits))]), axis=0)
    return [np.log(total), post, w / total / volume]


def zero_one(this, data, ts, om, v0, p0, fo, eo):
    g = grid(data, ts, om, [v0], [p0], ['a'])
    if len(g[0]) > 1:
        return possible(this, data, ts, om, g[0], g[1], g[2], False, fo, eo)
    return [impossible(this, data, ts, om, Chain(g[0][0], False), fo, eo)[0], [], []]


def zero_two(this, data, ts, om, v0, p0, v1, p1, fo, eo):
    g = grid(data, ts, om, [v0, v1], [p0, p1], ['b', 'a'])
    if len(g[0]) > 1:
        return possible(this, data, ts, om, g[0], g[1], g[2], True, fo, eo)
    return [impossible(this, data, ts, om, Chain(g[0][0], True), fo, eo)[0], [], []]
