"""Reference definition of change-point studies."""
import numpy as np
from .study import Grid, fit
from .prior import prior
from .hyper import grid


class Points(object):
    """user-defined models m0, m1, ... between, before or after change- and break-points"""

    def __init__(self, kind, values, data, om):
        self.kind = kind
        self.values = values
        self.G = Grid(om, data)
        self.study = None
        self.latticeConstant = None

    def reset(self):
        p = prior(self.G)
        return p / np.sum(p) * np.prod(self.G.latticeConstant)

    def step(self, way, p, t, at):
        """at: the time stamp before the transition in forward direction"""
        v = self.values
        lc = self.latticeConstant
        if self.kind == 'change':
            if at == v[0]:
                return self.reset()
            return p
        if self.kind == 'three changes':
            return self.reset() if at == v[0] or at == v[1] or at == v[2] else p
        if self.kind == 'changes':
            if at == v[0]:
                p = self.reset()
            p = law(way, 'm0', p, t, lc, [v[1]], 0)
            if at == v[2]:
                p = self.reset()
            return p
        if self.kind == 'breaks':
            if at >= v[2]:
                return law(way, 'm2', p, t, lc, [], v[2])
            if at >= v[1]:
                return law(way, 'm1', p, t, lc, [], v[1])
            return law(way, 'm0', p, t, lc, [v[0]], 0)
        if at >= v[1]:
            p = law(way, 'm2', p, t, lc, [], v[1])
        elif at >= v[0]:
            p = law(way, 'm1', p, t, lc, [], v[0])
        else:
            p = law(way, 'm0', p, t, lc, [], 0)
        return law(way, 'm3', p, t, lc, [v[2]], 0)

    def computeForwardPrior(self, p, t):
        return self.step('fwd', p, t, t)

    def computeBackwardPrior(self, p, t):
        return self.step('bwd', p, t, t - 1)


def law(way, key, posterior, t, lc, values, off):
    raise NotImplementedError


def weighed(this, data, ts, om, kind, g, valid, fo, eo):
    """[log-evidence, local evidence, posteriors, means, distribution, prior, values]"""
    combos, joint, consts, names, values = g
    index = [i for i in range(len(combos)) if valid[i]]
    scale = np.sum(joint) / np.sum(np.array([joint[i] for i in index]))
    weight = [joint[i] * scale for i in index]
    fits = [fit(this, data, ts, om, Points(kind, combos[i], data, om), fo, eo) for i in index]
    full = np.array([joint[i] * scale if valid[i] else 0. for i in range(len(combos))])
    volume = np.prod(consts)
    if len(index) < 2:
        r = fits[0]
        one = np.array([1. / volume if valid[i] else 0. for i in range(len(combos))])
        return [r[0], r[2], r[3], r[4], one, full, values]
    w = np.array([np.exp(fits[k][0]) * weight[k] * volume for k in range(len(fits))])
    total = np.sum(w)
    place = np.cumsum(valid) - 1
    dist = np.array([w[place[i]] / total / volume if valid[i] else 0. for i in range(len(combos))])
    local = np.sum(np.array([np.array(fits[k][2]) * weight[k] * volume for k in range(len(fits))]), axis=0)
    if eo:
        return [np.log(total), local, [], [], dist, full, values]
    post = np.sum(np.array([np.array(fits[k][3]) * w[k] / total for k in range(len(fits))]), axis=0)
    means = [[np.sum(p * x) for p in post] for x in Grid(om, data).grid]
    return [np.log(total), local, post, means, dist, full, values]


def changes_one(this, data, ts, om, v0, p0, fo, eo):
    g = grid(data, ts, om, [v0], [p0], ['a'])
    return weighed(this, data, ts, om, 'change', g, [True for x in g[0]], fo, eo)


def changes_two(this, data, ts, om, v0, p0, v1, p1, v2, p2, fo, eo):
    g = grid(data, ts, om, [v0, v2, v1], [p0, p2, p1], ['b', 's', 'a'])
    return weighed(this, data, ts, om, 'changes', g, [x[0] < x[2] for x in g[0]], fo, eo)


def breaks_two(this, data, ts, om, v0, p0, v1, p1, v2, p2, fo, eo):
    g = grid(data, ts, om, [v2, v0, v1], [p2, p0, p1], ['s', 'b', 'a'])
    return weighed(this, data, ts, om, 'breaks', g, [x[1] < x[2] for x in g[0]], fo, eo)


def breaks_nested(this, data, ts, om, v0, p0, v1, p1, v2, p2, fo, eo):
    g = grid(data, ts, om, [v0, v1, v2], [p0, p1, p2], ['b', 'a', 's'])
    return weighed(this, data, ts, om, 'nested', g, [x[0] < x[1] for x in g[0]], fo, eo)


def changes_three(this, data, ts, om, v0, p0, v1, p1, v2, p2, fo, eo):
    g = grid(data, ts, om, [v0, v1, v2], [p0, p1, p2], ['b', 'a', 'c'])
    return weighed(this, data, ts, om, 'three changes', g, [x[0] < x[1] and x[1] < x[2] for x in g[0]], fo, eo)


def durations(this, data, ts, om, v0, p0, v1, p1, v2, p2, fo, eo):
    g = grid(data, ts, om, [v2, v0, v1], [p2, p0, p1], ['s', 'b', 'a'])
    combos = g[0]
    valid = [x[1] < x[2] for x in combos]
    dist = weighed(this, data, ts, om, 'breaks', g, valid, fo, eo)[4]
    d = np.unique([x[2] - x[1] for x in combos if x[1] < x[2]])
    p = np.array([sum([dist[k] for k in range(len(combos)) if abs(combos[k][2] - combos[k][1] - x) < 1e-9]) for x in d])
    p = p / np.sum(p)
    volume = np.prod(g[2])
    a = [sum([dist[k] * volume for k in range(len(combos)) if combos[k][2] == x]) for x in g[4][2]]
    b = [sum([dist[k] * volume for k in range(len(combos)) if combos[k][1] == x]) for x in g[4][1]]
    return [[d, p], [d, p], [g[4][2], a], [g[4][1], b]]
