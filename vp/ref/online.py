"""Reference definition of online inference."""
import numpy as np
from .study import Grid, forward, segments
from .hyper import grid


class Part(object):
    """one transition model with fixed hyper-parameter values"""

    def __init__(self, kind, values):
        self.kind = kind
        self.values = values
        self.study = None
        self.latticeConstant = None

    def computeForwardPrior(self, p, t):
        lc = self.latticeConstant
        if self.kind == 'one':
            return law('fwd', 'm0', p, t, lc, [self.values[0]], 0)
        if self.kind == 'plain':
            return law('fwd', 'm0', p, t, lc, [], 0)
        if self.kind == 'other':
            return law('fwd', 'm2', p, t, lc, [], 0)
        q = law('fwd', 'm0', p, t, lc, [self.values[0]], 0)
        return law('fwd', 'm1', q, t, lc, [self.values[1]], 0)


def law(way, key, posterior, t, lc, values, off):
    raise NotImplementedError


def soft(x):
    """probabilities from log-weights"""
    w = np.exp(np.array(x))
    return w / np.sum(w)


class Branch(object):
    """results of one transition model after each data segment"""

    def __init__(self, this, G, data, kind, combos, joint, consts):
        seg = segments(data, G.observationModel.segmentLength)
        stamps = np.arange(len(data))[G.observationModel.segmentLength - 1:]
        runs = []
        for x in combos:
            m = Part(kind, x)
            m.study = this
            m.latticeConstant = G.latticeConstant
            runs.append(forward(G, m, seg, stamps))
        n = len(seg)
        volume = np.prod(G.latticeConstant)
        self.evidence = [[np.log(volume) + sum([np.log(r[1][k]) for k in range(t + 1)]) for r in runs] for t in range(n)]
        self.weights = [soft([self.evidence[t][j] + np.log(joint[j]) for j in range(len(runs))]) for t in range(n)]
        self.distribution = [w / np.prod(consts) for w in self.weights]
        self.posterior = [np.sum(np.array([runs[j][0][t] * self.weights[t][j] for j in range(len(runs))]), axis=0)
                          for t in range(n)]
        # sum over the combinations (as implemented: without the grid constants)
        self.total = [np.log(sum([np.exp(self.evidence[t][j]) * joint[j] for j in range(len(runs))])) for t in range(n)]
        # the evidence of the model: weighted average over its combinations
        self.proper = [x + np.log(np.prod(consts)) for x in self.total]
        self.stamps = stamps


def results(branches, G, tp, history):
    n = len(branches[0].evidence)
    m = len(branches)
    overall = [soft([b.total[t] for b in branches]) for t in range(n)]
    local = [soft([branches[i].total[t] - (branches[i].total[t - 1] if t > 0 else 0.) + np.log(tp[i]) for i in range(m)])
             for t in range(n)]
    post = [np.sum(np.array([branches[i].posterior[t] * overall[t][i] for i in range(m)]), axis=0) for t in range(n)]
    dist = [[b.distribution[t] for b in branches] for t in range(n)]
    logev = np.log(sum([np.exp(branches[i].total[n - 1]) * tp[i] for i in range(m)]))
    last = [logev, overall[n - 1], local[n - 1], post[n - 1], dist[n - 1]]
    if history:
        means = [np.array([np.sum(p * g) for g in G.grid]) for p in post]
        return last + [post, means, dist, overall, local, branches[0].stamps]
    return last + [[], [], [], [], [], branches[0].stamps]


def proper(branches, tp):
    """[log-evidence, model probabilities] by Bayes' rule"""
    n = len(branches[0].evidence)
    m = len(branches)
    return [np.log(sum([np.exp(branches[i].proper[n - 1]) * tp[i] for i in range(m)])),
            soft([branches[i].proper[n - 1] + np.log(tp[i]) for i in range(m)])]


def flat(data, om, values, priors, names):
    return grid(data, None, om, values, priors, names)


def online_single(this, om, v0, p0, history, data):
    G = Grid(om, data)
    g = grid(data, None, om, [v0], [p0], ['a'])
    return results([Branch(this, G, data, 'one', g[0], g[1], g[2])], G, [1.], history)


def online_plain(this, om, history, data):
    G = Grid(om, data)
    return results([Branch(this, G, data, 'plain', [[]], [1.], [])], G, [1.], history)


def two(this, om, G, v0, p0, v1, p1, data):
    g = grid(data, None, om, [v0, v1], [p0, p1], ['b', 'a'])
    return [Branch(this, G, data, 'two', g[0], g[1], g[2]), Branch(this, G, data, 'other', [[]], [1.], [])]


def modelprior(tp):
    if tp is None:
        return [0.5, 0.5]
    return tp / np.sum(tp)


def online_two(this, om, v0, p0, v1, p1, tp, history, data):
    G = Grid(om, data)
    return results(two(this, om, G, v0, p0, v1, p1, data), G, modelprior(tp), history)


def online_proper(this, om, v0, p0, v1, p1, tp, history, data):
    G = Grid(om, data)
    return proper(two(this, om, G, v0, p0, v1, p1, data), modelprior(tp))
