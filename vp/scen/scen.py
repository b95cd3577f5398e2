"""Call sequences of a user, analysed together with the package."""
import numpy as np
from scipy.optimize import minimize


def pdf(C, args, kwargs, grid, segment):
    m = C(*args, **kwargs)
    return m.pdf(grid, segment)


def wrapper(C, args, kwargs):
    m = C(*args, **kwargs)
    return [list(m.parameterNames), list(m.parameterValues), m.segmentLength, m.multiplyLikelihoods, m.prior]


def processed(C, args, kwargs, grid, segment):
    m = C(*args, **kwargs)
    return m.processedPdf(grid, segment)


def forward(C, args, kwargs, study, lc, off, posterior, t):
    m = C(*args, **kwargs)
    m.study = study
    m.latticeConstant = lc
    m.tOffset = off
    return m.computeForwardPrior(posterior, t)


def backward(C, args, kwargs, study, lc, off, posterior, t):
    m = C(*args, **kwargs)
    m.study = study
    m.latticeConstant = lc
    m.tOffset = off
    return m.computeBackwardPrior(posterior, t)


def forward_after(C, args, kwargs, study0, lc0, values0, posterior0, t0, study, lc, off, posterior, t):
    """the model has been used with other values, grid and study before"""
    m = C(*args, **kwargs)
    values = m.hyperParameterValues
    m.study = study0
    m.latticeConstant = lc0
    m.hyperParameterValues = values0
    m.computeForwardPrior(posterior0, t0)
    m.study = study
    m.latticeConstant = lc
    m.hyperParameterValues = values
    m.tOffset = off
    return m.computeForwardPrior(posterior, t)


def forward_inplace(C, args, kwargs, values0, values, study, lc, off, posterior, t):
    """the values of the model have been changed in place since it was used"""
    m = C(*args, **kwargs)
    m.study = study
    m.latticeConstant = lc
    m.tOffset = off
    for i, v in enumerate(values0):
        m.hyperParameterValues[i] = v
    m.computeForwardPrior(posterior, t)
    for i, v in enumerate(values):
        m.hyperParameterValues[i] = v
    return m.computeForwardPrior(posterior, t)


def serial_forward(Serial, Break, Change, kinds, m0, m1, m2, v0, v1, study, lc, off, posterior, t):
    b = Break('b0', v0) if kinds[0] == 'b' else Change('b0', v0)
    c = Break('b1', v1) if kinds[1] == 'b' else Change('b1', v1)
    m = Serial(m0, b, m1, c, m2)
    m.study = study
    m.latticeConstant = lc
    m.tOffset = off
    return m.computeForwardPrior(posterior, t)


def serial_backward(Serial, Break, Change, kinds, m0, m1, m2, v0, v1, study, lc, off, posterior, t):
    b = Break('b0', v0) if kinds[0] == 'b' else Change('b0', v0)
    c = Break('b1', v1) if kinds[1] == 'b' else Change('b1', v1)
    m = Serial(m0, b, m1, c, m2)
    m.study = study
    m.latticeConstant = lc
    m.tOffset = off
    return m.computeBackwardPrior(posterior, t)


def serial_twice(Serial, Break, m0, m1, v0, study, lc, posterior, t0, t):
    m = Serial(m0, Break('b0', v0), m1)
    m.study = study
    m.latticeConstant = lc
    m.computeForwardPrior(posterior, t0)
    return m.computeForwardPrior(posterior, t)


def combined_forward(Combined, m0, m1, m2, study, lc, off, posterior, t):
    m = Combined(m0, m1, m2)
    m.study = study
    m.latticeConstant = lc
    m.tOffset = off
    return m.computeForwardPrior(posterior, t)


def combined_backward(Combined, m0, m1, m2, study, lc, off, posterior, t):
    m = Combined(m0, m1, m2)
    m.study = study
    m.latticeConstant = lc
    m.tOffset = off
    return m.computeBackwardPrior(posterior, t)


def nested_forward(Serial, Combined, Break, Change, m0, m1, m2, v0, v1, study, lc, posterior, t):
    inner = Combined(m1, Change('c', v1), m2)
    m = Serial(m0, Break('b', v0), inner)
    m.study = study
    m.latticeConstant = lc
    return m.computeForwardPrior(posterior, t)


def nested_backward(Serial, Combined, Break, Change, m0, m1, m2, v0, v1, study, lc, posterior, t):
    inner = Combined(m1, Change('c', v1), m2)
    m = Serial(m0, Break('b', v0), inner)
    m.study = study
    m.latticeConstant = lc
    return m.computeBackwardPrior(posterior, t)


def nested2_forward(Serial, Combined, Break, m0, m1, m2, v0, study, lc, posterior, t):
    m = Combined(m2, Serial(m0, Break('b', v0), Combined(m1)))
    m.study = study
    m.latticeConstant = lc
    return m.computeForwardPrior(posterior, t)


def fit(C, data, ts, om, tm, forwardOnly, evidenceOnly, silent):
    S = C(silent=silent)
    S.loadData(data, timestamps=ts, silent=silent)
    S.setObservationModel(om, silent=silent)
    S.setTransitionModel(tm, silent=silent)
    S.fit(forwardOnly=forwardOnly, evidenceOnly=evidenceOnly, silent=silent)
    return [S.logEvidence, S.log10Evidence, S.localEvidence, S.posteriorSequence, S.posteriorMeanValues,
            S.formattedTimestamps, S.formattedData]


def setom(C, data, om, tm, first):
    S = C(silent=True)
    S.loadData(data, silent=True)
    if first:
        S.setTransitionModel(tm, silent=True)
    S.setObservationModel(om, silent=True)
    if not first:
        S.setTransitionModel(tm, silent=True)
    return [S.marginalGrid, S.gridSize, S.boundaries, S.latticeConstant, S.grid, tm.latticeConstant,
            S.observationModel, tm.study]


def setom_twice(C, data, om0, om, tm):
    S = C(silent=True)
    S.loadData(data, silent=True)
    S.setObservationModel(om0, silent=True)
    S.setTransitionModel(tm, silent=True)
    S.setObservationModel(om, silent=True)
    return [S.marginalGrid, S.gridSize, S.boundaries, S.latticeConstant, S.grid, tm.latticeConstant,
            S.observationModel, tm.study]


def load(C, data, ts, silent):
    S = C(silent=silent)
    S.loadData(data, timestamps=ts, silent=silent)
    return [S.rawData, S.rawTimestamps]


def default_prior(C, grid):
    m = C()
    return m.prior(*grid)


def given_prior(C, prior):
    m = C(prior=prior)
    return m.prior


def default_range(C, args, name, data):
    m = C(*args)
    return m.estimateParameterValues(name, data)


def sympy_prior(C, rv, args):
    m = C(rv, *args)
    return m.prior


def sympy_given(C, rv, args, prior):
    m = C(rv, *args, prior=prior)
    return m.prior


def sympy_flat(C, rv, args):
    m = C(rv, *args, determineJeffreysPrior=False)
    return m.prior


def eval_full(P, S, query, t, silent):
    return P(S)(query, t=t, silent=silent)


def set_both(S, om, tm, silent):
    S.setObservationModel(om, silent=silent)
    S.setTransitionModel(tm, silent=silent)


def set_short(S, om, tm, silent):
    S.set(om, tm, silent=silent)


def set_reverse(S, om, tm, silent):
    S.set(tm, om, silent=silent)


def set_reverse_full(S, om, tm, silent):
    S.setTransitionModel(tm, silent=silent)
    S.setObservationModel(om, silent=silent)


def set_default(S, om, tm):
    S.set(om, tm)


def set_default_full(S, om, tm):
    S.setObservationModel(om)
    S.setTransitionModel(tm)


def plot_time(S, name, t, density, plot, color):
    S.plot(name, t=t, density=density, color=color)


def plot_time_full(S, name, t, density, plot, color):
    S.getParameterDistribution(t, name, plot=True, density=density, color=color)


def plot_time_default(S, name, t):
    S.plot(name, t=t)


def plot_time_default_full(S, name, t):
    S.getParameterDistribution(t, name, plot=True)


def plot_evolution(S, name, color, gamma, lw):
    S.plot(name, color=color, gamma=gamma, lw=lw)


def plot_evolution_full(S, name, color, gamma, lw):
    S.plotParameterEvolution(name, color=color, gamma=gamma, lw=lw)


def plot_evolution_default(S, name):
    S.plot(name)


def plot_evolution_default_full(S, name):
    S.plotParameterEvolution(name)


def plot_hyper(S, hname, color):
    S.plot(hname, color=color)


def plot_hyper_full(S, hname, color):
    S.getHyperParameterDistribution(hname, plot=True, color=color)


def online_plot_hyper_evolution(S, hname, color, gamma):
    S.plot(hname, color=color, gamma=gamma)


def online_plot_hyper_evolution_full(S, hname, color, gamma):
    S.plotHyperParameterEvolution(hname, color=color, gamma=gamma)


def online_plot_hyper_time(S, hname, t, color):
    S.plot(hname, t=t, color=color)


def online_plot_hyper_time_full(S, hname, t, color):
    S.getHyperParameterDistribution(t, hname, plot=True, color=color)


def online_plot_current(S, name, density, color):
    S.plot(name, density=density, color=color)


def online_plot_current_full(S, name, density, color):
    S.getCurrentParameterDistribution(name, plot=True, density=density, color=color)


def online_plot_hyper_current(S, hname, color):
    S.plot(hname, color=color)


def online_plot_hyper_current_full(S, hname, color):
    S.getCurrentHyperParameterDistribution(hname, plot=True, color=color)


class Model(object):
    """a transition model as a user may define it"""

    def __init__(self, key, names, values, prior):
        self.key = key
        self.study = None
        self.latticeConstant = None
        self.hyperParameterNames = names
        self.hyperParameterValues = values
        self.prior = prior
        self.tOffset = 0

    def __str__(self):
        return 'User model'

    def computeForwardPrior(self, posterior, t):
        return law('fwd', self.key, posterior, t, self.latticeConstant, self.hyperParameterValues, self.tOffset)

    def computeBackwardPrior(self, posterior, t):
        return law('bwd', self.key, posterior, t, self.latticeConstant, self.hyperParameterValues, self.tOffset)


def law(way, key, posterior, t, lc, values, off):
    raise NotImplementedError


def hypergrid(H, data, ts, om, tm):
    S = H(silent=True)
    S.loadData(data, timestamps=ts, silent=True)
    S.setObservationModel(om, silent=True)
    S.setTransitionModel(tm, silent=True)
    S.fit(silent=True)
    return [S.hyperGridValues, S.flatHyperPriorValues, S.hyperGridConstant, S.flatHyperParameterNames,
            S.flatHyperParameters, S.transitionModel.hyperParameterValues]


def tm_single(W, v0, p0):
    return W('a', v0, target='beta', prior=p0)


def tm_combined(K, W, R, v0, v1, p0, p1):
    return K(W('b', v0, target='beta', prior=p0), R('a', v1, prior=p1))


def tm_serial(Q, B, A, W, R, v0, v1, v2, v3, p0, p1, p2, p3):
    return Q(A(), B('y', v2, prior=p2), R('z', v0, prior=p0), B('x', v3, prior=p3),
             W('a', v1, target='beta', prior=p1))


def tm_nested(K, Q, B, C, A, W, R, v0, v1, v2, v3, p0, p1, p2, p3):
    return K(R('c', v0, prior=p0), Q(A(), B('b', v2, prior=p2), K(W('d', v1, target='beta', prior=p1), A())),
             C('a', v3, prior=p3))


def tm_pair(V, v0, v1, p0, p1):
    return V('s', v0, 'a', v1, target='beta', prior=(p0, p1))


def tm_static(A):
    return A()


def grid_single(H, data, ts, om, W, v0, p0):
    return hypergrid(H, data, ts, om, tm_single(W, v0, p0))


def grid_combined(H, data, ts, om, K, W, R, v0, v1, p0, p1):
    return hypergrid(H, data, ts, om, tm_combined(K, W, R, v0, v1, p0, p1))


def grid_serial(H, data, ts, om, Q, B, A, W, R, v0, v1, v2, v3, p0, p1, p2, p3):
    return hypergrid(H, data, ts, om, tm_serial(Q, B, A, W, R, v0, v1, v2, v3, p0, p1, p2, p3))


def grid_nested(H, data, ts, om, K, Q, B, C, A, W, R, v0, v1, v2, v3, p0, p1, p2, p3):
    return hypergrid(H, data, ts, om, tm_nested(K, Q, B, C, A, W, R, v0, v1, v2, v3, p0, p1, p2, p3))


def grid_pair(H, data, ts, om, V, v0, v1, p0, p1):
    return hypergrid(H, data, ts, om, tm_pair(V, v0, v1, p0, p1))


def grid_static(H, data, ts, om, A):
    return hypergrid(H, data, ts, om, tm_static(A))


def hyperfit(S, data, ts, om, tm, fo, eo, **kwargs):
    S.loadData(data, timestamps=ts, silent=True)
    S.setObservationModel(om, silent=True)
    S.setTransitionModel(tm, silent=True)
    S.fit(forwardOnly=fo, evidenceOnly=eo, silent=True, **kwargs)
    return [S.logEvidence, S.log10Evidence, S.localEvidence, S.posteriorSequence, S.posteriorMeanValues,
            S.hyperParameterDistribution, S.logEvidenceList]


def hyperfit_one(H, data, ts, om, v0, p0, fo, eo):
    return hyperfit(H(silent=True), data, ts, om, Model('m0', ['a'], [v0], p0), fo, eo)


def hyperfit_two(H, K, data, ts, om, v0, p0, v1, p1, fo, eo):
    tm = K(Model('m0', ['b'], [v0], p0), Model('m1', ['a'], [v1], p1))
    return hyperfit(H(silent=True), data, ts, om, tm, fo, eo)


def hyperfit_none(H, data, ts, om, fo, eo):
    return hyperfit(H(silent=True), data, ts, om, Model('m0', [], [], None), fo, eo)


def parallel_one(H, data, ts, om, v0, p0, fo, eo, jobs):
    return hyperfit(H(silent=True), data, ts, om, Model('m0', ['a'], [v0], p0), fo, eo, nJobs=jobs)


def parallel_two(H, K, data, ts, om, v0, p0, v1, p1, fo, eo, jobs):
    tm = K(Model('m0', ['b'], [v0], p0), Model('m1', ['a'], [v1], p1))
    return hyperfit(H(silent=True), data, ts, om, tm, fo, eo, nJobs=jobs)


def parallel_again(H, data, ts, om, v0, p0, fo, eo, jobs):
    S = H(silent=True)
    hyperfit(S, data, ts, om, Model('m0', ['a'], [v0], p0), fo, True)
    S.fit(forwardOnly=fo, evidenceOnly=eo, silent=True, nJobs=jobs)
    return [S.logEvidence, S.log10Evidence, S.localEvidence, S.posteriorSequence, S.posteriorMeanValues,
            S.hyperParameterDistribution, S.logEvidenceList]


def pointfit(S, data, ts, om, tm, fo, eo, **kwargs):
    S.loadData(data, timestamps=ts, silent=True)
    S.setObservationModel(om, silent=True)
    S.setTransitionModel(tm, silent=True)
    S.fit(forwardOnly=fo, evidenceOnly=eo, silent=True, **kwargs)
    return [S.logEvidence, S.localEvidence, S.posteriorSequence, S.posteriorMeanValues,
            S.hyperParameterDistribution, S.flatHyperPriorValues, S.flatHyperParameters]


def durations(H, B, Q, data, ts, om, v0, p0, v1, p1, v2, p2, fo, eo):
    S = H(silent=True)
    tm = Q(Model('m0', ['s'], [v2], p2), B('b', v0, prior=p0), Model('m1', [], [], None), B('a', v1, prior=p1),
           Model('m2', [], [], None))
    pointfit(S, data, ts, om, tm, fo, eo)
    return [S.getDurationDistribution(['b', 'a']), S.getDurationDistribution(['a', 'b']),
            S.getHyperParameterDistribution('a'), S.getHyperParameterDistribution('b')]


def changes_one(H, C, data, ts, om, v0, p0, fo, eo):
    return pointfit(H(silent=True), data, ts, om, C('a', v0, prior=p0), fo, eo)


def changes_two(H, C, K, data, ts, om, v0, p0, v1, p1, v2, p2, fo, eo):
    tm = K(C('b', v0, prior=p0), Model('m0', ['s'], [v2], p2), C('a', v1, prior=p1))
    return pointfit(H(silent=True), data, ts, om, tm, fo, eo)


def breaks_two(H, B, Q, data, ts, om, v0, p0, v1, p1, v2, p2, fo, eo):
    tm = Q(Model('m0', ['s'], [v2], p2), B('b', v0, prior=p0), Model('m1', [], [], None), B('a', v1, prior=p1),
           Model('m2', [], [], None))
    return pointfit(H(silent=True), data, ts, om, tm, fo, eo)


def breaks_nested(H, B, K, Q, data, ts, om, v0, p0, v1, p1, v2, p2, fo, eo):
    tm = K(Q(Model('m0', [], [], None), B('b', v0, prior=p0), Model('m1', [], [], None), B('a', v1, prior=p1),
             Model('m2', [], [], None)), Model('m3', ['s'], [v2], p2))
    return pointfit(H(silent=True), data, ts, om, tm, fo, eo)


def changes_three(H, C, K, data, ts, om, v0, p0, v1, p1, v2, p2, fo, eo):
    tm = K(C('b', v0, prior=p0), C('a', v1, prior=p1), C('c', v2, prior=p2))
    return pointfit(H(silent=True), data, ts, om, tm, fo, eo)


def changes_parallel(H, C, K, data, ts, om, v0, p0, v1, p1, v2, p2, fo, eo, jobs):
    tm = K(C('b', v0, prior=p0), Model('m0', ['s'], [v2], p2), C('a', v1, prior=p1))
    return pointfit(H(silent=True), data, ts, om, tm, fo, eo, nJobs=jobs)


def points_none(H, data, ts, om, v0, p0):
    pointfit(H(silent=True), data, ts, om, Model('m0', ['s'], [v0], p0), False, False)


def points_both(H, B, C, K, Q, A, data, ts, om, v0, p0, v1, p1):
    tm = K(C('a', v0, prior=p0), Q(A(), B('b', v1, prior=p1), A()))
    pointfit(H(silent=True), data, ts, om, tm, False, False)


def points_twice(H, B, K, Q, A, data, ts, om, v0, p0, v1, p1):
    tm = K(Q(A(), B('a', v0, prior=p0), A()), Q(A(), B('b', v1, prior=p1), A()))
    pointfit(H(silent=True), data, ts, om, tm, False, False)


def online_all(S):
    return [S.logEvidence, S.getCurrentTransitionModelDistribution(local=False)[1],
            S.getCurrentTransitionModelDistribution(local=True)[1], S.marginalizedPosterior, S.hyperParameterDistribution,
            S.posteriorSequence, S.posteriorMeanValues, S.hyperParameterSequence, S.transitionModelSequence,
            S.localTransitionModelSequence, S.formattedTimestamps]


def online_single(O, om, v0, p0, history, data):
    S = O(storeHistory=history, silent=True)
    S.setObservationModel(om, silent=True)
    S.setTransitionModel(Model('m0', ['a'], [v0], p0), silent=True)
    for d in data:
        S.step(d)
    return online_all(S)


def online_plain(O, om, history, data):
    S = O(storeHistory=history, silent=True)
    S.setObservationModel(om, silent=True)
    S.addTransitionModel('first', Model('m0', [], [], None))
    for d in data:
        S.step(d)
    return online_all(S)


def online_two(O, K, om, v0, p0, v1, p1, tp, history, data):
    S = O(storeHistory=history, silent=True)
    S.setObservationModel(om, silent=True)
    S.addTransitionModel('first', K(Model('m0', ['b'], [v0], p0), Model('m1', ['a'], [v1], p1)))
    S.addTransitionModel('second', Model('m2', [], [], None))
    if tp is not None:
        S.setTransitionModelPrior(tp, silent=True)
    for d in data:
        S.step(d)
    return online_all(S)


def say(S, data, ts, om, tm, fo, eo, silent, **kwargs):
    S.loadData(data, timestamps=ts, silent=silent)
    S.setObservationModel(om, silent=silent)
    S.setTransitionModel(tm, silent=silent)
    S.fit(forwardOnly=fo, evidenceOnly=eo, silent=silent, **kwargs)
    return [S.logEvidence, S.localEvidence, S.posteriorSequence, S.posteriorMeanValues, S.rawData, S.rawTimestamps,
            S.formattedData, S.formattedTimestamps, S.grid, S.marginalGrid, S.latticeConstant, S.boundaries, S.gridSize]


def say_set(H, data, om, tm, silent):
    S = H(silent=silent)
    S.load(data, silent=silent)
    S.set(om, tm, silent=silent)
    return [S.rawData, S.rawTimestamps, S.grid, S.marginalGrid, S.latticeConstant, S.boundaries, S.gridSize]


def say_fit(H, data, ts, om, fo, eo, silent):
    return say(H(silent=silent), data, ts, om, Model('m0', ['a'], [0.3], None), fo, eo, silent)


def say_hyper(H, K, data, ts, om, v0, p0, v1, p1, fo, eo, silent):
    S = H(silent=silent)
    tm = K(Model('m0', ['b'], [v0], p0), Model('m1', ['a'], [v1], p1))
    r = say(S, data, ts, om, tm, fo, eo, silent)
    return r + [S.hyperParameterDistribution, S.logEvidenceList, S.hyperGridValues, S.hyperGridConstant,
                S.flatHyperPriorValues, S.flatHyperParameters, S.flatHyperParameterNames]


def say_parallel(H, data, ts, om, v0, p0, fo, eo, jobs, silent):
    S = H(silent=silent)
    r = say(S, data, ts, om, Model('m0', ['a'], [v0], p0), fo, eo, silent, nJobs=jobs)
    return r + [S.hyperParameterDistribution, S.logEvidenceList, S.hyperGridValues, S.hyperGridConstant,
                S.flatHyperPriorValues, S.flatHyperParameters, S.flatHyperParameterNames]


def say_points(H, C, K, data, ts, om, v0, p0, v1, p1, v2, p2, fo, eo, silent):
    S = H(silent=silent)
    tm = K(C('b', v0, prior=p0), Model('m0', ['s'], [v2], p2), C('a', v1, prior=p1))
    r = say(S, data, ts, om, tm, fo, eo, silent)
    return r + [S.hyperParameterDistribution, S.logEvidenceList, S.hyperGridValues, S.hyperGridConstant,
                S.flatHyperPriorValues, S.flatHyperParameters, S.flatHyperParameterNames, S.allHyperGridValues]


def say_online(O, om, v0, p0, tp, history, silent, data):
    S = O(storeHistory=history, silent=silent)
    S.setObservationModel(om, silent=silent)
    S.addTransitionModel('first', Model('m0', ['b'], [v0], p0))
    S.addTransitionModel('second', Model('m2', [], [], None))
    if tp is not None:
        S.setTransitionModelPrior(tp, silent=silent)
    for d in data:
        S.step(d)
    return online_all(S)


def hush_online(O, om, tm, tp):
    S = O(silent=True)
    S.setObservationModel(om, silent=True)
    S.setTransitionModel(tm, silent=True)
    S.transitionModels = [tm, tm]
    S.setTransitionModelPrior(tp, silent=True)


def hush_example(C):
    S = C(silent=True)
    S.loadExampleData(silent=True)
    return S.rawData


def results(S):
    return [S.logEvidence, S.log10Evidence, S.localEvidence, S.posteriorSequence, S.posteriorMeanValues,
            S.formattedTimestamps, S.formattedData]


def refit(C, data0, ts0, om0, tm0, fo0, eo0, data, ts, om, tm, fo, eo):
    """everything is replaced after a first fit"""
    S = C(silent=True)
    S.loadData(data0, timestamps=ts0, silent=True)
    S.setObservationModel(om0, silent=True)
    S.setTransitionModel(tm0, silent=True)
    S.fit(forwardOnly=fo0, evidenceOnly=eo0, silent=True)
    S.loadData(data, timestamps=ts, silent=True)
    S.setObservationModel(om, silent=True)
    S.setTransitionModel(tm, silent=True)
    S.fit(forwardOnly=fo, evidenceOnly=eo, silent=True)
    return results(S)


def refit_data(C, data0, ts0, fo0, eo0, data, ts, om, tm, fo, eo):
    """only the data are replaced"""
    S = C(silent=True)
    S.loadData(data0, timestamps=ts0, silent=True)
    S.setObservationModel(om, silent=True)
    S.setTransitionModel(tm, silent=True)
    S.fit(forwardOnly=fo0, evidenceOnly=eo0, silent=True)
    S.loadData(data, timestamps=ts, silent=True)
    S.fit(forwardOnly=fo, evidenceOnly=eo, silent=True)
    return results(S)


def refit_om(C, om0, fo0, eo0, data, ts, om, tm, fo, eo):
    """only the observation model is replaced"""
    S = C(silent=True)
    S.loadData(data, timestamps=ts, silent=True)
    S.setTransitionModel(tm, silent=True)
    S.setObservationModel(om0, silent=True)
    S.fit(forwardOnly=fo0, evidenceOnly=eo0, silent=True)
    S.setObservationModel(om, silent=True)
    S.fit(forwardOnly=fo, evidenceOnly=eo, silent=True)
    return results(S)


def refit_tm(C, tm0, fo0, eo0, data, ts, om, tm, fo, eo):
    """only the transition model is replaced"""
    S = C(silent=True)
    S.loadData(data, timestamps=ts, silent=True)
    S.setObservationModel(om, silent=True)
    S.setTransitionModel(tm0, silent=True)
    S.fit(forwardOnly=fo0, evidenceOnly=eo0, silent=True)
    S.setTransitionModel(tm, silent=True)
    S.fit(forwardOnly=fo, evidenceOnly=eo, silent=True)
    return results(S)


def refit_same(C, fo0, eo0, data, ts, om, tm, fo, eo, name, t):
    """nothing is replaced, results are queried in between"""
    S = C(silent=True)
    S.loadData(data, timestamps=ts, silent=True)
    S.setObservationModel(om, silent=True)
    S.setTransitionModel(tm, silent=True)
    S.fit(forwardOnly=fo0, evidenceOnly=eo0, silent=True)
    if not eo0:
        S.getParameterDistribution(t, name)
        S.getParameterDistributions(name)
        S.getParameterMeanValues(name)
    S.fit(forwardOnly=fo, evidenceOnly=eo, silent=True)
    return results(S)


def refit_shared(C, data0, om0, data, ts, om, tm, fo, eo):
    """the transition model is used by another study in between"""
    S = C(silent=True)
    S.loadData(data, timestamps=ts, silent=True)
    S.setObservationModel(om, silent=True)
    S.setTransitionModel(tm, silent=True)
    R = C(silent=True)
    R.loadData(data0, silent=True)
    R.setObservationModel(om0, silent=True)
    R.setTransitionModel(tm, silent=True)
    R.fit(silent=True)
    S.fit(forwardOnly=fo, evidenceOnly=eo, silent=True)
    return results(S)


def hyper_results(S, tm):
    return [S.logEvidence, S.log10Evidence, S.localEvidence, S.posteriorSequence, S.posteriorMeanValues,
            S.hyperParameterDistribution, S.logEvidenceList, tm.hyperParameterValues]


def hyper_again(H, data, ts, om, v0, p0, fo, eo, fo0, eo0):
    """the same hyper-study is fitted twice"""
    S = H(silent=True)
    tm = Model('m0', ['a'], [v0], p0)
    hyperfit(S, data, ts, om, tm, fo0, eo0)
    S.fit(forwardOnly=fo, evidenceOnly=eo, silent=True)
    return hyper_results(S, tm)


def hyper_other(H, K, data, ts, om, v0, p0, v1, p1, fo, eo):
    """another transition model with other hyper-parameters before"""
    S = H(silent=True)
    tm0 = K(Model('m5', ['x'], [v1], None), Model('m6', ['y'], [v0], None))
    hyperfit(S, data, ts, om, tm0, fo, True)
    tm = Model('m0', ['a'], [v0], p0)
    S.setTransitionModel(tm, silent=True)
    S.fit(forwardOnly=fo, evidenceOnly=eo, silent=True)
    return hyper_results(S, tm)


class Unreliable(Model):
    """user-defined transition model that fails"""

    def __init__(self, key, names, values, prior):
        Model.__init__(self, key, names, values, prior)
        self.fails = True

    def computeForwardPrior(self, posterior, t):
        if self.fails:
            raise ValueError('failed')
        return law('fwd', self.key, posterior, t, self.latticeConstant, self.hyperParameterValues, self.tOffset)


def hyper_failed(H, data, ts, om, v0, p0, fo, eo):
    """the first fit fails"""
    S = H(silent=True)
    tm = Unreliable('m0', ['a'], [v0], p0)
    S.loadData(data, timestamps=ts, silent=True)
    S.setObservationModel(om, silent=True)
    S.setTransitionModel(tm, silent=True)
    try:
        S.fit(silent=True)
    except ValueError:
        pass
    tm.fails = False
    S.fit(forwardOnly=fo, evidenceOnly=eo, silent=True)
    return hyper_results(S, tm)


def kept_one(H, data, ts, om, v0, p0, fo, eo):
    tm = Model('m0', ['a'], [v0], p0)
    hyperfit(H(silent=True), data, ts, om, tm, fo, eo)
    return [tm.hyperParameterValues]


def kept_two(H, K, Q, B, data, ts, om, v0, p0, v1, p1, v2, p2, fo, eo):
    m0, m1, b = Model('m0', ['b'], [v2], p2), Model('m1', ['a'], [v1], p1), B('t', v0)
    q = Q(m1, b, Model('m2', [], [], None))
    hyperfit(H(silent=True), data, ts, om, K(m0, q), fo, eo)
    return [m0.hyperParameterValues, m1.hyperParameterValues, q.hyperParameterValues]


def kept_points(H, C, K, data, ts, om, v0, p0, v1, p1, v2, p2, fo, eo):
    b, m0, a = C('b', v0, prior=p0), Model('m0', ['s'], [v2], p2), C('a', v1, prior=p1)
    pointfit(H(silent=True), data, ts, om, K(b, m0, a), fo, eo)
    return [b.hyperParameterValues, m0.hyperParameterValues, a.hyperParameterValues]


def kept_study(H, Q, B, data, ts, om, v0, v1, fo, eo):
    m0, m1, b = Model('m0', ['b'], [0.3], None), Model('m1', ['a'], [v1], None), B('t', v0)
    q = Q(m0, b, m1)
    hyperfit0(H(silent=True), data, ts, om, q, fo, eo)
    return [m0.hyperParameterValues, m1.hyperParameterValues, q.hyperParameterValues]


def hyperfit0(S, data, ts, om, tm, fo, eo):
    S.loadData(data, timestamps=ts, silent=True)
    S.setObservationModel(om, silent=True)
    S.setTransitionModel(tm, silent=True)
    S.fit(forwardOnly=fo, evidenceOnly=eo, silent=True)


def points_again(H, C, data, ts, om, v0, p0, fo, eo):
    S = H(silent=True)
    tm = C('a', v0, prior=p0)
    pointfit(S, data, ts, om, tm, fo, True)
    S.fit(forwardOnly=fo, evidenceOnly=eo, silent=True)
    return [S.logEvidence, S.localEvidence, S.posteriorSequence, S.posteriorMeanValues,
            S.hyperParameterDistribution, S.flatHyperPriorValues, S.flatHyperParameters]


def points_reload(H, C, data0, data, ts, om, v0, p0, fo, eo):
    """other data, to which the value 'all' adapts"""
    S = H(silent=True)
    tm = C('a', v0, prior=p0)
    pointfit(S, data0, None, om, tm, fo, True)
    S.loadData(data, timestamps=ts, silent=True)
    S.fit(forwardOnly=fo, evidenceOnly=eo, silent=True)
    return [S.logEvidence, S.localEvidence, S.posteriorSequence, S.posteriorMeanValues,
            S.hyperParameterDistribution, S.flatHyperPriorValues, S.flatHyperParameters]


def serial_after(Serial, Break, Change, kinds, m0, m1, m2, u0, u1, study0, lc0, posterior0, t0,
                 v0, v1, study, lc, off, posterior, t):
    """the model has been used with other values, grid and study before"""
    b = Break('b0', u0) if kinds[0] == 'b' else Change('b0', u0)
    c = Break('b1', u1) if kinds[1] == 'b' else Change('b1', u1)
    m = Serial(m0, b, m1, c, m2)
    m.study = study0
    m.latticeConstant = lc0
    m.computeForwardPrior(posterior0, t0)
    m.computeBackwardPrior(posterior0, t0)
    m.study = study
    m.latticeConstant = lc
    m.hyperParameterValues = [v0, v1]
    m.tOffset = off
    return m.computeForwardPrior(posterior, t)


def combined_after(Combined, m0, m1, m2, study0, lc0, posterior0, t0, study, lc, off, posterior, t):
    m = Combined(m0, m1, m2)
    m.study = study0
    m.latticeConstant = lc0
    m.computeForwardPrior(posterior0, t0)
    m.computeBackwardPrior(posterior0, t0)
    m.study = study
    m.latticeConstant = lc
    m.tOffset = off
    return m.computeForwardPrior(posterior, t)


# ---------------------------------------------------------------------------------------------------- configurations
def configured(S, parts, data, ts, om, tm):
    if 'd' in parts:
        S.loadData(data, timestamps=ts, silent=True)
    if 'o' in parts:
        S.setObservationModel(om, silent=True)
    if 't' in parts:
        S.setTransitionModel(tm, silent=True)


def bare(H, X, parts, go, data, ts, om, v0):
    """parts of the configuration are missing"""
    S = H(silent=True)
    tm = Model('m0', ['a'], [v0], None) if X is None else X('a', v0)
    configured(S, parts, data, ts, om, tm)
    if go == 'optimize':
        S.optimize()
    else:
        S.fit(silent=True)
    return S.logEvidence


def bare_state(H, X, parts, go, data, ts, om, v0):
    S = H(silent=True)
    tm = Model('m0', ['a'], [v0], None) if X is None else X('a', v0)
    configured(S, parts, data, ts, om, tm)
    try:
        if go == 'optimize':
            S.optimize()
        else:
            S.fit(silent=True)
    except Exception:
        pass
    return [S.logEvidence, S.localEvidence, S.posteriorSequence, S.posteriorMeanValues]


def bare_online(O, parts, how, om, v0, d):
    S = O(silent=True)
    if 'o' in parts:
        S.setObservationModel(om, silent=True)
    if 't' in parts:
        tm = Model('m0', ['a'], [v0], None)
        if how == 'add':
            S.addTransitionModel('A', tm)
        else:
            S.setTransitionModel(tm, silent=True)
    S.step(d)
    return S.logEvidence


def twice_named(H, K, go, data, ts, om, n0, n1, n2, v0, v1):
    S = H(silent=True)
    tm = K(Model('m0', [n0], [v0], None), K(Model('m1', [n1, n2], [v1, v0], (None, None))))
    configured(S, 'dot', data, ts, om, tm)
    if go == 'optimize':
        S.optimize()
    else:
        S.fit(silent=True)
    return S.logEvidence


def twice_named_points(H, K, C, data, ts, om, n0, n1, n2, v0, v1):
    S = H(silent=True)
    tm = K(Model('m0', [n0], [v0], None), C(n1, v1), Model('m1', [n2], [v0], None))
    configured(S, 'dot', data, ts, om, tm)
    S.fit(silent=True)
    return S.logEvidence


def twice_named_online(O, K, how, om, n0, n1, n2, v0, v1, d):
    S = O(silent=True)
    S.setObservationModel(om, silent=True)
    m0, m1 = Model('m0', [n0], [v0], None), Model('m1', [n1, n2], [v1, v0], (None, None))
    if how == 'add':
        S.add('A', m0)
        S.add('B', m1)
    else:
        S.setTransitionModel(K(m0, m1), silent=True)
    S.step(d)
    return S.logEvidence


def serial_new(Q, B, C, kinds, m0, m1, m2, v0, v1):
    b = B('b0', v0) if kinds[0] == 'b' else C('b0', v0)
    c = B('b1', v1) if kinds[1] == 'b' else C('b1', v1)
    return Q(m0, b, m1, c, m2).hyperParameterNames


def serial_new3(Q, B, m0, m1, m2, m3, v0, v1, v2):
    return Q(m0, B('b0', v0), m1, B('b1', v1), m2, B('b2', v2), m3).hyperParameterNames


def serial_parts(Q, B, C, order, m0, m1, m2, v0, v1):
    parts, j, k = [], 0, 0
    ms, vs = [m0, m1, m2], [v0, v1]
    for x in order:
        if x == 'm':
            parts.append(ms[j])
            j += 1
        else:
            parts.append(B('b%d' % k, vs[k]) if x == 'b' else C('b%d' % k, vs[k]))
            k += 1
    return Q(*parts).hyperParameterNames


def break_alone(H, B, how, v0):
    S = H(silent=True)
    if how == 'add':
        S.add('A', B('t', v0))
    elif how == 'set':
        S.set(B('t', v0), silent=True)
    elif how == 'setTM':
        S.setTM(B('t', v0), silent=True)
    else:
        S.setTransitionModel(B('t', v0), silent=True)
    return S.transitionModel


def break_combined(K, B, order, m0, m1, v0):
    b = B('t', v0)
    return K(b, m0, m1).models if order == 0 else K(m0, b, m1).models if order == 1 else K(m0, m1, b).models


def priors_fit(H, X, data, ts, om, v0, v1, p):
    S = H(silent=True)
    tm = Model('m0', ['a', 'b'], [v0, v1], p)
    configured(S, 'dot', data, ts, om, tm)
    S.fit(silent=True)
    return S.logEvidence


def priors_points(H, K, C, data, ts, om, v0, p0, v1, p1):
    S = H(silent=True)
    configured(S, 'dot', data, ts, om, K(C('c', v0, prior=p0), Model('m0', ['a'], [v1], p1)))
    S.fit(silent=True)
    return S.logEvidence


def priors_online(O, om, v0, v1, p):
    S = O(silent=True)
    S.setObservationModel(om, silent=True)
    S.add('A', Model('m0', ['a', 'b'], [v0, v1], p))
    return S.tmCount


def overlap_combined(H, K, C, data, ts, om, v0, v1):
    S = H(silent=True)
    configured(S, 'dot', data, ts, om, K(C('b', v0), Model('m0', [], [], None), C('a', v1)))
    S.fit(evidenceOnly=True, silent=True)
    return S.logEvidence


def overlap_serial(H, Q, B, C, kinds, data, ts, om, v0, v1):
    S = H(silent=True)
    b = B('b0', v0) if kinds[0] == 'b' else C('b0', v0)
    c = B('b1', v1) if kinds[1] == 'b' else C('b1', v1)
    configured(S, 'dot', data, ts, om, Q(Model('m0', [], [], None), b, Model('m1', [], [], None), c,
                                         Model('m2', [], [], None)))
    S.fit(evidenceOnly=True, silent=True)
    return S.logEvidence


def model_prior(O, m0, m1, v0, tp):
    S = O(silent=True)
    S.add('A', Model('m0', ['a'], [v0], None))
    S.add('B', Model('m1', [], [], None))
    S.setTransitionModelPrior(tp, silent=True)
    return S.transitionModelPrior


def no_points(H, K, data, ts, om, v0):
    S = H(silent=True)
    configured(S, 'dot', data, ts, om, K(Model('m0', ['a'], [v0], None)))
    S.fit(evidenceOnly=True, silent=True)
    return S.logEvidence


def load_only(H, data, ts):
    S = H(silent=True)
    S.loadData(data, timestamps=ts, silent=True)
    return S.rawData


# ---------------------------------------------------------------------------------------------------- names and values
def plain(data, ts, om, tm, S, fo, eo):
    S.loadData(data, timestamps=ts, silent=True)
    S.setObservationModel(om, silent=True)
    S.setTransitionModel(tm, silent=True)
    S.fit(forwardOnly=fo, evidenceOnly=eo, silent=True)
    return S


def tree(shape, K, Q, B, C, v):
    """transition models of several shapes, with values v in the order of their names"""
    if shape == 'one':
        return Model('m0', ['a'], [v[0]], None)
    if shape == 'several':
        return Model('m0', ['b', 'a'], [v[0], v[1]], (None, None))
    if shape == 'combined':
        return K(Model('m0', ['b'], [v[0]], None), Model('m1', ['a'], [v[1]], None))
    if shape == 'nested':
        return K(Model('m0', ['b'], [v[0]], None), K(Model('m1', [], [], None), Model('m2', ['d', 'a'], [v[1], v[2]], (None, None))),
                 Model('m3', ['c'], [v[3]], None))
    if shape == 'point':
        return K(Model('m0', ['b'], [v[0]], None), C('t', v[1]), Model('m1', ['a'], [v[2]], None))
    if shape == 'only point':
        return C('t', v[0])
    if shape == 'three parts':
        return Q(Model('m0', ['b'], [v[0]], None), B('t', v[2]), Model('m1', ['a'], [v[1]], None), B('s', v[3]),
                 Model('m2', [], [], None))
    if shape == 'inside':
        return K(Model('m0', ['c'], [v[0]], None),
                 Q(Model('m1', ['b'], [v[1]], None), B('t', v[2]), Model('m2', [], [], None)))
    if shape == 'around':
        return Q(K(Model('m0', ['b'], [v[0]], None), Model('m1', ['c', 'd'], [v[1], v[2]], (None, None))), B('t', v[3]),
                 Model('m2', [], [], None))
    # serial
    return Q(Model('m0', ['b'], [v[0]], None), B('t', v[2]), Model('m1', ['a'], [v[1]], None))


NAMES = {'one': ['a'], 'several': ['b', 'a'], 'combined': ['b', 'a'], 'nested': ['b', 'd', 'a', 'c'],
         'point': ['b', 't', 'a'], 'only point': ['t'], 'serial': ['b', 'a', 't'],
         'three parts': ['b', 'a', 't', 's'], 'inside': ['c', 'b', 't'], 'around': ['b', 'c', 'd', 't']}


def optimised(S, data, ts, om, tm, shape, chosen, fo, tol):
    S.loadData(data, timestamps=ts, silent=True)
    S.setObservationModel(om, silent=True)
    S.setTransitionModel(tm, silent=True)
    if chosen is None:
        S.optimize(forwardOnly=fo)
    elif tol is None:
        S.optimize(chosen, forwardOnly=fo)
    else:
        S.optimize(chosen, forwardOnly=fo, tol=tol)
    return [[S.getHyperParameterValue(n) for n in NAMES[shape]], S.logEvidence, S.localEvidence, S.posteriorSequence,
            S.posteriorMeanValues, list(S.selectedHyperParameters)]


def optimum(H, K, Q, B, C, shape, chosen, data, ts, om, v0, v1, v2, v3, fo, tol):
    return optimised(H(silent=True), data, ts, om, tree(shape, K, Q, B, C, [v0, v1, v2, v3]), shape, chosen, fo, tol)


def optimum_again(H, K, Q, B, C, shape, first, chosen, data, ts, om, v0, v1, v2, v3, fo, tol):
    """a second optimisation starts from the values of the first one"""
    S = H(silent=True)
    optimised(S, data, ts, om, tree(shape, K, Q, B, C, [v0, v1, v2, v3]), shape, first, fo, None)
    if chosen is None:
        S.optimize(forwardOnly=fo)
    else:
        S.optimize(chosen, forwardOnly=fo)
    return [[S.getHyperParameterValue(n) for n in NAMES[shape]], S.logEvidence, S.localEvidence, S.posteriorSequence,
            S.posteriorMeanValues, list(S.selectedHyperParameters)]


def best(H, K, Q, B, C, shape, indices, data, ts, om, v, tol):
    """the definition: values of the chosen parameters that minimise the negative log-evidence of a fresh fit"""
    def values(x):
        w = [v[0], v[1], v[2], v[3]]
        for k, i in enumerate(indices):
            w[i] = x[k]
        return w

    def objective(x):
        S = plain(data, ts, om, tree(shape, K, Q, B, C, values(x)), H(silent=True), False, True)
        return -S.logEvidence
    start = [v[i] for i in indices]
    if tol is None:
        r = minimize(objective, start, method='COBYLA')
    else:
        r = minimize(objective, start, method='COBYLA', tol=tol)
    return values(r.x)


def optimum_meant(H, K, Q, B, C, shape, indices, data, ts, om, v0, v1, v2, v3, fo, tol):
    return fitted_with(H, K, Q, B, C, shape, data, ts, om, best(H, K, Q, B, C, shape, indices, data, ts, om, [v0, v1, v2, v3], tol), fo)


def optimum_again_meant(H, K, Q, B, C, shape, first, indices, data, ts, om, v0, v1, v2, v3, fo, tol):
    w = best(H, K, Q, B, C, shape, first, data, ts, om, [v0, v1, v2, v3], None)
    w = best(H, K, Q, B, C, shape, indices, data, ts, om, w, tol)
    return fitted_with(H, K, Q, B, C, shape, data, ts, om, w, fo)


def fitted_with(H, K, Q, B, C, shape, data, ts, om, w, fo):
    S = plain(data, ts, om, tree(shape, K, Q, B, C, w), H(silent=True), fo, False)
    return [[w[k] for k in range(len(NAMES[shape]))], S.logEvidence, S.localEvidence, S.posteriorSequence,
            S.posteriorMeanValues, []]


def looked_up(H, K, Q, B, C, shape, om, v0, v1, v2, v3):
    S = H(silent=True)
    S.setTransitionModel(tree(shape, K, Q, B, C, [v0, v1, v2, v3]), silent=True)
    return [S.getHyperParameterValue(n) for n in NAMES[shape]]


def looked_up_unknown(H, K, Q, B, C, shape, om, v0, v1, v2, v3, n):
    S = H(silent=True)
    S.setTransitionModel(tree(shape, K, Q, B, C, [v0, v1, v2, v3]), silent=True)
    return S.getHyperParameterValue(n)


def gridded(H, U, K, Q, B, C, shape, data, ts, om, v0, v1, v2, v3):
    """log-evidences of a hyper-study"""
    S = H(silent=True)
    plain(data, ts, om, tree(shape, K, Q, B, C, [v0, v1, v2, v3]), S, False, True)
    return S.logEvidenceList


def gridded_meant(H, U, K, Q, B, C, shape, data, ts, om, v0, v1, v2, v3):
    """one fresh study per combination, last name fastest"""
    n = len(NAMES[shape])
    vs = [v0, v1, v2, v3]
    out = []
    for x in np.array([t.ravel() for t in np.meshgrid(*vs[:n], indexing='ij')]).T:
        w = [x[i] for i in range(n)]
        S = plain(data, ts, om, tree(shape, K, Q, B, C, w), U(silent=True), False, True)
        out.append(S.logEvidence)
    return out


# ------------------------------------------------------------------------------------------------ expression queries
def fitted(S, M, names, grid, posterior, stamps):
    """stored results of a study"""
    M.parameterNames = names
    S.observationModel = M
    S.grid = grid
    S.posteriorSequence = posterior
    S.formattedTimestamps = stamps
    return S


def ask(P, query, t):
    if t is None:
        return P(query, silent=True)
    return P(query, t=t, silent=True)


def ask_one(C, Parser, M, grid, posterior, stamps, query, t):
    S = fitted(C(silent=True), M, ['a', 'b'], grid, posterior, stamps)
    return ask(Parser(S), query, t)


def ask_eval(C, M, grid, posterior, stamps, query, t):
    S = fitted(C(silent=True), M, ['a', 'b'], grid, posterior, stamps)
    return S.eval(query, t=t, silent=True)


def ask_twice(C, Parser, M, grid, posterior, stamps, first, t1, query, t):
    S = fitted(C(silent=True), M, ['a', 'b'], grid, posterior, stamps)
    P = Parser(S)
    ask(P, first, t1)
    return ask(P, query, t)


def ask_two(C, Parser, M, M2, grid, posterior, stamps, grid2, posterior2, stamps2, query, t):
    S = fitted(C(silent=True), M, ['a', 'b'], grid, posterior, stamps)
    S2 = fitted(C(silent=True), M2, ['c'], grid2, posterior2, stamps2)
    return ask(Parser(S, S2), query, t)


def ask_names(C, Parser, M, M2, grid, posterior, stamps, name):
    S = fitted(C(silent=True), M, ['a', 'b'], grid, posterior, stamps)
    S2 = fitted(C(silent=True), M2, [name], grid, posterior, stamps)
    Parser(S, S2)
    return 1


def ask_nothing(Parser):
    Parser()
    return 1


def ask_hyper(C, Parser, K, G, M, grid, posterior, stamps, values, dist, query, t):
    S = fitted(C(silent=True), M, ['a', 'b'], grid, posterior, stamps)
    S.transitionModel = K(G('s', None, target='a'), G('u', None, target='b'))
    S.flatHyperParameterNames = ['s', 'u']
    S.hyperGridValues = values
    S.hyperParameterDistribution = dist
    return ask(Parser(S), query, t)


def ask_change(C, Parser, K, G, M, grid, posterior, stamps, values, dist, query, t):
    S = fitted(C(silent=True), M, ['a', 'b'], grid, posterior, stamps)
    S.transitionModel = K(G('s', None), G('u', None))
    S.flatHyperParameterNames = ['s', 'u']
    S.allHyperGridValues = values
    S.hyperGridValues = values[::-1]
    S.hyperParameterDistribution = dist
    return ask(Parser(S), query, t)


def ask_online(C, Parser, K, G, M, grid, posterior, stamps, history, values, dists, values2, dists2, query, t):
    """two transition models; one distribution per step"""
    S = fitted(C(storeHistory=history, silent=True), M, ['a', 'b'], grid, posterior, stamps)
    S.transitionModels = [K(G('s', None, target='a'), G('u', None, target='b')), G('v', None, target='a')]
    S.hyperParameterNames = [['s', 'u'], ['v']]
    S.hyperParameterValues = [values, values2]
    if history:
        S.hyperParameterSequence = [[x, y] for x, y in zip(dists, dists2)]
    else:
        S.marginalizedPosterior = posterior[-1]
        S.hyperParameterDistribution = [dists[-1], dists2[-1]]
    return ask(Parser(S), query, t)


def ask_missing(C, Parser, M, grid, posterior, stamps, query, t):
    S = fitted(C(silent=True), M, ['a', 'b'], grid, posterior, stamps)
    P = Parser(S)
    try:
        return ask(P, query, t)
    except (ValueError, IndexError, KeyError):
        raise Rejected('time stamp')


class Rejected(Exception):
    pass
