"""Reference definitions of the transition models: distribution `p` at time stamp `t` -> distribution at the next step."""
import numpy as np
from scipy.ndimage import gaussian_filter1d, shift
from scipy.signal import fftconvolve, convolve2d
from scipy.stats import multivariate_normal
from .prior import prior


def axis_of(S, target):
    return S.observationModel.parameterNames.index(target)


def Static(S, lc, off, p, t, args):
    return p


def GaussianRandomWalk(S, lc, off, p, t, args):
    k = axis_of(S, args[1])
    s = args[0] / lc[k]
    if s > 0.:
        return gaussian_filter1d(p, s, axis=k)
    return p


def stable_kernel(size, c, alpha):
    """periodic kernel with characteristic function exp(-|c k|**alpha) on `size` points, centred"""
    k = np.arange(size // 2 + 1) * 2 * np.pi / size
    return np.roll(np.fft.irfft(np.exp(-np.abs(c * k)**alpha), size), (size - 1) // 2)


def AlphaStableRandomWalk(S, lc, off, p, t, args):
    k = axis_of(S, args[2])
    gs = S.gridSize
    if len(gs) == 1:
        kernel = stable_kernel(3 * gs[0], args[0] / lc[0], args[1])
        padded = np.zeros(3 * gs[0])
        padded[gs[0]:2 * gs[0]] = p
        r = fftconvolve(padded, kernel, mode='same')[gs[0]:2 * gs[0]]
    else:
        c0 = args[0] / lc[0] if k == 0 else 0.
        c1 = args[0] / lc[1] if k == 1 else 0.
        k0 = stable_kernel(3 * gs[0], c0, args[1])
        k1 = stable_kernel(3 * gs[1], c1, args[1])
        kernel = k0[:, np.newaxis] * k1
        padded = np.zeros([3 * gs[0], 3 * gs[1]])
        padded[gs[0]:2 * gs[0], gs[1]:2 * gs[1]] = p
        r = fftconvolve(padded, kernel, mode='same')[gs[0]:2 * gs[0], gs[1]:2 * gs[1]]
    return r / np.sum(r)


def reset(S):
    """the prior as it is used in the middle of a series: probabilities times the cell volume"""
    q = prior(S)
    return q / np.sum(q) * np.prod(S.latticeConstant)


def probabilities(S):
    q = prior(S)
    return q / np.sum(q)


def ChangePoint(S, lc, off, p, t, args):
    if t == args[0]:
        return reset(S)
    return p


def Independent(S, lc, off, p, t, args):
    return probabilities(S)


def RegimeSwitch(S, lc, off, p, t, args):
    q = np.maximum(p, 10.**args[0] * np.prod(lc))
    return q / np.sum(q)


def NotEqual(S, lc, off, p, t, args):
    q = np.amax(p) - p
    q = np.maximum(q / np.sum(q), 10.**args[0] * np.prod(lc))
    return q / np.sum(q)


def BivariateRandomWalk(S, lc, off, p, t, args):
    s1 = args[0] / lc[0]
    s2 = args[1] / lc[1]
    rho = args[2]
    rv = multivariate_normal(cov=[[s1**2., rho * s1 * s2], [rho * s1 * s2, s2**2.]])
    x = np.arange(-3 * np.ceil(s1), 3 * np.ceil(s1) + 1)
    y = np.arange(-3 * np.ceil(s2), 3 * np.ceil(s2) + 1)
    xv, yv = np.meshgrid(x, y, indexing='ij')
    kernel = rv.pdf(np.array([xv, yv]).T).T
    kernel = kernel / np.sum(kernel)
    q = convolve2d(p, kernel, mode='same')
    return q / np.sum(q)


def shifted(S, lc, p, target, d):
    k = axis_of(S, target)
    v = [0.] * len(lc)
    v[k] = d / lc[k]
    q = shift(p, v, order=3, mode='nearest')
    return q / np.sum(q)


def Deterministic(S, lc, off, p, t, args):
    f, target, params = args
    return shifted(S, lc, p, target, f(t + 1 - off, **params) - f(t - off, **params))


def Deterministic_back(S, lc, off, p, t, args):
    f, target, params = args
    return shifted(S, lc, p, target, f(t - 1 - off, **params) - f(t - off, **params))


def told(m, S, lc, off):
    m.study = S
    m.latticeConstant = lc
    m.tOffset = off


def serial_forward(kinds, m0, m1, m2, v0, v1, S, lc, off, p, t):
    if t >= v1:
        told(m2, S, lc, v1)
        r = m2.computeForwardPrior(p, t)
    elif t >= v0:
        told(m1, S, lc, v0)
        r = m1.computeForwardPrior(p, t)
    else:
        told(m0, S, lc, 0)
        r = m0.computeForwardPrior(p, t)
    if (t == v0 and kinds[0] == 'c') or (t == v1 and kinds[1] == 'c'):
        r = reset(S)
    return r


def serial_backward(kinds, m0, m1, m2, v0, v1, S, lc, off, p, t):
    if t - 1 >= v1:
        told(m2, S, lc, v1)
        r = m2.computeBackwardPrior(p, t)
    elif t - 1 >= v0:
        told(m1, S, lc, v0)
        r = m1.computeBackwardPrior(p, t)
    else:
        told(m0, S, lc, 0)
        r = m0.computeBackwardPrior(p, t)
    if (t - 1 == v0 and kinds[0] == 'c') or (t - 1 == v1 and kinds[1] == 'c'):
        r = reset(S)
    return r


def serial_twice(m0, m1, v0, S, lc, p, t0, t):
    if t >= v0:
        told(m1, S, lc, v0)
        return m1.computeForwardPrior(p, t)
    told(m0, S, lc, 0)
    return m0.computeForwardPrior(p, t)


def combined_forward(m0, m1, m2, S, lc, off, p, t):
    told(m0, S, lc, off)
    told(m1, S, lc, off)
    told(m2, S, lc, off)
    return m2.computeForwardPrior(m1.computeForwardPrior(m0.computeForwardPrior(p, t), t), t)


def combined_backward(m0, m1, m2, S, lc, off, p, t):
    told(m0, S, lc, off)
    told(m1, S, lc, off)
    told(m2, S, lc, off)
    return m2.computeBackwardPrior(m1.computeBackwardPrior(m0.computeBackwardPrior(p, t), t), t)


def nested_forward(m0, m1, m2, v0, v1, S, lc, p, t):
    if t >= v0:
        told(m1, S, lc, v0)
        told(m2, S, lc, v0)
        q = m1.computeForwardPrior(p, t)
        if t == v1:
            q = reset(S)
        return m2.computeForwardPrior(q, t)
    told(m0, S, lc, 0)
    return m0.computeForwardPrior(p, t)


def nested_backward(m0, m1, m2, v0, v1, S, lc, p, t):
    if t - 1 >= v0:
        told(m1, S, lc, v0)
        told(m2, S, lc, v0)
        q = m1.computeBackwardPrior(p, t)
        if t - 1 == v1:
            q = reset(S)
        return m2.computeBackwardPrior(q, t)
    told(m0, S, lc, 0)
    return m0.computeBackwardPrior(p, t)


def nested2_forward(m0, m1, m2, v0, S, lc, p, t):
    told(m2, S, lc, 0)
    q = m2.computeForwardPrior(p, t)
    if t >= v0:
        told(m1, S, lc, v0)
        return m1.computeForwardPrior(q, t)
    told(m0, S, lc, 0)
    return m0.computeForwardPrior(q, t)


def ChangePoint_back(S, lc, off, p, t, args):
    return ChangePoint(S, lc, off, p, t - 1, args)
