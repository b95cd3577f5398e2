"""Reference definitions of the built-in likelihoods (documented densities) and their Jeffreys priors."""
import numpy as np
from inspect import getfullargspec as getargspec
import scipy.special
import sympy.abc as abc
from sympy import lambdify, Symbol, Matrix, simplify, diff, integrate, summation, ln, sqrt
from sympy.stats import density


class ConfigurationError(Exception):
    pass


def Bernoulli_pdf(self, grid, segment):
    p = np.where(grid[0] > 1., 0., grid[0])
    p = np.where(p < 0., 0., p)
    if segment[0]:
        return p
    return 1. - p


def Poisson_pdf(self, grid, segment):
    k = segment[0]
    return np.exp(-grid[0]) * grid[0]**k / scipy.special.factorial(float(k))


def Gaussian_pdf(self, grid, segment):
    x = segment[0]
    return np.exp(-(x - grid[0])**2 / (2. * grid[1]**2)) / np.sqrt(2. * np.pi * grid[1]**2)


def GaussianMean_pdf(self, grid, segment):
    x, sigma = segment[0, 0], segment[0, 1]
    return np.exp(-(x - grid[0])**2 / (2. * sigma**2)) / np.sqrt(2. * np.pi * sigma**2)


def Laplace_pdf(self, grid, segment):
    return np.exp(-np.abs(segment[0] - grid[0]) / grid[1]) / (2. * grid[1])


def WhiteNoise_pdf(self, grid, segment):
    return np.exp(-segment[0]**2 / (2. * grid[0]**2)) / np.sqrt(2. * np.pi * grid[0]**2)


def AR1_pdf(self, grid, segment):
    d = segment[1] - grid[0] * segment[0]
    return np.exp(-d**2 / (2. * grid[1]**2)) / np.sqrt(2. * np.pi * grid[1]**2)


def ScaledAR1_pdf(self, grid, segment):
    s2 = grid[1]**2 * (1. - grid[0]**2)
    d = segment[1] - grid[0] * segment[0]
    return np.exp(-d**2 / (2. * s2)) / np.sqrt(2. * np.pi * s2)


def NumPy_pdf(self, grid, segment):
    return self.function(segment[0], *grid)


def SymPy_pdf(self, grid, segment):
    return self.density(segment[0], *grid)


def SciPy_pdf(self, grid, segment):
    d = dict(zip(self.parameterNames, grid))
    d.update(self.fixedParameterDict)
    if self.isContinuous:
        return self.rv.pdf(segment[0], **d)
    return self.rv.pmf(segment[0], **d)


def processedPdf(self, grid, segment):
    """missing values carry no information; independent dimensions multiply"""
    if self.multiplyLikelihoods and segment.ndim > 1:
        r = None
        for j in range(segment.shape[1]):
            col = segment[:, j]
            if np.isnan(col).any():
                v = np.ones_like(grid[0])
            else:
                v = self.pdf(grid, col)
            r = v if r is None else r * v
        return r
    if np.isnan(segment).any():
        return np.ones_like(grid[0])
    return self.pdf(grid, segment)


def Bernoulli_jeffreys(self, p):
    return 1. / np.sqrt(p * (1. - p))


def Poisson_jeffreys(self, x):
    return np.sqrt(1. / x)


def Gaussian_jeffreys(self, mu, sigma):
    return 1. / sigma**2


def Laplace_jeffreys(self, mu, b):
    return 1. / b**2


def WhiteNoise_jeffreys(self, sigma):
    return 1. / sigma


def NumPy_wrapped(fn, args, grid, segment):
    return fn(segment[0], *grid)


def SciPy_wrapped(rv, args, fixed, grid, segment):
    cont = 'pdf' in dir(rv)
    names = args[::2]
    if len(args) == 0:
        names = rv.shapes.split(', ') + ['loc']
        if cont:
            names = names + ['scale']
        names = [x for x in names if x not in fixed]
    d = {x: g for x, g in zip(names, grid)}
    d.update(fixed)
    if cont:
        return rv.pdf(segment[0], **d)
    return rv.pmf(segment[0], **d)


def SymPy_wrapped(rv, args, grid, segment):
    free = sorted(rv._sorted_args[0].distribution.free_symbols, key=str)
    names = args[::2]
    if len(args) == 0:
        names = [str(s) for s in free]
    params = [free[[str(s) for s in free].index(x)] for x in names]
    f = lambdify([abc.x] + params, density(rv)(abc.x), modules=['numpy', {'factorial': scipy.special.factorial}])
    return f(segment[0], *grid)


def NumPy_model(fn, args, prior):
    names = args[::2]
    spec = getargspec(fn).args
    if len(spec) - 1 != len(names) or spec[0] != 'data':
        raise ConfigurationError('function')
    return [list(names), list(args[1::2]), 1, False, prior]


def SciPy_model(rv, args, fixed, prior):
    module = rv.__module__.split('.')
    if module[0] != 'scipy' or module[1] != 'stats':
        raise ConfigurationError('no distribution')
    free = [] if rv.shapes is None else rv.shapes.split(', ')
    free = free + (['loc', 'scale'] if 'pdf' in dir(rv) else ['loc'])
    free = [x for x in free if x not in fixed]
    names, values = list(args[::2]), list(args[1::2])
    if len(args) == 0:
        names, values = free, [None] * len(free)
    for x in names:
        if x not in free:
            raise ConfigurationError('unknown parameter')
    return [names, values, 1, True, prior]


def SymPy_model(rv, args, prior):
    module = rv.__module__.split('.')
    if module[0] != 'sympy' or module[1] != 'stats':
        raise ConfigurationError('no random variable')
    free = [str(s) for s in sorted(rv._sorted_args[0].distribution.free_symbols, key=str)]
    names, values = list(args[::2]), list(args[1::2])
    if len(args) == 0:
        names, values = free, [None] * len(free)
    for x in names:
        if x not in free:
            raise ConfigurationError('unknown parameter')
    return [names, values, 1, True, prior]


# -------------------------------------------------------------------------------------- default ranges, Jeffreys priors
def interval_open(a, b, n):
    return np.linspace(a, b, n + 2)[1:-1]


def Bernoulli_range(j, data):
    return np.linspace(0, 1, 1000)


def Poisson_range(j, data):
    return interval_open(0, 1.25 * np.nanmax(np.ravel(data)), 1000)


def Gaussian_range(j, data):
    m = np.nanmean(np.ravel(data))
    s = np.nanstd(np.ravel(data))
    if j == 0:
        return np.linspace(m - 2 * s, m + 2 * s, 200)
    return interval_open(0, 2 * s, 200)


def Laplace_range(j, data):
    m = np.nanmean(np.ravel(data))
    s = np.nanstd(np.ravel(data))
    if j == 0:
        return np.linspace(m - 2 * s, m + 2 * s, 200)
    return interval_open(0, np.sqrt(2) * s, 200)


def GaussianMean_range(j, data):
    x = np.array([d[0] for d in data])
    lo = np.nanmin(x)
    hi = np.nanmax(x)
    return interval_open(lo - (hi - lo), hi + (hi - lo), 1000)


def WhiteNoise_range(j, data):
    return interval_open(0, 2 * np.nanstd(np.ravel(data)), 1000)


def AR1_range(j, data):
    if j == 0:
        return interval_open(-1, 1, 200)
    return interval_open(0, 2 * np.nanstd(np.ravel(data)), 200)


def ScaledAR1_range(j, data):
    return AR1_range(j, data)


def jeffreys_symbolic(rv):
    dist = rv._sorted_args[0].distribution
    support = dist.set
    params = sorted(dist.free_symbols, key=str)
    p = density(rv)(abc.x)
    n = len(params)
    G = Matrix.zeros(n, n)
    total = summation if support.is_iterable else integrate
    for i in range(n):
        for j in range(n):
            G[i, j] = total(simplify(p * diff(ln(p), params[i]) * diff(ln(p), params[j])),
                            (abc.x, support.inf, support.sup))
    J = simplify(sqrt(G.det()))
    if J == 0:
        raise Exception('zero')
    return [J, lambdify(params, J, 'numpy')]


def jeffreys_ar1(S, t, scaled):
    r, s = S.grid
    if scaled:
        s = s * np.sqrt(1 - r**2)
    if np.any(np.abs(r) >= 1.):
        raise ConfigurationError('non-stationary')
    if len(S.rawData) == 0:
        raise ConfigurationError('no data')
    d = S.rawData[t - 1]
    n = len(S.rawData)
    p = np.exp(-d**2 * (1 - r**2) / (2 * s**2)) / s**2 * np.sqrt(4 * r**2 / (1 - r**2) + 2 * (n + 1))
    return p / np.sum(p)


def processed_builtin(pdf, multiply, grid, segment):
    if multiply and segment.ndim > 1:
        r = None
        for j in range(segment.shape[1]):
            col = segment[:, j]
            if np.isnan(col).any():
                v = np.ones_like(grid[0])
            else:
                v = pdf(None, grid, col)
            r = v if r is None else r * v
        return r
    if np.isnan(segment).any():
        return np.ones_like(grid[0])
    return pdf(None, grid, segment)


def Bernoulli_jeffreys_on(grid):
    return Bernoulli_jeffreys(None, grid[0])


def Poisson_jeffreys_on(grid):
    return Poisson_jeffreys(None, grid[0])


def WhiteNoise_jeffreys_on(grid):
    return WhiteNoise_jeffreys(None, grid[0])


def Gaussian_jeffreys_on(grid):
    return Gaussian_jeffreys(None, grid[0], grid[1])


def Laplace_jeffreys_on(grid):
    return Laplace_jeffreys(None, grid[0], grid[1])
