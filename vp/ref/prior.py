"""Reference definition of the parameter prior (a density on the grid)."""
import string
import numpy as np
import sympy.abc as abc
import sympy.stats
from sympy import lambdify, symbols
from sympy.stats import density
from scipy.special import factorial, beta as beta_func


class ConfigurationError(Exception):
    pass


def prior(S):
    p = S.observationModel.prior
    volume = np.prod(S.latticeConstant)
    if p is None:
        return np.ones(S.gridSize) / np.sum(np.ones(S.gridSize)) / volume
    if isinstance(p, np.ndarray):
        if not np.all(p.shape == S.grid[0].shape):
            raise ConfigurationError('shape')
        return p / np.sum(p) / volume
    if hasattr(p, '__call__'):
        v = p(*S.grid) * np.ones(S.gridSize)
        return v / np.sum(v) / volume
    if type(p) is sympy.stats.rv.RandomSymbol:
        rvs = [p]
    else:
        rvs = p
    if not isinstance(rvs, (list, tuple)):
        return None
    if len(rvs) != len(S.observationModel.parameterNames):
        raise ConfigurationError('number')
    if len(rvs) > 1:
        x = symbols(' '.join(list(string.ascii_lowercase)[:len(rvs)]))
    else:
        x = [abc.x]
    f = 1
    for i in range(len(rvs)):
        if type(rvs[i]) is not sympy.stats.rv.RandomSymbol:
            raise ConfigurationError('kind')
        if len(rvs[i]._sorted_args[0].distribution.free_symbols) > 0:
            raise ConfigurationError('free')
        f = f * density(rvs[i])(x[i])
    return lambdify(x, f, modules=['numpy', {'factorial': factorial, 'beta': beta_func}])(*S.grid)
