"""Reference definitions of derived quantities: total probability of all combinations of values that satisfy a relation,
distribution of the values of an expression. Each case is written out for its query."""
import numpy as np


class ConfigurationError(Exception):
    pass


def total(p, mask):
    return np.sum(np.where(mask, p, 0.0))


def binned(v, p):
    """distribution over bins as wide as the largest gap between two values"""
    v = np.where(np.isinf(v), np.nan, v)
    low, high = np.nanmin(v), np.nanmax(v)
    n = int((high - low) / np.nanmax(np.diff(np.sort(v))))
    edges = np.linspace(low, high, n)
    return edges[:-1] + (edges[1] - edges[0]), np.array(
        [np.sum(np.where((v >= edges[k]) & (v < edges[k + 1]) | (k == n - 2) & (v == high), p, 0.0))
         for k in range(n - 1)])


def one(a, b, p, case):
    """both parameters at the same time"""
    if case == 0:
        return total(p, a > 1)
    if case == 1:
        return total(p, a + b >= 2.5)
    if case == 2:
        return total(p, a * b < 2)
    if case == 3:
        return total(p, a - b - 1 <= 0.5)
    if case == 4:
        return total(p, a / b - 2 == 0)
    if case == 5:
        return total(p, 2 * a ** 2 - b > 3)
    if case == 6:
        return total(p, 3 - a - b < 0.5)
    if case == 7:
        return total(p, 1.5 <= a * (b + 1) / 2)
    if case == 8:
        return total(p, np.log(a) + np.sqrt(b) * 2 > 2)
    if case == 9:
        return total(p, -a > -1.5)
    if case == 10:
        return total(p, a > b)
    if case == 11:
        return total(p, np.exp(a - b) / 2 > b)
    if case == 12:
        return total(p, b / a / 2 < 0.5)
    if case == 13:
        return total(p, 2 ** b ** 2 > 5)
    if case == 14:
        return total(p, -a ** 2 < -2)
    if case == 15:
        return total(p, a - b * 2 + 1 >= 0)
    if case == 16:
        return total(p, a < b ** 2 - 0.5)
    if case == 17:
        return total(p, a - b == 0)
    if case == 18:
        return total(p, np.abs(a - 2) >= b)
    if case == 19:
        return total(p, b - 1.5 == 0)
    if case == 20:
        return total(p, 2 * b >= a + 1)
    if case == 21:
        return total(p, a - b > 1 - b / 2)
    if case == 22:
        return total(p, a * 2 / b * 3 > 7)
    return total(p, np.sqrt(np.abs(a - b)) <= 1)


def apart(a, pa, b, pb, case):
    """quantities combined as independent"""
    x, y = a[:, None], b[None, :]
    p = pa[:, None] * pb[None, :]
    if case == 0:
        return total(p, x > y)
    if case == 1:
        return total(p, x * y > 2)
    if case == 2:
        return total(p, y - x <= 0.5)
    if case == 3:
        return total(p, x / 2 + y ** 2 >= 3)
    if case == 4:
        return total(p, np.sqrt(x) * 2 - y < 1)
    if case == 5:
        return total(p, 2 * x - 1 - y == 0)
    return total(p, x + y > 2.5)


def three(x, seqx, j, y, seqy, k, z, seqz, l):
    x, y, z = np.ravel(x)[:, None, None], np.ravel(y)[None, :, None], np.ravel(z)[None, None, :]
    p, q, r = np.ravel(seqx[j])[:, None, None], np.ravel(seqy[k])[None, :, None], np.ravel(seqz[l])[None, None, :]
    return total(p * q * r, x * y - z > 0.5)


def again(x, seq, j, k):
    x, y = np.ravel(x)[:, None], np.ravel(x)[None, :]
    return total(np.ravel(seq[j])[:, None] * np.ravel(seq[k])[None, :], x * y > x + 0.5)


def four(x, seqx, j, y, seqy, k, z, seqz, l, u, sequ, m):
    x, y = np.ravel(x)[:, None, None, None], np.ravel(y)[None, :, None, None]
    z, u = np.ravel(z)[None, None, :, None], np.ravel(u)[None, None, None, :]
    p, q = np.ravel(seqx[j])[:, None, None, None], np.ravel(seqy[k])[None, :, None, None]
    r, s = np.ravel(seqz[l])[None, None, :, None], np.ravel(sequ[m])[None, None, None, :]
    return total(p * q * r * s, x * y - (z + u) > 0)


def derived(a, b, p, case):
    if case == 0:
        return binned(a, p)
    if case == 1:
        return binned(a * b, p)
    if case == 2:
        return binned(a - b - 1, p)
    if case == 3:
        return binned(np.log(a - 0.5) * 2, p)
    if case == 4:
        return binned(np.log(b), p)
    return binned(-a, p)


def flat(x):
    return np.ravel(x)


def at(seq, k):
    return np.ravel(seq[k])


def joint(grid, seq, k, case):
    return one(np.ravel(grid[0]), np.ravel(grid[1]), np.ravel(seq[k]), case)


def spread(grid, seq, k, case):
    return derived(np.ravel(grid[0]), np.ravel(grid[1]), np.ravel(seq[k]), case)


def separate(x, seqx, j, y, seqy, k, case):
    return apart(np.ravel(x), np.ravel(seqx[j]), np.ravel(y), np.ravel(seqy[k]), case)


def column(values, i):
    return np.array([v[i] for v in values])


def normed(d):
    return d / np.sum(d)


def hyper(values, d, case):
    return one(column(values, 0), column(values, 1), normed(d), case)


def hyper_apart(values, i, d, values2, j, d2, case):
    return apart(column(values, i), normed(d), column(values2, j), normed(d2), case)


def hyper_parameter(values, i, d, x, seq, k, case):
    return apart(column(values, i), normed(d), np.ravel(x), np.ravel(seq[k]), case)


def fails():
    raise ConfigurationError('malformed')
