import numpy as np


def first(v):
    if isinstance(v, str):
        return v
    return np.ravel(v)[0]


def ordered(v0, v1):
    a = first(v0)
    b = first(v1)
    if isinstance(a, str) or isinstance(b, str):
        return True
    return a < b


def misordered(v0, v1):
    return not ordered(v0, v1)


def misordered3(v0, v1, v2):
    return not (ordered(v0, v1) and ordered(v1, v2))


def repeated(n0, n1, n2):
    return n0 == n1 or n0 == n2 or n1 == n2


def none(cls):
    return [0, [], [], []]
