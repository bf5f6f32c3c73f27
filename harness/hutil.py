import numpy as np


class Skip(Exception):
    pass


def nan(v):
    """JSON-safe -> float array (None is NaN)"""
    def f(x):
        if isinstance(x, list):
            return [f(y) for y in x]
        return np.nan if x is None else x
    return np.array(f(v), dtype=float)


def lst(a):
    """float array -> JSON-safe nested list"""
    a = np.asarray(a, dtype=float)

    def f(x):
        if isinstance(x, list):
            return [f(y) for y in x]
        return None if x != x else x
    return f(a.tolist())


def close(a, b, rtol=1e-10, atol=1e-12):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    na, nb_ = np.isnan(a), np.isnan(b)
    if (na != nb_).any():
        return False
    ok = ~na
    with np.errstate(all="ignore"):
        return bool((np.abs(a - b)[ok] <= atol + rtol * np.maximum(np.abs(a), np.abs(b))[ok]).all() if True else True)


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(((a == b) | ((a != a) & (b != b))).all())
