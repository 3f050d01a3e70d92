"""Helpers for the PLS drivers."""
from .common import *


def pls(name):
    import wai.ma.algorithm.pls as P
    return getattr(P, name)()


def prep(name):
    from wai.ma.core import PreprocessingType as T
    return {'none': T.NONE, 'center': T.CENTER, 'standardize': T.STANDARDIZE}[name]


def xy(kind, n, p, q, m, *key):
    """Training data with a response that depends on it, and new data."""
    g = rng_for('xy', kind, n, p, q, m, *key)
    X = mk(kind, n, p, 'x', *key)
    N = mk('generic', m, p, 'n', *key)
    if kind == 'offset':
        N = N * 3 + X[g.integers(n, size=m)]
    s = X.std(axis=0) + 1e-9
    Y = ((X - X.mean(axis=0)) / s) @ g.normal(size=(p, q)) + 0.5 * g.normal(size=(n, q)) + g.normal(size=q) * 3
    return X, Y, N


def mat(a, name):
    o, _ = call(a.get_matrix, name)
    return o
