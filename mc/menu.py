"""Finite alphabets of inputs, shared by the numerical checks."""
import numpy as np

from mc.core import weyl

VARIANTS = ['plain', 'dup', 'alldup', 'close', 'wide', 'neg', 'lattice']


def inputs(n, d, variant='plain', key=0):
    """n inputs in d dimensions."""
    X = 4.0 * weyl((n, d), key) - 2.0
    if variant == 'dup' and n > 1:          # first and last coincide, one more pair if possible
        X[-1] = X[0]
        if n > 3:
            X[2] = X[1]
    elif variant == 'alldup':
        X[:] = X[0]
    elif variant == 'close':                # clusters of nearly equal points
        X = np.round(X) + 1e-5 * weyl((n, d), key + 3)
    elif variant == 'wide':
        X = 500.0 * X
    elif variant == 'neg':
        X = X - 7.0
    elif variant == 'lattice':
        X = np.round(2.0 * X) / 2.0
    return X


def sets(n, m, d, variant='plain', key=0):
    return inputs(n * m, d, variant, key).reshape(n, m, d)


def lengthscales(kind, d):
    if kind == 'iso1':
        return 1.0
    if kind == 'iso.4':
        return 0.4
    if kind == 'iso9':
        return 9.0
    if kind == 'ard':
        return 0.35 + 1.6 * np.arange(d, dtype=float) + 0.11 * (np.arange(d) % 3)
    if kind == 'ardrev':
        return (0.35 + 1.6 * np.arange(d, dtype=float))[::-1].copy()
    if kind == 'ardeq':
        return np.full(d, 0.7)
    if kind == 'ardnear':
        return 0.7 * (1.0 + 9e-6 * (np.arange(d) % 2))
    if kind == 'ardmix':
        return np.array([[0.05, 40.0, 1.0][i % 3] for i in range(d)])
    raise KeyError(kind)


LS = ['iso1', 'iso.4', 'iso9', 'ard', 'ardrev', 'ardeq', 'ardmix', 'ardnear']


def responses(X, kind='smooth', key=0):
    n = len(X)
    x = np.asarray(X, dtype=float).reshape(n, -1)
    if kind == 'smooth':
        y = np.sin(x[:, 0]) + 0.3 * np.sum(x, axis=1) / x.shape[1]
    elif kind == 'const':
        y = np.full(n, 2.5)
    elif kind == 'zero':
        y = np.zeros(n)
    elif kind == 'rough':
        y = 8.0 * weyl((n,), key + 5) - 3.0
    elif kind == 'big':
        y = 1000.0 + 100.0 * np.cos(x[:, 0])
    else:
        raise KeyError(kind)
    return np.asarray(y, dtype=float)[:, None]


def prior(kind):
    if kind == 'none':
        return None
    if kind == 'const':
        return lambda X: np.full((X.shape[0], 1), 1.5)
    if kind == 'linear':
        return lambda X: 0.7 * np.reshape(np.asarray(X, dtype=float), (X.shape[0], -1))[:, :1] - 2.0
    if kind == 'index':      # distinguishes train from test by position
        return lambda X: np.arange(X.shape[0], dtype=float)[:, None] * 0.25
    raise KeyError(kind)
