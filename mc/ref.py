"""Reference models: textbook formulas written from the documentation, entry by entry,
without looking at or calling the package."""
import math

import numpy as np

JITTER = 1e-5
BASE = ['eq', 'se', 'matern32', 'matern52']
SETS = ['set_' + k for k in BASE]


def k_base(name, x, y, ls, signal):
    x = np.asarray(x, dtype=float)
    y = np.asarray(y, dtype=float)
    ls = np.broadcast_to(np.asarray(ls, dtype=float), x.shape)
    r2 = 0.0
    for a, b, l in zip(x, y, ls):
        r2 += ((float(a) - float(b)) / float(l)) ** 2
    r = math.sqrt(r2)
    s2 = float(signal) ** 2
    if name in ('se', 'eq'):
        return s2 * math.exp(-0.5 * r2)
    if name == 'matern32':
        return s2 * (1.0 + math.sqrt(3.0) * r) * math.exp(-math.sqrt(3.0) * r)
    if name == 'matern52':
        return s2 * (1.0 + math.sqrt(5.0) * r + 5.0 / 3.0 * r2) * math.exp(-math.sqrt(5.0) * r)
    raise KeyError(name)


def kernel(name, x, y, ls, signal):
    """x, y: one input each; a vector, or a set (m, d) of vectors."""
    if name.startswith('set_'):
        b = name[len('set_'):]
        tot = 0.0
        for u in x:
            for v in y:
                tot += k_base(b, u, v, ls, signal)
        return tot / (len(x) * len(y))
    return k_base(name, x, y, ls, signal)


def _gram_fast(name, X, Y, ls, signal):
    """Vectorised version for larger inputs (pairwise differences, no distance routine)."""
    X = np.asarray(X, dtype=float)
    Y = np.asarray(Y, dtype=float)
    if name.startswith('set_'):
        n, m, d = X.shape
        l, q, _ = Y.shape
        G = _gram_fast(name[4:], X.reshape(n * m, d), Y.reshape(l * q, d), ls, signal)
        return G.reshape(n, m, l, q).mean(axis=(1, 3))
    D = (X[:, None, :] - Y[None, :, :]) / np.asarray(ls, dtype=float)
    r2 = np.sum(D * D, axis=2)
    r = np.sqrt(r2)
    s2 = float(signal) ** 2
    if name in ('se', 'eq'):
        return s2 * np.exp(-0.5 * r2)
    if name == 'matern32':
        return s2 * (1 + np.sqrt(3.0) * r) * np.exp(-np.sqrt(3.0) * r)
    if name == 'matern52':
        return s2 * (1 + np.sqrt(5.0) * r + 5.0 / 3.0 * r2) * np.exp(-np.sqrt(5.0) * r)
    raise KeyError(name)


def gram(name, X, Y, hyps):
    ls, s = hyps['lengthscales'], hyps['signal']
    if len(X) * len(Y) > 64 or np.asarray(X).ndim == 3:
        return _gram_fast(name, X, Y, ls, s)
    return np.array([[kernel(name, x, y, ls, s) for y in Y] for x in X])


def train_gram(name, X, hyps):
    n = len(X)
    return gram(name, X, X, hyps) + (hyps['noise'] ** 2 + JITTER) * np.eye(n)


def prior(mu, X):
    return np.zeros((len(X), 1)) if mu is None else np.asarray(mu(X), dtype=float)


def gp_posterior(name, X, Y, Xs, hyps, mu=None, K=None):
    if K is None:
        K = train_gram(name, X, hyps)
    Ks = gram(name, X, Xs, hyps)
    Kss = gram(name, Xs, Xs, hyps) + JITTER * np.eye(len(Xs))
    res = Y - prior(mu, X)
    mean = Ks.T @ np.linalg.solve(K, res) + prior(mu, Xs)
    cov = Kss - Ks.T @ np.linalg.solve(K, Ks)
    return mean, cov


def std_of(cov):
    return np.sqrt(np.maximum(np.diag(cov), 0.0))[:, None]


def tp_posterior(name, X, Y, Xs, hyps, mu=None, K=None):
    if K is None:
        K = train_gram(name, X, hyps)
    mean, cov = gp_posterior(name, X, Y, Xs, hyps, mu, K)
    res = Y - prior(mu, X)
    fit = float((res.T @ np.linalg.solve(K, res))[0, 0])
    nu, n = hyps['dof'], len(X)
    return nu + n, mean, cov * (nu + fit - 2.0) / (nu + n - 2.0)


def gp_neg_log_ml(name, X, Y, hyps, mu_X):
    K = train_gram(name, X, hyps)
    r = Y - mu_X
    n = len(X)
    sign, logdet = np.linalg.slogdet(K)
    q = float((r.T @ np.linalg.solve(K, r))[0, 0])
    return (0.5 * q + 0.5 * logdet + 0.5 * n * math.log(2 * math.pi)) / n


def tp_neg_log_ml(name, X, Y, hyps, mu_X):
    K = train_gram(name, X, hyps)
    r = Y - mu_X
    n = len(X)
    nu = float(hyps['dof'])
    sign, logdet = np.linalg.slogdet(K)
    q = float((r.T @ np.linalg.solve(K, r))[0, 0])
    ll = math.lgamma((nu + n) / 2.0) - math.lgamma(nu / 2.0) - 0.5 * n * math.log((nu - 2.0) * math.pi) \
        - 0.5 * logdet - 0.5 * (nu + n) * math.log1p(q / (nu - 2.0))
    return -ll / n


def loo_neg_log(name, X, Y, hyps, mu_X):
    """Explicitly leaves each point out, conditions on the rest, and scores it."""
    K = train_gram(name, X, hyps)
    r = (Y - mu_X)[:, 0]
    n = len(X)
    tot = 0.0
    for i in range(n):
        o = [j for j in range(n) if j != i]
        if o:
            Koo, koi = K[np.ix_(o, o)], K[o, i]
            w = np.linalg.solve(Koo, koi)
            m, v = float(w @ r[o]), float(K[i, i] - w @ koi)
        else:
            m, v = 0.0, float(K[i, i])
        tot += 0.5 * math.log(v) + 0.5 * (r[i] - m) ** 2 / v + 0.5 * math.log(2 * math.pi)
    return tot / n


# ---------------------------------------------------------------- acquisition

def _cdf(z):
    return 0.5 * math.erfc(-z / math.sqrt(2.0))


def _pdf(z):
    return math.exp(-0.5 * z * z) / math.sqrt(2.0 * math.pi) if abs(z) < 1e150 else 0.0


def acq(name, m, s, Y, noise=None, jitter=1e-5, kappa=2.0, increase=True):
    best = float(np.min(Y)) if Y is not None else None
    if name == 'pure_exploit':
        return -m
    if name == 'pure_explore':
        return s
    if name == 'ucb':
        k = kappa * math.log(len(Y) + 1.0) if (increase and Y is not None) else kappa
        return -m + k * s
    z = (best - m) / (s + jitter)
    if name == 'pi':
        return _cdf(z)
    ei = (best - m) * _cdf(z) + s * _pdf(z)
    if name == 'ei':
        return ei
    if name == 'aei':
        return ei * (1.0 - noise / math.sqrt(s * s + noise * noise))
    raise KeyError(name)


def normalise(Y):
    lo, hi = float(np.min(Y)), float(np.max(Y))
    if lo == hi:
        return np.array(Y, dtype=float)
    return (np.asarray(Y, dtype=float) - lo) / (hi - lo) * 10.0


# ---------------------------------------------------------------- trees

def tree_leaf(tree, x):
    """Responses in the leaf x falls into: a value equal to the threshold goes right."""
    node = tree
    while isinstance(node, dict):
        node = node['left'] if x[node['index']] < node['value'] else node['right']
    return np.array([float(np.ravel(y)[0]) for _, y in node])


def forest_predict(trees, x):
    ms, vs = [], []
    for t in trees:
        y = tree_leaf(t, x)
        m = sum(y) / len(y)
        ms.append(m)
        vs.append(sum((v - m) ** 2 for v in y) / len(y))
    mean = sum(ms) / len(ms)
    var = sum(vs) / len(vs) + sum((m - mean) ** 2 for m in ms) / len(ms)
    return mean, math.sqrt(max(var, 0.0))
