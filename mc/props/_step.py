"""Shared by C01, C02, C03: single optimisation steps of the three model objects."""
import itertools

import numpy as np

from mc import menu
from mc.core import weyl

ACQ = ['pi', 'ei', 'ucb', 'aei', 'pure_exploit', 'pure_explore']
SAMPLERS = ['uniform', 'gaussian', 'sobol', 'halton', 'grid']
KS = ['matern52', 'se', 'matern32', 'eq']
BOXES = {
    'unit1': [[0.0, 1.0]],
    'neg1': [[-7.5, -2.25]],
    'narrow1': [[0.3, 0.3 + 1e-6]],
    'point1': [[2.0, 2.0]],
    'wide1': [[-1e5, 3e5]],
    'unit2': [[0.0, 1.0], [0.0, 1.0]],
    'neg2': [[-9.0, -8.0], [-1.0, -0.1]],
    'mixed2': [[-500.0, 1000.0], [0.0, 1e-3]],
    'flat2': [[-1.0, 2.0], [0.7, 0.7]],
    'flatfirst2': [[0.7, 0.7], [-1.0, 2.0]],
    'int2': [[0, 10], [-5, 5]],
    'off2': [[1000.0, 1000.5], [-1e-4, 1e-4]],
    'three': [[-1.0, 1.0], [10.0, 20.0], [-30.0, -5.0]],
    'four': [[0.0, 1.0], [-2.0, -1.0], [100.0, 101.0], [5.0, 5.0]],
}


def box(name):
    return np.array(BOXES[name])       # integer entries give an integer array


def data(name, b):
    """Training data for a box."""
    b = np.asarray(b, dtype=float)
    d = len(b)
    lo, w = b[:, 0], b[:, 1] - b[:, 0]
    n = {'one': 1, 'two': 2, 'dup': 4, 'corner': 4, 'outside': 4, 'const': 3, 'big': 5, 'tiny': 4, 'usual': 5}[name]
    U = weyl((n, d), 4)
    if name == 'corner':
        U = np.array([[(i >> (j % 2)) & 1 for j in range(d)] for i in range(n)], dtype=float)
    X = lo + U * w
    X = np.minimum(np.maximum(X, b[:, 0]), b[:, 1])
    if name == 'dup':
        X[-1] = X[0]
        X[2] = X[1]
    if name == 'outside':
        X = X + np.array([0.0, 3.0, -2.0, 0.5])[:, None] * (w + 1.0)
    z = 5.0 * U
    Y = (np.sin(z[:, 0]) + 0.3 * np.sum(z, axis=1) - 1.0)[:, None]
    if name == 'const':
        Y[:] = 1.75
    elif name == 'big':
        Y = 1e4 * Y + 3e5
    elif name == 'tiny':
        Y = 1e-7 * Y - 4.0
    return X, Y


def build(sur, b, acq, opt, nrm, cov='matern52', **kw):
    from bayeso import bo
    if sur == 'gp':
        return bo.BOwGP(b, str_cov=cov, str_acq=acq, normalize_Y=nrm, str_optimizer_method_bo=opt, **kw)
    if sur == 'tp':
        return bo.BOwTP(b, str_cov=cov, str_acq=acq, normalize_Y=nrm, str_optimizer_method_bo=opt, **kw)
    return bo.BOwTrees(b, 'rf', str_acq=acq, normalize_Y=nrm, str_optimizer_method_bo='random_search', **kw)


def step(sur, m, X, Y, sampler, ns, seed, mode='regular'):
    if sur == 'gp':
        return m.optimize(X, Y, str_sampling_method=sampler, num_samples=ns, str_mlm_method=mode, seed=seed)
    return m.optimize(X, Y, str_sampling_method=sampler, num_samples=ns, seed=seed)


def count(sur, opt, sampler, ns, d):
    """Candidates a step returns."""
    if sur != 'rf' and opt == 'CMA-ES' and d > 1:
        return 1
    return ns ** d if sampler == 'grid' else ns


LARGE = [  # dimension, data, sampler, number of samples
    (6, 12, 'uniform', 5), (12, 9, 'sobol', 4), (20, 5, 'halton', 3), (2, 60, 'uniform', 3), (1, 110, 'gaussian', 2),
    (2, 8, 'uniform', 140), (1, 6, 'sobol', 300), (2, 7, 'grid', 18), (3, 20, 'grid', 5), (5, 6, 'grid', 2),
]


def large(d, n):
    b = np.array([[-1.0 - i, 2.0 + 3 * i] for i in range(d)])
    U = weyl((n, d), 6)
    X = b[:, 0] + U * (b[:, 1] - b[:, 0])
    Y = (np.sin(5 * U[:, 0]) + np.sum((U - 0.4) ** 2, axis=1) * (4.0 / d))[:, None]
    return b, X, Y


DATA = ['usual', 'one', 'two', 'dup', 'corner', 'outside', 'const', 'big', 'tiny']


EXTREME = {
    'tiny': [[0.0, 1e-3], [-1e-6, 1e-6]], 'minute': [[1e-9, 2e-9]], 'huge': [[-1e7, 2e8], [1e6, 1e7]], 'offset': [[1e6, 1e6 + 1.0], [1e4, 1e4 + 1e-2]], 'thin': [[-7.3, -7.3 + 1e-12], [0.1, 0.3]],
    'thirds': [[1.0 / 3.0, 2.0 / 3.0], [-2.0 / 3.0, -1.0 / 3.0], [0.1, 0.7]], 'signs': [[-1e-3, 1e3], [-1e3, 1e-3]], 'flats': [[0.1, 0.1], [-3.3, -3.3], [0.0, 0.0]], 'sixty': [[-0.7 - 0.1 * i, 0.3 * i] for i in range(60)],
}
OPTS = [dict(), dict(use_ard=False), dict(prior='linear'), dict(prior='const', use_ard=False), dict(opt='L-BFGS-B'), dict(opt='SLSQP-Bounded'), dict(opt='L-BFGS-B', ms='loocv'), dict(opt='Nelder-Mead', use_ard=False), dict(debug=True), dict(prior='linear', opt='SLSQP-Bounded', use_ard=False, ms='loocv')]


def gen_ext(tier):
    for sur, bn, smp in itertools.product(['gp', 'tp', 'rf'], EXTREME, SAMPLERS):
        if smp == 'grid' and bn == 'sixty':
            continue
        yield ['box', sur, bn, smp]
    for sur, k, bn in itertools.product(['gp', 'tp', 'rf'], range(len(OPTS)), ['unit1', 'neg2', 'flat2', 'three', 'int2']):
        if sur != 'rf' or k == 0 or 'debug' in OPTS[k]:
            yield ['option', sur, k, bn]
    for sur, n, smp in itertools.product(['gp', 'tp', 'rf'], [210, 70], ['uniform', 'grid']):
        yield ['many', sur, n, smp]
    for sur, smp, ns in itertools.product(['gp', 'tp', 'rf'], SAMPLERS[:4], [6, 17, 64, 600]):
        yield ['count', sur, smp, ns]
    for sur, kind in itertools.product(['gp', 'tp', 'rf'], ['int', 'float32', 'zeros', 'millions', 'minute', 'negative']):
        yield ['data', sur, kind]


def plan_ext(sc):
    """The steps of one extreme scenario: box, data, acquisition, sampler, number of samples, seed, options."""
    what, sur = sc[:2]
    todo = []
    if what == 'box':
        b = np.array(EXTREME[sc[2]])
        i = list(EXTREME).index(sc[2]) + SAMPLERS.index(sc[3])
        for j, seed in enumerate([None, 0, 5, 12345, 2 ** 31 - 1]):
            X, Y = data(DATA[(i + 2 * j) % 9] if sc[2] != 'sixty' else 'usual', b)
            todo.append((b, X, Y, ACQ[(i + j) % 6], sc[3], 3 if sc[3] == 'grid' else 4 + j, seed, {}))
    elif what == 'option':
        b = box(sc[3])
        o = dict(OPTS[sc[2]])
        kw = {}
        if 'prior' in o:
            kw['prior_mu'] = menu.prior(o['prior'])
        if 'use_ard' in o:
            kw['use_ard'] = o['use_ard']
        if 'debug' in o:
            kw['debug'] = True
        if 'opt' in o and (sur == 'gp' or o['opt'] == 'L-BFGS-B'):
            kw[f'str_optimizer_method_{sur}'] = o['opt']
        if 'ms' in o and sur == 'gp':
            kw['str_modelselection_method'] = o['ms']
        for acq, smp, dn in itertools.product(['ei', 'ucb', 'pure_explore'], ['uniform', 'grid'], ['usual', 'corner', 'one']):
            X, Y = data(dn, b)
            todo.append((b, X, Y, acq, smp, 2, 11, kw))
    elif what == 'many':
        b, X, Y = large(2, sc[2])
        todo.append((b, X, Y, 'ei', sc[3], 2, 77, dict(use_ard=False, **(dict(str_optimizer_method_gp='SLSQP-Bounded') if sur == 'gp' else {})) if sur != 'rf' else {}))
    elif what == 'count':
        b = box('three')
        X, Y = data('usual', b)
        todo.append((b, X, Y, 'ei', sc[2], sc[3], 1, {}))
    else:
        for bn, smp, j in itertools.product(['int2', 'unit1'], ['uniform', 'halton', 'grid'], range(2)):
            b = box(bn)
            X, Y = data('usual', b)
            if sc[2] == 'int':
                X, Y = np.round(X).astype(int), np.round(3 * Y).astype(int)
            elif sc[2] == 'float32':
                Y = Y.astype(np.float32)
            else:
                Y = {'zeros': 0 * Y, 'millions': 1e6 * Y + 3e6, 'minute': 1e-9 * Y, 'negative': -np.abs(Y) - 5.0}[sc[2]]
            todo.append((b, X, Y, ['ei', 'aei'][j], smp, 3, 2 + j, {}))
    return todo
