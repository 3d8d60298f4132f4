"""Malformed versions of a valid argument (used by C23)."""
import numpy as np


NAMES = ['BFGS', 'L-BFGS-B', 'Nelder-Mead', 'SLSQP', 'SLSQP-Bounded', 'DIRECT', 'CMA-ES', 'random_search', 'eq', 'se', 'matern32', 'matern52', 'set_se', 'set_matern52',
    'pi', 'ei', 'ucb', 'aei', 'pure_exploit', 'pure_explore', 'uniform', 'gaussian', 'sobol', 'halton', 'grid', 'latin', 'regular', 'combined', 'converged', 'ml', 'loocv', 'gp', 'tp', 'rf', 'matern', 'random']


def corruptions(x, optional=False, arg=None):
    """(kind, malformed value) for a valid value x, one wrong thing at a time."""
    out = _corruptions(x, optional)
    if isinstance(x, str):
        out += [(f'name {n}', n) for n in NAMES if n != x]
    if arg == 'prior_mu':
        out += [('returns a flat array', lambda X: np.ones(X.shape[0])), ('returns one row', lambda X: np.ones((1, 1)) if X.shape[0] != 1 else np.ones((2, 1))),
            ('returns a row more', lambda X: np.ones((X.shape[0] + 1, 1))), ('returns a row less', lambda X: np.ones((X.shape[0] - 1, 1))),
            ('returns three axes', lambda X: np.ones((X.shape[0], 1, 1))), ('returns a list', lambda X: [[0.0]] * X.shape[0])]
    if isinstance(x, np.ndarray) and x.ndim == 2 and x.shape[1] == 2 and x.shape[0] > 1 and arg in ('range_X', 'bounds', 'ranges'):
        for i in (0, x.shape[0] - 1):
            y = x.copy()
            y[i] = y[i, ::-1]
            out += [(f'row {"first" if i == 0 else "last"} swapped', y)]
    return out


def _corruptions(x, optional=False):
    out = [('object', object()), ('string' if not isinstance(x, str) else 'number', 'abc' if not isinstance(x, str) else 3)]
    if x is None or callable(x):
        out += [('number', 3), ('array', np.zeros((2, 2)))]
        if callable(x) and not optional:
            out += [('none', None)]
        return out
    if not optional:
        out += [('none', None)]
    if isinstance(x, np.ndarray):
        out += [('list', x.tolist()), ('scalar', 0.5), ('rank+1', x[None]), ('rank-1', x[0])]
        if x.ndim > 1:
            out += [('flat', x.ravel()), ('column+', np.concatenate((x, x[..., :1]), axis=-1))]
            if x.shape[-1] > 1:
                out += [('column-', x[..., :-1])]
        if x.ndim == 2 and x.shape[1] == 2:
            out += [('swapped', x[:, ::-1].copy())]
        if x.ndim == 2 and x.shape[0] != x.shape[1]:
            out += [('transposed', x.T.copy())]
        if x.shape[0] > 2:
            out += [('one row', x[:1]), ('half the rows', x[:x.shape[0] // 2])]
        out += [('rows twice', np.concatenate((x, x))), ('text', x.astype(str)), ('numpy object', x.astype(object))]
        out += [('far', x + 1e6), ('row+', np.concatenate((x, x[:1]))), ('row-', x[:-1]), ('empty', x[:0])]
    elif isinstance(x, bool):
        out += [('int', 1), ('float', 1.0), ('zero', 0), ('word', 'True'), ('array', np.array([x])), ('list', [x])]
    elif isinstance(x, int):
        out += [('float', float(x)), ('array', np.array([x])), ('half', x + 0.5), ('negative', -3), ('zero', 0), ('word', str(x)), ('list', [x]), ('tuple', (x,)), ('complex', complex(x))]
    elif isinstance(x, float):
        out += [('negative', -1.0), ('zero', 0.0), ('array', np.array([x, x])), ('list', [x]), ('word', str(x)), ('single array', np.array([x])), ('complex', complex(x))]
    elif isinstance(x, str):
        out += [('unknown', 'no_such_name'), ('upper', x.upper() if x.upper() != x else x.lower()), ('padded', x + ' '), ('empty', ''), ('list', [x]), ('prefix', x[:-1]), ('first letter', x[:1]), ('suffixed', x + '_'), ('title', x.title() if x.title() != x else x.swapcase()), ('bytes', x.encode()), ('tuple', (x,)), ('dict', {x: x})]
    elif isinstance(x, dict):
        out += [('list', list(x.values())), ('array', np.array([1.0, 2.0]))]
        for k in x:
            out.append((f'without {k}', {j: v for j, v in x.items() if j != k}))
            out.append((f'{k} as text', dict(x, **{k: 'abc'})))
            out.append((f'{k} as None', dict(x, **{k: None})))
            out.append((f'{k} as list of one', dict(x, **{k: [x[k]]})))
            if isinstance(x[k], np.ndarray) and len(x[k]) > 1:
                out.append((f'{k} too short', dict(x, **{k: x[k][:-1]})))
            if isinstance(x[k], np.ndarray):
                out.append((f'{k} too long', dict(x, **{k: np.concatenate((x[k], x[k]))})))
                out.append((f'{k} as list', dict(x, **{k: x[k].tolist()})))
            else:
                out.append((f'{k} as array', dict(x, **{k: np.array([x[k], x[k]])})))
    elif isinstance(x, (list, tuple)):
        out += [('array', np.zeros(3)), ('dict', {})]
    return out


OPTIONAL = ('seed', 'str_exp', 'prior_mu', 'noise', 'shape_X2', 'X_test')


def requests():
    """Every (operation, argument, kind of corruption, malformed value), in a fixed order."""
    from mc.props import _ops as O
    for name, o in O.OPS.items():
        for k, x in o.args(0).items():
            for kind, bad in corruptions(x, k in OPTIONAL, k):
                yield name, k, kind, bad
