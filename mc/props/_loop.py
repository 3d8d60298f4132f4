"""Shared by C04 and C05: driving the optimisation loops with scripted or real steps."""
import numpy as np

API_CLASS = ['class:sampled', 'class:inputs', 'class:all']
API_FUN = ['fun:sampled', 'fun:inputs', 'fun:all']


class Target:
    """Records its calls; returns distinct values (a fresh one per call) in a given form;
    raises at a given evaluation."""
    def __init__(self, form='float', fault=None, exc=None, base=0.0, fun=None):
        self.form, self.fault, self.exc, self.base, self.fun = form, fault, exc, base, fun
        self.calls, self.values = [], []
        self.at = (None, None)

    def __call__(self, bx):
        i = len(self.calls)
        self.calls.append(np.array(bx, dtype=float, copy=True))
        if self.fault is not None and i == self.fault:
            raise self.exc('injected fault')
        if self.fun is not None:
            v = float(self.fun(np.asarray(bx, dtype=float)))
        else:
            v = self.base + [3.0, -1.0, 7.0, 2.0, -4.0, 11.0, 0.0, 5.0][i % 8] + 16.0 * (i // 8)
        if self.at[0] == 'all' or self.at[0] == i or self.at[0] == 'alternate' and i % 2:
            v = self.at[1]
        if callable(self.at[0]):
            v = float(self.at[0](i))
        if self.form == 'int':
            v = int(round(v))
        self.values.append(float(v))
        return {'float': float(v), 'int': v, 'np': np.float64(v), '0d': np.array(float(v)), '1d': np.array([float(v)]),
            '2d': np.array([[float(v)]]), 'f32': np.float32(v), 'bool': v}[self.form]


def info_for(n, points, acq, Y, t):
    """A complete result of one step, as the model objects document it."""
    points = np.array(points, dtype=float)
    return {'next_points': points, 'acquisitions': np.array(acq, dtype=float), 'Y_original': Y, 'Y_normalized': Y,
        'cov_X_X': np.eye(n), 'inv_cov_X_X': np.eye(n), 'hyps': {'noise': 0.01, 'signal': 1.0, 'lengthscales': np.ones(points.shape[1])},
        'trees': [], 'time_surrogate': t[0], 'time_acq': t[1], 'time_overall': t[0] + t[1]}


class Spy:
    """Replaces the step of a model object by a script, or watches the real one."""
    def __init__(self, model, script=None):
        self.seen, self.infos, self.points = [], [], []
        real = model.optimize

        def optimize(X_train, Y_train, *args, **kw):
            self.seen.append((np.array(X_train, dtype=float, copy=True), np.array(Y_train, dtype=float, copy=True)))
            if script is None:
                p, info = real(X_train, Y_train, *args, **kw)
            else:
                p, info = script(len(self.seen) - 1, X_train, Y_train)
            self.points.append(np.array(p, copy=True))
            self.infos.append(dict(info))
            return p, info
        model.optimize = optimize


def make(api, box, num_iter, target, surrogate='gp', **kw):
    """Returns (model object, run(X, Y, num_init, seed))."""
    from bayeso import bo
    from bayeso.wrappers import BayesianOptimization
    from bayeso.wrappers import wrappers_bo_function as F
    kind = api.split(':')[1]
    if api.startswith('class'):
        if surrogate == 'rf':
            kw.setdefault('str_optimizer_method_bo', 'random_search')
        w = BayesianOptimization(box, target, num_iter, str_surrogate=surrogate, **kw)

        def run(X=None, Y=None, num_init=None, seed=None):
            if kind == 'sampled':
                return w.optimize(num_init, seed=seed)
            if kind == 'inputs':
                return w.optimize_with_initial_inputs(X)
            return w.optimize_with_all_initial_information(X, Y)
        return w.model_bo, run
    fkw = {}
    for a, b in (('num_samples_ao', 'num_samples_ao'), ('str_sampling_method_ao', 'str_sampling_method_ao'), ('str_mlm_method', 'str_mlm_method')):
        if a in kw:
            fkw[b] = kw.pop(a)
    init = kw.pop('str_initial_method_bo', None)
    m = bo.BOwGP(box, **kw)

    def run(X=None, Y=None, num_init=None, seed=None):
        if kind == 'sampled':
            e = {} if init is None else {'str_initial_method_bo': init}
            return F.run_single_round(m, target, num_init, num_iter, seed=seed, **e, **fkw)
        if kind == 'inputs':
            return F.run_single_round_with_initial_inputs(m, target, X, num_iter, **fkw)
        return F.run_single_round_with_all_initial_information(m, target, X, Y, num_iter, **fkw)
    return m, run


def check_record(ctx, kind, out, target, first_call, X0, Y0, n0, num_iter, spy, first_seen, tag):
    """out: the returned five arrays of a completed run; first_call/first_seen: where this run starts in the logs."""
    ctx.check(len(out) == 5, f'{tag}: {len(out)} values returned')
    X, Y, t_all, t_sur, t_acq = out
    d = X0.shape[1] if X0 is not None else X.shape[1]
    n = n0 + num_iter
    ctx.check(np.shape(X) == (n, d) and np.shape(Y) == (n, 1), f'{tag}: returned shapes {np.shape(X)}, {np.shape(Y)}, expected {(n, d)}, {(n, 1)}')
    X, Yf = np.asarray(X, dtype=float), np.asarray(Y, dtype=float)
    if X0 is not None:
        ctx.identical(X[:n0], np.asarray(X0, dtype=float), f'{tag}: initial points')
    calls, vals = target.calls[first_call:], target.values[first_call:]
    skip = n0 if kind == 'all' else 0
    if kind == 'all':
        ctx.identical(Yf[:n0], np.asarray(Y0, dtype=float), f'{tag}: supplied responses')
    ctx.check(len(calls) == n - skip, f'{tag}: {len(calls)} evaluations, expected {n - skip}')
    for i, (c, v) in enumerate(zip(calls, vals)):
        ctx.identical(c, X[skip + i], f'{tag}: evaluation {i} was made at a point other than recorded row {skip + i}')
        ctx.check(Yf[skip + i, 0] == v, f'{tag}: row {skip + i} records {Yf[skip + i, 0]}, the target returned {v}')
    m = num_iter if kind == 'all' else n
    ctx.check(np.shape(t_all) == (m,) and np.shape(t_sur) == (num_iter,) and np.shape(t_acq) == (num_iter,),
        f'{tag}: time arrays {np.shape(t_all)}, {np.shape(t_sur)}, {np.shape(t_acq)}, expected {(m,)}, {(num_iter,)}, {(num_iter,)}')
    for t in (t_all, t_sur, t_acq):
        ctx.check(np.all(np.isfinite(t)) and np.all(np.asarray(t) >= 0), f'{tag}: times {t}')
    seen = spy.seen[first_seen:]
    if seen:        # the loop consults the model object through its public step
        ctx.check(len(seen) == num_iter, f'{tag}: {len(seen)} steps for {num_iter} iterations')
        for j, (sx, sy) in enumerate(seen):
            ctx.check(sx.shape == (n0 + j, d) and np.array_equal(sx, X[:n0 + j]) and np.array_equal(sy, Yf[:n0 + j]),
                f'{tag}: step {j} was given {sx.tolist()}, {sy.ravel().tolist()}, recorded so far {X[:n0 + j].tolist()}, {Yf[:n0 + j].ravel().tolist()}')
        inf = spy.infos[first_seen:]
        ctx.eq(t_sur, [i['time_surrogate'] for i in inf], f'{tag}: model-fitting times', rtol=1e-9, atol=0)
        ctx.eq(t_acq, [i['time_acq'] for i in inf], f'{tag}: acquisition times', rtol=1e-9, atol=0)
