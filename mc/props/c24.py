"""C24: every option reaches the component that uses it."""
import contextlib
import inspect
import io
import itertools

import numpy as np

from mc import menu, ref
from mc.core import Space, close
from mc.props._step import ACQ, SAMPLERS

BOUNDS = {
    'quick': 'Gaussian process: 4 kernels x ARD x 3 priors x 5 fitting methods x 2 criteria x 3 modes x normalisation, directly and through the class interface; '
        'Student-t: 4 kernels x ARD x 3 priors x 2 methods x normalisation, likewise; a part of these on 10 further data sets (1..60 points, 1..10 dimensions, scales 1e-4..1e4); 3 surrogates x 6 acquisitions x 5 samplers x 3 counts through all seven entry points, 12 iterations, 6 dimensions, 130 candidates; all of these also with the debug flag and with an experiment name; 3 acquisition optimisers x 3 dimensions; '
        'initial points: 4 methods x 4 counts x 4 seeds x 3 surrogates x both interfaces; every option left out, singly and all together',
    'thorough': 'as quick with 4 data sets',
}
ASSUMPTIONS = ['what a fit returns for given settings is judged by C11, what a sampler returns by C03',
    'combinations in which the fitting function itself fails for the data (unbounded optimisers) are compared as failing alike']
KER = ['matern52', 'se', 'matern32', 'eq']
PRI = ['none', 'const', 'linear']
GPO = ['BFGS', 'L-BFGS-B', 'Nelder-Mead', 'SLSQP', 'SLSQP-Bounded']
TPO = ['SLSQP', 'L-BFGS-B']
BOX = np.array([[-2.0, 2.0], [-2.0, 3.0]])


MORE = [(1, 2, 'rough', 1.0), (2, 1, 'rough', 1.0), (30, 1, 'smooth', 1.0), (4, 6, 'rough', 1.0), (60, 2, 'rough', 1.0), (5, 2, 'rough', 1e4), (5, 2, 'rough', 1e-4), (6, 3, 'const', 1.0), (12, 10, 'smooth', -3.0), (5, 2, 'big', 1.0)]


def data(j):
    if j >= 10:
        n, d, kind, f = MORE[j - 10]
        X = menu.inputs(n, d, 'plain', 2)
        return X, f * menu.responses(X, kind)
    X = menu.inputs(5 + j, 2, 'plain', 3 + j)
    return X, menu.responses(X, ['smooth', 'rough'][j % 2])


def fit_ref(sur, cfg, mode, nrm, X, Y):
    from bayeso.gp import gp_kernel, gp_likelihood
    from bayeso.tp import tp_kernel
    from bayeso.utils import utils_covariance as C
    cov, ard, mu, opt, ms = cfg
    if nrm and mode != 'converged':
        Y = ref.normalise(Y)
    if sur == 'tp':
        return tp_kernel.get_optimized_kernel(X, Y, mu, cov, str_optimizer_method=opt, use_ard=ard)
    if mode != 'combined':
        return gp_kernel.get_optimized_kernel(X, Y, mu, cov, str_optimizer_method=opt, str_modelselection_method=ms, use_ard=ard)
    c = [gp_kernel.get_optimized_kernel(X, Y, mu, cov, str_optimizer_method=o, str_modelselection_method=ms, use_ard=ard) for o in ('BFGS', 'Nelder-Mead')]
    s = [ref.gp_neg_log_ml(cov, X, Y, h[2], ref.prior(mu, X)) for h in c]
    return [c[0], c[1]] if abs(s[0] - s[1]) < 1e-7 * (1 + abs(s[0])) else c[int(np.argmin(s))]


def same_hyps(a, b):
    return set(a) == set(b) and all(np.shape(a[k]) == np.shape(b[k]) and close(a[k], b[k], 1e-6, 1e-9) for k in a)


def attempt(f):
    try:
        return f()
    except np.linalg.LinAlgError as e:
        return e


def gen_fit(tier):
    for j in range(1 if tier == 'quick' else 4):
        for cov, ard, pk, opt, ms, nrm in itertools.product(KER, [True, False], PRI, GPO, ['ml', 'loocv'], [True, False]):
            yield ['gp', cov, ard, pk, opt, ms, nrm, j]
        for cov, ard, pk, opt, nrm in itertools.product(KER, [True, False], PRI, TPO, [True, False]):
            yield ['tp', cov, ard, pk, opt, 'ml', nrm, j]
    for j in range(10, 10 + len(MORE)):
        for cov, ard, nrm in itertools.product(['matern52', 'se'], [True, False], [True, False]):
            for pk, opt, ms in (('none', 'BFGS', 'ml'), ('linear', 'L-BFGS-B', 'ml'), ('const', 'SLSQP-Bounded', 'loocv')):
                yield ['gp', cov, ard, pk, opt, ms, nrm, j]
            yield ['tp', cov, ard, 'linear', 'SLSQP' if ard else 'L-BFGS-B', 'ml', nrm, j]
    for extra in EXTRA[1:]:
        for cov, ard, opt, ms, nrm in itertools.product(KER if tier != 'quick' else ['se', 'matern32'], [True, False], GPO, ['ml', 'loocv'], [True, False]):
            yield ['gp', cov, ard, 'linear', opt, ms, nrm, 0, extra]
        for cov, ard, opt, nrm in itertools.product(KER, [True, False], TPO, [True, False]):
            yield ['tp', cov, ard, 'linear', opt, 'ml', nrm, 0, extra]


EXTRA = [{}, {'debug': True}, {'str_exp': 'trial'}]


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f()


def run_fit(sc, ctx):
    """The hyperparameters of a step are the ones these settings imply, directly and through the wrapper."""
    from bayeso import bo
    from bayeso.wrappers import BayesianOptimization
    sur, cov, ard, pk, opt, ms, nrm, j = sc[:8]
    extra = sc[8] if len(sc) > 8 else {}
    mu = menu.prior(pk)
    X, Y = data(j)
    box = BOX if j < 10 else np.array([[-2.0, 2.0]] * X.shape[1])
    for mode in (['regular', 'combined', 'converged'] if sur == 'gp' else ['regular']):
        if mode == 'combined' and opt != GPO[0]:
            continue
        want = attempt(lambda: fit_ref(sur, (cov, ard, mu, opt, ms), mode, nrm, X, Y))
        kw = dict(str_cov=cov, use_ard=ard, prior_mu=mu, normalize_Y=nrm, str_acq='pure_explore', **extra)
        kw.update(dict(str_optimizer_method_gp=opt, str_modelselection_method=ms) if sur == 'gp' else dict(str_optimizer_method_tp=opt))

        def direct():
            m = (bo.BOwGP if sur == 'gp' else bo.BOwTP)(box, **kw)
            return m.optimize(X, Y, num_samples=1, **(dict(str_mlm_method=mode) if sur == 'gp' else {}))[1]

        def wrapped():
            k = dict(kw, str_mlm_method=mode) if sur == 'gp' else kw
            w = BayesianOptimization(box, lambda x: 0.0, 1, str_surrogate=sur, num_samples_ao=1, **k)
            return w.optimize_single_iteration(X, Y)[1]
        for how, f in (('model object', direct), ('class interface', wrapped)):
            got = attempt(lambda: quiet(f))
            if isinstance(want, Exception):
                ctx.check(isinstance(got, Exception), f'{sc} {mode} {how}: the fit fails with {want!r}, the step does not')
            else:
                ctx.check(not isinstance(got, Exception), f'{sc} {mode} {how}: {got!r}')
                opts = want if isinstance(want, list) else [want]
                ctx.check(any(same_hyps(got['hyps'], h) for _, _, h in opts),
                    lambda: f'{sc} {mode} {how}: hyperparameters {got["hyps"]}, these settings give {opts[0][2]}')
            ctx.trans()
            ctx.trace()
        ctx.state(sc, mode)
    if not isinstance(want, Exception):
        h = (want[0] if isinstance(want, list) else want)[2]
        ctx.outcome(np.round(np.atleast_1d(h['lengthscales']), 4), round(float(h['signal']), 4))


class Watch:
    """Records the arguments a public method is called with, and calls it."""
    def __init__(self, obj, name):
        self.calls = []
        real = getattr(obj, name)
        sig = inspect.signature(real)

        def f(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            self.calls.append(dict(b.arguments))
            return real(*a, **k)
        setattr(obj, name, f)


ENTRY = ['all', 'inputs', 'sampled', 'single']


def gen_step(tier):
    for sur, acq, smp, ns, api, entry in itertools.product(['gp', 'tp', 'rf'], ACQ, SAMPLERS, [1, 2, 5], ['class', 'function'], ENTRY):
        if (api == 'function' and (entry == 'single' or sur != 'gp')) or (entry != 'all' and ns == 1) or (entry in ('inputs', 'sampled') and ns == 5 and smp == 'grid'):
            continue
        yield [sur, acq, smp, ns, api, entry, 2 if entry != 'single' and ns == 2 else 1, 2]
    for sur, api, entry, (d, ns, it) in itertools.product(['gp', 'tp', 'rf'], ['class', 'function'], ENTRY[:3], [(1, 3, 12), (6, 3, 3), (3, 130, 2)]):
        if api == 'class' or sur == 'gp':
            yield [sur, 'ucb', 'halton', ns, api, entry, it, d]
    for sur, acq, smp, api, entry, extra in itertools.product(['gp', 'tp', 'rf'], ACQ, SAMPLERS, ['class', 'function'], ENTRY, EXTRA[1:]):
        if api == 'class' or (sur == 'gp' and entry != 'single'):
            yield [sur, acq, smp, 2, api, entry, 2 if entry == 'all' else 1, 2, extra]


def run_step(sc, ctx):
    """Acquisition, sampler, count and fitting mode of every iteration."""
    from bayeso import bo
    from bayeso.wrappers import BayesianOptimization
    from bayeso.wrappers import wrappers_bo_function as F
    sur, acq, smp, ns, api, entry, its, d = sc[:8]
    extra_kw = sc[8] if len(sc) > 8 else {}
    X, Y = data(0)
    box = BOX
    if d != 2:
        X = menu.inputs(5, d, 'plain', 4)
        Y = menu.responses(X, 'rough')
        box = np.array([[-2.0, 2.0 + 0.5 * i] for i in range(d)])
        X = np.clip(X, box[:, 0], box[:, 1])
    mode = ['regular', 'combined', 'converged'][(ACQ.index(acq) + SAMPLERS.index(smp) + ns + ENTRY.index(entry)) % 3]
    n_ev = 0

    def target(x):
        nonlocal n_ev
        n_ev += 1
        return 0.5 + np.sin(3 * float(np.ravel(x)[0])) + 0.01 * n_ev
    new = lambda **k: (bo.BOwGP(box, str_acq=acq, **k) if sur == 'gp' else bo.BOwTP(box, str_acq=acq, **k) if sur == 'tp'
        else bo.BOwTrees(box, 'rf', str_acq=acq, str_optimizer_method_bo='random_search', **k))
    extra = 0
    if api == 'class':
        w = BayesianOptimization(box, target, its, str_surrogate=sur, str_acq=acq, str_sampling_method_ao=smp, num_samples_ao=ns,
            str_mlm_method=mode, **extra_kw, **(dict(str_optimizer_method_bo='random_search') if sur == 'rf' else {}))
        m = w.model_bo
        run = {'all': lambda: w.optimize_with_all_initial_information(X, Y), 'inputs': lambda: w.optimize_with_initial_inputs(X),
            'sampled': lambda: w.optimize(3), 'single': lambda: w.optimize_single_iteration(X, Y)}[entry]
    else:
        m = new(**extra_kw)
        kw = dict(str_sampling_method_ao=smp, num_samples_ao=ns, str_mlm_method=mode)
        run = {'all': lambda: F.run_single_round_with_all_initial_information(m, target, X, Y, its, **kw),
            'inputs': lambda: F.run_single_round_with_initial_inputs(m, target, X, its, **kw),
            'sampled': lambda: F.run_single_round(m, target, 3, its, **kw)}[entry]
    extra = {'all': 0, 'inputs': len(X), 'sampled': 3, 'single': 0}[entry]
    infos = []
    a, s = Watch(m, 'optimize'), Watch(m, 'get_samples')
    inner = m.optimize
    m.optimize = lambda *x, **k: infos.append(inner(*x, **k)) or infos[-1]
    quiet(run)
    ev = its + extra if entry != 'single' else 0
    ctx.check(len(a.calls) == its and n_ev == ev, f'{sc}: {len(a.calls)} steps, {n_ev} evaluations')
    o = new()
    for i, (c, (p, info)) in enumerate(zip(a.calls, infos)):
        ctx.check(c['str_sampling_method'] == smp and c['num_samples'] == ns, f'{sc}: step {i} was asked for {c["num_samples"]} {c["str_sampling_method"]} samples')
        if sur == 'gp':
            ctx.check(c['str_mlm_method'] == mode, f'{sc}: step {i}: fitting mode {c["str_mlm_method"]} instead of {mode}')
        ctx.check(len(info['next_points']) == (ns ** d if smp == 'grid' else ns), f'{sc}: step {i}: {len(info["next_points"])} candidates')
        Xi = c['X_train']
        if sur != 'rf':
            v = -o.compute_acquisitions(info['next_points'], Xi, info['Y_normalized'], info['cov_X_X'], info['inv_cov_X_X'], info['hyps'])
        else:
            v = -o.compute_acquisitions(info['next_points'], Xi, info['Y_normalized'], info['trees'])
        ctx.eq(info['acquisitions'], v, f'{sc}: step {i}: acquisition values of another acquisition function', rtol=1e-6, atol=1e-8)
        ctx.trans()
    if s.calls and entry != 'sampled':
        ctx.check(all(x['str_sampling_method'] == smp and x['num_samples'] == ns for x in s.calls), f'{sc}: sampled {s.calls}')
    ctx.trace()
    ctx.state(sc, mode)
    ctx.outcome(np.round(v, 3))


def gen_ao(tier):
    for sur, ao, acq, d, ns in itertools.product(['gp', 'tp'], ['L-BFGS-B', 'DIRECT', 'CMA-ES'], ['ei', 'ucb'], [1, 2, 3], [1, 2, 3]):
        yield [sur, ao, acq, d, ns]
        if acq == 'ei' and ns == 2:
            for extra in EXTRA[1:]:
                yield [sur, ao, acq, d, ns, extra]


def run_ao(sc, ctx):
    """The acquisition optimiser: the class interface gives the candidates a model object with the same optimiser gives."""
    from bayeso import bo
    from bayeso.wrappers import BayesianOptimization
    sur, ao, acq, d, ns = sc[:5]
    extra = sc[5] if len(sc) > 5 else {}
    X = menu.inputs(5, d, 'plain', 4)
    Y = menu.responses(X, 'rough')
    box = np.array([[-2.0, 2.0 + 0.5 * i] for i in range(d)])
    X = np.clip(X, box[:, 0], box[:, 1])
    cls = bo.BOwGP if sur == 'gp' else bo.BOwTP
    res = {}
    for other in ['L-BFGS-B', 'DIRECT', 'CMA-ES']:
        res[other] = cls(box, str_acq=acq, str_optimizer_method_bo=other).optimize(X, Y, str_sampling_method='grid', num_samples=ns)[1]['next_points']
    w = BayesianOptimization(box, lambda x: 0.0, 1, str_surrogate=sur, str_acq=acq, str_optimizer_method_bo=ao, str_sampling_method_ao='grid', num_samples_ao=ns, **extra)
    got = quiet(lambda: w.optimize_single_iteration(X, Y))[1]['next_points']
    ctx.check(got.shape == res[ao].shape, f'{sc}: {got.shape} candidates, a model object with this optimiser gives {res[ao].shape}')
    if d == 1 or ao != 'CMA-ES':         # (CMA-ES in one dimension is replaced by another optimiser; otherwise it is random without a seed)
        ctx.eq(got, res[ao], f'{sc}: candidates', rtol=1e-6, atol=1e-6)
    ctx.trans(4)
    ctx.trace()
    ctx.state(sc)
    ctx.outcome([np.array_equal(res[a], res[b]) for a in res for b in res])


def gen_init(tier):
    for sur, meth, n, api in itertools.product(['gp', 'tp', 'rf'], ['uniform', 'gaussian', 'sobol', 'halton'], [1, 2, 3, 8], ['class', 'function']):
        if api == 'class' or sur == 'gp':       # the function interface takes Gaussian-process models
            yield [sur, meth, n, api]


def run_init(sc, ctx):
    """A run starts from the points its sampler gives for the method, the count and the seed."""
    from bayeso import bo
    from bayeso.wrappers import BayesianOptimization
    from bayeso.wrappers import wrappers_bo_function as F
    sur, meth, n, api = sc
    seen = set()
    for seed, extra in itertools.product([0, 1, 7, 12345, None], EXTRA):
        other = bo.BOwGP(BOX)
        f = lambda x: float(np.sum(x))
        if api == 'class':
            w = BayesianOptimization(BOX, f, 1, str_surrogate=sur, str_initial_method_bo=meth, num_samples_ao=1,
                **extra, **(dict(str_optimizer_method_bo='random_search') if sur == 'rf' else {}))
            s = Watch(w.model_bo, 'get_initials')
            X = quiet(lambda: w.optimize(n, seed=seed)[0])
        else:
            m = bo.BOwGP(BOX, **extra)
            s = Watch(m, 'get_initials')
            X = quiet(lambda: F.run_single_round(m, f, n, 1, str_initial_method_bo=meth, num_samples_ao=1, seed=seed)[0])
        ctx.check(X.shape == (n + 1, 2), f'{sc} seed {seed} {extra}: shape {X.shape}')
        if seed is not None:
            ctx.identical(X[:n], other.get_initials(meth, n, seed=seed), f'{sc} seed {seed} {extra}: initial points')
        if s.calls:
            ctx.check(s.calls[0]['str_initial_method'] == meth, f'{sc}: initial method {s.calls[0]}')
        seen.add(X[:n].tobytes())
        ctx.trans()
        ctx.trace()
        ctx.state(sc, seed)
    ctx.check(len(seen) == 7, f'{sc}: different seeds, the same initial points')
    ctx.outcome(np.round(X[:n], 3))


DEF_GP = ['str_cov', 'str_acq', 'normalize_Y', 'use_ard', 'prior_mu', 'str_optimizer_method_gp', 'str_optimizer_method_bo', 'str_modelselection_method', 'str_exp', 'debug']
DEF_TP = ['str_cov', 'str_acq', 'normalize_Y', 'use_ard', 'prior_mu', 'str_optimizer_method_tp', 'str_optimizer_method_bo', 'str_exp', 'debug']


def gen_default(tier):
    for sur, names in (('gp', DEF_GP), ('tp', DEF_TP)):
        for api in ('direct', 'class'):
            for k in [None, 'all'] + names:
                yield [sur, api, k]


def run_default(sc, ctx):
    """An option left out means the documented default."""
    from bayeso import bo, constants as K
    from bayeso.wrappers import BayesianOptimization
    sur, api, left = sc
    full = dict(str_cov=K.STR_COV, str_acq=K.STR_BO_ACQ, normalize_Y=K.NORMALIZE_RESPONSE, use_ard=K.USE_ARD, prior_mu=None,
        str_optimizer_method_bo=K.STR_OPTIMIZER_METHOD_AO, str_exp=None, debug=False)
    if sur == 'gp':
        full.update(str_optimizer_method_gp=K.STR_OPTIMIZER_METHOD_GP, str_modelselection_method=K.STR_MODELSELECTION_METHOD)
    else:
        full.update(str_optimizer_method_tp=K.STR_OPTIMIZER_METHOD_TP)
    doc = dict(str_cov='matern52', str_acq='ei', normalize_Y=True, use_ard=True, str_optimizer_method_bo='L-BFGS-B')
    for k, v in doc.items():
        ctx.check(full[k] == v, f'default of {k} is {full[k]!r}')
    kw = {k: v for k, v in full.items() if left != 'all' and k != left}
    X, Y = data(0)
    if api == 'direct':
        m = (bo.BOwGP if sur == 'gp' else bo.BOwTP)(BOX, **kw)
    else:
        w = BayesianOptimization(BOX, lambda x: 0.0, 1, str_surrogate=sur, **kw)
        m = w.model_bo
    p, info = m.optimize(X, Y, str_sampling_method='grid', num_samples=2)
    Yn = ref.normalise(Y)
    want = fit_ref(sur, ('matern52', True, None, full.get('str_optimizer_method_gp') or full.get('str_optimizer_method_tp'), 'ml'), 'regular', True, X, Y)
    ctx.eq(info['Y_normalized'], Yn, f'{sc}: normalised responses', rtol=1e-9, atol=1e-9)
    ctx.check(same_hyps(info['hyps'], want[2]), f'{sc}: hyperparameters {info["hyps"]}, the defaults give {want[2]}')
    ctx.trans()
    ctx.trace()
    ctx.state(sc)
    ctx.outcome(np.round(info['acquisitions'], 3))
    if api == 'class' and left in (None, 'all'):
        a = Watch(m, 'optimize')
        w.optimize_single_iteration(X, Y)
        c = a.calls[0]
        ctx.check(c['str_sampling_method'] == K.STR_SAMPLING_METHOD_AO and c['num_samples'] == K.NUM_SAMPLES_AO, f'{sc}: default step {c["num_samples"]} {c["str_sampling_method"]}')
        if sur == 'gp':
            ctx.check(c['str_mlm_method'] == K.STR_MLM_METHOD, f'{sc}: default mode {c["str_mlm_method"]}')


SPACES = [
    Space('fit', gen_fit, run_fit, 'fitting options', chunk=8),
    Space('step', gen_step, run_step, 'acquisition, sampler, count and mode', chunk=8),
    Space('optimiser', gen_ao, run_ao, 'acquisition optimiser', chunk=4),
    Space('init', gen_init, run_init, 'initial points of a run', chunk=8),
    Space('default', gen_default, run_default, 'options left out', chunk=4),
]
