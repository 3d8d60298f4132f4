"""C11: fitted models are consistent and no worse than the default ones."""
import itertools

import numpy as np

from mc import menu, ref
from mc.core import Space, close

BOUNDS = {
    'quick': 'combined mode: all responses over {0,1,4} on 4 points x 3 kernels x 3 priors; GP: 5 optimisers x 2 criteria x 8 kernels x ARD x noise flag x 3 priors x 4 response kinds x data shapes up to n=10, d=4 (two n=30, several up to n=130); '
        'Student-t: 2 optimisers likewise; one optimisation step of the model objects with every mode and setting',
    'thorough': 'all shapes for the set kernels, n up to 60',
}
ASSUMPTIONS = ['scores are recomputed by the reference from the returned hyperparameters; a score may exceed the default one by 1e-6 relative (1e-3 for the SLSQP methods, whose line search is not monotone)',
    'unbounded methods are not run on responses (minus prior mean) of size 1000 (the signal then grows until the kernel matrix is numerically singular)',
    'unbounded methods under leave-one-out may fail with LinAlgError (their optimum can lie at infinity)', 'unbounded SLSQP is not claimed to improve (the method has no safeguard)']
KS = ref.BASE + ref.SETS
GP_OPT = ['BFGS', 'L-BFGS-B', 'Nelder-Mead', 'SLSQP', 'SLSQP-Bounded']
TP_OPT = ['SLSQP', 'L-BFGS-B']
RANGE = {'noise': (1e-3, 1e1), 'dof': (2.00001, 200.0), 'signal': (1e-2, 1e3), 'lengthscales': (1e-2, 1e3)}


def shapes(k, tier):
    if k.startswith('set_') and tier == 'quick':
        return [(1, 1, 'plain'), (3, 2, 'plain'), (4, 1, 'dup')]
    if k == 'eq' and tier == 'quick':
        return [(2, 1, 'plain'), (4, 2, 'plain')]
    s = [(1, 1, 'plain'), (1, 3, 'plain'), (2, 1, 'plain'), (4, 2, 'plain'), (5, 1, 'dup'), (6, 2, 'alldup'), (10, 4, 'plain'), (7, 2, 'wide')]
    if k in ('se', 'matern52') or tier == 'thorough':
        s.append((30, 2, 'plain'))
    if tier == 'thorough' and not k.startswith('set_'):
        s.append((60, 3, 'plain'))
    return s


def score(model, ms):
    return ref.tp_neg_log_ml if model == 'tp' else ref.gp_neg_log_ml if ms == 'ml' else ref.loo_neg_log


def default(model, d, ard):
    h = {'noise': 1e-2, 'signal': 1.0, 'lengthscales': np.ones(d) if ard else 1.0}
    if model == 'tp':
        h['dof'] = 5.0
    return h


def fit(model, X, Y, mu, k, o, ms, ard, fix):
    from bayeso.gp import gp_kernel
    from bayeso.tp import tp_kernel
    if model == 'gp':
        return gp_kernel.get_optimized_kernel(X, Y, mu, k, str_optimizer_method=o, str_modelselection_method=ms, use_ard=ard, fix_noise=fix)
    return tp_kernel.get_optimized_kernel(X, Y, mu, k, str_optimizer_method=o, use_ard=ard, fix_noise=fix)


def consistent(ctx, model, k, X, d, ard, fix, K, Ki, h, tag):
    """K, Kinv and hyperparameters belong together and have the documented form."""
    n = len(X)
    names = {'noise', 'signal', 'lengthscales'} | ({'dof'} if model == 'tp' else set())
    ctx.check(set(h) == names, f'{tag}: hyperparameters {sorted(h)}')
    ctx.check(np.shape(h['lengthscales']) == ((d,) if ard else ()), f'{tag}: length scales of shape {np.shape(h["lengthscales"])}')
    ctx.check(all(np.all(np.isfinite(v)) for v in h.values()), f'{tag}: not finite {h}')
    if fix:
        ctx.check(float(h['noise']) == 1e-2, f'{tag}: fixed noise became {h["noise"]}')
    Kr = ref.train_gram(k, X, h)
    s2 = float(h['signal']) ** 2
    ctx.eq(K, Kr, f'{tag}: kernel matrix for the returned hyperparameters {h}', rtol=1e-6, atol=1e-9 * (s2 + 1))
    cond = np.linalg.cond(Kr)
    if cond < 1e12:
        ctx.check(np.max(np.abs(K @ Ki - np.eye(n))) <= 1e-13 * n * cond + 1e-8, f'{tag}: returned inverse does not belong to the matrix ({np.max(np.abs(K @ Ki - np.eye(n)))}, cond {cond})')


def gen_fit(model):
    def gen(tier):
        for k in KS:
            for o in (GP_OPT if model == 'gp' else TP_OPT):
                for ms in (['ml', 'loocv'] if model == 'gp' else ['ml']):
                    for ard, fix in itertools.product([True, False], repeat=2):
                        for sh in shapes(k, tier):
                            if sh[0] >= 30 and (o == 'Nelder-Mead' or ms == 'loocv') or sh[0] >= 7 and ms == 'loocv' and k == 'matern32' and tier == 'quick':
                                continue
                            yield [model, k, o, ms, ard, fix, list(sh)]
    return gen


def run_fit(sc, ctx):
    model, k, o, ms, ard, fix, (n, d, var) = sc
    X = menu.sets(n, 2, d, var, 2) if k.startswith('set_') else menu.inputs(n, d, var, 2)
    for pk, rk in itertools.product(['none', 'const', 'linear'], ['smooth', 'rough', 'const', 'big']):
        if rk in ('const', 'big') and pk == 'const' or n >= 30 and (pk == 'const' or rk in ('const', 'big')):
            continue
        loose = o == 'SLSQP' and model == 'gp'
        if (rk == 'big' or var == 'wide' and pk == 'linear') and o in ('BFGS', 'Nelder-Mead', 'SLSQP') and model == 'gp':
            continue            # see ASSUMPTIONS
        mu = menu.prior(pk)
        Y = menu.responses(X, rk)
        tag = f'{sc} prior={pk} responses={rk}'
        try:
            K, Ki, h = fit(model, X, Y, mu, k, o, ms, ard, fix)
        except np.linalg.LinAlgError:
            if loose or model == 'gp' and ms == 'loocv' and o in ('BFGS', 'Nelder-Mead'):
                continue        # unbounded method ran away: excepted
            raise
        consistent(ctx, model, k, X, d, ard, fix, K, Ki, h, tag)
        if o in ('L-BFGS-B', 'SLSQP-Bounded') or model == 'tp':
            for name, v in h.items():
                lo, hi = RANGE[name]
                ctx.check(np.all(np.asarray(v) >= lo * (1 - 1e-9)) and np.all(np.asarray(v) <= hi * (1 + 1e-9)),
                    f'{tag}: {name} = {v} outside [{lo}, {hi}]')
        if not loose:
            f = score(model, ms)
            mX = ref.prior(mu, X)
            s0, s1 = f(k, X, Y, default(model, d, ard), mX), f(k, X, Y, h, mX)
            cond = np.linalg.cond(ref.train_gram(k, X, h))
            ctx.check(s1 <= s0 + (1e-3 if 'SLSQP' in o else 1e-6) * (1 + abs(s0)) + 1e-15 * cond, f'{tag}: fitted score {s1} is worse than the default one {s0} ({h})')
        if n <= 4:
            K2, Ki2, h2 = fit(model, X.copy(), Y.copy(), mu, k, o, ms, ard, fix)
            ctx.check(all(close(h2[a], h[a], 1e-9, 1e-12) for a in h), f'{tag}: refitting gives {h2} instead of {h}')
            ctx.trans()
        ctx.trans()
        ctx.trace()
        ctx.state(sc, pk, rk)
        ctx.outcome(*[np.round(np.asarray(h[a], dtype=float), 4) for a in sorted(h)])
    ctx.sample(dict(model=model, kernel=k, optimiser=o, criterion=ms, ard=ard, fix_noise=fix, n=n, d=d))


def gen_many(tier):
    for k, (n, d) in itertools.product(['se', 'matern52'], [(45, 2), (90, 1), (130, 3)]):
        for fix in (True, False):
            yield ['gp', k, 'BFGS', 'ml', k == 'se', fix, [n, d, 'plain']]
            yield ['gp', k, 'L-BFGS-B', 'ml', k != 'se', fix, [n, d, 'plain']]
            yield ['tp', k, 'L-BFGS-B', 'ml', k == 'se', fix, [n, d, 'plain']]
            if n == 45:
                yield ['gp', k, 'L-BFGS-B', 'loocv', k == 'se', fix, [n, d, 'plain']]


def gen_step(tier):
    ks = ['se', 'matern32', 'matern52', 'eq']
    for k in ks:
        for o in GP_OPT:
            for ms in ['ml', 'loocv']:
                for mode in ['regular', 'combined', 'converged']:
                    if mode == 'combined' and o != 'BFGS':
                        continue
                    for ard in [True, False]:
                        yield ['gp', k, o, ms, mode, ard]
        for o in TP_OPT:
            for ard in [True, False]:
                yield ['tp', k, o, 'ml', 'regular', ard]


def run_step(sc, ctx):
    """The model used by one optimisation step is the fit with the object's own settings."""
    from bayeso import bo
    model, k, o, ms, mode, ard = sc
    for (n, d), pk, rk, nrm in itertools.product([(3, 1), (5, 2)], ['none', 'linear'], ['smooth', 'rough'], [True, False]):
        X = menu.inputs(n, d, 'plain', 2)
        Y = menu.responses(X, rk)
        mu = menu.prior(pk)
        box = np.array([[-3.0, 3.0]] * d)
        tag = f'{sc} n={n} d={d} prior={pk} responses={rk} normalise={nrm}'
        kw = dict(str_cov=k, str_acq='pure_explore', normalize_Y=nrm, use_ard=ard, prior_mu=mu)
        if model == 'gp':
            m = bo.BOwGP(box, str_optimizer_method_gp=o, str_modelselection_method=ms, **kw)
            _, info = m.optimize(X, Y, str_sampling_method='uniform', num_samples=1, str_mlm_method=mode, seed=3)
        else:
            m = bo.BOwTP(box, str_optimizer_method_tp=o, **kw)
            _, info = m.optimize(X, Y, str_sampling_method='uniform', num_samples=1, seed=3)
        h = info['hyps']
        consistent(ctx, model, k, X, d, ard, True, info['cov_X_X'], info['inv_cov_X_X'], h, tag)
        Yn = ref.normalise(Y) if nrm and mode != 'converged' else Y
        if mode != 'combined':
            hs = [fit(model, X, Yn, mu, k, o, ms, ard, True)[2]]
        else:
            hs = [fit(model, X, Yn, mu, k, oo, ms, ard, True)[2] for oo in ('BFGS', 'Nelder-Mead')]
        mX = ref.prior(mu, X)
        sc_ = [score(model, 'ml')(k, X, Yn, x, mX) for x in hs]
        ctx.check(any(all(close(h[a], x[a], 1e-5, 1e-7) for a in x) for x in hs) or ms == 'ml' and
            score(model, 'ml')(k, X, Yn, h, mX) <= min(sc_) + 1e-5,
            f'{tag}: step used {h}, fitting with the same settings gives {hs}')
        if mode == 'combined' and ms == 'ml':
            ctx.check(score('gp', 'ml')(k, X, Yn, h, mX) <= min(sc_) + 1e-5 * (1 + abs(min(sc_))),
                f'{tag}: combined mode scores {score("gp", "ml")(k, X, Yn, h, mX)}, its two optimisers {sc_}')
        ctx.trans(1 + len(hs))
        ctx.trace()
        ctx.state(sc, n, d, pk, rk, nrm)


def gen_comb(tier):
    for k, pk in itertools.product(['se', 'matern32', 'matern52'], ['none', 'linear', 'steep']):
        for first in [0.0, 1.0, 4.0]:
            for second in [0.0, 1.0, 4.0]:
                yield [k, pk, first, second]


def run_comb(sc, ctx):
    """The combined mode on all responses over three values: data on which its two optimisers disagree."""
    from bayeso import bo
    k, pk, first, second = sc
    mu = (lambda X: 5.0 * X[:, :1] + 3.0) if pk == 'steep' else menu.prior(pk)
    X = np.array([[0.0], [0.3], [0.6], [1.0]])
    mX = ref.prior(mu, X)
    f = score('gp', 'ml')
    for rest in itertools.product([0.0, 1.0, 4.0], repeat=2):
        Y = np.array([first, second, *rest])[:, None]
        m = bo.BOwGP(np.array([[0.0, 1.0]]), str_cov=k, prior_mu=mu, normalize_Y=False, str_acq='pure_explore')
        _, info = m.optimize(X, Y, str_sampling_method='uniform', num_samples=1, str_mlm_method='combined', seed=3)
        hs = [fit('gp', X, Y, mu, k, oo, 'ml', True, True)[2] for oo in ('BFGS', 'Nelder-Mead')]
        got, sc_ = f(k, X, Y, info['hyps'], mX), [f(k, X, Y, h, mX) for h in hs]
        ctx.check(got <= min(sc_) + 1e-6 * (1 + abs(min(sc_))), f'{sc} responses {Y.ravel().tolist()}: combined mode scores {got}, its two optimisers {sc_}')
        ctx.trans(3)
        ctx.trace()
        ctx.state(sc, rest)
        ctx.outcome(int(sc_[0] < sc_[1] - 1e-4) - int(sc_[1] < sc_[0] - 1e-4))


SPACES = [
    Space('combined', gen_comb, run_comb, 'the better of two optimisers', chunk=2),
    Space('many', gen_many, run_fit, 'up to 130 inputs', chunk=1),
    Space('gp fits', gen_fit('gp'), run_fit, 'fitting of the Gaussian process', chunk=4),
    Space('tp fits', gen_fit('tp'), run_fit, 'fitting of the Student-t process', chunk=4),
    Space('steps', gen_step, run_step, 'model used by an optimisation step, all modes', chunk=2),
]
