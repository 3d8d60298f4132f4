"""C02: a suggestion is the best candidate under the model that is reported with it."""
import itertools

import numpy as np

from mc import menu, ref
from mc.core import Space
from mc.props._step import ACQ, BOXES, KS, LARGE, SAMPLERS, box, build, data, gen_ext, large, plan_ext, step

BOUNDS = {
    'quick': '2 surrogates x 4 kernels x 6 acquisitions x 5 samplers x normalisation x 3 fitting modes x 3 priors (boxes and data sets rotating over the alphabet); random forests x 6 x 5 x normalisation x boxes x data; '
        'CMA-ES x 12; runs of 3 steps; all tables of <= 3 values out of 12, up to 5000 candidates with the best at given positions; flat acquisitions: 3 surrogates x 5 acquisitions x 4 kernels x 3 profiles x 2 sizes x 3 seeds; up to 20 dimensions, 110 data, 324 candidates (5000 for forests); 9 extreme boxes, 10 option settings, 6 kinds of data',
    'thorough': 'every setting with every box and 4 data sets, 20 candidates, runs of 6 steps, tables of 4 values, 12 seeds',
}
ASSUMPTIONS = ['acquisition values are compared up to the error that 1e-13 x condition number x size of the kernel matrix implies for them (at least 1e-6 relative); '
    'where that exceeds 1 % of the response spread only the choice among the reported values is checked']


def acq_with_tol(acq, mean, std, Yn, noise, dm, ds):
    """Reference values (negated, times 10) and how far a rounding error dm, ds can move them."""
    v, t = [], []
    for m, s, e in zip(mean, std, ds):
        c = [ref.acq(acq, m + a * dm, max(s + b * e, 0.0), Yn, noise) for a in (0, -1, 1) for b in (0, -1, 1)]
        v.append(-10.0 * c[0])
        t.append(10.0 * (max(c) - min(c)) + 1e-6 * abs(10.0 * c[0]) + 1e-8)
    return np.array(v), np.array(t)


def judge(ctx, sur, acq, cov, nrm, mode, mu, X, Y, Y0, p, info, tag):
    c = np.asarray(info['next_points'], dtype=float)
    a = np.asarray(info['acquisitions'], dtype=float)
    ctx.check(a.shape == (len(c),) and np.all(np.isfinite(a)), f'{tag}: acquisition values {a}')
    ctx.identical(np.asarray(info['Y_original']), Y0, f'{tag}: original responses')
    want = ref.normalise(Y0) if nrm and mode != 'converged' else Y0
    nt = 1e-9 if Y0.dtype != np.float32 else 1e-4
    ctx.eq(np.asarray(info['Y_normalized'], dtype=float), want, f'{tag}: normalised responses', rtol=nt, atol=nt * min(1.0, 1e-30 + float(np.max(np.abs(want)))) + 1e-9 * (nt > 1e-6))
    Yn = np.asarray(info['Y_normalized'], dtype=float)
    if sur == 'rf':
        trees = info['trees']
        ms = [ref.forest_predict(trees, x) for x in c]
        mean, std = np.array([m for m, _ in ms]), np.array([s for _, s in ms])
        dv = 1e-14 * (1.0 + float(np.max(np.abs(Yn)))) ** 2       # variances may be computed as a difference of squares
        v, t = acq_with_tol(acq, mean, std, Yn, 0.01, 1e-13 * (1.0 + float(np.max(np.abs(Yn)))), np.array([min(np.sqrt(dv), dv / max(s, 1e-12)) for s in std]))
        ok = np.all(t <= 1e-2 * (1.0 + np.max(np.abs(v))))
    else:
        h, K = info['hyps'], np.asarray(info['cov_X_X'], dtype=float)
        Kr = ref.train_gram(cov, X, h)
        ctx.eq(K, Kr, f'{tag}: reported kernel matrix', rtol=1e-6, atol=1e-9 * (1 + h['signal'] ** 2))
        if sur == 'gp':
            mean, S = ref.gp_posterior(cov, X, Yn, c, h, mu, K)
        else:
            _, mean, S = ref.tp_posterior(cov, X, Yn, c, h, mu, K)
        mean, std = mean[:, 0], ref.std_of(S)[:, 0]
        cond = np.linalg.cond(K)
        r = float(np.max(np.abs(Yn - ref.prior(mu, X)))) + 1e-3
        w = max(1.0, h['signal'] ** 2, float(np.max(np.abs(np.diag(S)))))
        dv = 1e-13 * cond * w
        dm = 1e-13 * cond * r
        ds = np.array([min(np.sqrt(dv), dv / max(s, 1e-12)) for s in std])
        v, t = acq_with_tol(acq, mean, std, Yn, float(h['noise']), dm, ds)
        ok = np.all(t <= 1e-2 * (1.0 + np.max(np.abs(v))))
    if Y0.dtype == np.float32:              # the data, and what is computed from them alone, are single precision
        t = t + 1e-4 * (1.0 + np.abs(v))
    if ok:
        bad = np.abs(a - v) > t
        ctx.check(not np.any(bad), lambda: f'{tag}: reported acquisition values {a[bad][:4]}, the reported model gives {v[bad][:4]} (tolerance {t[bad][:4]})')
    hit = [i for i in range(len(c)) if np.array_equal(np.asarray(p, dtype=float), c[i])]
    ctx.check(bool(hit), f'{tag}: suggestion {np.asarray(p).tolist()} is not among the candidates {c.tolist()[:6]}')
    best = float(np.min(a))
    slack = 1e-8 * (1 + abs(best)) + (2 * float(np.max(t)) if sur != 'rf' else 0.0)
    ctx.check(min(a[i] for i in hit) <= best + slack, f'{tag}: suggestion scores {[a[i] for i in hit]}, another candidate {best}')
    ctx.trans()
    ctx.trace()
    ctx.outcome(np.round(a, 4))
    return ok


def gen_model(tier):
    for sur, k, acq, smp, nrm in itertools.product(['gp', 'tp'], KS, ACQ, SAMPLERS, [True, False]):
        if tier == 'thorough':
            for bn in BOXES:
                yield [sur, k, acq, smp, nrm, bn]
        else:
            yield [sur, k, acq, smp, nrm, None]


def run_model(sc, ctx):
    sur, k, acq, smp, nrm, bn = sc
    i = KS.index(k) + 3 * ACQ.index(acq) + 5 * SAMPLERS.index(smp) + 7 * nrm + 4 * (sur == 'tp')
    names = list(BOXES)
    modes = ['regular', 'combined', 'converged'] if sur == 'gp' else ['regular', 'regular']
    dn = ['usual', 'dup', 'corner', 'outside', 'two', 'one', 'const', 'tiny']
    for j, (mode, pk) in enumerate(itertools.product(modes, ['none', 'const', 'linear'])):
        if ctx.tier == 'quick' and (i + j) % 2:
            continue
        b = box(bn or names[(i + 3 * j) % len(names)])
        X, Y = data(dn[(i + j) % len(dn)], b)
        mu = menu.prior(pk if np.max(np.abs(X)) < 50 else 'none')
        m = build(sur, b, acq, 'L-BFGS-B', nrm, k, prior_mu=mu, use_ard=bool((i + j) % 3))
        ns = (20 if smp != 'grid' else 3) if ctx.tier == 'thorough' else (3 if smp != 'grid' or len(b) > 2 else 5)
        X0, Y0 = X.copy(), Y.copy()
        p, info = step(sur, m, X, Y, smp, ns, 5 + j, mode)
        tag = f'{sc} mode={mode} prior={pk} box={b.tolist()} data={dn[(i + j) % len(dn)]} samples={ns}'
        judge(ctx, sur, acq, k, nrm, mode, mu, X0, Y, Y0, p, info, tag)
        ctx.state(sc, mode, pk)
    ctx.sample(dict(surrogate=sur, kernel=k, acquisition=acq, sampler=smp, suggestion=np.asarray(p).tolist(),
        acquisitions=np.asarray(info['acquisitions']).tolist()[:5]))


def gen_forest(tier):
    for acq, smp, nrm, bn in itertools.product(ACQ, SAMPLERS, [True, False], BOXES):
        yield [acq, smp, nrm, bn]


def run_forest(sc, ctx):
    acq, smp, nrm, bn = sc
    b = box(bn)
    i = ACQ.index(acq) + SAMPLERS.index(smp) + list(BOXES).index(bn)
    dn = ['usual', 'dup', 'corner', 'outside', 'two', 'one', 'const', 'tiny', 'big']
    for j, d_ in enumerate([dn[i % 9]] if ctx.tier == 'quick' else dn):
        X, Y = data(d_, b)
        Y0 = Y.copy()
        m = build('rf', b, acq, None, nrm)
        ns = {1: 7, 2: 4, 3: 3, 4: 2}[len(b)] if smp == 'grid' else [1, 9, 40, 3][(i + j) % 4]
        p, info = step('rf', m, X, Y, smp, ns, i)
        judge(ctx, 'rf', acq, None, nrm, 'regular', None, X, Y, Y0, p, info, f'{sc} data={d_} samples={ns}')
        ctx.state(sc, d_, ns)


def gen_cma(tier):
    for sur, acq in itertools.product(['gp', 'tp'], ACQ):
        yield [sur, acq]


def run_cma(sc, ctx):
    sur, acq = sc
    i = ACQ.index(acq)
    for bn in (['unit2', 'three', 'neg2', 'off2'] if ctx.tier == 'thorough' else [['unit2', 'three', 'neg2'][i % 3]]):
        b = box(bn)
        X, Y = data('usual', b)
        m = build(sur, b, acq, 'CMA-ES', i % 2 == 0)
        p, info = step(sur, m, X, Y, 'sobol', 3, i)
        judge(ctx, sur, acq, 'matern52', i % 2 == 0, 'regular', None, X, Y, Y.copy(), p, info, f'{sc} CMA-ES {bn}')
        ctx.state(sc, bn)


def gen_runs(tier):
    for sur, acq, bn, mode in itertools.product(['gp', 'tp', 'rf'], ACQ, ['unit1', 'three', 'neg2'], ['regular', 'combined', 'converged']):
        if mode == 'regular' or sur == 'gp':
            yield [sur, acq, bn, mode, 6 if tier == 'thorough' else 3]


def run_runs(sc, ctx):
    """Steps of one object: the reported model must be the one of the current data, also in convergence mode."""
    sur, acq, bn, mode, k = sc
    b = box(bn)
    X, Y = data('two', b)
    m = build(sur, b, acq, 'L-BFGS-B', acq != 'ei')
    for s in range(k):
        p, info = step(sur, m, X, Y, 'uniform', 3, s, mode)
        judge(ctx, sur, acq, 'matern52', acq != 'ei', mode, None, X, Y, Y.copy(), p, info, f'{sc} step {s}')
        ctx.state(sc, s)
        z = (p - b[:, 0]) / (b[:, 1] - b[:, 0])
        X = np.vstack([X, p])
        Y = np.vstack([Y, [[float(np.sum(np.cos(3 * z)))]]])


VALUES = [0.0, -1e-300, -1e-12, -1e-9, -3e-7, -2e-5, -5e-5, -0.3, -0.30001, -7.0, 1e-9, 4.0]


def gen_best(tier):
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for i in range(len(VALUES)):
            yield [n, i]
    for n in (7, 40, 101, 600, 5000):
        yield [n, 'many']


def run_best(sc, ctx):
    """The choice among candidates, for every table of n values."""
    from bayeso.utils import utils_bo
    n, i = sc
    C = np.arange(1.0, n + 1)[:, None] * np.array([[1.0, -2.0]])
    if i == 'many':                         # the best candidate at every position (of a large number: at many)
        for pos in range(n) if n < 110 else sorted({0, 1, 63, 64, 99, 100, 127, 128, n // 2, n - 2, n - 1}):
            v = np.cos(1.7 * np.arange(n))
            v[pos] = -1.5
            g = utils_bo.get_best_acquisition_by_evaluation(C.copy(), lambda x: v[int(np.ravel(x)[0]) - 1])
            ctx.check(np.shape(g) == (1, 2) and np.array_equal(g[0], C[pos]), f'best of {n} candidates is number {pos}: chose {g}')
            ctx.trans()
        ctx.state(n, 'many')
        ctx.outcome('many')
        ctx.trace()
        return
    for rest in itertools.product(VALUES, repeat=n - 1):
        v = (VALUES[i],) + rest
        for shape in ('scalar', 'vector'):
            tab = {float(c[0]): (x if shape == 'scalar' else np.array([x])) for c, x in zip(C, v)}
            g = utils_bo.get_best_acquisition_by_evaluation(C.copy(), lambda x: tab[float(np.ravel(x)[0])])
            ctx.check(np.shape(g) == (1, 2), f'best of {v}: shape {np.shape(g)}')
            k = [j for j in range(n) if np.array_equal(g[0], C[j])]
            ctx.check(bool(k) and v[k[0]] == min(v), f'best of candidates with values {v}: chose {k}')
            ctx.trans()
        ctx.state(n, v)
        ctx.outcome(k[0])
    ctx.trace()


def gen_small(tier):
    for sur, acq, k, prof, n in itertools.product(['gp', 'tp', 'rf'], ['pi', 'ei', 'aei', 'ucb', 'pure_exploit'], KS, ['well', 'slope', 'deep'], [5, 8]):
        if sur != 'rf' or k == KS[0]:
            yield [sur, acq, k, prof, n]


def run_small(sc, ctx):
    """Candidates whose values are all small or close together: the best one must be chosen all the same."""
    sur, acq, k, prof, n = sc
    b = box('unit1')
    X = (np.arange(n) / (n - 1.0))[:, None]
    Y = {'well': np.where(X < 0.01, -1.0, 0.2 * X), 'slope': 3.0 * X, 'deep': np.where(np.abs(X - 0.5) < 0.1, -40.0, np.sin(9 * X))}[prof]
    for nrm, seed in itertools.product([True, False], range(3 if ctx.tier == 'quick' else 12)):
        m = build(sur, b, acq, 'L-BFGS-B', nrm, k)
        p, info = step(sur, m, X, Y, 'uniform', 6, seed)
        tag = f'{sc} normalised={nrm} seed={seed}'
        judge(ctx, sur, acq, k, nrm, 'regular', None, X, Y, Y.copy(), p, info, tag)
        a, c = np.asarray(info['acquisitions'], dtype=float), np.asarray(info['next_points'], dtype=float)
        hit = [i for i in range(len(c)) if np.array_equal(np.asarray(p, dtype=float), c[i])]
        if sur == 'rf':
            cond, size = 1.0, 1.0
        else:
            cond, size = float(np.linalg.cond(np.asarray(info['cov_X_X']))), 1.0 + float(np.max(np.abs(info['Y_normalized'])))
        if cond <= 1e6:                     # rounding of one evaluation against another is at most this
            slack = 1e-7 * abs(float(np.min(a))) + 1e-14 * cond * size
            ctx.check(min(a[i] for i in hit) <= float(np.min(a)) + slack, f'{tag}: suggestion scores {[a[i] for i in hit]}, another candidate {float(np.min(a))}')
        ctx.state(sc, nrm, seed)


def gen_large(tier):
    for sur, i in itertools.product(['gp', 'tp', 'rf'], range(len(LARGE))):
        if sur != 'tp' or LARGE[i][1] < 50 or tier == 'thorough':
            yield [sur, i]
    yield ['rf', 'default']


def run_large(sc, ctx):
    """High dimensions, many data, many candidates."""
    sur, i = sc
    d, n, smp, ns = LARGE[i] if i != 'default' else (3, 8, 'sobol', 5000)
    b, X, Y = large(d, n)
    for j, acq in enumerate(ACQ if ctx.tier == 'thorough' else ['ei', 'ucb', 'aei'] if n < 50 and ns < 100 and d < 10 else ['ucb']):
        m = build(sur, b, acq, 'L-BFGS-B', j % 2 == 0, KS[j % 4])
        p, info = step(sur, m, X, Y, smp, ns, 3)
        judge(ctx, sur, acq, KS[j % 4], j % 2 == 0, 'regular', None, X, Y, Y.copy(), p, info, f'{sc} d={d} n={n} {smp} {ns} {acq}')
        ctx.state(sc, acq)


def run_ext(sc, ctx):
    """Extreme boxes, every option of the model objects, many data and candidates, kinds of data."""
    sur = sc[1]
    for j, (b, X, Y, acq, smp, ns, seed, kw) in enumerate(plan_ext(sc)):
        k = KS[j % 4]
        nrm = j % 3 != 1
        m = build(sur, b, acq, 'L-BFGS-B', nrm, k, **kw)
        tag = f'{sc} {acq} {k} {smp} samples={ns} seed={seed} normalised={nrm}'
        p, info = step(sur, m, X, Y, smp, ns, seed)
        judge(ctx, sur, acq, k, nrm, 'regular', kw.get('prior_mu'), np.asarray(X, dtype=float), Y, Y.copy(), p, info, tag)
        ctx.state(tag)


SPACES = [
    Space('extremes', gen_ext, run_ext, 'extreme boxes, every option, many data and candidates, kinds of data', chunk=1),
    Space('large', gen_large, run_large, 'high dimensions, many data, many candidates', chunk=1),
    Space('best', gen_best, run_best, 'the choice among tabulated values', chunk=4),
    Space('small', gen_small, run_small, 'small and close acquisition values', chunk=4),
    Space('model', gen_model, run_model, 'one step with Gaussian and Student-t processes', chunk=2),
    Space('forest', gen_forest, run_forest, 'one step with random forests', chunk=8),
    Space('cma', gen_cma, run_cma, 'CMA-ES', chunk=1),
    Space('runs', gen_runs, run_runs, 'sequences of steps', chunk=3),
]
