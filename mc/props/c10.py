"""C10: model-selection scores are the likelihoods they claim to be."""
import itertools

import numpy as np

from mc import menu, ref
from mc.core import Space
from mc.props.c06 import layout
from mc.props.c07 import pack

BOUNDS = {
    'quick': '8 kernels x 7 (n, d) shapes up to n=9, d=6 x 6 input variants x 5 length-scale forms x 5 (signal, noise, dof) x 4 prior means x '
        '4 response kinds x noise fixed/free, every route (Cholesky, inverse, with/without gradient, leave-one-out); n up to 400, dof up to 1e7; '
        'all permutations of 4 data; memory layouts; magnitudes of inputs and responses, d up to 60, sets of up to 20 elements',
    'thorough': 'n up to 900 and all permutations of 5',
}
ASSUMPTIONS = ['tolerance 1e-6 relative, plus 1e-7/L_ii per datum for the documented log jitter, plus condition-scaled rounding',
    'leave-one-out: plus the effect of the 1e-5 variance jitter']
KS = ref.BASE + ref.SETS
HYPS = [(1.0, 0.1, 5.0), (0.3, 0.4, 2.05), (4.0, 0.05, 60.0), (-1.2, 1.0, 3.0), (1.5, 0.02, 180.0)]


def xs(k, n, d, var, key, m=3):
    return menu.sets(n, m, d, var, key) if k.startswith('set_') else menu.inputs(n, d, var, key)


def scores(ctx, k, X, Y, mu_X, h, fix, tag, loo=True, gp=True, tp=True, ref_X=None, ref_Y=None):
    from bayeso.gp import gp_likelihood as GL
    from bayeso.tp import tp_likelihood as TL
    n = len(X)
    rX = X if ref_X is None else ref_X
    rY = Y if ref_Y is None else ref_Y
    ard = isinstance(h['lengthscales'], np.ndarray)
    st = k.startswith('set_')
    K = ref.train_gram(k, rX, h)
    cond = np.linalg.cond(K)
    r = rY - mu_X
    q = float((r.T @ np.linalg.solve(K, r))[0, 0])
    rnd = 3e-15 * cond * (1 + q / n) + 1e-9
    hg = {a: b for a, b in h.items() if a != 'dof'}
    if gp:
        want = ref.gp_neg_log_ml(k, rX, rY, hg, mu_X)
        v = pack(hg, fix, True)
        logj = 1.1e-7 * float(np.sum(1.0 / np.diag(np.linalg.cholesky(K)))) / n
        for ch, gr in itertools.product([True, False], [True, False]):
            if st and gr and ch:
                continue
            out = GL.neg_log_ml(X, Y, v.copy(), k, mu_X, use_ard=ard, fix_noise=fix, use_cholesky=ch, use_gradient=gr)
            val = out[0] if isinstance(out, tuple) else out
            ctx.check(np.size(val) == 1 and np.isfinite(val), f'{tag} gp: value {val}')
            ctx.check(abs(float(val) - want) <= 1e-6 * abs(want) + logj + rnd,
                f'{tag} use_cholesky={ch} use_gradient={gr} fix_noise={fix}: negative log marginal likelihood {float(val)!r}, density gives {want!r}')
            ctx.trans()
            ctx.trace()
    if tp:
        want = ref.tp_neg_log_ml(k, rX, rY, h, mu_X)
        v = pack(h, fix, False)
        for gr in [True, False]:
            if st and gr:
                continue
            out = TL.neg_log_ml(X, Y, v.copy(), k, mu_X, use_ard=ard, fix_noise=fix, use_gradient=gr)
            val = out[0] if isinstance(out, tuple) else out
            ctx.check(np.size(val) == 1 and np.isfinite(val), f'{tag} tp: value {val}')
            ctx.check(abs(float(val) - want) <= 1e-6 * abs(want) + rnd * (1 + h['dof'] / n) + 1e-15 * h['dof'],
                f'{tag} use_gradient={gr} fix_noise={fix}: Student-t negative log marginal likelihood {float(val)!r}, density gives {want!r}')
            ctx.trans()
            ctx.trace()
    if loo:
        want = ref.loo_neg_log(k, rX, rY, hg, mu_X)
        Ki = np.linalg.inv(K)
        a = (Ki @ r)[:, 0]
        # jitter: 1/sigma^2 = Kinv_ii + 1e-5
        jit = 0.6e-5 * float(np.sum(1.0 / np.diag(Ki) + (a / np.diag(Ki)) ** 2)) / n
        val = GL.neg_log_pseudo_l_loocv(X, Y, pack(hg, fix, True), k, mu_X, fix_noise=fix, use_ard=ard)
        ctx.check(np.size(val) == 1 and np.isfinite(val), f'{tag} loo: value {val}')
        val = float(np.squeeze(val))
        ctx.check(abs(val - want) <= 1e-6 * abs(want) + jit + 30 * rnd,
            f'{tag} fix_noise={fix}: leave-one-out score {val!r}, explicit leave-one-out gives {want!r}')
        ctx.trans()
        ctx.trace()


def gen_small(tier):
    for k in KS:
        for n, d in [(1, 1), (1, 3), (2, 2), (3, 1), (4, 3), (6, 2), (9, 6)]:
            for var in ['plain', 'dup', 'alldup', 'close', 'wide', 'lattice']:
                yield [k, n, d, var]


def run_small(sc, ctx):
    k, n, d, var = sc
    X = xs(k, n, d, var, 2)
    for ls in ['iso1', 'iso.4', 'ard', 'ardrev', 'ardmix']:
        for hi, (s, nz, dof) in enumerate(HYPS):
            for pk, rk, fix in itertools.product(['none', 'const', 'linear', 'index'], ['smooth', 'rough', 'zero', 'big'], [True, False]):
                if (hi + len(pk) + len(rk) + fix) % 2 and hi > 1:
                    continue            # half of the products for hi > 1
                h = {'noise': 0.01 if fix else nz, 'signal': s, 'lengthscales': menu.lengthscales(ls, d), 'dof': dof}
                mu = menu.prior(pk)
                Y = menu.responses(X, rk)
                scores(ctx, k, X, Y, ref.prior(mu, X), h, fix, f'{k} n={n} d={d} {var} {ls} signal={s} noise={h["noise"]} dof={dof} prior={pk} responses={rk}',
                    loo=(hi % 2 == 0))
                ctx.state(sc, ls, hi, pk, rk, fix)
    ctx.sample(dict(kernel=k, n=n, d=d, inputs=var))


def gen_large(tier):
    for k in KS:
        st = k.startswith('set_')
        for n in ([30] if st else [50, 101, 200, 400] + ([900] if tier == 'thorough' else [])):
            yield [k, n]


def run_large(sc, ctx):
    k, n = sc
    for d, ls, dof in itertools.product([1, 3], ['iso.4', 'ard'], [2.00001, 5.0, 200.0, 1e4, 1e7]):
        X = xs(k, n, d, 'plain', 2)
        h = {'noise': 0.2, 'signal': 1.3, 'lengthscales': menu.lengthscales(ls, d), 'dof': dof}
        for rk in ['rough', 'big']:
            Y = menu.responses(X, rk)
            first = dof == 5.0
            scores(ctx, k, X, Y, ref.prior(menu.prior('linear'), X), h, False, f'{k} n={n} d={d} {ls} dof={dof} {rk}',
                loo=first and n <= 101, gp=first, tp=True)
            ctx.state(sc, d, ls, dof, rk)


def gen_perm(tier):
    n = 4 if tier == 'quick' else 5
    for k in KS:
        for p in itertools.permutations(range(n)):
            yield [k, list(p)]


def run_perm(sc, ctx):
    """The order of the data does not matter (compared with the reference on the unpermuted data)."""
    k, p = sc
    for d, ls in itertools.product([1, 2], ['iso1', 'ard']):
        X = xs(k, len(p), d, 'plain', 2)
        Y = menu.responses(X, 'rough')
        mu = ref.prior(menu.prior('linear'), X)
        h = {'noise': 0.2, 'signal': 1.3, 'lengthscales': menu.lengthscales(ls, d), 'dof': 5.0}
        scores(ctx, k, X[p], Y[p], mu[p], h, False, f'data permuted by {p}: {k} d={d} {ls}')
        ctx.state(sc, d, ls)


def gen_layout(tier):
    for k in KS:
        for lay in ['F', 'strided', 'readonly', 'int', 'view', 'revstride']:
            yield [k, lay]


def run_layout(sc, ctx):
    k, lay = sc
    for d, ls in itertools.product([1, 2, 3], ['iso1', 'ard']):
        X = layout(xs(k, 5, d, 'plain', 2), lay)
        Y = layout(menu.responses(xs(k, 5, d, 'plain', 2), 'rough'), lay)
        f = np.ascontiguousarray(np.asarray(X, dtype=float))
        mu = ref.prior(menu.prior('linear'), f)
        h = {'noise': 0.2, 'signal': 1.3, 'lengthscales': menu.lengthscales(ls, d), 'dof': 5.0}
        scores(ctx, k, X, Y, mu, h, False, f'{lay} arrays {k} d={d} {ls}', ref_X=f, ref_Y=np.asarray(Y, dtype=float))
        ctx.state(sc, d, ls)


def gen_mag(tier):
    from mc.props import _post as P
    for sc in P.gen_mag(tier):
        if sc[1] != 'object':
            yield sc
    for k, n in itertools.product(KS, [650]):
        if not k.startswith('set_'):
            yield [k, 'many', n, 1.0]


def run_mag(sc, ctx):
    """Magnitudes, dimensions, sizes of sets."""
    from mc.props import _post as P
    k = sc[0]
    if sc[1] == 'many':
        X = xs(k, sc[2], 2, 'plain', 2)
        h = {'noise': 0.3, 'signal': 1.3, 'lengthscales': np.array([0.4, 0.9]), 'dof': 7.0}
        scores(ctx, k, X, menu.responses(X, 'rough'), np.zeros((sc[2], 1)), h, False, f'{sc}', loo=False)
        ctx.state(*sc)
        return
    for i, (X, _, yf, ls, s, nz, pk) in enumerate(P.cases_mag(sc)):
        Y = yf * menu.responses(X, 'rough')
        mu = np.zeros((len(X), 1)) if pk == 'none' else np.full((len(X), 1), 20.0 * yf)
        for fix in (True, False):
            h = {'noise': 0.01 if fix else nz, 'signal': s, 'lengthscales': ls, 'dof': [2.5, 5.0, 300.0][i % 3]}
            if np.linalg.cond(ref.train_gram(k, X, h)) > 1e8:
                continue
            scores(ctx, k, X, Y, mu, h, fix, f'{sc} case {i} length scales {np.ravel(ls)[:3]} signal={s} noise={h["noise"]} responses x{yf} prior={pk}', loo=i % 3 == 0)
            ctx.state(sc, i, fix)


SPACES = [
    Space('magnitudes', gen_mag, run_mag, 'magnitudes, dimensions, sizes of sets', chunk=2),
    Space('small', gen_small, run_small, 'all routes on small data', chunk=3),
    Space('large', gen_large, run_large, 'hundreds of data, large degrees of freedom', chunk=1),
    Space('permutations', gen_perm, run_perm, 'all orders of the data'),
    Space('layouts', gen_layout, run_layout, 'memory layouts'),
]
