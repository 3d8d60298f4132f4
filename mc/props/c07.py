"""C07: reported gradients are the derivatives of the reported functions."""
import itertools

import numpy as np

from mc import menu, ref
from mc.core import Space

BOUNDS = {
    'quick': '4 vector kernels x 7 length-scale forms x 4 signals x 3 noises x noise fixed/free x 6 input variants x '
        '(n, d) from 8 shapes up to n=8, d=8, and n=40, 120; likelihoods: 4 kernels x one/several length scales x '
        'noise fixed/free x prior 3 x responses 4 x n in {1,2,3,6,25,110} x d in {1,2,4} x 4 hyperparameter vectors; every sign pattern; magnitudes of inputs, signal and responses from 1e-6 to 1e6, 6 layouts, d up to 260, n up to 520',
    'thorough': 'as quick with all length-scale forms for the likelihoods and n up to 250',
}
ASSUMPTIONS = ['derivatives by fourth-order central differences of the reference kernel matrix, respectively of the '
    'value returned by the code; tolerance 1e-5 relative plus the effect of the 1e-5 diagonal jitter on the signal component',
    'noise at least 0.05 for the likelihood gradients so that the differences are numerically meaningful']
KEY = 'tp-dof-gradient-digamma-half'


def fd(f, x, rel=1e-3):
    """Fourth-order central difference of f at x (scalar)."""
    h = rel * abs(x)
    return (8.0 * (f(x + h) - f(x - h)) - (f(x + 2 * h) - f(x - 2 * h))) / (12.0 * h)


def unpack(v, ard, fix, gp, noise):
    v = list(v)
    h = {}
    h['noise'] = noise if fix else v.pop(0)
    if not gp:
        h['dof'] = v.pop(0)
    h['signal'] = v.pop(0)
    h['lengthscales'] = np.array(v) if ard else v[0]
    return h


def pack(h, fix, gp):
    v = [] if fix else [h['noise']]
    if not gp:
        v.append(h['dof'])
    v.append(h['signal'])
    v += list(np.atleast_1d(h['lengthscales']))
    return np.array(v, dtype=float)


def gen_kernel(tier):
    for k in ref.BASE:
        for n, d in [(1, 1), (1, 3), (2, 1), (3, 2), (5, 3), (8, 8), (40, 2), (120, 3)]:
            for var in ['plain', 'dup', 'alldup', 'close', 'neg', 'wide']:
                if n < 40 or var == 'plain':
                    yield [k, n, d, var]


def run_kernel(sc, ctx):
    from bayeso import covariance as C
    k, n, d, var = sc
    X = menu.inputs(n, d, var, 2)
    for ls, s, nz, fix in itertools.product(menu.LS, [1.0, 0.2, 6.0, -1.5], [0.01, 0.3, 1.5], [True, False]):
        if n >= 40 and (s != 6.0 or nz != 0.3):
            continue
        h = {'noise': nz, 'signal': s, 'lengthscales': menu.lengthscales(ls, d)}
        ard = isinstance(h['lengthscales'], np.ndarray)
        tag = f'{k} n={n} d={d} {var} {ls} signal={s} noise={nz} fix_noise={fix}'
        G = C.grad_cov_main(k, X, X, dict(h), fix)
        v = pack(h, fix, True)
        ctx.check(G.shape == (n, n, len(v)), f'gradient {tag}: shape {G.shape}')
        for i in range(len(v)):
            def f(x):
                w = v.copy()
                w[i] = x
                return ref.train_gram(k, X, unpack(w, ard, fix, True, nz))
            want = fd(f, v[i])
            is_signal = i == (0 if fix else 1)
            at = 1e-6 * s * s / abs(v[i]) + (2.1e-5 / abs(s) if is_signal else 0.0) + 1e-9
            ctx.eq(G[:, :, i], want, f'kernel gradient {tag}, component {i}', rtol=1e-5, atol=at)
        for K2, _, G2 in (C.get_kernel_inverse(X, dict(h), k, fix_noise=fix, use_gradient=True),
                C.get_kernel_cholesky(X, dict(h), k, fix_noise=fix, use_gradient=True)):
            ctx.eq(G2, G, f'gradient returned with the kernel matrix {tag}', rtol=1e-9, atol=1e-12)
        g3 = C.choose_fun_grad_cov(k)(ref.gram(k, X, X, h), X, X, dict(h), len(v), fix)
        ctx.eq(g3, G, f'gradient by name {tag}', rtol=1e-6, atol=2.1e-5 / abs(s))
        ctx.trans(4)
        ctx.trace(4)
        ctx.state(sc, ls, s, nz, fix)
        ctx.outcome(np.round(G[:3, :3], 5))
    ctx.sample(dict(kernel=k, n=n, d=d, inputs=var))


HYPS = [(1.0, 0.1, 5.0), (2.5, 0.4, 2.7), (0.6, 0.05, 40.0), (7.0, 1.0, 150.0)]


def gen_lik(tier):
    ls = ['iso1', 'iso.4', 'ard', 'ardmix'] if tier == 'quick' else menu.LS
    for model in ['gp', 'tp']:
        for k in ref.BASE:
            for n, d in [(1, 1), (2, 2), (3, 1), (6, 4), (25, 2), (110, 3)] + ([(250, 5)] if tier == 'thorough' else []):
                for l in ls:
                    yield [model, k, n, d, l]


def gen_sign(tier):
    for k, d, ard, fix in itertools.product(ref.BASE, [1, 2, 3], [True, False], [True, False]):
        if ard or d == 2:
            yield [k, d, ard, fix]


def run_sign(sc, ctx):
    """Unbounded optimisers also visit negative hyperparameters: every pattern of signs."""
    from bayeso import covariance as C
    from bayeso.gp import gp_likelihood as GL
    k, d, ard, fix = sc
    X = menu.inputs(5, d, 'plain', 3)
    Y = menu.responses(X, 'rough')
    mu_X = np.zeros((5, 1))
    base = np.array(([] if fix else [0.3]) + [1.4] + ([0.7, 1.9, 1.1][:d] if ard else [0.9]))
    for sg in itertools.product([1.0, -1.0], repeat=len(base)):
        v = base * sg
        h = unpack(v, ard, fix, True, 0.01)
        G = C.grad_cov_main(k, X, X, dict(h), fix)
        val, g = GL.neg_log_ml(X, Y, v.copy(), k, mu_X, use_ard=ard, fix_noise=fix, use_gradient=True)
        for i in range(len(v)):
            def f(x):
                u = v.copy()
                u[i] = x
                return u
            is_signal = i == (0 if fix else 1)
            want = fd(lambda x: ref.train_gram(k, X, unpack(f(x), ard, fix, True, 0.01)), v[i])
            ctx.eq(G[:, :, i], want, f'kernel gradient {sc} at {v}, component {i}', rtol=1e-5, atol=3e-6 + (2.1e-5 if is_signal else 0.0))
            want = fd(lambda x: float(GL.neg_log_ml(X, Y, f(x), k, mu_X, use_ard=ard, fix_noise=fix, use_gradient=False)), v[i])
            ctx.check(abs(g[i] - want) <= 1e-3 * (1e-2 + abs(want)) * (100 if is_signal and fix else 1), lambda: f'{sc} at {v}: component {i} of the gradient is {g[i]}, derivative {want}')
            ctx.trans(2)
        ctx.trace()
        ctx.state(sc, sg)
        ctx.outcome(np.round(g, 5))


def run_lik(sc, ctx):
    from bayeso.gp import gp_likelihood as GL
    from bayeso.tp import tp_likelihood as TL
    model, k, n, d, ls = sc
    gp = model == 'gp'
    fun = GL.neg_log_ml if gp else TL.neg_log_ml
    var = 'plain' if n != 6 else 'dup'
    X = menu.inputs(n, d, var, 3)
    for prior, resp, hi, fix in itertools.product(['none', 'linear', 'const'], ['smooth', 'rough', 'zero', 'big'], range(len(HYPS)), [True, False]):
        if n > 20 and (prior == 'const' or resp in ('zero',)):
            continue
        if n > 100 and (resp == 'big' or hi % 2):
            continue
        s, nz, dof = HYPS[hi]
        Y = menu.responses(X, resp)
        mu = menu.prior(prior)
        mu_X = np.zeros((n, 1)) if mu is None else mu(X)
        if fix:
            nz = 0.01
        h = {'noise': nz, 'signal': s, 'lengthscales': menu.lengthscales(ls, d)}
        if not gp:
            h['dof'] = dof
        ard = isinstance(h['lengthscales'], np.ndarray)
        K = ref.train_gram(k, X, h)
        cond = np.linalg.cond(K)
        if cond > 1e6:
            continue
        v = pack(h, fix, gp)
        tag = f'{sc} prior={prior} responses={resp} noise={nz} fixed={fix} signal={s} dof={dof}'
        val, g = fun(X, Y, v.copy(), k, mu_X, use_ard=ard, fix_noise=fix, use_gradient=True)
        ctx.check(np.shape(g) == v.shape, f'gradient {tag}: shape {np.shape(g)}')
        v0 = fun(X, Y, v.copy(), k, mu_X, use_ard=ard, fix_noise=fix, use_gradient=False)
        ctx.eq(val, v0, f'value with and without gradient {tag}', rtol=1e-9, atol=1e-9)
        r = Y - mu_X
        Ki = np.linalg.inv(K)
        a = Ki @ r
        q = float((r.T @ a)[0, 0])
        w = 1.0 if gp else (dof + n) / (dof + q - 2.0)
        for i in range(len(v)):
            def f(x):
                u = v.copy()
                u[i] = x
                return float(fun(X, Y, u, k, mu_X, use_ard=ard, fix_noise=fix, use_gradient=False))
            want = fd(f, v[i], 1e-3)
            is_signal = i == ((0 if fix else 1) + (0 if gp else 1))
            at = 1e-5 * (1.0 + abs(val)) / abs(v[i]) + 1e-11 * cond * (1 + q / n) / abs(v[i])
            if is_signal:
                at += 1.1e-5 / abs(s) * abs(float(np.trace(w * (a @ a.T) - Ki))) / n
            is_dof = not gp and i == (0 if fix else 1)
            if is_dof:
                from scipy.special import digamma
                half = -(digamma((dof + n) / 2.0) - digamma(dof / 2.0)) / 2.0 / n
                if abs(g[i] - want) <= 1e-4 * abs(want) + at:
                    continue
                if abs(g[i] - (want + half)) <= 1e-4 * abs(want) + at:
                    ctx.fail(f'{tag}: dof component {g[i]} but derivative {want}', key=KEY)
                    continue
            ctx.check(abs(g[i] - want) <= 1e-4 * abs(want) + at,
                lambda: f'{tag}: component {i} of the gradient is {g[i]!r}, derivative of the returned value {want!r} (tolerance {at})')
        ctx.trans(2 + 4 * len(v))
        ctx.trace()
        ctx.state(sc, prior, resp, hi, fix)
        ctx.outcome(np.round(g, 5))
    ctx.sample(dict(model=model, kernel=k, n=n, d=d, ls=ls))


MAGS = [1e-6, 1e-3, 1.0, 1e3, 1e6]
LAYOUTS = ['fortran', 'reversed', 'strided', 'readonly', 'int', 'float32']


def layout(X, f):
    if f == 'fortran':
        return np.asfortranarray(X)
    if f == 'reversed':
        return X[::-1]
    if f == 'strided':
        return np.repeat(np.repeat(X, 2, axis=0), 3, axis=1)[::2, ::3]
    if f == 'readonly':
        X = X.copy()
        X.setflags(write=False)
        return X
    return X.astype({'int': np.int64, 'float32': np.float32}[f])


def gen_mag(tier):
    for k, m, ratio in itertools.product(ref.BASE, MAGS, [0.05, 1.0, 40.0]):
        yield [k, 'magnitude', m, ratio]
    for k, f in itertools.product(ref.BASE, LAYOUTS):
        yield [k, 'layout', f, 1.0]
    for k, (n, d) in itertools.product(ref.BASE, [(6, 10), (5, 21), (4, 64), (2, 101), (210, 1), (64, 12), (19, 7), (520, 1), (3, 260)]):
        yield [k, 'size', n, d]


def run_mag(sc, ctx):
    """Magnitudes, layouts and sizes: the kernel gradient and both likelihood gradients."""
    from bayeso import covariance as C
    from bayeso.gp import gp_likelihood as GL
    from bayeso.tp import tp_likelihood as TL
    k, what = sc[:2]
    cases = []
    if what == 'magnitude':
        m, ratio = sc[2:]
        for d, ard, s in itertools.product([1, 3], [True, False], [0.05, 1.0, 30.0, 2e3]):
            X = m * menu.inputs(5, d, 'plain', 3)
            ls = ratio * m * (np.array([0.6, 1.7, 1.1])[:d] if ard else 0.8)
            cases.append((X, ls, s, 1.0))
            if s == 1.0:
                cases += [(X + 3.0 * m, ls, s, 1e-3), (X - 3.0 * m, ls, s, 1e4)]
    elif what == 'layout':
        for d, ard in itertools.product([1, 2, 4], [True, False]):
            X = np.round(9 * menu.inputs(5, d, 'plain', 3)) if sc[2] == 'int' else menu.inputs(5, d, 'plain', 3)
            cases.append((layout(X, sc[2]), (3.0 if sc[2] == 'int' else 1.0) * (np.array([0.6, 1.7, 1.1, 0.9])[:d] if ard else 0.8), 1.3, 1.0))
    else:
        n, d = sc[2:]
        for ard, s in itertools.product([True, False], [0.7, 5.0]):
            cases.append((menu.inputs(n, d, 'plain', 3), np.sqrt(d) * (0.6 + 0.3 * np.arange(d) % 1.1 if ard else 0.8), s, 1.0))
    for (X, ls, s, ys), fix in itertools.product(cases, [True, False]):
        if X.shape[0] > 100 and (s > 1.0 or not fix):
            continue
        Xf = np.asarray(X, dtype=float)
        n, d = X.shape
        nz = 0.01 if fix else 0.2 * s
        ard = isinstance(ls, np.ndarray)
        h = {'noise': nz, 'signal': s, 'lengthscales': ls}
        tag = f'{sc} n={n} d={d} length scales {np.ravel(ls)[:3]} signal={s} responses x{ys} noise={nz} fixed={fix}'
        single = X.dtype == np.float32
        v = pack(h, fix, True)
        G = C.grad_cov_main(k, X, X, dict(h), fix)
        for i in range(len(v)):
            def f(x):
                w = v.copy()
                w[i] = x
                return ref.train_gram(k, Xf, unpack(w, ard, fix, True, nz))
            is_signal = i == (0 if fix else 1)
            at = (1e-6 if not single else 1e-4) * s * s / abs(v[i]) + (2.1e-5 / s if is_signal else 0.0)
            ctx.eq(G[:, :, i], fd(f, v[i]), f'kernel gradient {tag}, component {i}', rtol=1e-5 if not single else 1e-3, atol=at)
            ctx.trans()
        if single:
            ctx.trace()
            ctx.state(tag)
            continue
        K = ref.train_gram(k, Xf, h)
        cond = np.linalg.cond(K)
        if cond > 1e6:
            ctx.state(tag)
            continue
        Y = ys * s * menu.responses(np.asarray(menu.inputs(n, d, 'plain', 3)), 'rough')
        for mu_X in (np.zeros((n, 1)), np.full((n, 1), 25.0 * ys * s)):
            for gp, fun, dof in ((True, GL.neg_log_ml, None), (False, TL.neg_log_ml, 2.5), (False, TL.neg_log_ml, 900.0)):
                if not gp:
                    h['dof'] = dof
                v = pack(h, fix, gp)
                val, g = fun(X, Y, v.copy(), k, mu_X, use_ard=ard, fix_noise=fix, use_gradient=True)
                r = Y - mu_X
                a = np.linalg.solve(K, r)
                q = float((r.T @ a)[0, 0])
                w = 1.0 if gp else (dof + n) / (dof + q - 2.0)
                for i in range(len(v)):
                    if d > 30 and 2 < i < len(v) - 2 and i % 17:
                        continue

                    def f(x):
                        u = v.copy()
                        u[i] = x
                        return float(fun(X, Y, u, k, mu_X, use_ard=ard, fix_noise=fix, use_gradient=False))
                    is_signal = i == ((0 if fix else 1) + (0 if gp else 1))
                    want = fd(f, v[i], 1e-3)
                    at = 1e-5 * (1.0 + abs(val)) / abs(v[i]) + 1e-11 * cond * (1 + w * q / n) / abs(v[i])
                    at += 2e-7 / np.sqrt(np.min(np.linalg.eigvalsh(K))) * (1.0 + abs(want))     # log(x + 1e-7) in the value
                    if is_signal:
                        at += 1.1e-5 / s * abs(float(np.trace(w * (a @ a.T) - np.linalg.inv(K)))) / n
                    if not gp and i == (0 if fix else 1):
                        from scipy.special import digamma
                        half = -(digamma((dof + n) / 2.0) - digamma(dof / 2.0)) / 2.0 / n
                        if abs(g[i] - want) > 1e-4 * abs(want) + at and abs(g[i] - (want + half)) <= 1e-4 * abs(want) + at:
                            ctx.fail(f'{tag}: dof component {g[i]} but derivative {want}', key=KEY)
                            continue
                    ctx.check(abs(g[i] - want) <= 1e-4 * abs(want) + at, lambda: f'{tag} gp={gp} dof={dof}: component {i} of the gradient is {g[i]!r}, derivative of the returned value {want!r} (tolerance {at})')
                    ctx.trans()
                h.pop('dof', None)
                ctx.trace()
                ctx.outcome(np.round(g[:4], 4))
        ctx.state(tag)


SPACES = [
    Space('magnitudes', gen_mag, run_mag, 'magnitudes, layouts and sizes', chunk=1),
    Space('kernel gradients', gen_kernel, run_kernel, 'derivative of the kernel matrix in every component', chunk=2),
    Space('signs', gen_sign, run_sign, 'every pattern of signs of the hyperparameters', chunk=1),
    Space('likelihood gradients', gen_lik, run_lik, 'derivative of the marginal likelihoods in every component', chunk=1),
]
