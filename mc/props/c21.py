"""C21: sampled functions follow the requested mean, covariance and tail."""
import itertools

import numpy as np

from mc import menu, ref
from mc.core import Space, weyl

BOUNDS = {
    'quick': '1..8 points (and 20, 45, 110; up to 112 samples) x 7 covariance kinds x 4 means x 5 sample counts x 3 generator states for the Gaussian and Student-t samplers; 11 degrees of freedom and every scripted chi-square pattern over {0.1, 1, nu, 30} for up to 3 samples; posterior covariances of 4 kernels; mean scales 1e-4..1e7 x covariance scales 1e-8..1e8, 6 memory layouts, up to 1100 samples and 300 points',
    'thorough': '1..16 points, 12 generator states, chi-square patterns for up to 5 samples',
}
ASSUMPTIONS = ['the linear map from noise to sample is recovered by comparing samples of the requested and of the identity covariance drawn from the same generator state',
    'chi-square numbers are scripted where they are drawn with numpy.random.chisquare']
COVS = ['identity', 'diag', 'wide', 'spd', 'smooth', 'negative', 'tiny']


def cov(kind, n):
    A = 2 * weyl((n, n), 6) - 1
    if kind == 'identity':
        return np.eye(n)
    if kind == 'diag':
        return np.diag(0.3 + 1.7 * np.arange(n))
    if kind == 'wide':
        return np.diag(10.0 ** (np.arange(n) % 5 - 2))
    if kind == 'spd':
        return A @ A.T + 0.1 * np.eye(n)
    if kind == 'smooth':
        t = np.linspace(0, 1, n)
        return np.exp(-0.5 * (t[:, None] - t[None, :]) ** 2 / 0.3 ** 2) + 1e-4 * np.eye(n)
    if kind == 'negative':
        return np.diag(2.0 + 0.15 * np.arange(n)) - 0.9 / max(n, 1) * np.ones((n, n))
    if kind == 'tiny':
        return 1e-6 * (A @ A.T + 0.5 * np.eye(n))


def mean(kind, n):
    return {'zero': np.zeros(n), 'ramp': np.arange(n) * 1.5 - 2.0, 'neg': np.full(n, -40.0), 'alt': np.array([100.0 * (-1) ** i for i in range(n)], dtype=float)}[kind]


def draw(model, nu, mu, S, k, seed):
    from bayeso.gp import gp
    from bayeso.tp import tp
    np.random.seed(seed)
    mu, S = np.array(mu), np.array(S)
    m0, s0 = mu.copy(), S.copy()
    r = gp.sample_functions(mu, S, num_samples=k) if model == 'gp' else tp.sample_functions(nu, mu, S, num_samples=k)
    assert np.array_equal(mu, m0) and np.array_equal(S, s0), 'arguments changed'
    return r


def gen(tier):
    for model, n, ck in itertools.product(['gp', 'tp'], range(1, 9 if tier == 'quick' else 17), COVS):
        yield [model, n, ck]
    for model, n, ck in itertools.product(['gp', 'tp'], [20, 45, 110], ['identity', 'spd', 'smooth', 'negative']):
        yield [model, n, ck]


def run(sc, ctx):
    model, n, ck = sc
    S = cov(ck, n)
    w = float(np.max(np.sqrt(np.diag(S))))
    for nu, mk, seed in itertools.product([None] if model == 'gp' else [3.0, 2.5, 30.0, np.inf] if n < 20 else [3.0, np.inf],
            ['zero', 'ramp', 'neg', 'alt'] if n < 20 else ['ramp'], range(3 if ctx.tier == 'quick' else 12) if n < 20 else [1]):
        mu = mean(mk, n)
        a = float(np.max(np.abs(mu)))
        for k in (1, 2, 5) if n < 20 else (1, 70):
            x = draw(model, nu, mu, S, k, seed)
            tag = f'{sc} nu={nu} mean={mk} samples={k} state={seed}'
            ctx.check(isinstance(x, np.ndarray) and x.shape == (k, n) and np.all(np.isfinite(x)), f'{tag}: shape {np.shape(x)}, expected {(k, n)}')
            big = float(np.max(np.abs(x - mu))) + w
            ctx.check(all(not np.array_equal(x[i], x[j]) for i in range(k) for j in range(i)), f'{tag}: repeated samples')
            z = draw(model, nu, np.zeros(n), S, k, seed)
            ctx.eq(x, z + mu, f'{tag}: shift by the mean', rtol=1e-10, atol=1e-11 * (a + big))
            y = draw(model, nu, mu, 4.0 * S, k, seed)
            ctx.eq(y - mu, 2.0 * (x - mu), f'{tag}: scaling of the covariance by 4', rtol=1e-7, atol=1e-8 * big + 1e-11 * a)
            ctx.trans(3)
        k = n + 2
        x, e = draw(model, nu, mu, S, k, seed), draw(model, nu, np.zeros(n), np.eye(n), k, seed)
        M, *_ = np.linalg.lstsq(e, x - mu, rcond=None)
        c = np.linalg.cond(e)
        if c < 1e4:
            big = float(np.max(np.abs(x - mu))) + w
            ctx.eq(e @ M, x - mu, f'{sc} nu={nu} mean={mk} state={seed}: not a linear image of the noise', rtol=1e-6, atol=1e-8 * big + 1e-11 * a)
            ctx.eq(M.T @ M, S, f'{sc} nu={nu} mean={mk} state={seed}: the map from noise to sample does not reproduce the covariance', rtol=1e-6, atol=1e-9 * w * w * c + 1e-10 * a * w * c)
        if model == 'tp' and nu == np.inf:
            ctx.eq(x, draw('gp', None, mu, S, k, seed), f'{sc} mean={mk} state={seed}: infinitely many degrees of freedom must give the Gaussian sample', rtol=1e-9, atol=1e-10 * (a + w))
        ctx.trans(2)
        ctx.trace()
        ctx.state(sc, nu, mk, seed)
        ctx.outcome(np.round(x, 6))
    ctx.sample(dict(model=model, points=n, covariance=ck, sample=np.round(x[0], 6).tolist()))


LAYOUTS = ['C', 'F', 'strided', 'read-only', 'int', 'float32']


def lay(A, kind):
    A = np.array(A, dtype=float)
    if kind == 'F':
        return np.asfortranarray(A)
    if kind == 'strided':
        B = np.zeros(tuple(2 * s for s in A.shape))
        B[tuple(slice(None, None, 2) for _ in A.shape)] = A
        return B[tuple(slice(None, None, 2) for _ in A.shape)]
    if kind == 'int':
        return np.round(A).astype(int)
    if kind == 'float32':
        return A.astype(np.float32)
    if kind == 'read-only':
        A.flags.writeable = False
    return A


def gen_ext(tier):
    for model, n in itertools.product(['gp', 'tp'], [1, 2, 3, 6, 40]):
        for sm, ss in itertools.product([1e-4, 1.0, 1e4, 1e7], [2.0 ** -26, 2.0 ** -10, 1.0, 2.0 ** 14, 2.0 ** 26]):      # powers of four: the scaling itself rounds nothing
            yield [model, n, sm, ss, 'C', 3]
        for l in LAYOUTS[1:]:
            yield [model, n, 1.0, 64.0, l, 3]
        for k in (11, 100, 130, 250, 600, 1100):
            yield [model, n, 1.0, 1.0, 'C', k]
    for model, n in itertools.product(['gp', 'tp'], [150, 210, 300]):
        for k in (1, 3):
            yield [model, n, 1.0, 1.0, 'C', k]


def run_ext(sc, ctx):
    """Magnitudes of the mean and of the covariance, memory layouts, many points and samples."""
    from bayeso.gp import gp
    from bayeso.tp import tp
    model, n, sm, ss, l, k = sc
    for mk, ck, nu in itertools.product(['ramp', 'alt'] if n < 20 else ['ramp'], ['spd', 'diag', 'smooth'] if n < 20 else ['spd', 'smooth'],
            [None] if model == 'gp' else [2.001, 3.0, 1e3, np.inf] if n < 20 else [2.5, np.inf]):
        mu, S = lay(sm * mean(mk, n), l), lay(ss * cov(ck, n), l)
        if l == 'float32' and (ck == 'smooth' or n > 20):
            continue
        if l == 'int' and np.min(np.linalg.eigvalsh(S)) < 0.05:
            continue
        m0, s0 = mu.copy(), S.copy()
        np.random.seed(7)
        x = gp.sample_functions(mu, S, num_samples=k) if model == 'gp' else tp.sample_functions(nu, mu, S, num_samples=k)
        tag = f'{sc} nu={nu} mean={mk} covariance={ck}'
        ctx.check(isinstance(x, np.ndarray) and x.shape == (k, n) and np.all(np.isfinite(x)), f'{tag}: shape {np.shape(x)}, expected {(k, n)}')
        ctx.check(np.array_equal(mu, m0) and np.array_equal(S, s0), f'{tag}: arguments changed')
        ctx.check(len(np.unique(x, axis=0)) == k, f'{tag}: repeated samples')
        # the same generator state, mean zero, the same covariance at the reference magnitude
        b = float(ss) if l != 'int' else 1.0
        z = draw(model, nu, np.zeros(n), s0.astype(float) / b, k, 7) * np.sqrt(b)
        w, a = float(np.max(np.abs(z))), float(np.max(np.abs(m0)))
        ctx.eq(x, m0.astype(float) + z, f'{tag}: differs from the mean plus the scaled sample', rtol=1e-9, atol=(1e-4 if l == 'float32' else 1e-7) * w + 1e-12 * a)
        M, *_ = (np.linalg.lstsq(draw(model, nu, np.zeros(n), np.eye(n), k, 7), x - m0, rcond=None) if k >= 2 * n + 4 else (None,))
        if M is not None and a <= 1e6 * np.sqrt(ss):
            ctx.eq(M.T @ M, s0.astype(float), f'{tag}: the map from noise to sample does not reproduce the covariance', rtol=1e-4, atol=(1e-4 if l == 'float32' else 1e-6) * float(np.max(np.abs(s0))))
        ctx.trans(2)
        ctx.trace()
        ctx.state(sc, nu, mk, ck)
        ctx.outcome(np.round(x[0], 6))


def gen_tail(tier):
    for n, ck, nu in itertools.product([1, 2, 4], COVS, [2.01, 2.1, 3.0, 5.0, 17.5, 60.0, 101.0, 200.0, 1000.5, 1e4, 1e6]):
        yield [n, ck, nu]


def run_tail(sc, ctx):
    """Chi-square numbers scripted: the sample is the Gaussian one divided by sqrt(number / nu)."""
    n, ck, nu = sc
    S = cov(ck, n)
    for k in range(1, 4 if ctx.tier == 'quick' else 6):
        for xs in itertools.product([0.1, 1.0, nu, 30.0], repeat=k):
            mu = mean('ramp', n)
            real = np.random.chisquare
            hit = []

            def chisquare(df, size=None):
                hit.append(float(np.ravel(df)[0]))
                v = np.array(xs, dtype=float)
                return (v[(len(hit) - 1) % k] if size is None else np.resize(v, size))
            try:
                np.random.chisquare = chisquare
                x = draw('tp', nu, mu, S, k, 4)
            finally:
                np.random.chisquare = real
            tag = f'{sc} chi-square={xs}'
            if not hit:
                # drawn in another way: at least it must not be the Gaussian sample
                g = draw('gp', None, mu, S, k, 4)
                ctx.check(not np.allclose(x, g, rtol=1e-12, atol=1e-13 * (np.max(np.abs(g)) + 1)), f'{tag}: the sample is the Gaussian one, without a tail')
                return
            ctx.check(all(h == nu for h in hit), f'{tag}: drawn with {hit} degrees of freedom')
            g = draw('gp', None, np.zeros(n), S, k, 4)
            want = mu + g / np.sqrt(np.array(xs) / nu)[:, None]
            ctx.eq(x, want, f'{tag}: sample', rtol=1e-8, atol=1e-10 * (np.max(np.abs(want)) + 1))
            ctx.trans(2)
            ctx.trace()
            ctx.state(sc, xs)


def gen_post(tier):
    for k, n, l in itertools.product(ref.BASE, [1, 3], [1, 2, 5]):
        yield [k, n, l]


def run_post(sc, ctx):
    """Posterior means and covariances as the package itself hands them over."""
    from bayeso.gp import gp
    from bayeso.tp import tp
    k, n, l = sc
    X, Xs = menu.inputs(n, 2, 'plain', 1), menu.inputs(l, 2, 'plain', 5)
    Y = menu.responses(X, 'smooth')
    h = {'signal': 1.3, 'lengthscales': np.array([0.8, 1.5]), 'noise': 0.05}
    m, _, S = gp.predict_with_hyps(X, Y, Xs, h, str_cov=k)
    for seed in range(3):
        c = l + 2
        x, e = draw('gp', None, m[:, 0], S, c, seed), draw('gp', None, np.zeros(l), np.eye(l), c, seed)
        M, *_ = np.linalg.lstsq(e, x - m[:, 0], rcond=None)
        ctx.eq(M.T @ M, S, f'{sc} state={seed}: covariance of the sampled functions', rtol=1e-5, atol=1e-7)
        ctx.state(sc, seed)
        ctx.trans(2)
    ht = dict(h, dof=5.0)
    nu, mt, _, St = tp.predict_with_hyps(X, Y, Xs, ht, str_cov=k)
    for seed in range(3):
        c = l + 2
        x, e = draw('tp', float(nu), mt[:, 0], St, c, seed), draw('tp', float(nu), np.zeros(l), np.eye(l), c, seed)
        M, *_ = np.linalg.lstsq(e, x - mt[:, 0], rcond=None)
        ctx.eq(M.T @ M, St, f'{sc} tp state={seed}: covariance of the sampled functions', rtol=1e-5, atol=1e-7)
        ctx.state(sc, 'tp', seed)
        ctx.trans(2)
    ctx.trace(2)


SPACES = [
    Space('maps', gen, run, 'mean, covariance and shape'),
    Space('extents', gen_ext, run_ext, 'magnitudes, memory layouts, many points and samples'),
    Space('tail', gen_tail, run_tail, 'scripted chi-square numbers'),
    Space('posterior', gen_post, run_post, 'posterior means and covariances of the package'),
]
