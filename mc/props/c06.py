"""C06: covariance functions compute the kernels they are named after."""
import itertools

import numpy as np

from mc import menu, ref
from mc.core import Space

BOUNDS = {
    'quick': '8 kernels x 8 length-scale forms x 5 signals x 7 input variants x (n, n\', d) from {1..7}x{1..6}x{1,2,3,6,12}; '
        '11 kinds of resembling lists; nearly singular matrices (signal up to 1e6); n up to 300 (1001 across lists); magnitudes 1e-10..1e7 with signals 1e-4..1e5, length scales 1e-4..300 of the inputs; d up to 520; set sizes 1..5 (different on both sides) and up to 520; layouts (Fortran, strided, read-only, integer, float32); '
        'every permutation of 4 inputs and of 3 set elements',
    'thorough': 'as quick with n up to 700, every permutation of 5 inputs, dimensions up to 40',
}
ASSUMPTIONS = ['entries compared to 1e-7 relative (plus 1e-10 of the squared signal)']
KS = ref.BASE + ref.SETS
SIGNALS = [1.0, 0.1, 3.7, 40.0, -1.5]
SHAPES = [(1, 1, 1), (1, 3, 2), (4, 1, 1), (3, 5, 1), (5, 5, 2), (6, 4, 3), (4, 6, 6), (7, 2, 12)]


def data(k, n, l, d, var, m=3, mp=2):
    if k.startswith('set_'):
        return menu.sets(n, m, d, var, 1), menu.sets(l, mp, d, var, 4)
    X = menu.inputs(n, d, var, 1)
    Xp = menu.inputs(l, d, var, 4)
    if var == 'dup':
        Xp[0] = X[0]
    return X, Xp


def hyp(ls, d, signal, noise=0.03):
    return {'noise': noise, 'signal': signal, 'lengthscales': menu.lengthscales(ls, d)}


def cmp(ctx, got, want, sig, what):
    ctx.eq(got, want, what, rtol=1e-7, atol=1e-10 * sig * sig)


def gen_cross(tier):
    for k in KS:
        for sh in SHAPES + ([(9, 3, 40)] if tier == 'thorough' else []):
            for var in menu.VARIANTS:
                yield [k, list(sh), var]


def run_cross(sc, ctx):
    from bayeso import covariance as C
    k, (n, l, d), var = sc
    X, Xp = data(k, n, l, d, var)
    for ls in menu.LS:
        for s in SIGNALS:
            h = hyp(ls, d, s)
            tag = f'{k} n={n},{l} d={d} inputs={var} {ls} signal={s}'
            got = C.cov_main(k, X, Xp, dict(h), False)
            ctx.check(got.shape == (n, l), f'{tag}: shape {got.shape}')
            want = ref.gram(k, X, Xp, h)
            cmp(ctx, got, want, s, f'cross-covariance {tag}')
            # the same lists, declared the same and not
            want = ref.gram(k, X, X, h)
            cmp(ctx, C.cov_main(k, X, X, dict(h), False), want, s, f'same list, not declared {tag}')
            kk = C.cov_main(k, X, X, dict(h), True)
            cmp(ctx, kk - ref.JITTER * np.eye(n), want, s, f'same list, declared {tag}')
            kk2 = C.cov_main(k, X, X.copy(), dict(h), True)
            cmp(ctx, kk2, kk, s, f'equal but distinct arrays {tag}')
            for j in (0.0, 0.5):
                cmp(ctx, C.cov_main(k, X, X, dict(h), True, jitter=j), want + j * np.eye(n), s, f'jitter {j} {tag}')
            if s == SIGNALS[0]:
                cmp(ctx, C.cov_main(k, X, Xp, dict(h), False, jitter=0.5), ref.gram(k, X, Xp, h), s,
                    f'jitter must not be added across lists {tag}')
            ctx.trans(6)
            ctx.trace(6)
            ctx.state(sc, ls, s)
            ctx.outcome(np.round(got, 6))
    ctx.sample(dict(kernel=k, n=n, l=l, d=d, inputs=var))


def gen_direct(tier):
    for k in ref.BASE:
        for sh in SHAPES:
            yield [k, list(sh)]


def run_direct(sc, ctx):
    """The single-kernel functions, choice by name, and the kernel of one pair of sets."""
    from bayeso import covariance as C
    k, (n, l, d) = sc
    fn = {'eq': C.cov_se, 'se': C.cov_se, 'matern32': C.cov_matern32, 'matern52': C.cov_matern52}[k]
    for var, ls, s in itertools.product(menu.VARIANTS, menu.LS, SIGNALS):
        X, Xp = data(k, n, l, d, var)
        h = hyp(ls, d, s)
        want = ref.gram(k, X, Xp, h)
        cmp(ctx, fn(X, Xp, h['lengthscales'], s), want, s, f'{k} direct {n},{l},{d} {var} {ls}')
        cmp(ctx, C.choose_fun_cov(k)(X, Xp, h['lengthscales'], s), want, s, f'{k} by name {n},{l},{d} {var} {ls}')
        got = C.cov_set(k, X, Xp, h['lengthscales'], s)
        ctx.check(np.ndim(got) == 0, f'kernel of two sets is not a number: {np.shape(got)}')
        cmp(ctx, float(got), np.mean(want), s, f'{k} of sets of {n} and {l} elements, {var} {ls}')
        ctx.trans(3)
        ctx.trace(3)
        ctx.state(sc, var, ls, s)


def gen_train(tier):
    for k in KS:
        for n, d in [(1, 1), (2, 2), (3, 1), (5, 3), (6, 8)]:
            for var in menu.VARIANTS:
                yield [k, n, d, var]


def run_train(sc, ctx):
    from bayeso import covariance as C
    k, n, d, var = sc
    X, _ = data(k, n, 1, d, var)
    for ls, s, nz, fix in itertools.product(menu.LS, [1.0, 0.1, 12.0], [0.01, 0.3, 2.0], [True, False]):
        h = hyp(ls, d, s, nz)
        tag = f'{k} n={n} d={d} {var} {ls} signal={s} noise={nz}'
        want = ref.train_gram(k, X, h)
        cond = np.linalg.cond(want)
        K, Ki, g = C.get_kernel_inverse(X, dict(h), k, fix_noise=fix)
        ctx.check(g is None, f'{tag}: gradient present although not requested')
        cmp(ctx, K, want, s, f'kernel matrix {tag}')
        ctx.check(np.max(np.abs(K @ Ki - np.eye(n))) < 1e-13 * cond + 1e-9 and np.max(np.abs(Ki @ K - np.eye(n))) < 1e-13 * cond + 1e-9,
            f'inverse {tag}: K Kinv is not the identity')
        K2, L, g = C.get_kernel_cholesky(X, dict(h), k, fix_noise=fix)
        ctx.check(g is None, f'{tag}: gradient present although not requested')
        cmp(ctx, K2, want, s, f'kernel matrix of the Cholesky route {tag}')
        ctx.check(np.allclose(L, np.tril(L), atol=0), f'{tag}: factor is not lower triangular')
        cmp(ctx, L @ L.T, want, s, f'Cholesky factor {tag}')
        ctx.check(np.array_equal(K, K.T), f'{tag}: kernel matrix not symmetric')
        w = np.linalg.eigvalsh(K)
        ctx.check(w[0] >= (nz * nz + 1e-5) * 0.999 - 1e-12 * w[-1], f'{tag}: smallest eigenvalue {w[0]}')
        ctx.trans(2)
        ctx.trace(2)
        ctx.state(sc, ls, s, nz, fix)


def gen_large(tier):
    for k in KS:
        for n in ([25, 60, 101, 150, 300] if not k.startswith('set_') else [12, 25, 40]) + \
                ([500, 700] if tier == 'thorough' and not k.startswith('set_') else []):
            for d in [1, 4]:
                yield [k, n, d]


def run_large(sc, ctx):
    from bayeso import covariance as C
    k, n, d = sc
    X, Xp = data(k, n, n // 2 + 1, d, 'plain')
    for ls, nz in itertools.product(['iso.4', 'ard', 'iso9'] if n < 200 else ['iso.4'], [0.2, 0.01] if n < 200 else [0.2]):
        h = hyp(ls, d, 1.7, nz)
        tag = f'{sc} {ls} noise={nz}'
        if nz == 0.2:
            cmp(ctx, C.cov_main(k, X, Xp, dict(h), False), ref.gram(k, X, Xp, h), 1.7, f'large cross {tag}')
            cmp(ctx, C.cov_main(k, Xp, X, dict(h), False), ref.gram(k, Xp, X, h), 1.7, f'large cross {tag}')
            cmp(ctx, C.cov_main(k, X, X, dict(h), True), ref.gram(k, X, X, h) + 1e-5 * np.eye(n), 1.7, f'large same {tag}')
        want = ref.train_gram(k, X, h)
        cond = np.linalg.cond(want)
        K, Ki, _ = C.get_kernel_inverse(X, dict(h), k)
        cmp(ctx, K, want, 1.7, f'large kernel matrix {tag}')
        ctx.check(np.max(np.abs(K @ Ki - np.eye(n))) < 1e-8 + 1e-11 * cond and np.max(np.abs(Ki @ K - np.eye(n))) < 1e-8 + 1e-11 * cond, f'large inverse {tag}')
        K, L, _ = C.get_kernel_cholesky(X, dict(h), k)
        cmp(ctx, K, want, 1.7, f'large kernel matrix {tag}')
        cmp(ctx, L @ L.T, want, 1.7, f'large Cholesky {tag}')
        ctx.trans(5)
        ctx.trace(5)
        ctx.state(sc, ls, nz)


def gen_setsizes(tier):
    for k in ref.SETS:
        for m, mp in itertools.product([1, 2, 3, 4, 5], repeat=2):
            yield [k, m, mp]


def run_setsizes(sc, ctx):
    from bayeso import covariance as C
    k, m, mp = sc
    for d, ls, n, l in itertools.product([1, 2, 4], menu.LS, [1, 3], [1, 2, 4]):
        h = hyp(ls, d, 1.3)
        X = menu.sets(n, m, d, 'plain', 1)
        Xp = menu.sets(l, mp, d, 'plain', 2)
        cmp(ctx, C.cov_main(k, X, Xp, dict(h), False), ref.gram(k, X, Xp, h), 1.3, f'{sc} d={d} {ls}')
        # sets with repeated elements weigh them
        Xr = np.concatenate([X, X[:, :1]], axis=1)
        cmp(ctx, C.cov_main(k, Xr, Xp, dict(h), False), ref.gram(k, Xr, Xp, h), 1.3, f'repeated element {sc} d={d} {ls}')
        cmp(ctx, C.cov_main(k, Xr, Xr, dict(h), True), ref.gram(k, Xr, Xr, h) + 1e-5 * np.eye(n), 1.3, f'{sc} d={d} {ls}')
        ctx.trans(3)
        ctx.trace(3)
        ctx.state(sc, d, ls, n, l)


def gen_perm(tier):
    n = 4 if tier == 'quick' else 5
    for k in KS:
        for p in itertools.permutations(range(n)):
            yield [k, list(p)]


def run_perm(sc, ctx):
    from bayeso import covariance as C
    k, p = sc
    n = len(p)
    for d, ls in itertools.product([1, 3], ['iso.4', 'ard', 'ardeq']):
        h = hyp(ls, d, 1.3)
        X, Xp = data(k, n, 3, d, 'plain')
        A = C.cov_main(k, X, Xp, dict(h), False)
        cmp(ctx, C.cov_main(k, X[p], Xp, dict(h), False), A[p], 1.3, f'permuted rows {sc} d={d} {ls}')
        B = C.cov_main(k, X, X, dict(h), True)
        cmp(ctx, C.cov_main(k, X[p], X[p], dict(h), True), B[np.ix_(p, p)], 1.3, f'permuted inputs {sc} d={d} {ls}')
        cmp(ctx, C.cov_main(k, Xp, X, dict(h), False), A.T, 1.3, f'arguments swapped {sc} d={d} {ls}')
        if ls == 'ardeq':
            h1 = dict(h, lengthscales=0.7)
            cmp(ctx, C.cov_main(k, X, Xp, h1, False), A, 1.3, f'equal length scales and a single one {sc}')
        if k.startswith('set_'):
            for q in itertools.permutations(range(3)):
                cmp(ctx, C.cov_main(k, X[:, list(q)], Xp, dict(h), False), A, 1.3, f'set elements reordered {sc}')
                ctx.trans()
        ctx.trans(4)
        ctx.trace(4)
        ctx.state(sc, d, ls)


def gen_layout(tier):
    for k in KS:
        for lay in ['F', 'strided', 'readonly', 'int', 'float32', 'view', 'revstride', 'bigendian']:
            yield [k, lay]


def layout(X, lay):
    if lay == 'F':
        return np.asfortranarray(X)
    if lay == 'strided':
        Z = np.zeros((2 * X.shape[0],) + X.shape[1:])
        Z[::2] = X
        return Z[::2]
    if lay == 'readonly':
        Z = X.copy()
        Z.setflags(write=False)
        return Z
    if lay == 'int':
        return np.round(X).astype(int)
    if lay == 'float32':
        return X.astype(np.float32)
    if lay == 'view':
        Z = np.zeros(X.shape[:-1] + (X.shape[-1] + 2,))
        Z[..., 1:-1] = X
        return Z[..., 1:-1]
    if lay == 'revstride':
        return X[::-1].copy()[::-1]
    if lay == 'bigendian':
        return X.astype('>f8')
    raise KeyError(lay)


def run_layout(sc, ctx):
    from bayeso import covariance as C
    k, lay = sc
    for d, ls in itertools.product([1, 2, 3], menu.LS):
        h = hyp(ls, d, 1.3)
        X, Xp = data(k, 5, 4, d, 'plain')
        A, B = layout(X, lay), layout(Xp, lay)
        f = np.asarray(A, dtype=float), np.asarray(B, dtype=float)
        rt = 1e-5 if lay == 'float32' else 1e-7
        ctx.eq(C.cov_main(k, A, B, dict(h), False), ref.gram(k, f[0], f[1], h), f'{lay} arrays {k} {ls}', rtol=rt, atol=1e-6 if lay == 'float32' else 1e-10)
        K, Ki, _ = C.get_kernel_inverse(A, dict(h), k)
        ctx.eq(K, ref.train_gram(k, f[0], h), f'{lay} arrays, kernel matrix {k} {ls}', rtol=rt, atol=1e-6 if lay == 'float32' else 1e-10)
        ctx.trans(2)
        ctx.trace(2)
        ctx.state(sc, d, ls)


def gen_ext(tier):
    for k in KS:
        for scale in [1e-10, 1e-8, 1e-5, 1e-3, 0.05, 1.0, 30.0, 1e4, 1e7]:
            yield ['scale', k, scale]
        for d in [5, 9, 16, 20, 33, 64, 101, 200, 520]:
            yield ['dim', k, d]
    for k in ref.BASE:
        for n, l in [(512, 3), (3, 512), (1001, 2), (2, 1001), (129, 257), (17, 600)]:
            yield ['size', k, n, l]
    for k in ref.SETS:
        for m, mp, n, l in [(12, 12, 3, 2), (1, 25, 2, 3), (40, 3, 2, 2), (130, 2, 1, 3), (4, 4, 70, 5), (2, 3, 5, 110), (260, 2, 1, 2), (2, 520, 2, 1)]:
            yield ['sets', k, m, mp, n, l]


def run_ext(sc, ctx):
    """Magnitudes of inputs, length scales, signal and noise; many inputs, dimensions and set elements."""
    from bayeso import covariance as C
    what, k = sc[:2]
    cases = []
    if what == 'scale':
        scale = sc[2]
        for (n, l, d), off, rel, s, nz in itertools.product([(4, 3, 1), (3, 4, 3)], [0.0, 100.0], [1.0, 1e-2, 1e-4, 300.0], [1.0, 1e-4, 0.02, 300.0, 1e5], [0.01]):
            X, Xp = data(k, n, l, d, 'plain')
            ls = menu.lengthscales('ard', d) * rel * scale
            for l_ in (ls, float(ls[0])):
                cases.append(((X + off) * scale, (Xp + off) * scale, dict(lengthscales=l_, signal=s, noise=nz)))
        for nz in (1e-6, 1e-3, 0.7, 20.0, 1e3):
            X, Xp = data(k, 4, 2, 2, 'plain')
            cases.append((X * scale, Xp * scale, dict(lengthscales=menu.lengthscales('ard', 2) * scale, signal=1.5, noise=nz)))
    elif what == 'dim':
        d = sc[2]
        for n, l, ls in [(1, 1, 'ard'), (3, 2, 'ard'), (5, 4, 'ardrev'), (4, 5, 'iso9'), (2, 3, 'ardmix')]:
            X, Xp = data(k, n, l, d, 'plain')
            f = np.sqrt(d)
            v = menu.lengthscales(ls, d)
            cases.append((X, Xp, dict(lengthscales=v * f, signal=1.2, noise=0.1)))
    elif what == 'size':
        for d in (1, 3):
            X, Xp = data(k, sc[2], sc[3], d, 'plain')
            cases.append((X, Xp, dict(lengthscales=menu.lengthscales('ard', d), signal=1.2, noise=0.1)))
    else:
        _, _, m, mp, n, l = sc
        X, Xp = data(k, n, l, 2, 'plain', m, mp)
        cases.append((X, Xp, dict(lengthscales=menu.lengthscales('ard', 2), signal=1.2, noise=0.1)))
    for X, Xp, h in cases:
        s = h['signal']
        tag = f'{sc} ls={h["lengthscales"]} signal={s} noise={h["noise"]}'
        # rounding of differences of inputs, in units of the length scale
        slop = 1e-14 * float(np.max(np.abs(X))) / float(np.min(h['lengthscales']))
        if slop > 1e-9:
            tol = dict(rtol=1e-7, atol=min(1.0, 10 * slop) * s * s)
        else:
            tol = dict(rtol=1e-7, atol=1e-10 * s * s)
        want = ref.gram(k, X, Xp, h)
        ctx.eq(C.cov_main(k, X, Xp, dict(h), False), want, f'cross-covariance {tag}', **tol)
        ctx.eq(C.cov_main(k, Xp, X, dict(h), False), want.T, f'cross-covariance swapped {tag}', **tol)
        if max(len(X), len(Xp)) <= 130:
            Z = X if len(X) >= len(Xp) else Xp
            K = ref.gram(k, Z, Z, h)
            ctx.eq(C.cov_main(k, Z, Z, dict(h), True), K + ref.JITTER * np.eye(len(Z)), f'same list {tag}', **tol)
            W = ref.train_gram(k, Z, h)
            K1, Ki, _ = C.get_kernel_inverse(Z, dict(h), k)
            K2, L, _ = C.get_kernel_cholesky(Z, dict(h), k)
            t2 = dict(rtol=1e-7, atol=tol['atol'] + 1e-12 * h['noise'] ** 2)
            ctx.eq(K1, W, f'kernel matrix {tag}', **t2)
            ctx.eq(K2, W, f'kernel matrix, Cholesky {tag}', **t2)
            ctx.eq(L @ L.T, W, f'Cholesky factor {tag}', **t2)
            c = np.linalg.cond(W)
            ctx.check(np.max(np.abs(K1 @ Ki - np.eye(len(Z)))) < 1e-12 * c + 1e-9, f'inverse {tag}')
            ctx.trans(3)
        ctx.trans(2)
        ctx.trace(2)
        ctx.state(tag)
    ctx.outcome(np.round(want, 5))


def gen_sing(tier):
    for k in KS:
        for n in ([2, 5, 12, 30] if not k.startswith('set_') else [2, 6]):
            yield [k, n]


def run_sing(sc, ctx):
    """Nearly singular kernel matrices: whatever is added to the diagonal until the factorisation succeeds,
    the returned matrix is symmetric, equals the kernel plus that, and is the product of the returned factor."""
    from bayeso import covariance as C
    k, n = sc
    for d, w, nz, s in itertools.product([1, 2], [0.05, 1.0, 5.0, 40.0], [0.0, 1e-3], [1.0, 30.0, 1e3, 1e4, 1e5, 1e6]):
        for var in ('plain', 'dup', 'close'):
            X = data(k, n, 1, d, var)[0]
            h = dict(lengthscales=w * np.ones(d), signal=s, noise=nz)
            tag = f'{sc} d={d} length scale {w} noise={nz} signal={s} {var}'
            W = ref.train_gram(k, X, h)
            K, L, _ = C.get_kernel_cholesky(X, dict(h), k)
            ctx.check(np.array_equal(K, K.T) and np.allclose(L, np.tril(L), atol=0), f'{tag}: not symmetric, or factor not lower triangular')
            ctx.eq(L @ L.T, K, f'{tag}: product of the factor', rtol=0, atol=4e-15 * s * s + 1e-12)
            added = np.diag(K) - np.diag(W)
            ctx.check(np.ptp(added) <= 1e-12 * s * s + 1e-12 and np.min(added) >= -1e-12 * s * s and np.max(added) <= 101.0, f'{tag}: {added} added to the diagonal')
            ctx.eq(K - np.diag(np.diag(K)), W - np.diag(np.diag(W)), f'{tag}: kernel matrix', rtol=1e-9, atol=1e-10 * s * s)
            ctx.trans()
            ctx.trace()
            ctx.state(tag, float(np.round(added[0], 4)))


TWINS = {
    'negated': lambda X: -X, 'reversed': lambda X: X[::-1].copy(), 'last changed': lambda X: np.concatenate([X[:-1], X[-1:] + 0.7]),
    'first changed': lambda X: np.concatenate([X[:1] - 0.6, X[1:]]), 'close': lambda X: X + 1e-6, 'doubled': lambda X: 2 * X, 'rolled': lambda X: np.roll(X, 1, axis=-1),
    'reflected': lambda X: 2 * np.mean(X, axis=1, keepdims=True) - X if X.ndim == 3 else 2 * np.mean(X, axis=0) - X,
    'spread': lambda X: X + (X - np.mean(X, axis=-2, keepdims=True)), 'elements reversed': lambda X: X[:, ::-1].copy(),
    'last column changed': lambda X: np.concatenate([X[..., :-1], X[..., -1:] * 1.5 + 0.1], axis=-1),
}


def gen_twin(tier):
    for k in KS:
        for t in TWINS:
            yield [k, t]


def run_twin(sc, ctx):
    """Two lists of the same shape that resemble each other without being the same."""
    from bayeso import covariance as C
    k, t = sc
    for n, d, m, ls, s in itertools.product([1, 2, 3, 6], [1, 2, 4], [1, 2, 3] if k.startswith('set_') else [0], menu.LS, [1.0, 2.5]):
        X = data(k, n, 1, d, 'plain', m)[0]
        Xp = TWINS[t](X)
        h = hyp(ls, d, s)
        want = ref.gram(k, X, Xp, h)
        tag = f'{sc} n={n} d={d} elements={m} {ls} signal={s}'
        cmp(ctx, C.cov_main(k, X, Xp, dict(h), False), want, s, tag)
        cmp(ctx, C.cov_main(k, Xp, X, dict(h), False), want.T, s, f'{tag} swapped')
        ctx.trans(2)
        ctx.trace(2)
        ctx.state(tag)


SPACES = [
    Space('twins', gen_twin, run_twin, 'two lists of one shape that resemble each other'),
    Space('singular', gen_sing, run_sing, 'nearly singular kernel matrices'),
    Space('extremes', gen_ext, run_ext, 'magnitudes, many inputs, dimensions, set elements', chunk=4),
    Space('cross', gen_cross, run_cross, 'cov_main over all kernels, shapes, inputs, hyperparameters, same/not same, jitter'),
    Space('direct', gen_direct, run_direct, 'single kernel functions and the kernel of two sets'),
    Space('train', gen_train, run_train, 'kernel matrix, inverse and Cholesky factor of the models'),
    Space('large', gen_large, run_large, 'hundreds of inputs'),
    Space('set sizes', gen_setsizes, run_setsizes, 'sets of 1..5 elements on either side'),
    Space('permutations', gen_perm, run_perm, 'all permutations of inputs and set elements, swapped arguments'),
    Space('layouts', gen_layout, run_layout, 'memory layouts and dtypes'),
]
