"""Shared by C08 and C09: predictions against the textbook conditional distribution."""
import itertools

import numpy as np

from mc import menu, ref
from mc.props.c06 import layout

KS = ref.BASE + ref.SETS
SHAPES = [(1, 1, 1), (1, 3, 2), (2, 1, 1), (3, 4, 1), (5, 3, 2), (6, 7, 3), (9, 2, 6)]
HYPS = [(1.0, 0.01), (0.3, 0.2), (4.0, 0.05), (-1.2, 1.0), (1.5, 1e-3)]
DOFS = [5.0, 2.01, 3.5, 30.0, 1e6]


def xs(k, n, d, var, key, m=3):
    return menu.sets(n, m, d, var, key) if k.startswith('set_') else menu.inputs(n, d, var, key)


class Model:
    def __init__(self, kind):
        self.kind = kind

    def mod(self):
        if self.kind == 'gp':
            from bayeso.gp import gp
            return gp
        from bayeso.tp import tp
        return tp

    def kern(self):
        if self.kind == 'gp':
            from bayeso.gp import gp_kernel
            return gp_kernel
        from bayeso.tp import tp_kernel
        return tp_kernel

    def hyps(self, ls, d, s, nz, dof):
        h = {'noise': nz, 'signal': s, 'lengthscales': menu.lengthscales(ls, d)}
        if self.kind == 'tp':
            h['dof'] = dof
        return h

    def ref(self, k, X, Y, Xs, h, mu, K=None):
        """(nu or None, mean, std, cov)"""
        if self.kind == 'gp':
            m, c = ref.gp_posterior(k, X, Y, Xs, h, mu, K)
            return None, m, ref.std_of(c), c
        nu, m, c = ref.tp_posterior(k, X, Y, Xs, h, mu, K)
        return nu, m, ref.std_of(c), c

    def norm(self, out):
        if self.kind == 'gp':
            assert len(out) == 3
            return (None,) + tuple(out)
        assert len(out) == 4
        return tuple(out)


def compare(ctx, got, want, l, tag, cond, s, ymax, factor=1.0, base=1.0):
    """factor: the covariance scaling of the Student-t model (1 for the GP)."""
    nu, m, sd, c = got
    rnu, rm, rsd, rc = want
    if rnu is not None:
        ctx.check(isinstance(nu, (float, np.floating)) and abs(nu - rnu) <= 1e-9 * rnu, f'{tag}: degrees of freedom {nu}, expected {rnu}')
    ctx.check(np.shape(m) == (l, 1) and np.shape(sd) == (l, 1) and np.shape(c) == (l, l),
        f'{tag}: shapes {np.shape(m)} {np.shape(sd)} {np.shape(c)}')
    e = 1e-9 + 2e-14 * cond
    ctx.eq(m, rm, f'{tag}: mean', rtol=1e-6, atol=e * (base + ymax))
    ca = e * s * s * max(1.0, factor)
    ctx.eq(c, rc, f'{tag}: covariance', rtol=1e-6, atol=ca)
    ctx.check(np.all(sd >= 0), f'{tag}: negative standard deviation')
    ctx.eq(sd ** 2, np.maximum(rsd ** 2, 0.0), f'{tag}: squared deviation', rtol=1e-5, atol=ca)
    # the deviation belongs to the covariance returned with it
    ctx.eq(sd[:, 0], np.sqrt(np.maximum(np.diag(c), 0.0)), f'{tag}: deviation is not the root of the diagonal', rtol=1e-7, atol=1e-9 * abs(s))
    ctx.eq(c, c.T, f'{tag}: covariance not symmetric', rtol=1e-6, atol=ca)


def factor_of(want, base_cov):
    return 1.0


def gen_predict(tier):
    for k in KS:
        for sh in SHAPES + ([(14, 9, 12), (30, 20, 3)] if tier == 'thorough' else []):
            for var in menu.VARIANTS:
                yield [k, list(sh), var]


def tp_factor(M, k, X, Y, h, mu):
    if M.kind == 'gp':
        return 1.0
    K = ref.train_gram(k, X, h)
    r = Y - ref.prior(mu, X)
    return (h['dof'] + float((r.T @ np.linalg.solve(K, r))[0, 0]) - 2) / (h['dof'] + len(X) - 2)


def run_predict(M, sc, ctx):
    g = M.mod()
    k, (n, l, d), var = sc
    X = xs(k, n, d, var, 1)
    Xs = xs(k, l, d, var, 4, m=2 if k.startswith('set_') else 3)
    if var == 'dup' and not k.startswith('set_'):
        Xs[0] = X[0]
    for ls in ['iso1', 'iso.4', 'ard', 'ardmix']:
        for hi, (s, nz) in enumerate(HYPS):
            for pk, rk in itertools.product(['none', 'const', 'linear', 'index'], ['smooth', 'rough', 'const', 'big']):
                if rk in ('const', 'big') and pk in ('linear', 'index') and hi:
                    continue
                dof = DOFS[(hi + len(pk)) % len(DOFS)]
                h = M.hyps(ls, d, s, nz, dof)
                mu = menu.prior(pk)
                Y = menu.responses(X, rk)
                want = M.ref(k, X, Y, Xs, h, mu)
                K = ref.train_gram(k, X, h)
                cond = np.linalg.cond(K)
                f = tp_factor(M, k, X, Y, h, mu)
                ym = float(np.max(np.abs(Y - ref.prior(mu, X)))) + 3.0
                tag = f'{k} n={n} l={l} d={d} {var} {ls} signal={s} noise={nz} dof={dof} prior={pk} responses={rk}'
                got = M.norm(g.predict_with_hyps(X, Y, Xs, dict(h), str_cov=k, prior_mu=mu))
                compare(ctx, got, want, l, 'predict_with_hyps ' + tag, cond, s, ym, f)
                Ki = np.linalg.inv(K)
                got2 = M.norm(g.predict_with_cov(X, Y, Xs, K, Ki, dict(h), str_cov=k, prior_mu=mu, debug=bool(hi % 2)))
                compare(ctx, got2, want, l, 'predict_with_cov ' + tag, cond, s, ym, f)
                ctx.trans(2)
                ctx.trace(2)
                ctx.state(sc, ls, hi, pk, rk)
        ctx.outcome(np.round(got[1], 6), np.round(got[3], 6))
    ctx.sample(dict(kernel=k, n=n, l=l, d=d, inputs=var))


def gen_large(tier):
    for k in KS:
        for n, l in ([(40, 3), (101, 130), (250, 7), (3, 260), (520, 4), (4, 520), (1050, 2), (2, 1050)] if not k.startswith('set_') else [(20, 3), (3, 25)]):
            yield [k, n, l]


def run_large(M, sc, ctx):
    g = M.mod()
    k, n, l = sc
    for d, ls, pk in itertools.product([1, 3] if n < 500 else [3], ['iso.4', 'ard'] if n + l < 500 else ['ard'], ['none', 'linear']):
        X, Xs = xs(k, n, d, 'plain', 1), xs(k, l, d, 'plain', 4)
        h = M.hyps(ls, d, 1.4, 0.2, 4.0)
        mu = menu.prior(pk)
        Y = menu.responses(X, 'rough')
        want = M.ref(k, X, Y, Xs, h, mu)
        got = M.norm(g.predict_with_hyps(X, Y, Xs, dict(h), str_cov=k, prior_mu=mu))
        compare(ctx, got, want, l, f'large {sc} d={d} {ls} {pk}', 1e5, 1.4, 10.0, tp_factor(M, k, X, Y, h, mu))
        ctx.trans()
        ctx.trace()
        ctx.state(sc, d, ls, pk)


def gen_perm(tier):
    n = 4 if tier == 'quick' else 5
    for k in KS:
        for p in itertools.permutations(range(n)):
            yield [k, list(p)]


def run_perm(M, sc, ctx):
    g = M.mod()
    k, p = sc
    n = len(p)
    for d, ls, pk in itertools.product([1, 2], ['iso1', 'ard'], ['none', 'linear']):
        X, Xs = xs(k, n, d, 'plain', 1), xs(k, n, d, 'plain', 4)
        Y = menu.responses(X, 'rough')
        h = M.hyps(ls, d, 1.4, 0.1, 4.0)
        mu = menu.prior(pk)
        base = M.norm(g.predict_with_hyps(X, Y, Xs, dict(h), str_cov=k, prior_mu=mu))
        a = M.norm(g.predict_with_hyps(X[p], Y[p], Xs, dict(h), str_cov=k, prior_mu=mu))
        compare(ctx, a, base, n, f'training data permuted by {p}: {k} d={d} {ls} {pk}', 1e4, 1.4, 10.0, 3.0)
        b = M.norm(g.predict_with_hyps(X, Y, Xs[p], dict(h), str_cov=k, prior_mu=mu))
        pb = (base[0], base[1][p], base[2][p], base[3][np.ix_(p, p)])
        compare(ctx, b, pb, n, f'test inputs permuted by {p}: {k} d={d} {ls} {pk}', 1e4, 1.4, 10.0, 3.0)
        for i in range(n):          # alone or in a batch
            c = M.norm(g.predict_with_hyps(X, Y, Xs[i:i + 1], dict(h), str_cov=k, prior_mu=mu))
            compare(ctx, c, (base[0], base[1][i:i + 1], base[2][i:i + 1], base[3][i:i + 1, i:i + 1]), 1,
                f'test input {i} alone: {k} d={d} {ls} {pk}', 1e4, 1.4, 10.0, 3.0)
        ctx.trans(2 + n)
        ctx.trace(2 + n)
        ctx.state(sc, d, ls, pk)


def gen_layout(tier):
    for k in KS:
        for lay in ['F', 'strided', 'readonly', 'int', 'view', 'revstride']:
            yield [k, lay]


def run_layout(M, sc, ctx):
    g = M.mod()
    k, lay = sc
    for d, ls, pk in itertools.product([1, 2, 3], ['iso1', 'ard'], ['none', 'linear']):
        X, Xs = xs(k, 5, d, 'plain', 1), xs(k, 4, d, 'plain', 4)
        Y = menu.responses(X, 'rough')
        A, B, Yl = layout(X, lay), layout(Xs, lay), layout(Y, lay)
        h = M.hyps(ls, d, 1.4, 0.1, 4.0)
        mu = menu.prior(pk)
        Xf, Bf, Yf = (np.ascontiguousarray(np.asarray(z, dtype=float)) for z in (A, B, Yl))
        want = M.ref(k, Xf, Yf, Bf, h, mu)
        got = M.norm(g.predict_with_hyps(A, Yl, B, dict(h), str_cov=k, prior_mu=mu))
        compare(ctx, got, want, 4, f'{lay} arrays {k} d={d} {ls} {pk}', 1e4, 1.4, 10.0, tp_factor(M, k, Xf, Yf, h, mu))
        K, Ki = ref.train_gram(k, Xf, h), np.linalg.inv(ref.train_gram(k, Xf, h))
        if lay != 'int':
            K, Ki = layout(K, lay), layout(Ki, lay)
        got = M.norm(g.predict_with_cov(A, Yl, B, K, Ki, dict(h), str_cov=k, prior_mu=mu))
        compare(ctx, got, want, 4, f'{lay} arrays, given matrices {k} d={d} {ls} {pk}', 1e4, 1.4, 10.0, tp_factor(M, k, Xf, Yf, h, mu))
        ctx.trans(2)
        ctx.trace(2)
        ctx.state(sc, d, ls, pk)


def gen_model(kinds):
    def gen(tier):
        for k in KS:
            for acq_d in [1, 2, 4]:
                for pk in ['none', 'const', 'linear']:
                    yield [k, acq_d, pk]
    return gen


def run_model(M, sc, ctx):
    """The model object's own posterior (used by the acquisition functions)."""
    from bayeso import bo
    k, d, pk = sc
    cls = bo.BOwGP if M.kind == 'gp' else bo.BOwTP
    box = np.array([[-3.0, 3.0]] * d)
    for n, l, ls in itertools.product([1, 2, 5], [1, 2, 6], ['iso1', 'ard']):
        mu = menu.prior(pk)
        model = cls(box.copy(), str_cov=k, prior_mu=mu, use_ard=ls == 'ard')
        X, Xs = xs(k, n, d, 'plain', 1), xs(k, l, d, 'plain', 4)
        Y = menu.responses(X, 'rough')
        h = M.hyps(ls, d, 1.4, 0.1, 4.0)
        K = ref.train_gram(k, X, h)
        nu, m, sd, c = M.ref(k, X, Y, Xs, h, mu)
        gm, gs = model.compute_posteriors(X, Y, Xs, K, np.linalg.inv(K), dict(h))
        tag = f'{k} d={d} prior={pk} n={n} l={l} {ls}'
        ctx.check(np.shape(gm) == (l,) and np.shape(gs) == (l,), f'compute_posteriors {tag}: shapes {np.shape(gm)}, {np.shape(gs)}')
        ctx.eq(gm, m[:, 0], f'compute_posteriors mean {tag}', atol=1e-7)
        ctx.eq(gs, sd[:, 0], f'compute_posteriors deviation {tag}', rtol=1e-5, atol=1e-6)
        ctx.trans()
        ctx.trace()
        ctx.state(sc, n, l, ls)


def gen_opt(M):
    def gen(tier):
        opts = ['BFGS', 'L-BFGS-B', 'Nelder-Mead', 'SLSQP', 'SLSQP-Bounded'] if M.kind == 'gp' else ['SLSQP', 'L-BFGS-B']
        for k in KS:
            for o in opts:
                for pk in ['none', 'linear']:
                    for fix in [True, False]:
                        if k.startswith('set_') and tier == 'quick' and (fix or o == 'Nelder-Mead') and k != 'set_se':
                            continue
                        yield [k, o, pk, fix]
    return gen


def run_opt(M, sc, ctx):
    """Prediction with fitted hyperparameters = prediction with the fitted kernel."""
    g, kern = M.mod(), M.kern()
    k, o, pk, fix = sc
    st = k.startswith('set_')
    for n, l, d, rk in ([(4, 3, 1, 'smooth'), (5, 2, 2, 'rough')] if not st else [(3, 2, 1, 'smooth')]):
        X, Xs = xs(k, n, d, 'plain', 1, m=2), xs(k, l, d, 'plain', 4, m=2)
        Y = menu.responses(X, rk)
        mu = menu.prior(pk)
        got = M.norm(g.predict_with_optimized_hyps(X, Y, Xs, str_cov=k, str_optimizer_method=o, prior_mu=mu, fix_noise=fix))
        K, Ki, h = kern.get_optimized_kernel(X, Y, mu, k, str_optimizer_method=o, fix_noise=fix)
        Kr = ref.train_gram(k, X, h)
        cond = np.linalg.cond(Kr)
        want = M.ref(k, X, Y, Xs, h, mu)
        sg = max(abs(float(h['signal'])), 1e-3)
        ym = float(np.max(np.abs(Y - ref.prior(mu, X)))) + 3.0
        compare(ctx, got, want, l, f'predict_with_optimized_hyps {sc} n={n} d={d} (fitted {h})', cond * 100, sg, ym, tp_factor(M, k, X, Y, h, mu))
        ctx.trans(2)
        ctx.trace()
        ctx.state(sc, n)
    if o in ('BFGS', 'SLSQP') and pk == 'none' and not st and fix:
        # defaults: covariance, optimiser, prior, noise
        dk = 'matern52'
        if k == dk:
            X, Xs = xs(k, 4, 2, 'plain', 1), xs(k, 3, 2, 'plain', 4)
            Y = menu.responses(X, 'smooth')
            a = M.norm(g.predict_with_optimized_hyps(X, Y, Xs))
            b = M.norm(g.predict_with_optimized_hyps(X, Y, Xs, str_cov=dk, str_optimizer_method='BFGS' if M.kind == 'gp' else 'SLSQP',
                prior_mu=None, fix_noise=True))
            ctx.identical(a, b, 'documented defaults of predict_with_optimized_hyps')
            h = M.hyps('ard', 2, 1.4, 0.1, 4.0)
            ctx.identical(M.norm(g.predict_with_hyps(X, Y, Xs, dict(h))), M.norm(g.predict_with_hyps(X, Y, Xs, dict(h), str_cov=dk)),
                'documented default kernel of predict_with_hyps')


XSCALES = [1e-6, 1e-3, 1e2, 1e4, 1e7]


def gen_mag(tier):
    for k, m, ratio in itertools.product(KS, XSCALES, [0.1, 1.0, 20.0]):
        yield [k, 'magnitude', m, ratio]
    for k, d in itertools.product(KS, [10, 25, 60, 130]):
        yield [k, 'dimension', d, 1.0]
    for k, m in itertools.product(KS[4:], [1, 2, 7, 20]):
        yield [k, 'elements', m, 1.0]
    for k in KS:
        yield [k, 'object', 0, 1.0]


def cases_mag(sc):
    """(inputs, test inputs, response factor, length scales, signal, noise, prior kind)"""
    k, what, v, ratio = sc
    st = k.startswith('set_')
    if what == 'magnitude':
        for d, ard, s, ys, pk in itertools.product([1, 3], [True, False], [0.02, 1.0, 60.0, 3e3], [1e-2, 1.0, 1e4], ['none', 'scaled']):
            if st and (d == 3) != ard:
                continue
            X, Xs = v * xs(k, 5, d, 'plain', 1), v * xs(k, 4, d, 'plain', 4)
            if s == 1.0:
                X, Xs = X + 3.0 * v, Xs + 3.0 * v
            yield X, Xs, ys * s, ratio * v * (np.array([0.6, 1.7, 1.1])[:d] if ard else 0.8), s, (0.1 if ys != 1.0 else 0.5) * s, pk
    elif what == 'dimension':
        for n, ard, s in itertools.product([1, 2, 4, 13], [True, False], [0.5, 2.0]):
            yield xs(k, n, v, 'plain', 1), xs(k, 5, v, 'plain', 4), s, np.sqrt(v) * (0.5 + 0.37 * (np.arange(v) % 5) if ard else 0.8), s, 0.2, 'scaled'
    elif what == 'elements':
        for n, d, mp in itertools.product([1, 3, 6], [1, 2, 5], [1, 3, 9]):
            yield menu.sets(n, v, d, 'plain', 1), menu.sets(4, mp, d, 'plain', 4), 1.0, (0.4 + 0.5 * np.arange(d)) if d > 1 else 0.7, 1.3, 0.1, 'none'


def run_mag(M, sc, ctx):
    """Magnitudes, dimensions, sizes of sets; the model object's own posterior on the same."""
    from bayeso import bo
    g = M.mod()
    k, what, v, ratio = sc
    if what == 'object':
        cls = bo.BOwGP if M.kind == 'gp' else bo.BOwTP
        for n, l, d, kind, ard in itertools.product([3, 12, 70], [3, 11, 120], [3, 8], ['plain', 'int', 'big', 'tiny', 'lattice', 'F'], [True, False]):
            if n * l > 2000 and (kind != 'plain' or k.startswith('set_')):
                continue
            X, Xs = xs(k, n, d, 'lattice' if kind == 'lattice' else 'plain', 1), xs(k, l, d, 'plain', 4)
            Y = menu.responses(X, 'rough')
            sc_ = {'big': 1e4, 'tiny': 1e-4}.get(kind, 1.0)
            X, Xs, Y = X * sc_, Xs * sc_, Y * sc_
            if kind == 'int':
                X, Xs, Y = np.round(X).astype(int), np.round(Xs).astype(int), np.round(Y).astype(int)
            elif kind == 'F':
                X, Xs = np.asfortranarray(X), np.asfortranarray(Xs)
            h = {'noise': 0.2, 'signal': 1.4, 'lengthscales': sc_ * (0.8 + 0.3 * np.arange(d) if ard else 1.2)}
            if M.kind == 'tp':
                h['dof'] = 4.0
            box = sc_ * np.array([[-3.0, 3.0]] * d)
            Xf, Yf, Xsf = (np.asarray(z, dtype=float) for z in (X, Y, Xs))
            K = ref.train_gram(k, Xf, h)
            nu, m, sd, c = M.ref(k, Xf, Yf, Xsf, h, None)
            kw = [dict(), dict(normalize_Y=False), dict(str_acq='ucb'), dict(debug=True)][(n + l + d) % 4]
            gm, gs = cls(box, str_cov=k, use_ard=ard, **kw).compute_posteriors(X, Y, Xs, K, np.linalg.inv(K), dict(h))
            tag = f'{sc} n={n} l={l} d={d} {kind} ard={ard} {kw}'
            ctx.check(np.shape(gm) == (l,) and np.shape(gs) == (l,), f'compute_posteriors {tag}: shapes {np.shape(gm)}, {np.shape(gs)}')
            ctx.eq(gm, m[:, 0], f'compute_posteriors mean {tag}', atol=1e-7 * sc_)
            ctx.eq(gs, sd[:, 0], f'compute_posteriors deviation {tag}', rtol=1e-5, atol=1e-6)
            ctx.trans()
            ctx.trace()
            ctx.state(tag)
        return
    for i, (X, Xs, yf, ls, s, nz, pk) in enumerate(cases_mag(sc)):
        n, l = len(X), len(Xs)
        top = float(np.max(np.abs(X))) + 1e-300
        mu = None if pk == 'none' else (lambda Z: yf * (1.0 + np.reshape(np.asarray(Z, dtype=float), (Z.shape[0], -1))[:, :1] / top))
        Y = yf * menu.responses(X, 'rough')
        h = {'noise': nz, 'signal': s, 'lengthscales': ls}
        if M.kind == 'tp':
            h['dof'] = [2.5, 5.0, 300.0][i % 3]
        want = M.ref(k, X, Y, Xs, h, mu)
        K = ref.train_gram(k, X, h)
        cond = np.linalg.cond(K)
        f = tp_factor(M, k, X, Y, h, mu)
        ym = float(np.max(np.abs(Y - ref.prior(mu, X))))
        tag = f'{sc} case {i} length scales {np.ravel(ls)[:3]} signal={s} noise={nz} responses x{yf} prior={pk}'
        compare(ctx, M.norm(g.predict_with_hyps(X, Y, Xs, dict(h), str_cov=k, prior_mu=mu, debug=bool(i % 2))), want, l, 'predict_with_hyps ' + tag, cond, s, ym, f, base=0.0)
        compare(ctx, M.norm(g.predict_with_cov(X, Y, Xs, K, np.linalg.inv(K), dict(h), str_cov=k, prior_mu=mu)), want, l, 'predict_with_cov ' + tag, cond, s, ym, f, base=0.0)
        ctx.trans(2)
        ctx.trace(2)
        ctx.state(sc, i)


def gen_sing(tier):
    for k, n, s in itertools.product(KS, [2, 4, 8, 20], [1.0, 1e2, 1e3, 1e4, 1e5, 1e6]):
        if n > 8 and k.startswith('set_'):
            continue
        yield [k, n, s]


def run_sing(M, sc, ctx):
    """Nearly singular kernel matrices: rounding dominates the values, but the deviation is still the
    non-negative root of the covariance diagonal returned with it."""
    g = M.mod()
    k, n, s = sc
    for d, w, nz, rk in itertools.product([1, 2], [0.05, 1.0, 5.0, 40.0], [0.0, 1e-8, 1e-3], ['zero', 'smooth', 'big']):
        X = xs(k, n, d, 'plain', 1)
        Xs = np.concatenate([X[:3], X[:3] + 1e-9, xs(k, 4, d, 'plain', 4)])
        Y = menu.responses(X, rk)
        h = {'noise': nz, 'signal': s, 'lengthscales': w * np.ones(d)}
        if M.kind == 'tp':
            h['dof'] = 5.0
        try:
            nu, m, sd, c = M.norm(g.predict_with_hyps(X, Y, Xs, h, str_cov=k))
        except np.linalg.LinAlgError:
            continue                # exactly singular: no prediction
        tag = f'{sc} d={d} length scale {w} noise={nz} responses={rk}'
        ctx.check(np.shape(sd) == (len(Xs), 1) and np.shape(c) == (len(Xs), len(Xs)) and np.all(np.isfinite(sd)) and np.all(np.isfinite(c)),
            f'{tag}: deviation {np.ravel(sd)}')
        dg = np.diag(c)
        ctx.check(np.all(sd >= 0), f'{tag}: negative standard deviation')
        ctx.eq(sd[:, 0], np.sqrt(np.maximum(dg, 0.0)), f'{tag}: deviation is not the root of the diagonal', rtol=1e-7, atol=1e-12)
        ctx.trans()
        ctx.trace()
        ctx.state(tag, bool(np.any(dg < 0)))
