"""C09: Student-t-process predictions are the exact conditional distribution."""
import numpy as np

from mc import menu, ref
from mc.core import Space
from mc.props import _post as P

BOUNDS = {
    'quick': '8 kernels x 7 shapes (n<=9, l<=7, d<=6) x 7 input variants x 4 length-scale forms x 5 (signal, noise, dof) x 4 prior means x '
        '4 response kinds, through predict_with_hyps and predict_with_cov; n, l up to 1050; all permutations of 4 training and test inputs; '
        'six memory layouts; two fitting methods x prior x noise flag; model objects; magnitudes 1e-6..1e6 of inputs, 1e-2..1e7 of responses, d up to 130, sets of up to 20 elements, model objects alike; nearly singular kernel matrices (signal up to 1e6, no noise)',
    'thorough': 'larger shapes and all permutations of 5',
}
ASSUMPTIONS = ['comparison tolerance 1e-6 relative plus an absolute part scaled by the condition number of the kernel matrix']
M = P.Model('tp')


def gen_limit(tier):
    for k in P.KS:
        for n, d in [(1, 1), (3, 2), (6, 1)]:
            for pk in ['none', 'linear']:
                yield [k, n, d, pk]


def run_limit(sc, ctx):
    """Growing degrees of freedom: the distance to the Gaussian prediction shrinks like 1/dof."""
    from bayeso.gp import gp
    from bayeso.tp import tp
    k, n, d, pk = sc
    X, Xs = P.xs(k, n, d, 'plain', 1), P.xs(k, 4, d, 'plain', 4)
    Y = menu.responses(X, 'rough')
    mu = menu.prior(pk)
    for ls in ['iso1', 'ard']:
        h = M.hyps(ls, d, 1.4, 0.1, 5.0)
        g = dict(h)
        g.pop('dof')
        gm, gs, gc = gp.predict_with_hyps(X, Y, Xs, g, str_cov=k, prior_mu=mu)
        K = ref.train_gram(k, X, h)
        r = Y - ref.prior(mu, X)
        fit = float((r.T @ np.linalg.solve(K, r))[0, 0])
        for dof in [1e2, 1e4, 1e6, 1e8, 1e10]:
            nu, m, s, c = tp.predict_with_hyps(X, Y, Xs, dict(h, dof=dof), str_cov=k, prior_mu=mu)
            ctx.eq(m, gm, f'{sc} dof={dof}: location', atol=1e-7)
            ctx.check(np.max(np.abs(c - gc)) <= 2.1 * (abs(fit - n) / dof + 1e-9) * np.max(np.abs(gc)) + 1e-10,
                f'{sc} dof={dof}: covariance is {np.max(np.abs(c - gc))} away from the Gaussian one')
            ctx.trans()
            ctx.trace()
            ctx.state(sc, ls, dof)


SPACES = [
    Space('singular', P.gen_sing, lambda sc, ctx: P.run_sing(M, sc, ctx), 'nearly singular kernel matrices, deviation and covariance agree'),
    Space('magnitudes', P.gen_mag, lambda sc, ctx: P.run_mag(M, sc, ctx), 'magnitudes, dimensions, sizes of sets', chunk=2),
    Space('limit', gen_limit, run_limit, 'growing degrees of freedom'),
    Space('predict', P.gen_predict, lambda sc, ctx: P.run_predict(M, sc, ctx), 'conditional distribution, two entry points', chunk=3),
    Space('large', P.gen_large, lambda sc, ctx: P.run_large(M, sc, ctx), 'hundreds of training or test inputs', chunk=1),
    Space('permutations', P.gen_perm, lambda sc, ctx: P.run_perm(M, sc, ctx), 'all orders of training and test inputs; one at a time'),
    Space('layouts', P.gen_layout, lambda sc, ctx: P.run_layout(M, sc, ctx), 'memory layouts'),
    Space('fitted', P.gen_opt(M), lambda sc, ctx: P.run_opt(M, sc, ctx), 'prediction with fitted hyperparameters', chunk=1),
    Space('model object', P.gen_model('tp'), lambda sc, ctx: P.run_model(M, sc, ctx), 'compute_posteriors of the optimiser object'),
]
