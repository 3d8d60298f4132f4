"""C08: Gaussian-process predictions are the exact conditional distribution."""
from mc.core import Space
from mc.props import _post as P

BOUNDS = {
    'quick': '8 kernels x 7 shapes (n<=9, l<=7, d<=6) x 7 input variants x 4 length-scale forms x 5 (signal, noise) x 4 prior means x '
        '4 response kinds, through predict_with_hyps and predict_with_cov; n, l up to 1050; all permutations of 4 training and test inputs; '
        'six memory layouts; five fitting methods x prior x noise flag; model objects; magnitudes 1e-6..1e6 of inputs, 1e-2..1e7 of responses, d up to 130, sets of up to 20 elements, model objects alike; nearly singular kernel matrices (signal up to 1e6, no noise)',
    'thorough': 'larger shapes and all permutations of 5',
}
ASSUMPTIONS = ['comparison tolerance 1e-6 relative plus an absolute part scaled by the condition number of the kernel matrix']
M = P.Model('gp')
SPACES = [
    Space('singular', P.gen_sing, lambda sc, ctx: P.run_sing(M, sc, ctx), 'nearly singular kernel matrices, deviation and covariance agree'),
    Space('magnitudes', P.gen_mag, lambda sc, ctx: P.run_mag(M, sc, ctx), 'magnitudes, dimensions, sizes of sets', chunk=2),
    Space('predict', P.gen_predict, lambda sc, ctx: P.run_predict(M, sc, ctx), 'conditional distribution, two entry points', chunk=3),
    Space('large', P.gen_large, lambda sc, ctx: P.run_large(M, sc, ctx), 'hundreds of training or test inputs', chunk=1),
    Space('permutations', P.gen_perm, lambda sc, ctx: P.run_perm(M, sc, ctx), 'all orders of training and test inputs; one at a time'),
    Space('layouts', P.gen_layout, lambda sc, ctx: P.run_layout(M, sc, ctx), 'memory layouts'),
    Space('fitted', P.gen_opt(M), lambda sc, ctx: P.run_opt(M, sc, ctx), 'prediction with fitted hyperparameters', chunk=1),
    Space('model object', P.gen_model('gp'), lambda sc, ctx: P.run_model(M, sc, ctx), 'compute_posteriors of the optimiser object'),
]
