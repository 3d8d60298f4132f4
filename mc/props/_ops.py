"""Registry of public operations with small valid arguments (shared by C18 and C23).

OPS[name] = Op(fn, args, kind): fn(**args(v)) performs the operation; v in 0, 1 gives two argument
sets of the same shapes and types with different values, v = 2 other shapes, v = 3..5 the smallest
ones (two points in one dimension; one point in one dimension; one point, one flat dimension), v = 6, 7
large ones (130 points; 11 dimensions).
kind: 'pure' (no randomness), 'fit' (numerical optimisation inside, no randomness), 'rand' (draws from
the global generator, which the caller seeds), 'run' (optimisation runs; evaluates the target), 'free' (results are
random whatever the caller does)."""
import numpy as np

from mc import menu
from mc.core import weyl

CALLS = [0]


def target(x):
    CALLS[0] += 1
    x = np.asarray(x, dtype=float).ravel()
    return float(np.sum((x - 0.3) ** 2) + np.sin(3.0 * x[0]))


def mu0(X):
    return 0.5 * np.reshape(X, (X.shape[0], -1))[:, :1] - 1.0


class Op:
    def __init__(self, fn, args, kind, out=None):
        self.fn, self.args, self.kind, self.out = fn, args, kind, out


OPS = {}


def op(name, kind, args, out=None):
    def deco(fn):
        OPS[name] = Op(fn, args, kind, out)
        return fn
    return deco


def N(v):
    return [5, 5, 4, 2, 1, 1, 130, 6][v]


def D(v):
    return [2, 2, 3, 1, 1, 2, 2, 11][v]


def XX(v):
    return menu.inputs(N(v), D(v), 'plain', 2 + 3 * v)


def YY(v):
    return menu.responses(XX(v), 'rough', v)


def XT(v):
    return menu.inputs(max(N(v) - 1, 1), D(v), 'plain', 11 + 2 * v)


def SET(v, key=0):
    return menu.sets(3, 2 if v < 2 else 3, D(v), 'plain', 5 + 3 * v + key)


def HY(v, tp=False, noise=True):
    h = dict(lengthscales=0.6 + 0.5 * weyl((D(v),), v), signal=1.0 + 0.4 * v)
    if noise:
        h['noise'] = 0.05 + 0.02 * v
    if tp:
        h['dof'] = 6.0 + v
    return h


def BOX(v):
    return np.array([[[-2.0, 2.0], [-1.0, 3.0]], [[-2.5, 2.5], [-2.0, 2.0]], [[-2.0, 2.0], [-1.0, 3.0], [0.0, 1.0]], [[-2.0, 2.0]], [[-1.0, 1.0]], [[-2.0, 2.0], [0.7, 0.7]], [[-2.0, 2.0], [-1.0, 3.0]], [[-2.0, 2.0 + 0.1 * i] for i in range(11)]][v])


def COVX(v, tp=False):
    from mc import ref
    K = ref.train_gram('matern52', XX(v), HY(v))
    return K


def L():
    import bayeso.covariance as C
    return C


def HARR(v, use_gp=True, fix=True):
    h = HY(v, tp=not use_gp)
    return np.concatenate(([] if fix else [h['noise']], [] if use_gp else [h['dof']], [h['signal']], h['lengthscales']))


# ------------------------------------------------------------------ kernels

for _k in ('se', 'matern32', 'matern52'):
    def _f(X, Xp, lengthscales, signal, _k=_k):
        return getattr(L(), 'cov_' + _k)(X, Xp, lengthscales, signal)
    op(f'cov_{_k}', 'pure', lambda v: dict(X=XX(v), Xp=XT(v), lengthscales=HY(v)['lengthscales'], signal=HY(v)['signal']))(_f)

    def _g(cov_X_Xp, X, Xp, hyps, num_hyps, fix_noise, _k=_k):
        return getattr(L(), 'grad_cov_' + _k)(cov_X_Xp, X, Xp, hyps, num_hyps, fix_noise)
    op(f'grad_cov_{_k}', 'pure', lambda v: dict(cov_X_Xp=COVX(v), X=XX(v), Xp=XX(v), hyps=HY(v), num_hyps=D(v) + 2, fix_noise=False))(_g)

for _k in ('eq', 'se', 'matern32', 'matern52'):
    op(f'cov_main_{_k}', 'pure', lambda v, _k=_k: dict(str_cov=_k, X=XX(v), Xp=XT(v), hyps=HY(v), same_X_Xp=False, jitter=1e-5))(lambda **a: L().cov_main(**a))
    op(f'cov_main_same_{_k}', 'pure', lambda v, _k=_k: dict(str_cov=_k, X=XX(v), Xp=XX(v), hyps=HY(v), same_X_Xp=True))(lambda **a: L().cov_main(**a))
    op(f'cov_main_set_{_k}', 'pure', lambda v, _k=_k: dict(str_cov='set_' + _k, X=SET(v), Xp=SET(v, 1), hyps=HY(v), same_X_Xp=False))(lambda **a: L().cov_main(**a))
    op(f'grad_cov_main_{_k}', 'pure', lambda v, _k=_k: dict(str_cov=_k, X=XX(v), Xp=XX(v), hyps=HY(v), fix_noise=bool(v)))(lambda **a: L().grad_cov_main(**a))
op('cov_set', 'pure', lambda v: dict(str_cov='se', X=SET(v)[0], Xp=SET(v, 1)[0], lengthscales=HY(v)['lengthscales'], signal=HY(v)['signal']))(lambda **a: L().cov_set(**a))
op('get_kernel_inverse', 'pure', lambda v: dict(X_train=XX(v), hyps=HY(v), str_cov='matern52', fix_noise=False, use_gradient=True, debug=False))(lambda **a: L().get_kernel_inverse(**a))
op('get_kernel_cholesky', 'pure', lambda v: dict(X_train=XX(v), hyps=HY(v), str_cov='matern32', fix_noise=False, use_gradient=True, debug=False))(lambda **a: L().get_kernel_cholesky(**a))
op('get_kernel_inverse_set', 'pure', lambda v: dict(X_train=SET(v), hyps=HY(v), str_cov='set_se'))(lambda **a: L().get_kernel_inverse(**a))
op('choose_fun_cov', 'pure', lambda v: dict(str_cov=['se', 'matern32', 'eq'][v % 3]), out=lambda f: f.__name__)(lambda **a: L().choose_fun_cov(**a))
op('choose_fun_grad_cov', 'pure', lambda v: dict(str_cov=['se', 'matern32', 'eq'][v % 3]), out=lambda f: f.__name__)(lambda **a: L().choose_fun_grad_cov(**a))


# ------------------------------------------------------------------ models

def _inv(v):
    return np.linalg.inv(COVX(v))


for _m in ('gp', 'tp'):
    def _lib(m=_m):
        import importlib
        return importlib.import_module(f'bayeso.{m}.{m}')

    def _lik(m=_m):
        import importlib
        return importlib.import_module(f'bayeso.{m}.{m}_likelihood')

    def _ker(m=_m):
        import importlib
        return importlib.import_module(f'bayeso.{m}.{m}_kernel')
    _t = _m == 'tp'
    op(f'{_m}.predict_with_cov', 'pure', lambda v, t=_t: dict(X_train=XX(v), Y_train=YY(v), X_test=XT(v), cov_X_X=COVX(v), inv_cov_X_X=_inv(v), hyps=HY(v, t),
        str_cov='matern52', prior_mu=mu0, debug=False))(lambda lib=_lib, **a: lib().predict_with_cov(**a))
    op(f'{_m}.predict_with_hyps', 'pure', lambda v, t=_t: dict(X_train=XX(v), Y_train=YY(v), X_test=XT(v), hyps=HY(v, t), str_cov='se', prior_mu=mu0, debug=False))(lambda lib=_lib, **a: lib().predict_with_hyps(**a))
    op(f'{_m}.predict_with_hyps_nomean', 'pure', lambda v, t=_t: dict(X_train=XX(v), Y_train=YY(v), X_test=XT(v), hyps=HY(v, t)))(lambda lib=_lib, **a: lib().predict_with_hyps(**a))
    op(f'{_m}.predict_with_optimized_hyps', 'fit', lambda v, t=_t: dict(X_train=XX(v), Y_train=YY(v), X_test=XT(v), str_cov='matern32',
        str_optimizer_method='SLSQP' if t else 'L-BFGS-B', prior_mu=None, fix_noise=True, debug=False))(lambda lib=_lib, **a: lib().predict_with_optimized_hyps(**a))
    op(f'{_m}.get_optimized_kernel', 'fit', lambda v, t=_t: dict(dict(X_train=XX(v), Y_train=YY(v), prior_mu=mu0, str_cov='se', str_optimizer_method='L-BFGS-B',
        use_ard=v != 1, fix_noise=False, debug=False), **({} if t else dict(str_modelselection_method='ml'))))(lambda lib=_ker, **a: lib().get_optimized_kernel(**a))
    op(f'{_m}.neg_log_ml', 'pure', lambda v, t=_t: dict(dict(X_train=XX(v), Y_train=YY(v), hyps=HARR(v, not t, False), str_cov='matern52', prior_mu_train=mu0(XX(v)),
        use_ard=True, fix_noise=False, use_gradient=True, debug=False), **({} if t else dict(use_cholesky=True))))(lambda lib=_lik, **a: lib().neg_log_ml(**a))
    op(f'{_m}.sample_functions', 'rand', lambda v, t=_t: dict(dict(mu=YY(v).ravel(), Sigma=COVX(v), num_samples=3), **(dict(nu=4.0 + v) if t else {})))(lambda lib=_lib, **a: lib().sample_functions(**a))
op('gp.neg_log_ml_inverse', 'pure', lambda v: dict(X_train=XX(v), Y_train=YY(v), hyps=HARR(v), str_cov='se', prior_mu_train=mu0(XX(v)), use_ard=True, fix_noise=True, use_cholesky=False, use_gradient=False))(
    lambda **a: __import__('bayeso.gp.gp_likelihood', fromlist=['x']).neg_log_ml(**a))
op('gp.neg_log_pseudo_l_loocv', 'pure', lambda v: dict(X_train=XX(v), Y_train=YY(v), hyps=HARR(v, True, False), str_cov='matern32', prior_mu_train=mu0(XX(v)), fix_noise=False, debug=False, use_ard=True))(
    lambda **a: __import__('bayeso.gp.gp_likelihood', fromlist=['x']).neg_log_pseudo_l_loocv(**a))
op('gp.loocv_kernel', 'fit', lambda v: dict(X_train=XX(v), Y_train=YY(v), prior_mu=None, str_cov='matern52', str_optimizer_method='Nelder-Mead', str_modelselection_method='loocv', fix_noise=True))(
    lambda **a: __import__('bayeso.gp.gp_kernel', fromlist=['x']).get_optimized_kernel(**a))


# ------------------------------------------------------------------ acquisition functions

def A():
    import bayeso.acquisition as Q
    return Q


def _ms(v):
    return dict(pred_mean=3 * weyl((N(v),), 3 + v) - 1, pred_std=0.2 + weyl((N(v),), 7 + v))


op('acq.pi', 'pure', lambda v: dict(_ms(v), Y_train=YY(v), jitter=1e-5))(lambda **a: A().pi(**a))
op('acq.ei', 'pure', lambda v: dict(_ms(v), Y_train=YY(v), jitter=1e-5))(lambda **a: A().ei(**a))
op('acq.ucb', 'pure', lambda v: dict(_ms(v), Y_train=YY(v), kappa=2.0 + v, increase_kappa=True))(lambda **a: A().ucb(**a))
op('acq.aei', 'pure', lambda v: dict(_ms(v), Y_train=YY(v), noise=0.1 + v, jitter=1e-5))(lambda **a: A().aei(**a))
op('acq.pure_exploit', 'pure', lambda v: dict(pred_mean=_ms(v)['pred_mean']))(lambda **a: A().pure_exploit(**a))
op('acq.pure_explore', 'pure', lambda v: dict(pred_std=_ms(v)['pred_std']))(lambda **a: A().pure_explore(**a))


# ------------------------------------------------------------------ trees

def T():
    import bayeso.trees.trees_common as M
    return M


def RFX(v):
    return menu.inputs([9, 9, 7, 7, 1, 1, 130, 9][v], D(v), 'plain', 3 + v)


def RFY(v):
    return menu.responses(RFX(v), 'rough', v)


def rows(v):
    """A leaf: a list of (input, output) pairs."""
    return [(x, y) for x, y in zip(XX(v), YY(v))]


def forest(v):
    """A small hand-made forest over D(v) features."""
    def tree(k):
        X, Y = RFX(v), RFY(v)
        f, c = k % D(v), float(np.sort(X[:, k % D(v)])[max(len(X) // 2 + k - 1, 0) % len(X)])
        lo = [(x, y) for x, y in zip(X, Y) if x[f] < c]
        hi = [(x, y) for x, y in zip(X, Y) if not x[f] < c]
        return dict(index=f, value=c, left=lo, right=hi)
    return [tree(0), tree(1), tree(2)]


op('trees.get_inputs_from_leaf', 'pure', lambda v: dict(leaf=rows(v)))(lambda **a: T().get_inputs_from_leaf(**a))
op('trees.get_outputs_from_leaf', 'pure', lambda v: dict(leaf=rows(v)))(lambda **a: T().get_outputs_from_leaf(**a))
op('trees.mse', 'pure', lambda v: dict(left_right=(rows(v)[:2], rows(v)[2:])))(lambda **a: T().mse(**a))
op('trees.subsample', 'rand', lambda v: dict(X=XX(v), Y=YY(v), ratio_sampling=0.8, replace_samples=bool(v)))(lambda **a: T().subsample(**a))
op('trees.predict_by_trees', 'pure', lambda v: dict(X=XT(v), list_trees=forest(v)))(lambda **a: T().predict_by_trees(**a))
op('trees.unit_predict_by_trees', 'pure', lambda v: dict(X=XT(v), list_trees=forest(v)))(lambda **a: T().unit_predict_by_trees(**a))
op('trees.compute_sigma', 'pure', lambda v: dict(preds_mu_leaf=weyl((N(v),), v), preds_sigma_leaf=weyl((N(v),), 2 + v), min_sigma=0.01))(lambda **a: T().compute_sigma(**a))
op('trees.get_random_forest', 'rand', lambda v: dict(X=RFX(v), Y=RFY(v), num_trees=3, depth_max=3, size_min_leaf=1, num_features=min(2, D(v))))(
    lambda **a: __import__('bayeso.trees.trees_random_forest', fromlist=['x']).get_random_forest(**a))
op('trees.get_generic_trees', 'rand', lambda v: dict(X=RFX(v), Y=RFY(v), num_trees=2, depth_max=3, size_min_leaf=1, ratio_sampling=0.7 if v < 4 else 1.0, replace_samples=False, num_features=1, split_random_location=True))(
    lambda **a: __import__('bayeso.trees.trees_generic_trees', fromlist=['x']).get_generic_trees(**a))


# ------------------------------------------------------------------ utilities

def U(n):
    import importlib
    return importlib.import_module('bayeso.utils.' + n)


op('utils.get_grids', 'pure', lambda v: dict(ranges=BOX(v), num_grids=3))(lambda **a: U('utils_common').get_grids(**a))
op('utils.get_minimum', 'pure', lambda v: dict(Y_all=weyl((3, 6), v), num_init=2))(lambda **a: U('utils_common').get_minimum(**a))
op('utils.get_time', 'pure', lambda v: dict(time_all=weyl((3, 6), v), num_init=2, include_init=True))(lambda **a: U('utils_common').get_time(**a))
op('utils.normalize_min_max', 'pure', lambda v: dict(Y=YY(v)))(lambda **a: U('utils_bo').normalize_min_max(**a))
op('utils.best_by_evaluation', 'pure', lambda v: dict(initials=XX(v), fun_objective=target))(lambda **a: U('utils_bo').get_best_acquisition_by_evaluation(**a))
op('utils.best_by_history', 'pure', lambda v: dict(X=XX(v), Y=YY(v)))(lambda **a: U('utils_bo').get_best_acquisition_by_history(**a))
op('utils.get_next_best_acquisition', 'pure', lambda v: dict(points=XX(v), acquisitions=YY(v).ravel(), points_evaluated=XX(v)[[int(np.argmin(YY(v)))]]))(
    lambda **a: U('utils_bo').get_next_best_acquisition(**a))
op('utils.check_optimizer_method_bo', 'pure', lambda v: dict(str_optimizer_method_bo=['L-BFGS-B', 'DIRECT', 'CMA-ES'][v % 3], dim=[2, 2, 1][v % 3], debug=False))(
    lambda **a: U('utils_bo').check_optimizer_method_bo(**a))
op('utils.choose_fun_acquisition', 'pure', lambda v: dict(str_acq=['aei', 'aei', 'ei'][v % 3], noise=[0.1, 0.4, 0.2][v % 3]),
    out=lambda f: f(**_ms(0), Y_train=YY(0)))(lambda **a: U('utils_bo').choose_fun_acquisition(**a))
op('utils.check_hyps_convergence', 'pure', lambda v: dict(list_hyps=[HY(v), dict(HY(v), signal=HY(v)['signal'] * 1.01)], hyps=HY(v), str_cov='se', fix_noise=True, ratio_threshold=0.05))(
    lambda **a: U('utils_bo').check_hyps_convergence(**a))
op('utils.check_points_in_bounds', 'pure', lambda v: dict(points=np.clip(XX(v), BOX(v)[:, 0], BOX(v)[:, 1]), bounds=BOX(v)))(lambda **a: U('utils_bo').check_points_in_bounds(**a))
op('utils.get_str_array', 'pure', lambda v: dict(arr=XX(v)))(lambda **a: U('utils_logger').get_str_array(**a))
op('utils.get_str_array_3d', 'pure', lambda v: dict(arr=SET(v)))(lambda **a: U('utils_logger').get_str_array_3d(**a))
op('utils.get_str_hyps', 'pure', lambda v: dict(hyps=HY(v)))(lambda **a: U('utils_logger').get_str_hyps(**a))
op('utils.get_prior_mu', 'pure', lambda v: dict(prior_mu=mu0, X=XX(v)))(lambda **a: U('utils_gp').get_prior_mu(**a))
op('utils.get_prior_mu_none', 'pure', lambda v: dict(prior_mu=None, X=SET(v)))(lambda **a: U('utils_gp').get_prior_mu(**a))
op('utils.validate_common_args', 'pure', lambda v: dict(X_train=XX(v), Y_train=YY(v), str_cov='se', prior_mu=mu0, debug=False, X_test=XT(v)))(lambda **a: U('utils_gp').validate_common_args(**a))
op('utils.get_hyps', 'pure', lambda v: dict(str_cov='se', dim=D(v), use_gp=v != 1, use_ard=True))(lambda **a: U('utils_covariance').get_hyps(**a))
op('utils.get_range_hyps', 'pure', lambda v: dict(str_cov='matern52', dim=D(v), use_gp=v != 1, use_ard=v != 2, fix_noise=False))(lambda **a: U('utils_covariance').get_range_hyps(**a))
op('utils.convert_hyps', 'pure', lambda v: dict(str_cov='se', hyps=HY(v), use_gp=True, fix_noise=v == 2))(lambda **a: U('utils_covariance').convert_hyps(**a))
op('utils.restore_hyps', 'pure', lambda v: dict(str_cov='se', hyps=HARR(v), use_gp=True, use_ard=True, fix_noise=True, noise=0.2))(lambda **a: U('utils_covariance').restore_hyps(**a))
op('utils.validate_hyps_dict', 'pure', lambda v: dict(hyps=HY(v), str_cov='se', dim=D(v), use_gp=True))(lambda **a: U('utils_covariance').validate_hyps_dict(**a))
op('utils.check_str_cov', 'pure', lambda v: dict(str_fun='test', str_cov='se', shape_X1=XX(v).shape, shape_X2=XT(v).shape))(lambda **a: U('utils_covariance').check_str_cov(**a))


# ------------------------------------------------------------------ optimisation objects

def _bo():
    from bayeso import bo
    return bo


def _info(r):
    """A step's result without the times."""
    nxt, info = r
    return nxt, {k: x for k, x in info.items() if not k.startswith('time')}


def _run(r):
    """A run's result without the times."""
    return tuple(r[:2])


CON = dict(
    gp=lambda v: dict(range_X=BOX(v), str_cov='matern52', str_acq='ei', normalize_Y=True, use_ard=v != 1, prior_mu=None, str_optimizer_method_gp='L-BFGS-B',
        str_optimizer_method_bo='L-BFGS-B', str_modelselection_method='ml', str_exp=None, debug=False),
    tp=lambda v: dict(range_X=BOX(v), str_cov='se', str_acq='ucb', normalize_Y=True, use_ard=True, prior_mu=None, str_optimizer_method_tp='SLSQP',
        str_optimizer_method_bo='L-BFGS-B', str_exp=None, debug=False),
    rf=lambda v: dict(range_X=BOX(v), str_surrogate='rf', str_acq='ei', normalize_Y=v != 1, str_optimizer_method_bo='random_search', str_exp=None, debug=False))
KEYS = {m: list(f(0)) for m, f in CON.items()}
CLS = dict(gp='BOwGP', tp='BOwTP', rf='BOwTrees')


def build(m, a):
    """Takes the constructor's arguments out of a and constructs."""
    return getattr(_bo(), CLS[m])(**{k: a.pop(k) for k in KEYS[m] if k in a})


for _m in ('gp', 'tp', 'rf'):
    def _opt(m=_m, **a):
        return build(m, a).optimize(**a)
    op(f'bo.{_m}.optimize', 'fit' if _m != 'rf' else 'rand', lambda v, m=_m: dict(CON[m](v), X_train=np.clip(RFX(v), BOX(v)[:, 0], BOX(v)[:, 1]), Y_train=RFY(v),
        str_sampling_method='sobol' if m != 'rf' else 'uniform', num_samples=4, seed=3 + v, **(dict(str_mlm_method='regular') if m == 'gp' else {})), out=_info)(_opt)

    def _smp(m=_m, **a):
        return build(m, a).get_samples(**a)
    op(f'bo.{_m}.get_samples', 'pure', lambda v, m=_m: dict(CON[m](v), str_sampling_method=['uniform', 'gaussian', 'halton'][v % 3], num_samples=3, seed=7 + v))(_smp)

    def _ini(m=_m, **a):
        return build(m, a).get_initials(**a)
    op(f'bo.{_m}.get_initials', 'pure', lambda v, m=_m: dict(CON[m](v), str_initial_method=['sobol', 'halton', 'uniform'][v % 3], num_initials=4, seed=5 + v))(_ini)
    if _m != 'rf':
        def _pos(m=_m, **a):
            return build(m, a).compute_posteriors(**a)
        op(f'bo.{_m}.compute_posteriors', 'pure', lambda v, m=_m: dict(CON[m](v), X_train=XX(v), Y_train=YY(v), X_test=XT(v), cov_X_X=COVX(v), inv_cov_X_X=_inv(v), hyps=HY(v, m == 'tp')))(_pos)

        def _acq(m=_m, **a):
            return build(m, a).compute_acquisitions(**a)
        op(f'bo.{_m}.compute_acquisitions', 'pure', lambda v, m=_m: dict(CON[m](v), X=XT(v), X_train=XX(v), Y_train=YY(v), cov_X_X=COVX(v), inv_cov_X_X=_inv(v), hyps=HY(v, m == 'tp')))(_acq)
    else:
        op('bo.rf.compute_posteriors', 'pure', lambda v: dict(CON['rf'](v), X=XT(v), trees=forest(v)))(lambda **a: build('rf', a).compute_posteriors(**a))
        op('bo.rf.compute_acquisitions', 'pure', lambda v: dict(CON['rf'](v), X=XT(v), X_train=RFX(v), Y_train=RFY(v), trees=forest(v)))(lambda **a: build('rf', a).compute_acquisitions(**a))
        op('bo.rf.get_trees', 'rand', lambda v: dict(CON['rf'](v), X_train=RFX(v), Y_train=RFY(v), num_trees=3, depth_max=3, size_min_leaf=1))(lambda **a: build('rf', a).get_trees(**a))


# ------------------------------------------------------------------ runs

def _W(v, sur='gp'):
    return dict(range_X=BOX(v), fun_target=target, num_iter=1, str_surrogate=sur, str_cov='se', str_acq='ei', normalize_Y=True, use_ard=v != 1, prior_mu=None,
        str_initial_method_bo='sobol', str_sampling_method_ao='grid', str_optimizer_method_gp='L-BFGS-B', str_optimizer_method_tp='SLSQP',
        str_optimizer_method_bo='random_search' if sur == 'rf' else 'L-BFGS-B', str_mlm_method='regular', str_modelselection_method='ml', num_samples_ao=3, str_exp=None, debug=False)


WKEYS = list(_W(0))


def wrap(a):
    from bayeso.wrappers import BayesianOptimization
    return BayesianOptimization(**{k: a.pop(k) for k in WKEYS if k in a})


for _s in ('gp', 'tp', 'rf'):
    op(f'run.{_s}.optimize', 'run', lambda v, s=_s: dict(_W(v, s), num_init=2, seed=4 + v), out=_run)(lambda **a: wrap(a).optimize(**a))
op('run.with_initial_inputs', 'run', lambda v: dict(_W(v), X=np.clip(XX(v), BOX(v)[:, 0], BOX(v)[:, 1])), out=_run)(lambda **a: wrap(a).optimize_with_initial_inputs(**a))
op('run.with_all_initial_information', 'run', lambda v: dict(_W(v), X=np.clip(XX(v), BOX(v)[:, 0], BOX(v)[:, 1]), Y=YY(v)), out=_run)(lambda **a: wrap(a).optimize_with_all_initial_information(**a))
op('run.single_iteration', 'run', lambda v: dict(_W(v), X=np.clip(XX(v), BOX(v)[:, 0], BOX(v)[:, 1]), Y=YY(v)), out=_info)(lambda **a: wrap(a).optimize_single_iteration(**a))


def WF():
    import bayeso.wrappers.wrappers_bo_function as M
    return M


_FC = KEYS['gp']


def _model(a):
    a['model_bo'] = build('gp', a)
    return a


op('run.function', 'run', lambda v: dict(CON['gp'](v), fun_target=target, num_init=2, num_iter=1, str_initial_method_bo='halton', str_sampling_method_ao='grid', num_samples_ao=3, str_mlm_method='regular', seed=2 + v), out=_run)(
    lambda **a: WF().run_single_round(**_model(a)))
op('run.function_inputs', 'run', lambda v: dict(CON['gp'](v), fun_target=target, X_train=np.clip(XX(v), BOX(v)[:, 0], BOX(v)[:, 1]), num_iter=1, str_sampling_method_ao='grid', num_samples_ao=3, str_mlm_method='regular'), out=_run)(
    lambda **a: WF().run_single_round_with_initial_inputs(**_model(a)))
op('run.function_all', 'run', lambda v: dict(CON['gp'](v), fun_target=target, X_train=np.clip(XX(v), BOX(v)[:, 0], BOX(v)[:, 1]), Y_train=YY(v), num_iter=1, str_sampling_method_ao='grid', num_samples_ao=3, str_mlm_method='regular'), out=_run)(
    lambda **a: WF().run_single_round_with_all_initial_information(**_model(a)))


def _ts():
    import bayeso.thompson_sampling as M
    return M


op('thompson.run', 'free', lambda v: dict(range_X=BOX(v), fun_target=target, num_init=2, num_iter=1, normalize_Y=True, str_sampling_method='uniform', num_samples=3, debug=False))(lambda **a: _ts().thompson_sampling_gp(**a))
op('thompson.iteration', 'rand', lambda v: dict(range_X=BOX(v), X=np.clip(XX(v), BOX(v)[:, 0], BOX(v)[:, 1]), Y=YY(v), normalize_Y=True, str_sampling_method='grid', num_samples=3, debug=False))(lambda **a: _ts().thompson_sampling_gp_iteration(**a))


def call(name, args, seed=1):
    """Performs the operation and reduces its result."""
    o = OPS[name]
    np.random.seed(seed)
    r = o.fn(**args)
    return o.out(r) if o.out else r
