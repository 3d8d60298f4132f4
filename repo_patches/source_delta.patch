From db7f1a7d6a47c3f63a5dc65bafd84475049eb767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:53 +0000
Subject: [PATCH 01/16] fix: Thompson sampling queries the minimiser of the
 sampled function

The sampled function has shape (1, num_samples); taking the argmin over its
first column always returned index 0, so the first candidate was queried
whatever the posterior was.
---
 bayeso/thompson_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayeso/thompson_sampling.py b/bayeso/thompson_sampling.py
index 7ce05b9..2711aba 100644
--- a/bayeso/thompson_sampling.py
+++ b/bayeso/thompson_sampling.py
@@ -98,7 +98,7 @@ def thompson_sampling_gp_iteration(range_X: np.ndarray,
     if Y_sampled is None: # pragma: no cover
         raise ValueError('jitter_cov is not large enough.')
 
-    ind_min = np.argmin(Y_sampled[:, 0])
+    ind_min = np.argmin(Y_sampled[0])
     next_point = X_test[ind_min]
 
     return next_point
-- 
2.43.0


From a3263ebcb95fe59abf9e466cdc5bd81724ffe9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:53 +0000
Subject: [PATCH 02/16] fix: leave-one-out pseudo-likelihood takes the prior
 mean into account

prior_mu_train was accepted and validated but ignored, so model selection by
loocv scored a different model from the one used for prediction.
---
 bayeso/gp/gp_likelihood.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayeso/gp/gp_likelihood.py b/bayeso/gp/gp_likelihood.py
index 7e89fda..a0d895a 100644
--- a/bayeso/gp/gp_likelihood.py
+++ b/bayeso/gp/gp_likelihood.py
@@ -155,6 +155,7 @@ def neg_log_pseudo_l_loocv(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.nd
     utils_covariance.check_str_cov('neg_log_pseudo_l_loocv', str_cov, X_train.shape)
 
     num_data = X_train.shape[0]
+    new_Y_train = Y_train - prior_mu_train
     hyps = utils_covariance.restore_hyps(str_cov, hyps, fix_noise=fix_noise)
 
     _, inv_cov_X_X, _ = covariance.get_kernel_inverse(X_train, hyps,
@@ -167,10 +168,10 @@ def neg_log_pseudo_l_loocv(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.nd
 #        cur_Y_train = np.vstack((Y_train[:ind_data], Y_train[ind_data+1:]))
 
 #        cur_X_test = np.expand_dims(X_train[ind_data], axis=0)
-        cur_Y_test = Y_train[ind_data]
+        cur_Y_test = new_Y_train[ind_data]
 
         cur_mu = np.squeeze(cur_Y_test) \
-            - np.dot(inv_cov_X_X, Y_train)[ind_data] / inv_cov_X_X[ind_data, ind_data]
+            - np.dot(inv_cov_X_X, new_Y_train)[ind_data] / inv_cov_X_X[ind_data, ind_data]
         cur_sigma = np.sqrt(1.0 / (inv_cov_X_X[ind_data, ind_data] + constants.JITTER_COV))
 
         first_term = -0.5 * np.log(cur_sigma**2)
-- 
2.43.0


From a0c169a2884b408a27bfb457bf6212b4431567b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:53 +0000
Subject: [PATCH 03/16] fix: model selection by loocv supports a single shared
 lengthscale

With use_ard=False and more than one input dimension, the hyperparameter
vector was restored as if it held one lengthscale per dimension, and fitting
raised ValueError.
---
 bayeso/gp/gp_kernel.py     | 4 ++--
 bayeso/gp/gp_likelihood.py | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/bayeso/gp/gp_kernel.py b/bayeso/gp/gp_kernel.py
index a738bf0..a102899 100644
--- a/bayeso/gp/gp_kernel.py
+++ b/bayeso/gp/gp_kernel.py
@@ -93,9 +93,9 @@ def get_optimized_kernel(X_train: np.ndarray, Y_train: np.ndarray,
             use_ard=use_ard, fix_noise=fix_noise,
             use_gradient=use_gradient, debug=debug)
     elif str_modelselection_method == 'loocv':
-        # TODO: add use_ard.
         neg_log_ml_ = lambda hyps: gp_likelihood.neg_log_pseudo_l_loocv(X_train, Y_train,
-            hyps, str_cov, prior_mu_train, fix_noise=fix_noise, debug=debug)
+            hyps, str_cov, prior_mu_train,
+            fix_noise=fix_noise, debug=debug, use_ard=use_ard)
         use_gradient = False
     else: # pragma: no cover
         raise ValueError('get_optimized_kernel: missing conditions for str_modelselection_method.')
diff --git a/bayeso/gp/gp_likelihood.py b/bayeso/gp/gp_likelihood.py
index a0d895a..18ad70a 100644
--- a/bayeso/gp/gp_likelihood.py
+++ b/bayeso/gp/gp_likelihood.py
@@ -118,7 +118,8 @@ def neg_log_ml(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.ndarray,
 def neg_log_pseudo_l_loocv(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.ndarray,
     str_cov: str, prior_mu_train: np.ndarray,
     fix_noise: bool=constants.FIX_GP_NOISE,
-    debug: bool=False
+    debug: bool=False,
+    use_ard: bool=constants.USE_ARD
 ) -> float:
     """
     It computes a negative log pseudo-likelihood using leave-one-out cross-validation.
@@ -137,6 +138,8 @@ def neg_log_pseudo_l_loocv(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.nd
     :type fix_noise: bool., optional
     :param debug: flag for printing log messages.
     :type debug: bool., optional
+    :param use_ard: flag for automatic relevance determination.
+    :type use_ard: bool., optional
 
     :returns: negative log pseudo-likelihood.
     :rtype: float
@@ -145,18 +148,18 @@ def neg_log_pseudo_l_loocv(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.nd
 
     """
 
-    # TODO: add use_ard.
     utils_gp.validate_common_args(X_train, Y_train, str_cov, None, debug)
     assert isinstance(hyps, np.ndarray)
     assert isinstance(prior_mu_train, np.ndarray)
     assert isinstance(fix_noise, bool)
+    assert isinstance(use_ard, bool)
     assert len(prior_mu_train.shape) == 2
     assert X_train.shape[0] == Y_train.shape[0] == prior_mu_train.shape[0]
     utils_covariance.check_str_cov('neg_log_pseudo_l_loocv', str_cov, X_train.shape)
 
     num_data = X_train.shape[0]
     new_Y_train = Y_train - prior_mu_train
-    hyps = utils_covariance.restore_hyps(str_cov, hyps, fix_noise=fix_noise)
+    hyps = utils_covariance.restore_hyps(str_cov, hyps, use_ard=use_ard, fix_noise=fix_noise)
 
     _, inv_cov_X_X, _ = covariance.get_kernel_inverse(X_train, hyps,
         str_cov, fix_noise=fix_noise, debug=debug)
-- 
2.43.0


From ac779663d3fc52a1429b03d831dc35a49729dcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:53 +0000
Subject: [PATCH 04/16] fix: Student-t marginal likelihood stays finite for
 large n or dof

The ratio of gamma functions overflowed to inf (or nan) for a few hundred
data points, which made the negative log marginal likelihood -inf or nan.
---
 bayeso/tp/tp_likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayeso/tp/tp_likelihood.py b/bayeso/tp/tp_likelihood.py
index 0c6aadc..9d2f038 100644
--- a/bayeso/tp/tp_likelihood.py
+++ b/bayeso/tp/tp_likelihood.py
@@ -87,7 +87,7 @@ def neg_log_ml(X_train: np.ndarray, Y_train: np.ndarray, hyps: np.ndarray,
 
     second_term = -0.5 * second_term
 
-    third_term = np.log(scipy.special.gamma((nu + num_X) / 2.0) / scipy.special.gamma(nu / 2.0))
+    third_term = scipy.special.gammaln((nu + num_X) / 2.0) - scipy.special.gammaln(nu / 2.0)
     fourth_term = -0.5 * (nu + num_X) * np.log(1.0 + beta / (nu - 2.0))
 
     log_ml_ = np.squeeze(first_term + second_term + third_term + fourth_term)
-- 
2.43.0


From 41f514b7eb3bb7d2db3dff0abb7a2facda4e4b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:53 +0000
Subject: [PATCH 05/16] fix: sample_functions returns (num_samples, n) for a
 single point

For n = 1 scipy returns scalars, so the Gaussian version returned shape
(num_samples, ) and the Student-t version raised AssertionError.
---
 bayeso/gp/gp.py | 2 +-
 bayeso/tp/tp.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayeso/gp/gp.py b/bayeso/gp/gp.py
index b6db27d..50ed068 100644
--- a/bayeso/gp/gp.py
+++ b/bayeso/gp/gp.py
@@ -49,7 +49,7 @@ def sample_functions(mu: np.ndarray, Sigma: np.ndarray,
 
     rv = scipy.stats.multivariate_normal(mean=mu, cov=Sigma)
     list_rvs = [rv.rvs() for _ in range(0, num_samples)]
-    return np.array(list_rvs)
+    return np.reshape(np.array(list_rvs), (num_samples, mu.shape[0]))
 
 @utils_common.validate_types
 def predict_with_cov(X_train: np.ndarray, Y_train: np.ndarray, X_test: np.ndarray,
diff --git a/bayeso/tp/tp.py b/bayeso/tp/tp.py
index d31c37b..350a017 100644
--- a/bayeso/tp/tp.py
+++ b/bayeso/tp/tp.py
@@ -56,7 +56,7 @@ def sample_functions(nu: float, mu: np.ndarray, Sigma: np.ndarray,
     rv = scipy.stats.multivariate_normal(mean=np.zeros(mu.shape[0]), cov=Sigma)
     list_samples = [rv.rvs() for _ in range(0, num_samples)]
 
-    samples = np.array(list_samples)
+    samples = np.reshape(np.array(list_samples), (num_samples, mu.shape[0]))
     samples = mu[np.newaxis, ...] + samples / np.sqrt(x)[..., np.newaxis]
     assert samples.shape == (num_samples, mu.shape[0])
 
-- 
2.43.0


From a3b702f2ba091e1a025f305c6b4aab9c3a40e66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:53 +0000
Subject: [PATCH 06/16] fix: a logger requested again does not emit every
 message twice

Each call attached another handler to the same logger, so messages were
repeated once per model constructed so far.
---
 bayeso/utils/utils_logger.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/bayeso/utils/utils_logger.py b/bayeso/utils/utils_logger.py
index b12773b..603de64 100644
--- a/bayeso/utils/utils_logger.py
+++ b/bayeso/utils/utils_logger.py
@@ -30,14 +30,16 @@ def get_logger(str_name: str) -> logging.Logger:
     logger = logging.getLogger(str_name)
     logger.setLevel(logging.DEBUG)
 
-    ch = logging.StreamHandler()
-    ch.setLevel(logging.DEBUG)
+    if not logger.handlers:
+        ch = logging.StreamHandler()
+        ch.setLevel(logging.DEBUG)
 
-    formatter = logging.Formatter('[%(levelname)s-%(name)s-%(asctime)s] %(message)s',
-        datefmt='%m/%d/%Y-%H:%M:%S')
-    ch.setFormatter(formatter)
+        formatter = logging.Formatter('[%(levelname)s-%(name)s-%(asctime)s] %(message)s',
+            datefmt='%m/%d/%Y-%H:%M:%S')
+        ch.setFormatter(formatter)
+
+        logger.addHandler(ch)
 
-    logger.addHandler(ch)
     return logger
 
 @utils_common.validate_types
-- 
2.43.0


From b6b09a861f9dbdf976968a8fac89fda7724c349e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:53 +0000
Subject: [PATCH 07/16] fix: get_range_hyps does not hand out the package-wide
 default ranges

The returned list shared its inner lists with the constants, so editing the
returned ranges changed the defaults of every later call.
---
 bayeso/utils/utils_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayeso/utils/utils_covariance.py b/bayeso/utils/utils_covariance.py
index 3b1b3f1..1bee446 100644
--- a/bayeso/utils/utils_covariance.py
+++ b/bayeso/utils/utils_covariance.py
@@ -131,7 +131,7 @@ def get_range_hyps(str_cov: str, dim: int,
     else:
         raise NotImplementedError('get_hyps: allowed str_cov, but it is not implemented.')
 
-    return range_hyps
+    return [list(elem) for elem in range_hyps]
 
 @utils_common.validate_types
 def convert_hyps(str_cov: str, hyps: dict,
-- 
2.43.0


From 71833e43e0e18af4d6cd1c5b2287092dc6688d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:53 +0000
Subject: [PATCH 08/16] fix: saving the minimum plots works with current
 matplotlib

Figure.legend takes at most two positional arguments, so saving raised
TypeError after the first file was written.
---
 bayeso/utils/utils_plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayeso/utils/utils_plotting.py b/bayeso/utils/utils_plotting.py
index a03b966..fadbf92 100644
--- a/bayeso/utils/utils_plotting.py
+++ b/bayeso/utils/utils_plotting.py
@@ -494,7 +494,7 @@ def plot_minimum_vs_iter(minima: np.ndarray, list_str_label: constants.TYPING_LI
         _save_figure(path_save, str_figure)
 
         fig_legend = pylab.figure(figsize=(3, 2))
-        fig_legend.legend(lines, list_str_label, 'center', fancybox=False,
+        fig_legend.legend(lines, list_str_label, loc='center', fancybox=False,
             edgecolor='black', fontsize=32)
         fig_legend.savefig(os.path.join(path_save, f'legend_{str_postfix}.pdf'),
             format='pdf', transparent=True, bbox_inches='tight')
@@ -650,7 +650,7 @@ def plot_minimum_vs_time(times: np.ndarray, minima: np.ndarray,
         _save_figure(path_save, str_figure)
 
         fig_legend = pylab.figure(figsize=(3, 2))
-        fig_legend.legend(lines, list_str_label, 'center', fancybox=False,
+        fig_legend.legend(lines, list_str_label, loc='center', fancybox=False,
             edgecolor='black', fontsize=32)
         fig_legend.savefig(os.path.join(path_save, f'legend_{str_postfix}.pdf'),
             format='pdf', transparent=True, bbox_inches='tight')
-- 
2.43.0


From 9b7db6219220c8c2bc11f93c32a33851d53defa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:53 +0000
Subject: [PATCH 09/16] fix: CMA-ES follows the given seed and leaves the
 global random state alone

cma reseeded numpy's global random state from the clock, so optimize with a
seed was not reproducible and unrelated random numbers were disturbed.
---
 bayeso/bo/bo_w_gp.py | 4 +++-
 bayeso/bo/bo_w_tp.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/bayeso/bo/bo_w_gp.py b/bayeso/bo/bo_w_gp.py
index 3b2b880..036d0fc 100644
--- a/bayeso/bo/bo_w_gp.py
+++ b/bayeso/bo/bo_w_gp.py
@@ -176,12 +176,14 @@ class BOwGP(base_bo.BaseBO):
                     return f(bx)[0]
                 return g
             initials = self.get_samples(str_sampling_method, num_samples=1, seed=seed)
+            state_random = self._get_random_state(seed)
             cur_sigma0 = np.mean(list_bounds[:, 1] - list_bounds[:, 0]) / 4.0
             next_point_x = cma.fmin(fun_wrapper(fun_negative_acquisition),
                 initials[0], cur_sigma0,
                 options={
                     'bounds': [list_bounds[:, 0], list_bounds[:, 1]],
-                    'verbose': -1, 'maxfevals': 1e5
+                    'verbose': -1, 'maxfevals': 1e5,
+                    'randn': state_random.randn, 'seed': np.nan
                 })[0]
             list_next_point.append(next_point_x)
 
diff --git a/bayeso/bo/bo_w_tp.py b/bayeso/bo/bo_w_tp.py
index a6eacc2..1c4bebb 100644
--- a/bayeso/bo/bo_w_tp.py
+++ b/bayeso/bo/bo_w_tp.py
@@ -167,12 +167,14 @@ class BOwTP(base_bo.BaseBO):
                     return f(bx)[0]
                 return g
             initials = self.get_samples(str_sampling_method, num_samples=1, seed=seed)
+            state_random = self._get_random_state(seed)
             cur_sigma0 = np.mean(list_bounds[:, 1] - list_bounds[:, 0]) / 4.0
             next_point_x = cma.fmin(fun_wrapper(fun_negative_acquisition),
                 initials[0], cur_sigma0,
                 options={
                     'bounds': [list_bounds[:, 0], list_bounds[:, 1]],
-                    'verbose': -1, 'maxfevals': 1e5
+                    'verbose': -1, 'maxfevals': 1e5,
+                    'randn': state_random.randn, 'seed': np.nan
                 })[0]
             list_next_point.append(next_point_x)
 
-- 
2.43.0


From 5f9f1aa1cfa82a00799c676c0f825bb4e3215ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:12 +0000
Subject: [PATCH 10/16] fix: do not keep using LaTeX text in plots after a plot
 with use_tex=True

---
 bayeso/utils/utils_plotting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayeso/utils/utils_plotting.py b/bayeso/utils/utils_plotting.py
index fadbf92..7ee2fc4 100644
--- a/bayeso/utils/utils_plotting.py
+++ b/bayeso/utils/utils_plotting.py
@@ -38,6 +38,7 @@ def _set_font_config(use_tex: bool) -> constants.TYPE_NONE: # pragma: no cover
     if use_tex:
         plt.rc('text', usetex=True)
     else:
+        plt.rc('text', usetex=False)
         plt.rc('pdf', fonttype=42)
 
 @utils_common.validate_types
-- 
2.43.0


From 6878cb9f5fe14c61ccc68c0e076be1a1db195c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:16 +0000
Subject: [PATCH 11/16] fix: refuse an unknown acquisition sampler and initial
 inputs of the wrong dimension before evaluating the target

---
 bayeso/wrappers/wrappers_bo_class.py    | 1 +
 bayeso/wrappers/wrappers_bo_function.py | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/bayeso/wrappers/wrappers_bo_class.py b/bayeso/wrappers/wrappers_bo_class.py
index 03206b9..abc8348 100644
--- a/bayeso/wrappers/wrappers_bo_class.py
+++ b/bayeso/wrappers/wrappers_bo_class.py
@@ -425,6 +425,7 @@ class BayesianOptimization:
 
         assert isinstance(X, np.ndarray)
         assert len(X.shape) == 2
+        assert X.shape[1] == self.model_bo.num_dim
 
         Y = []
         time_initials = []
diff --git a/bayeso/wrappers/wrappers_bo_function.py b/bayeso/wrappers/wrappers_bo_function.py
index d94a6a8..b785ccf 100644
--- a/bayeso/wrappers/wrappers_bo_function.py
+++ b/bayeso/wrappers/wrappers_bo_function.py
@@ -181,6 +181,8 @@ def run_single_round_with_initial_inputs(model_bo: bo.BO,
     assert isinstance(num_samples_ao, int)
     assert isinstance(str_mlm_method, str)
     assert len(X_train.shape) == 2
+    assert X_train.shape[1] == model_bo.num_dim
+    assert str_sampling_method_ao in constants.ALLOWED_SAMPLING_METHOD
     assert str_mlm_method in constants.ALLOWED_MLM_METHOD
 
     Y_train = []
@@ -273,6 +275,7 @@ def run_single_round(model_bo: bo.BO, fun_target: constants.TYPING_CALLABLE,
     assert isinstance(str_mlm_method, str)
     assert isinstance(seed, (int, type(None)))
     assert str_initial_method_bo in constants.ALLOWED_INITIALIZING_METHOD_BO
+    assert str_sampling_method_ao in constants.ALLOWED_SAMPLING_METHOD
     assert str_mlm_method in constants.ALLOWED_MLM_METHOD
 
     model_bo.logger.info('range_X:\n%s', utils_logger.get_str_array(model_bo.range_X))
-- 
2.43.0


From cd12ea181c528309847437e1910f327fdd97b312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:56 +0000
Subject: [PATCH 12/16] fix: grow trees on integer inputs with a feature that
 is constant within a node

---
 bayeso/trees/trees_common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayeso/trees/trees_common.py b/bayeso/trees/trees_common.py
index 10d6292..e91c7fe 100644
--- a/bayeso/trees/trees_common.py
+++ b/bayeso/trees/trees_common.py
@@ -217,7 +217,7 @@ def _split_deterministic(X: np.ndarray, Y: np.ndarray, dim_to_split: int
         if candidates_loc.shape[0] > 1:
             val_to_split = np.mean(candidates_loc[ind_loc:ind_loc+2])
         else:
-            val_to_split = X[0, dim_to_split]
+            val_to_split = float(X[0, dim_to_split])
 
         left_right = _split_left_right(X, Y, dim_to_split, val_to_split)
         score = mse(left_right)
@@ -241,7 +241,7 @@ def _split_random(X: np.ndarray, Y: np.ndarray, dim_to_split: int
 
         val_to_split = np.random.uniform(low=min_bx, high=max_bx)
     else:
-        val_to_split = X[0, dim_to_split]
+        val_to_split = float(X[0, dim_to_split])
 
     left_right = _split_left_right(X, Y, dim_to_split, val_to_split)
     score = mse(left_right)
-- 
2.43.0


From 24c97bf7e412498d033fb29443976bf73e78e113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:47 +0000
Subject: [PATCH 13/16] fix: refuse set kernels, malformed prior means and
 non-positive candidate counts before evaluating the target

---
 bayeso/wrappers/wrappers_bo_class.py    | 5 +++++
 bayeso/wrappers/wrappers_bo_function.py | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/bayeso/wrappers/wrappers_bo_class.py b/bayeso/wrappers/wrappers_bo_class.py
index abc8348..35ea1b3 100644
--- a/bayeso/wrappers/wrappers_bo_class.py
+++ b/bayeso/wrappers/wrappers_bo_class.py
@@ -11,6 +11,8 @@ from tqdm import tqdm
 from bayeso import constants
 from bayeso import bo
 from bayeso.utils import utils_bo
+from bayeso.utils import utils_covariance
+from bayeso.utils import utils_gp
 from bayeso.utils import utils_logger
 
 
@@ -426,6 +428,9 @@ class BayesianOptimization:
         assert isinstance(X, np.ndarray)
         assert len(X.shape) == 2
         assert X.shape[1] == self.model_bo.num_dim
+        if self.str_surrogate in constants.ALLOWED_SURROGATE:
+            utils_covariance.check_str_cov('optimize_with_initial_inputs', self.str_cov, X.shape)
+            utils_gp.get_prior_mu(self.prior_mu, X)
 
         Y = []
         time_initials = []
diff --git a/bayeso/wrappers/wrappers_bo_function.py b/bayeso/wrappers/wrappers_bo_function.py
index b785ccf..5c62afb 100644
--- a/bayeso/wrappers/wrappers_bo_function.py
+++ b/bayeso/wrappers/wrappers_bo_function.py
@@ -11,6 +11,8 @@ from bayeso import bo
 from bayeso import constants
 from bayeso.utils import utils_bo
 from bayeso.utils import utils_common
+from bayeso.utils import utils_covariance
+from bayeso.utils import utils_gp
 from bayeso.utils import utils_logger
 
 
@@ -182,8 +184,12 @@ def run_single_round_with_initial_inputs(model_bo: bo.BO,
     assert isinstance(str_mlm_method, str)
     assert len(X_train.shape) == 2
     assert X_train.shape[1] == model_bo.num_dim
+    assert num_samples_ao > 0
     assert str_sampling_method_ao in constants.ALLOWED_SAMPLING_METHOD
     assert str_mlm_method in constants.ALLOWED_MLM_METHOD
+    utils_covariance.check_str_cov('run_single_round_with_initial_inputs',
+        model_bo.str_cov, X_train.shape)
+    utils_gp.get_prior_mu(model_bo.prior_mu, X_train)
 
     Y_train = []
     time_initials = []
-- 
2.43.0


From 4cd056d0daa4c8e95914c7f77bf40f5daaa49f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:47 +0000
Subject: [PATCH 14/16] fix: round single-precision values in log messages as
 double-precision ones

---
 bayeso/utils/utils_logger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayeso/utils/utils_logger.py b/bayeso/utils/utils_logger.py
index 603de64..ca3c0ff 100644
--- a/bayeso/utils/utils_logger.py
+++ b/bayeso/utils/utils_logger.py
@@ -63,7 +63,7 @@ def get_str_array_1d(arr: np.ndarray) -> str:
     list_str = []
 
     for elem in arr:
-        if isinstance(elem, float):
+        if isinstance(elem, (float, np.floating)):
             elem_ = f'{elem:.3f}'
         else:
             elem_ = f'{elem}'
@@ -174,7 +174,7 @@ def get_str_hyps(hyps: dict) -> str:
     for key, val in hyps.items():
         if isinstance(val, np.ndarray):
             str_val = get_str_array(val)
-        elif isinstance(val, float):
+        elif isinstance(val, (float, np.floating)):
             str_val = f'{val:.3f}'
         else:
             str_val = f'{val}'
-- 
2.43.0


From 098a03243bc97145fa2f749db4b2f325800438b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:20 +0000
Subject: [PATCH 15/16] fix: refuse kernel-gradient requests whose sizes
 contradict each other

---
 bayeso/covariance.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/bayeso/covariance.py b/bayeso/covariance.py
index beb410e..71bedb5 100644
--- a/bayeso/covariance.py
+++ b/bayeso/covariance.py
@@ -265,6 +265,13 @@ def grad_cov_se(cov_X_Xp: np.ndarray, X: np.ndarray, Xp: np.ndarray, hyps: dict,
     assert isinstance(hyps, dict)
     assert isinstance(num_hyps, int)
     assert isinstance(fix_noise, bool)
+    assert len(X.shape) == 2
+    assert len(Xp.shape) == 2
+    assert cov_X_Xp.shape == (X.shape[0], Xp.shape[0])
+    if isinstance(hyps['lengthscales'], np.ndarray) and len(hyps['lengthscales'].shape) == 1:
+        assert X.shape[1] == Xp.shape[1] == hyps['lengthscales'].shape[0]
+    else:
+        assert X.shape[1] == Xp.shape[1]
 
     num_X = X.shape[0]
     num_Xp = Xp.shape[0]
@@ -362,6 +369,13 @@ def grad_cov_matern32(cov_X_Xp: np.ndarray, X: np.ndarray, Xp: np.ndarray, hyps:
     assert isinstance(hyps, dict)
     assert isinstance(num_hyps, int)
     assert isinstance(fix_noise, bool)
+    assert len(X.shape) == 2
+    assert len(Xp.shape) == 2
+    assert cov_X_Xp.shape == (X.shape[0], Xp.shape[0])
+    if isinstance(hyps['lengthscales'], np.ndarray) and len(hyps['lengthscales'].shape) == 1:
+        assert X.shape[1] == Xp.shape[1] == hyps['lengthscales'].shape[0]
+    else:
+        assert X.shape[1] == Xp.shape[1]
 
     num_X = X.shape[0]
     num_Xp = Xp.shape[0]
@@ -463,6 +477,13 @@ def grad_cov_matern52(cov_X_Xp: np.ndarray, X: np.ndarray, Xp: np.ndarray, hyps:
     assert isinstance(hyps, dict)
     assert isinstance(num_hyps, int)
     assert isinstance(fix_noise, bool)
+    assert len(X.shape) == 2
+    assert len(Xp.shape) == 2
+    assert cov_X_Xp.shape == (X.shape[0], Xp.shape[0])
+    if isinstance(hyps['lengthscales'], np.ndarray) and len(hyps['lengthscales'].shape) == 1:
+        assert X.shape[1] == Xp.shape[1] == hyps['lengthscales'].shape[0]
+    else:
+        assert X.shape[1] == Xp.shape[1]
 
     num_X = X.shape[0]
     num_Xp = Xp.shape[0]
-- 
2.43.0


From 90f409e995e83748e9e0b2fd3173eecd2d8a4f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:38 +0000
Subject: [PATCH 16/16] fix: refuse trees for inputs of another dimension than
 the search space

---
 bayeso/bo/bo_w_trees.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayeso/bo/bo_w_trees.py b/bayeso/bo/bo_w_trees.py
index 3b53056..4496731 100644
--- a/bayeso/bo/bo_w_trees.py
+++ b/bayeso/bo/bo_w_trees.py
@@ -101,6 +101,7 @@ class BOwTrees(base_bo.BaseBO):
         assert len(Y_train.shape) == 2
         assert X_train.shape[0] == Y_train.shape[0]
         assert Y_train.shape[1] == 1
+        assert X_train.shape[1] == self.num_dim
 
         num_features = int(np.sqrt(self.num_dim))
 
-- 
2.43.0

