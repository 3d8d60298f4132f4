"""Writes properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

prop('C01', 'Every suggested query lies inside the search space',
 'Whatever surrogate (GP, Student-t process, random forest), acquisition function, acquisition optimiser, starting-point sampler, normalisation flag and finite data are used, one optimisation step returns a finite point of shape (d,) inside the user-given box, bounds included. Every candidate returned beside it is also a finite point of the box, and there are as many candidates as were asked for (number of samples; its d-th power for grid; one for CMA-ES). A box may be negative, very wide, very narrow or have a dimension whose lower and upper bound coincide.',
 ['inputs', 'configurations'], 'all combinations of surrogate, acquisition, optimiser, sampler and box kind, over data sets with n >= 1 points including ties, duplicates, constant responses and points on the boundary',
 'The tests run a handful of configurations on one unit-like box with one data set and only look at shapes; no test sweeps surrogate x acquisition x optimiser x sampler x box.',
 ['bayeso/bo/base_bo.py', 'bayeso/bo/bo_w_gp.py', 'bayeso/bo/bo_w_tp.py', 'bayeso/bo/bo_w_trees.py', 'bayeso/utils/utils_bo.py'],
 [('bounds handed to the acquisition optimiser', 'BOwGP._optimize, BOwTP._optimize'), ('samples scaled into the box', 'BaseBO._get_samples_*'), ('final bounds check', 'utils_bo.check_points_in_bounds')],
 observe=['BOwGP.optimize', 'BOwTP.optimize', 'BOwTrees.optimize', 'BayesianOptimization.optimize_single_iteration'])

prop('C02', 'A suggestion is the best candidate under the model that is reported',
 'The point suggested by one optimisation step is one of the candidates returned with it and no other candidate has a better acquisition value. The reported acquisition values are the ones the reported surrogate (kernel matrix and hyperparameters, or trees), the chosen acquisition function and the reported responses imply at those candidates. The reported original responses are the ones supplied, and the normalised ones are their affine image onto [0, 10] (unchanged when normalisation is off or not applicable).',
 ['inputs', 'configurations', 'histories'], 'all surrogates, acquisitions, samplers, normalisation and ARD flags and model-selection modes over small data sets, and all short sequences of steps on one model object',
 'The tests check types and shapes of the returned dictionary, never that the acquisition values belong to the returned model or that the returned point is the argmin.',
 ['bayeso/bo/bo_w_gp.py', 'bayeso/bo/bo_w_tp.py', 'bayeso/bo/bo_w_trees.py', 'bayeso/utils/utils_bo.py', 'bayeso/acquisition.py'],
 [('argmin over candidates', 'utils_bo.get_best_acquisition_by_evaluation; BOwTrees.optimize'), ('acquisition evaluated on the fitted model', 'compute_acquisitions'), ('min-max scaling', 'utils_bo.normalize_min_max')],
 observe=['dict_info returned by optimize()'])

prop('C03', 'Samplers: right count, inside the box, and reproducible from a seed',
 'For every sampling method, box, requested count and integer seed (0 included), the returned points are finite, have shape (count, d) (count^d for grid), and lie in the box, filling it: the grid holds every combination of equally spaced values, bounds included; base-power many Sobol and Halton points hit every interval of each dimension; uniform points are spread evenly and Gaussian ones centred (a quarter of the width as deviation, clipped), independently in each dimension. The same seed gives the same points in any process, on any model object and after any other calls; different seeds give different points for the random methods; and a seeded step of the GP or Student-t optimiser is reproducible as well, CMA-ES included. Sampling neither depends on nor changes the global random state.',
 ['inputs', 'configurations', 'histories'], 'all samplers x boxes x counts x seeds, and all interleavings of sampler calls of two model objects up to a bounded length',
 'Tests draw once with one seed and compare with stored arrays for one box; sequences of calls, the global random state and seeds such as 0 are not looked at.',
 ['bayeso/bo/base_bo.py', 'bayeso/utils/utils_common.py', 'bayeso/bo/bo_w_gp.py', 'bayeso/bo/bo_w_tp.py'],
 [('private RandomState per call', 'BaseBO._get_random_state'), ('seeded scrambled Sobol / Halton', 'BaseBO._get_samples_sobol/_halton'), ('grid', 'utils_common.get_grids')],
 observe=['get_samples', 'get_initials', 'optimize(seed=...)'])

prop('C04', 'A run records exactly the evaluations it made, in order',
 'A run of the optimisation loop (class or function interface, from sampled, given, or given-and-evaluated initial points) returns the initial points first and unchanged, then one row per iteration; the target is called exactly once for each row that was not supplied with a value, in row order, with that row, and the recorded response is what the target returned for it. At every iteration the surrogate is given exactly the rows recorded so far, and the returned time arrays have the documented lengths with non-negative entries, each overall entry covering at least the evaluation (and step) of its row, the model-fitting and acquisition times being the ones each step reports. If the target raises at any evaluation, the exception reaches the caller and the object can be used for another run that is not affected.',
 ['histories', 'fault_sequences', 'configurations'], 'all entry points x surrogates x numbers of initial points and iterations, all scripts of target return forms, and a fault injected at every possible evaluation',
 'Tests run one or two rounds with a deterministic target and check shapes; they cannot see a repeated, skipped or misaligned evaluation, nor a fault in the middle of a run.',
 ['bayeso/wrappers/wrappers_bo_class.py', 'bayeso/wrappers/wrappers_bo_function.py'],
 [('append row, then evaluate it', 'optimize_with_all_initial_information; run_single_round_with_all_initial_information'), ('evaluate initial inputs', 'optimize_with_initial_inputs; run_single_round_with_initial_inputs')],
 [('X_, Y_', 'history of the run', 'wrappers')], ['arguments of the target', 'arguments of model_bo.optimize', 'returned arrays'])

prop('C05', 'An already evaluated point is not evaluated again while a new one exists',
 'When the suggested point coincides (within the duplicate tolerance) with a point already in the history, the loop evaluates instead the candidate with the best acquisition value among the candidates that are not in the history; when the suggestion is new it is evaluated as is. Only when every candidate is already in the history is a point repeated, and the run still completes with the right number of evaluations.',
 ['histories', 'inputs'], 'all histories over a small grid of points x all candidate lists and acquisition rankings (ties included) x all suggestions, for the class and function interface',
 'The replacement branch is marked "no cover" in the wrappers and only the helper is called by one test with three points.',
 ['bayeso/wrappers/wrappers_bo_class.py', 'bayeso/wrappers/wrappers_bo_function.py', 'bayeso/utils/utils_bo.py'],
 [('duplicate test', '_get_next_best_sample; run_single_round_with_all_initial_information'), ('best unevaluated candidate', 'utils_bo.get_next_best_acquisition')],
 observe=['points passed to the target', 'utils_bo.get_next_best_acquisition'])

prop('C06', 'Covariance functions compute the kernels they are named after',
 'For every kernel name, hyperparameters (one length scale or one per dimension) and finite inputs, each entry of a covariance matrix is the closed form of that kernel at the two inputs (squared exponential, Matern 3/2, Matern 5/2; for sets the average over all pairs of elements), plus the stated jitter on the diagonal only when the two input lists are declared the same. Hence the matrix over one list is symmetric positive definite, rows follow a permutation of the inputs, set kernels ignore the order of elements, and equal per-dimension length scales give the same matrix as a single one. The kernel matrix used by the models adds the squared noise to the diagonal, its returned inverse and Cholesky factor belong to it.',
 ['inputs', 'configurations'], 'all kernels x length-scale forms x shapes x inputs over small grids including duplicates and far-apart points',
 'Tests compare a few stored matrices for one or two shapes; symmetric/asymmetric shapes, duplicates, sets of different sizes and permutations are not covered.',
 ['bayeso/covariance.py', 'bayeso/utils/utils_covariance.py'],
 [('closed forms', 'cov_se, cov_matern32, cov_matern52, cov_set'), ('dispatch and jitter', 'cov_main'), ('noise, inverse, Cholesky', 'get_kernel_inverse, get_kernel_cholesky')],
 observe=['cov_main', 'get_kernel_inverse', 'get_kernel_cholesky'])

prop('C07', 'Reported gradients are the derivatives of the reported functions',
 'The kernel gradient with respect to noise, signal and length scale(s) is the derivative of the kernel matrix the models use, entry by entry, in the order of the hyperparameter vector. The gradient returned with the negative log marginal likelihood of the Gaussian process and of the Student-t process is the derivative of the returned value with respect to each component of the hyperparameter vector, for every kernel, with noise fixed or free and with one or several length scales (kernels on vectors; set kernels offer no gradient).',
 ['inputs', 'configurations'], 'all base kernels x noise fixed/free x ARD on/off x dimension x hyperparameter grid x data sets, every gradient component',
 'Tests pin stored numbers for one data set and kernel; a wrong component passes (the Student-t dof component did).',
 ['bayeso/covariance.py', 'bayeso/gp/gp_likelihood.py', 'bayeso/tp/tp_likelihood.py'],
 [('analytic kernel derivatives', 'grad_cov_se, grad_cov_matern32, grad_cov_matern52, grad_cov_main'), ('chain rule', 'gp_likelihood.neg_log_ml, tp_likelihood.neg_log_ml')],
 observe=['grad_cov_main', 'neg_log_ml'])

prop('C08', 'Gaussian-process predictions are the exact conditional distribution',
 'For every kernel, prior mean, hyperparameters, training and test inputs, the predicted mean and covariance are those of the joint Gaussian conditioned on the training responses (prior mean subtracted and added back, squared noise plus jitter on the training diagonal), and the predicted standard deviation is the non-negative root of the covariance diagonal. The three prediction entry points agree with each other, the result does not depend on the order of the training data, and permuting the test inputs permutes the prediction.',
 ['inputs', 'configurations'], 'all kernels x prior means x training/test shapes (n, l >= 1, d <= 4, sets) x hyperparameters x data orderings',
 'Tests check a few stored arrays at one configuration and otherwise only shapes.',
 ['bayeso/gp/gp.py', 'bayeso/covariance.py', 'bayeso/utils/utils_gp.py', 'bayeso/bo/bo_w_gp.py'],
 [('conditioning formulas', 'gp.predict_with_cov'), ('prior mean', 'utils_gp.get_prior_mu')],
 observe=['predict_with_cov', 'predict_with_hyps', 'predict_with_optimized_hyps', 'BOwGP.compute_posteriors'])

prop('C09', 'Student-t-process predictions are the exact conditional distribution',
 'For every kernel, prior mean, degrees of freedom above 2, hyperparameters and data, the predicted location is that of the Gaussian process, the predicted degrees of freedom grow by the number of training points, and the predicted covariance is the Gaussian one scaled by (dof + fit - 2) / (dof + n - 2), where fit is the squared residual in the metric of the training kernel matrix. As the degrees of freedom grow the prediction tends to the Gaussian one, and the three entry points agree.',
 ['inputs', 'configurations'], 'all kernels x prior means x dof x shapes x hyperparameters x data orderings',
 'Tests compare one stored configuration and shapes only.',
 ['bayeso/tp/tp.py', 'bayeso/covariance.py', 'bayeso/bo/bo_w_tp.py'],
 [('scaling of the covariance', 'tp.predict_with_cov')],
 observe=['tp.predict_with_cov', 'tp.predict_with_hyps', 'tp.predict_with_optimized_hyps', 'BOwTP.compute_posteriors'])

prop('C10', 'Model-selection scores are the likelihoods they claim to be',
 'The negative log marginal likelihood of the Gaussian process and of the Student-t process, divided by the number of data, equals the density of the responses under the stated multivariate distribution for every kernel, prior mean, hyperparameters and data, by every computation route (Cholesky or inverse, with or without gradient), and stays finite for hundreds of points and large degrees of freedom. The leave-one-out score equals the average negative log predictive density of each response given all the others, prior mean included.',
 ['inputs', 'configurations'], 'all kernels x prior means x ARD x noise fixed/free x hyperparameters x data sets from 1 to several hundred points',
 'Stored numbers for one data set with a zero prior mean; the leave-one-out score ignored the prior mean and the Student-t score overflowed without a test failing.',
 ['bayeso/gp/gp_likelihood.py', 'bayeso/tp/tp_likelihood.py'],
 [('marginal likelihood', 'gp_likelihood.neg_log_ml, tp_likelihood.neg_log_ml'), ('leave-one-out', 'gp_likelihood.neg_log_pseudo_l_loocv')],
 observe=['neg_log_ml', 'neg_log_pseudo_l_loocv'])

prop('C11', 'Fitted models are consistent and no worse than the default ones',
 'For data on a moderate scale (the unbounded optimisers may run away and fail on responses in the thousands or with leave-one-out) hyperparameter fitting returns a kernel matrix, its inverse and hyperparameters that belong together for the given data, with the default noise when the noise is fixed, one length scale per dimension or a single one as requested, and values inside the documented ranges for the bounded optimisers and for the Student-t process. The fitted score (marginal likelihood, or leave-one-out when selected) is never worse than that of the default hyperparameters (the unbounded SLSQP method, which has no such safeguard, excepted), refitting the same data gives the same result, and the combined mode of the optimisation step returns the better of its two optimisers.',
 ['inputs', 'configurations'], 'all optimisers x score x kernels x ARD x noise fixed/free x prior means x data sets',
 'Tests fit one data set and compare shapes or stored numbers.',
 ['bayeso/gp/gp_kernel.py', 'bayeso/tp/tp_kernel.py', 'bayeso/bo/bo_w_gp.py', 'bayeso/utils/utils_covariance.py'],
 [('fit and rebuild the kernel matrix', 'gp_kernel.get_optimized_kernel, tp_kernel.get_optimized_kernel'), ('combined mode', 'BOwGP.optimize')],
 observe=['get_optimized_kernel', 'dict_info of BOwGP.optimize'])

prop('C12', 'Hyperparameter vectors and dictionaries convert without loss or mix-up',
 'Converting hyperparameters from dictionary to vector and back gives the same values under the same names for every kernel, dimension, surrogate kind, ARD flag and noise flag; with fixed noise the given (or default) noise is used. The default ranges line up with the vector component by component and contain the default values, validation accepts exactly the well-formed dictionaries and changes only out-of-range values, and kernel names are accepted only with input shapes of the right rank.',
 ['inputs', 'configurations'], 'all kernels x dimensions x surrogate kind x ARD x noise flag x values, and all single-field corruptions of a valid dictionary',
 'Tests check selected combinations with hand-written vectors.',
 ['bayeso/utils/utils_covariance.py', 'bayeso/constants.py'],
 [('codec', 'convert_hyps, restore_hyps'), ('defaults and ranges', 'get_hyps, get_range_hyps'), ('validation', 'validate_hyps_dict, check_str_cov')],
 observe=['utils_covariance functions'])

prop('C13', 'Acquisition functions equal their definitions for minimisation',
 'For every predicted mean and standard deviation (zero included) and every set of responses, each acquisition value equals its definition for minimisation: probability of and expected improvement over the smallest response, confidence bound with exploration growing with the logarithm of the number of responses, noise-augmented expected improvement, negated mean, and standard deviation. Values are finite, probability of improvement lies in [0, 1], expected improvement is not negative beyond the size of the jitter, each point is treated independently of the others, and choosing by name gives the same function.',
 ['inputs', 'configurations'], 'all acquisition functions over a grid of means, deviations, response sets and optional parameters, and all batch sizes/permutations of it',
 'Tests pin three to five stored values per function.',
 ['bayeso/acquisition.py', 'bayeso/utils/utils_bo.py'],
 [('closed forms', 'pi, ei, ucb, aei, pure_exploit, pure_explore'), ('choice by name', 'utils_bo.choose_fun_acquisition')],
 observe=['acquisition.*', 'choose_fun_acquisition'])

prop('C14', 'Every tree partitions its training data and respects its limits',
 'For every data set and every outcome of the random choices made while building, a tree routes each of its training rows to exactly one leaf that holds it (a node that cannot be split keeps all its rows on both sides), its leaves together hold exactly the rows drawn for that tree with their own responses, every inner node compares an allowed feature with a value of the range of its rows, and depth and leaf-size limits are respected: below the root a node is split further exactly when it lies above the maximum depth and holds more rows than the minimum leaf size. Without random split locations the chosen split is the best, by the sum of the variances of the two sides, of the midpoints between neighbouring values it examined (all of them, up to twenty per feature). Subsamples have the requested size and consist of rows of the data, without repetition when drawn without replacement.',
 ['inputs', 'configurations', 'schedules'], 'all answers of the random generator (bootstrap indices, feature choices, split locations) for small data sets including duplicated inputs, x all limits',
 'Tests build forests with one seed and compare a few numbers; a row lost or sent to the wrong side under another random outcome is invisible.',
 ['bayeso/trees/trees_common.py', 'bayeso/trees/trees_generic_trees.py', 'bayeso/trees/trees_random_forest.py'],
 [('bootstrap', 'subsample'), ('split search', '_split, _split_deterministic, _split_random, _split_left_right'), ('recursion and stopping', 'split')],
 [('node', 'index, value, left, right', 'trees_common.split')], ['get_generic_trees', 'get_random_forest', 'subsample'])

prop('C15', 'Forest predictions are per-point and independent of batching and workers',
 'For every list of trees and every test point the predicted mean is the average over trees of the mean response of the leaf the point falls in (a value equal to the threshold goes right), and the predicted deviation is the root of the mean within-leaf variance plus the variance of the leaf means, never negative or NaN. The prediction of a point does not depend on which or how many other points are predicted with it, on how the batch is divided over worker processes, or on the order in which the workers finish.',
 ['inputs', 'schedules', 'configurations'], 'all test-set sizes around the division into chunks, all completion orders of the workers for small numbers of chunks, all tree shapes up to a bounded depth and test points on, below and above every threshold',
 'Tests predict once with one forest; sizes above one chunk are tried at a single size and completion order is whatever happens.',
 ['bayeso/trees/trees_common.py', 'bayeso/bo/bo_w_trees.py'],
 [('routing', '_predict_by_tree'), ('aggregation', '_predict_by_trees, compute_sigma'), ('chunks over a process pool', 'predict_by_trees')],
 observe=['predict_by_trees', 'unit_predict_by_trees', 'BOwTrees.compute_posteriors'])

prop('C16', 'Thompson sampling queries the minimiser of a posterior sample',
 'One Thompson-sampling step draws one function from the Gaussian-process posterior at the sampled candidates and returns the candidate at which that function is smallest. A full run evaluates the requested number of initial points and then one point per iteration, inside the box, each exactly once, and returns all points and responses aligned.',
 ['inputs', 'configurations', 'histories'], 'all sampled functions whose minimum is at any given candidate, x samplers x normalisation x boxes x numbers of initial points and iterations',
 'The tests check only shapes; the step always returned the first candidate without a test failing.',
 ['bayeso/thompson_sampling.py', 'bayeso/gp/gp.py'],
 [('argmin of the sample', 'thompson_sampling_gp_iteration'), ('run loop', 'thompson_sampling_gp')],
 observe=['thompson_sampling_gp_iteration', 'thompson_sampling_gp'])

prop('C17', 'Summaries of a run report the true best values and times',
 'For every history: the accumulated minimum at each step is the smallest response among the initial points and all evaluations so far, with mean, sample standard deviation and standard error over rounds; accumulated times start at zero and add the iteration times after the initial ones; the best query is a row with the smallest response together with that response. Min-max normalisation keeps the order, maps the extremes to 0 and 10 and leaves constant responses alone; grids contain every combination of equally spaced values with both ends exactly once.',
 ['inputs', 'histories'], 'all response sequences over a small alphabet (ties, negative values) x numbers of rounds and initial points; all boxes x grid sizes',
 'One or two example arrays per function.',
 ['bayeso/utils/utils_common.py', 'bayeso/utils/utils_bo.py'],
 [('running minimum', 'get_minimum'), ('running time', 'get_time'), ('best by history', 'get_best_acquisition_by_history'), ('scaling', 'normalize_min_max'), ('grid', 'get_grids')],
 observe=['functions above'])

prop('C18', 'Calls neither modify their arguments nor influence later calls',
 'No public computation changes the arrays, dictionaries or lists passed to it, the package defaults, or the results returned by earlier calls. The result of a computation depends only on its arguments (and, for documented random ones, the random state): repeating a call, after any other calls, on other objects, or with the same array object refilled with new values, gives the result a fresh process gives; so do equal values in another memory layout or in read-only arrays, and debug output switched on. Computations that are not documented as random leave the global random state alone, and none changes the settings of the process (the error handling and print options of numpy, warning filters, environment, working directory). The exceptions are the hyperparameter history of a model object in the convergence mode, and the validation of a hyperparameter dictionary, which repairs degrees of freedom not above 2 in place.',
 ['histories', 'inputs'], 'all sequences up to a bounded length of public operations over a small set of argument objects, including arguments mutated by the caller between calls',
 'Tests call each function once with fresh arrays, so hidden caching, aliasing and in-place updates are invisible.',
 ['bayeso/covariance.py', 'bayeso/gp', 'bayeso/tp', 'bayeso/trees', 'bayeso/acquisition.py', 'bayeso/utils', 'bayeso/bo', 'bayeso/wrappers'],
 [('pure functions without module state', 'whole package')],
 observe=['arguments and results of every public function'])

prop('C19', 'Each message is logged once and values are rendered faithfully',
 'A logger obtained any number of times under the same name, by any number of model objects, emits each message exactly once on standard error, and messages of different (flat, undotted) names stay apart. The text of an array or of hyperparameters contains every element, in order and nested as the array is, floating values rounded to three decimals. The header a run of the class interface logs shows each option with the value in use.',
 ['histories', 'inputs'], 'all sequences of logger requests and messages over two names up to a bounded length; every value of every option of a run; all arrays of rank 1-3 up to a small size over a value alphabet',
 'Tests request a logger once and compare a few strings.',
 ['bayeso/utils/utils_logger.py', 'bayeso/bo/base_bo.py'],
 [('handler registration', 'get_logger'), ('rendering', 'get_str_array*, get_str_hyps')],
 [('logger handlers', 'process-wide handlers per name', 'logging')], ['stderr', 'returned strings'])

prop('C20', 'Convergence mode refits until the hyperparameters settle, then keeps them',
 'In the convergence mode a model object refits its hyperparameters on the supplied data at every step until one fit differs from the one recorded before it by less than five per cent of its norm, and from then on keeps using the recorded hyperparameters with a kernel matrix rebuilt for the current data. The other modes refit at every step. Every step appends the hyperparameters it used to the record of that object, and objects do not share this record.',
 ['histories'], 'all sequences of data sets up to a bounded length, over a small alphabet of data sets and modes, on one and on two model objects',
 'The branch after convergence is marked "no cover"; tests make single calls.',
 ['bayeso/bo/bo_w_gp.py', 'bayeso/utils/utils_bo.py'],
 [('state machine', 'BOwGP.optimize (converged)'), ('five per cent rule', 'utils_bo.check_hyps_convergence')],
 [('is_optimize_hyps', 'still refitting', 'BOwGP'), ('historical_hyps', 'record of used hyperparameters', 'BOwGP/BOwTP')], ['dict_info["hyps"], dict_info["cov_X_X"], historical_hyps'])

prop('C21', 'Sampled functions follow the requested mean, covariance and tail',
 'Sampling functions returns one row per requested sample and one column per point, for one point as well as for many. For the same underlying random numbers a sample is the mean plus a linear image of the noise: it shifts with the mean, scales with the root of the covariance, reproduces the covariance exactly through the map from noise to sample, and the Student-t sample is the Gaussian one divided by the root of a chi-square divided by its degrees of freedom (none for infinitely many).',
 ['inputs', 'configurations'], 'all shapes, means, covariance matrices (correlated, singular directions excluded), numbers of samples and degrees of freedom, over the basis of noise vectors',
 'Tests only look at the shape for several points; for one point the shape was wrong.',
 ['bayeso/gp/gp.py', 'bayeso/tp/tp.py'],
 [('multivariate normal', 'gp.sample_functions'), ('chi-square mixture', 'tp.sample_functions')],
 observe=['gp.sample_functions', 'tp.sample_functions'])

prop('C22', 'Plots show the data they are given and are saved where asked',
 'Each plotting function draws the given curve, band and points (and moves the horizontal axis to zero exactly when asked to): predicted mean, mean plus and minus the band multiple of the deviation, observations (initial, later and latest points distinguished), accumulated minimum against iteration or time per label (and its band, marker and legend when asked for), and the acquisition, over an x range that covers them and with the given axis names, in a figure of its own that later plots leave alone. Pausing closes the figure afterwards; LaTeX text is used exactly when asked for. When a path and a name are given, exactly the documented files are written in that directory and nowhere else; otherwise no file is written.',
 ['inputs', 'configurations'], 'all plotting functions x option flags x small data sets x saving on/off',
 'No test executes the plotting functions beyond argument checks (they are marked "no cover"); saving the minimum plots raised an error without a test failing.',
 ['bayeso/utils/utils_plotting.py'],
 [('drawing', 'plot_* functions'), ('saving', '_save_figure')],
 observe=['matplotlib axes after the call', 'files in the target directory'])

prop('C23', 'Malformed requests are refused before the target is evaluated',
 'A call with an argument of the wrong type or rank, with sizes that contradict each other, or with an unknown name is refused with an exception and never answered with a number, and a run or model object with such a setting is refused before the target function is evaluated even once. Well-formed requests at the edge of what is allowed (one point, one dimension, equal bounds, integer-valued arrays where numbers are allowed, non-contiguous or read-only arrays) are accepted.',
 ['inputs', 'configurations'], 'all single-argument corruptions from a small menu of wrong values over every public entry point, and all edge-case forms of valid arguments',
 'Tests try many wrong types one by one but not the edge-case forms of valid arguments, nor that nothing was evaluated.',
 ['bayeso/bo', 'bayeso/wrappers', 'bayeso/gp', 'bayeso/tp', 'bayeso/trees', 'bayeso/utils'],
 [('assertions at every entry point', 'whole package')],
 observe=['exceptions', 'number of target calls'])

prop('C24', 'Every option of a run reaches the component that uses it',
 'The optimisation wrappers and model objects use every option they are given and the documented default for each one left out. The hyperparameters a step reports are the ones the fitting function returns for the same data, kernel, prior mean, ARD flag, fitting method, selection criterion, mode and normalisation; a step works with the requested acquisition function, sampler and number of candidates; and a run starts from the points its sampler gives for the requested method, count and seed. This holds for model objects, the class interface and the function interface alike.',
 ['configurations'], 'all combinations of the fitting options, of acquisition x sampler x count, of initial method x count x seed, and every subset of one option (or all) left out, over the interfaces',
 'Tests construct objects with options and look at shapes; a dropped or swapped option changes only numbers.',
 ['bayeso/wrappers', 'bayeso/bo', 'bayeso/constants.py'],
 [('options handed on', '_get_model_bo_gp/_tp/_trees, optimize_single_iteration, run_single_round*'), ('options used', 'BOwGP.optimize, BOwTP.optimize')],
 observe=['dict_info of a step', 'arguments of model_bo.optimize / get_samples / get_initials', 'initial rows of a run'])

prop('C25', 'Calls in progress do not disturb each other',
 'A public call gives the result it gives alone whatever other public calls are made while it is in progress: from another thread, at whatever point the threads switch, or by the target, objective or prior mean function it is evaluating. The other calls are equally undisturbed, also when two methods of one model object that do not fit (sampling, initial points, posteriors, acquisitions) are in progress together. Operations that draw from the global random generator are excepted only in what they draw.',
 ['schedules', 'inputs', 'configurations'], 'all schedules of two calls with one switch between any two source lines, with two switches between distinct lines, and all positions of a nested call among the first calls of a callback, over the registered operations',
 'Tests make one call after another; a workspace, guard or setting shared by calls in progress is right in every such history.',
 ['bayeso/covariance.py', 'bayeso/gp', 'bayeso/tp', 'bayeso/trees', 'bayeso/bo', 'bayeso/wrappers', 'bayeso/utils', 'bayeso/acquisition.py'],
 [('no module or class level working state', 'whole package'), ('callbacks', 'utils_gp.get_prior_mu, fun_target in wrappers and thompson_sampling, get_best_acquisition_by_evaluation')],
 observe=['results of both calls', 'points the target is asked for'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
