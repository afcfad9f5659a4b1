"""Single source of properties.jsonl and MANIFEST.json (python3 lib/props.py rewrites both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'gpgradpy/src/'
KER = [S + 'kernel/KernelSqExp.py', S + 'kernel/KernelMatern5f2.py', S + 'kernel/KernelRatQuad.py']

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech='', note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=list(state), observe=list(observe), tech=tech, note=note))


prop('C01', 'Covariance matrix is the exact joint covariance of values and gradients',
     'For every kernel (squared exponential, Matern 5/2, rational quadratic), dimension, pair of point sets, positive '
     'hyperparameters and any choice of which points provide gradients, the kernel matrix equals the joint covariance of the '
     'observed function values and partial derivatives implied by the kernel, in the documented data order. The covariance '
     'matrix used by the surrogate is varK times that matrix plus the noise variances on the diagonal plus the documented '
     'nugget (on the identity, or on the diagonal of the matrix for the preconditioned method), computed in the (possibly '
     'rescaled) coordinates, and the returned Cholesky factor reproduces it.',
     ['inputs', 'configurations'],
     'all kernels, dimensions, point sets incl. coincident points, length scales, gradient masks, noise kinds, nugget settings and '
     'conditioning methods',
     'The three reliable tests only look at preconditioning derivatives for one configuration; a wrong entry for a partial gradient '
     'mask, an anisotropic theta or a coincident point is invisible to them.',
     KER + [S + 'kernel/Kernel.py', S + 'base/CommonFun.py', S + 'base/GpWellCond.py', S + 'GaussianProcess.py'],
     [dict(name='kernel matrix builders', where=S + 'kernel/Kernel*.py: *_calc_KernBase, *_calc_KernGrad'),
      dict(name='covariance, nugget and Cholesky', where=S + 'kernel/Kernel.py: calc_all_K_w_chofac')],
     observe=['calc_KernBase', 'calc_KernGrad', 'calc_all_K_w_chofac', 'calc_Kern_w_chofac'],
     tech='property-based testing against a dense reference model (kernel derived from its definition by the chain rule)')

prop('C02', 'Derivatives of the covariance w.r.t. hyperparameters are exact',
     'For every kernel, data set, gradient mask, noise setting and well-conditioning method, the derivative matrices of the kernel '
     'and of the covariance matrix with respect to each length-scale parameter, the kernel hyperparameter, the process variance and '
     'the unknown noise variances equal the true derivatives of the matrices the library itself builds with the nugget held fixed. '
     'Entries appear in the order of the hyperparameter vector.',
     ['inputs', 'configurations'],
     'all kernels, dimensions, data sets, gradient masks, noise kinds and values of the hyperparameters',
     'Unit tests difference a single fixed data set with full gradients, and most of them are not among the reliable ones.',
     KER + [S + 'optz/GpHparaGrad.py', S + 'kernel/Kernel.py'],
     [dict(name='derivative builders', where=S + 'kernel/Kernel*.py: *_calc_KernGrad_grad_th / _grad_alpha'),
      dict(name='assembly over hyperparameters', where=S + 'optz/GpHparaGrad.py: calc_Kcov_grad_hp')],
     observe=['calc_Kern_grad_theta', 'calc_Kern_grad_alpha', 'calc_Kcov_grad_hp'],
     tech='property-based testing against complex-step derivatives of the reference covariance')

prop('C03', 'Surrogate mean and standard deviation equal the exact GP posterior',
     'For every data set, kernel, noise setting, gradient mask, well-conditioning method and evaluation point, the returned mean '
     'and standard deviation are those of the Gaussian process conditioned on the data with the set hyperparameters and the '
     'documented nugget, expressed in the user\'s coordinates and units, up to round-off of the linear solve. The helper that returns '
     'the mean for replaced data of the same shape agrees with a surrogate set up with those data.',
     ['inputs', 'configurations'],
     'all data sets with d, n bounded, all kernels, noise kinds, masks, methods, evaluation points near and far from the data',
     'The existing tests of the surrogate only difference it against itself on one data set; a mean or variance that is wrong but '
     'self-consistent passes.',
     [S + 'eval/GpEvalModel.py', S + 'eval/GpMeanFun.py', S + 'GaussianProcess.py', S + 'kernel/Kernel.py', S + 'base/GpWellCond.py'],
     [dict(name='set-up of the factorisation and weights', where=S + 'eval/GpEvalModel.py: setup_eval_model'),
      dict(name='evaluation', where=S + 'eval/GpEvalModel.py: eval_model')],
     observe=['eval_model', 'calc_model_mean_w_data_init'],
     tech='differential property-based testing against a dense textbook GP posterior')

prop('C04', 'Gradients and Hessians of the surrogate are the derivatives of its values',
     'The gradients of the mean and standard deviation returned at every point, and their Hessians at one point, are the true '
     'derivatives of the returned mean and standard deviation with respect to the evaluation point in the user\'s coordinates, for '
     'every kernel, data set, gradient mask, noise setting and well-conditioning method. The separate variance evaluation returns the '
     'square of the standard deviation and its gradient.',
     ['inputs', 'configurations'],
     'all surrogates in the supported configurations and all evaluation points where the standard deviation is positive',
     'The two unit tests of these derivatives use one data set with all gradients and do not pass reliably.',
     [S + 'eval/GpEvalModel.py'] + KER,
     [dict(name='chain rule on weights', where=S + 'eval/GpEvalModel.py: eval_model, eval_model_var'),
      dict(name='kernel derivative builders', where=S + 'kernel/Kernel*.py: *_grad_x, *_hess_x')],
     observe=['eval_model(calc_grad, calc_hess)', 'eval_model_var'],
     tech='differential property-based testing against analytic derivatives of the reference posterior')

prop('C05', 'Uncertainty is well behaved: bounded, non-negative, shrinking with data',
     'The returned standard deviation is finite, never negative and never exceeds the prior standard deviation of the process; far '
     'from the data it tends to the prior and the mean tends to the constant mean. At noise-free data points the mean (and, where '
     'gradients are given, its gradient) reproduces the data and the standard deviation vanishes to within what the nugget allows; '
     'adding a data point or gradients, or reducing noise, with everything else fixed never increases the standard deviation.',
     ['inputs', 'configurations', 'histories'],
     'all data sets, evaluation points (at, next to, between and far from the data), and data-adding steps',
     'Tests never evaluate at the data points, where round-off decides the sign of the variance, nor compare nested data sets.',
     [S + 'eval/GpEvalModel.py', S + 'kernel/Kernel.py', S + 'GaussianProcess.py'],
     [dict(name='variance clipping', where=S + 'eval/GpEvalModel.py: eval_model, eval_model_var')],
     observe=['eval_model', 'eval_model_var'],
     tech='property-based testing of invariants and metamorphic relations (nested data sets, less noise)')

prop('C06', 'Marginal likelihood, mean and closed-form variance are exact',
     'For all data and hyperparameters the log marginal likelihood is that of a Gaussian with the library\'s covariance matrix, with '
     'the constant mean at its generalised least-squares value; without noise the process variance is its closed-form maximum '
     'likelihood value and the documented penalty is subtracted. The log determinant, mean and variance reported with the likelihood '
     'are the exact ones for both gradient-free and gradient-enhanced data and every well-conditioning method.',
     ['inputs', 'configurations'],
     'all data sets, gradient masks, noise kinds, kernels, methods and hyperparameters, above and below the penalty threshold',
     'Tests only compare the likelihood with its own finite differences, which cannot see a wrong constant, mean or variance.',
     [S + 'optz/CalcLkd.py', S + 'eval/GpMeanFun.py', S + 'kernel/Kernel.py'],
     [dict(name='likelihood', where=S + 'optz/CalcLkd.py'), dict(name='GLS mean', where=S + 'eval/GpMeanFun.py')],
     observe=['calc_lkd_all', 'calc_store_likelihood', 'calc_lkd_obj'],
     tech='differential property-based testing against a dense reference likelihood')

prop('C07', 'Likelihood gradient equals the derivative of the likelihood, by both methods',
     'The gradient of the log marginal likelihood with respect to every optimised hyperparameter equals the true derivative of the '
     'likelihood that is returned, including the dependence of the mean, closed-form variance, penalty and hyperparameter-dependent '
     'nugget on the hyperparameters. The adjoint and the direct methods agree, and the callbacks given to the optimiser are the '
     'negative value and gradient with respect to the optimiser\'s (logarithmic) variables.',
     ['inputs', 'configurations'],
     'all data sets, gradient masks, noise kinds, kernels, methods, nugget kinds and hyperparameters',
     'Tests difference one data set per hyperparameter, with a constant nugget, full gradients and no penalty.',
     [S + 'optz/CalcLkd.py', S + 'optz/GpHparaGrad.py', S + 'optz/OptzLkd.py', S + 'eval/GpMeanFun.py'] + KER,
     [dict(name='direct and adjoint gradient', where=S + 'optz/CalcLkd.py'),
      dict(name='nugget derivative', where=S + 'optz/GpHparaGrad.py')],
     observe=['calc_lkd_all(calc_grad)', 'calc_lkd_obj', 'return_lkd_obj_grad', 'calc_lkd_con*'],
     tech='property-based testing: derivatives vs high-order differences of the reference likelihood; adjoint vs direct')

prop('C08', 'Conditioning methods guarantee the condition number bound',
     'With the preconditioned method, the matrix that is factorised (and with no gradients, the covariance of the base method) has a '
     'condition number no larger than the requested maximum for all noise-free data and hyperparameters, so its Cholesky factorisation '
     'never fails; known noise does not weaken it for the preconditioned method. The rescaling methods reach the required smallest (or '
     'largest) distance between points by one common factor. A nugget based on row sums guarantees the bound for every method on '
     'noise-free data.',
     ['inputs', 'configurations'],
     'all data sets including nearly coincident and strongly anisotropic points, all length scales, all target condition numbers',
     'Ill-conditioning arises only for specific arrangements of the points and hyperparameters; tests use fixed benign ones.',
     [S + 'base/GpWellCond.py', S + 'kernel/Kernel.py', S + 'GaussianProcess.py', S + 'kernel/KernelCommon.py'] + KER,
     [dict(name='nugget selection', where=S + 'base/GpWellCond.py: calc_nugget'),
      dict(name='preconditioner', where=S + 'kernel/Kernel.py: calc_all_K_w_chofac')],
     observe=['calc_all_K_w_chofac', 'calc_Kern_w_chofac', 'get_scl_x_w_dist'],
     tech='property-based testing of the bound over adversarial point sets (random + hill-climbing search)')

prop('C09', 'Condition number and its gradient are exact',
     'The condition number reported with the likelihood is the condition number, in the selected norm, of the matrix it claims to '
     'describe, and the gradient of the condition-number constraint (where offered) is its derivative with respect to each optimised '
     'hyperparameter, in the variables of the optimiser. When the factorisation fails, the objective given to the optimiser is this '
     'condition number, with its gradient.',
     ['inputs', 'configurations'],
     'all data sets, kernels, noise kinds, both norms and hyperparameters with a simple largest and smallest eigenvalue',
     'No reliable test covers the condition number; it decides feasibility of every hyperparameter optimisation.',
     [S + 'optz/GpHparaCon.py', S + 'kernel/Kernel.py', S + 'base/CommonFun.py', S + 'optz/CalcLkd.py'],
     [dict(name='condition number and gradient', where=S + 'optz/GpHparaCon.py')],
     observe=['calc_lkd_all(calc_cond, calc_grad)', 'calc_all_K_w_chofac(calc_cond)'],
     tech='property-based testing against reference condition numbers and their differences')

prop('C10', 'Hyperparameter optimisation is feasible, bounded, improving and repeatable',
     'For every data set and start option the optimised hyperparameters lie within their documented bounds, have a likelihood no lower '
     'than the best starting point (when that start is feasible), and respect the condition-number constraint where it applies. The '
     'values reported and stored (likelihood, variance, mean, condition number, evaluation counts) are those of the returned '
     'hyperparameters, and repeating the optimisation with the same seed and data gives the same result.',
     ['inputs', 'configurations', 'histories'],
     'all data sets, kernels, noise kinds, start options, methods and sequences of optimisation iterations',
     'No test runs the optimiser at all.',
     [S + 'optz/GpHparaOptz.py', S + 'optz/GpHparaX0.py', S + 'optz/OptzLkd.py', S + 'base/GpHpara.py', S + 'GaussianProcess.py'],
     [dict(name='starting points and bounds', where=S + 'optz/GpHparaX0.py'),
      dict(name='optimisation and recording', where=S + 'optz/GpHparaOptz.py, ' + S + 'optz/OptzLkd.py')],
     observe=['set_hpara(optz)', 'hp_vals', 'hp_his', 'get_surr_optz_info'],
     tech='stateful property-based testing of optimisation runs against an independent likelihood')

prop('C11', 'Hyperparameter history and saved surrogates restore exactly',
     'Selecting the stored hyperparameters of any earlier iteration, exporting and importing the history, and saving the '
     'history to files and loading it into a new surrogate that is given the same data all reproduce the surrogate: the same '
     'hyperparameters (including mean and variances) and the same predictions at every point. History entries are never altered by later iterations. '
     'Saves that fail while writing (at any byte, several in a row) leave the last completely saved history readable in the file or its backup.',
     ['histories', 'configurations', 'inputs', 'crash_points'],
     'all sequences of data updates, optimisation/setting of hyperparameters, export, import, file save and load, failed saves',
     'No test saves, loads or re-selects stored hyperparameters.',
     [S + 'base/GpHpara.py', S + 'base/GpInfo.py', S + 'base/GpParaDef.py', S + 'GaussianProcess.py'],
     [dict(name='history', where=S + 'base/GpHpara.py'), dict(name='files', where=S + 'base/GpInfo.py')],
     observe=['set_hpara(stored)', 'save/load functions', 'eval_model'],
     tech='stateful (model-based) property-based testing with round-trip oracles')

prop('C12', 'Data rescaling is an exact, invertible, derivative-consistent change of units',
     'Rescaling points, values, gradients, Hessians and noise to scaled coordinates and back returns the originals, for objective and '
     'nonlinear constraints and every shift and scale option; scaled gradients and Hessians are the derivatives of the scaled function '
     'with respect to the scaled coordinates. The scaled data satisfy the documented targets (last point at the requested place, '
     'documented range or distance).',
     ['inputs', 'configurations'],
     'all dimensions, point sets, per-coordinate scales, shifts, constraint sets with missing parts, vector and matrix shapes',
     'No test touches rescaling.',
     [S + 'base/Rescaling.py', S + 'base/GpWellCond.py', S + 'GaussianProcess.py'],
     [dict(name='rescaling', where=S + 'base/Rescaling.py')],
     observe=['Rescaling.*_init_2_scl', 'Rescaling.*_scl_2_init'],
     tech='property-based round-trip and chain-rule (analytic function) testing')

prop('C13', 'Predictions do not depend on data order, origin, units or batching',
     'Permuting the data points or the coordinates, translating the points, adding a constant to or scaling the function values (with '
     'the matching change of hyperparameters) and scaling coordinates (with matching length scales) change the predictions only by the '
     'corresponding transformation. Evaluating many points at once equals evaluating them one at a time.',
     ['inputs', 'configurations'],
     'all surrogates with supported configurations, all permutations, shifts and scales',
     'Tests evaluate one data set in one order.',
     [S + 'eval/GpEvalModel.py', S + 'kernel/Kernel.py', S + 'GaussianProcess.py', S + 'base/GpWellCond.py', S + 'base/Rescaling.py'],
     [dict(name='data assembly', where=S + 'GaussianProcess.py: set_data'), dict(name='evaluation', where=S + 'eval/GpEvalModel.py')],
     observe=['set_data', 'eval_model', 'calc_lkd_all'],
     tech='metamorphic property-based testing')

prop('C14', 'Malformed input is rejected; every documented form of input is accepted',
     'Data whose shapes, lengths or kinds do not match the dimension, number of points or gradient mask, unknown kernel or method '
     'names, incomplete hyperparameters or a wrong number of them, and evaluation points of the wrong dimension are rejected with an exception and leave no usable half-set surrogate; every '
     'documented form (no gradients, no noise, unknown noise, None options) is accepted.',
     ['inputs', 'configurations'],
     'all single mutations of valid inputs (dimension, length, type, mask, name) and all documented option values',
     'Tests only give valid input.',
     [S + 'GaussianProcess.py', S + 'eval/GpEvalModel.py', S + 'base/GpHpara.py', S + 'base/GpParaDef.py', S + 'base/Rescaling.py'],
     [dict(name='input assertions', where=S + 'GaussianProcess.py: set_data, __init__')],
     observe=['GaussianProcess()', 'set_data', 'set_hpara', 'eval_model'],
     tech='property-based mutation testing of inputs (fuzzing the API contract)')

prop('C15', 'Evaluations reflect the current data and hyperparameters, never stale ones',
     'After any sequence of setting data, setting, modifying or optimising hyperparameters, evaluating, computing likelihoods and preparing '
     'the evaluation, a successful evaluation (or optimisation) equals that of a fresh surrogate given the current data and hyperparameters; otherwise it is '
     'refused. No result depends on earlier operations or on other surrogate instances.',
     ['histories'],
     'all interleavings of set_data, set_hpara, in-place modification, likelihood and evaluation calls on one or two surrogates',
     'Tests use each object once.',
     [S + 'eval/GpEvalModel.py', S + 'GaussianProcess.py', S + 'base/GpHpara.py', S + 'optz/CalcLkd.py'],
     [dict(name='staleness guard', where=S + 'eval/GpEvalModel.py: eval_model')],
     observe=['eval_model', 'eval_model_var', 'calc_lkd_all'],
     tech='stateful (model-based) property-based testing against a fresh surrogate')

prop('C16', 'Post-processing of optimisation results reports the true best-so-far',
     'From files of optimisation runs, the data returned per file, run and iteration are those stored in the files (noise-free or noisy '
     'as requested, missing values where a run has no entry, truncated to the requested number of iterations). The best value reported at '
     'each iteration is the smallest (or largest) of the values known up to that iteration, undefined before the first and after the last '
     'known value, and the convergence curves and envelopes plotted show exactly these values for each run and case.',
     ['inputs', 'histories'],
     'all sets of files with different lengths and numbers of runs, all run histories incl. missing values, all limits, minimum and maximum',
     'No test reads results.',
     ['gpgradpy/results/PltOptzResults.py'],
     [dict(name='reading', where='gpgradpy/results/PltOptzResults.py: load_npz_data'),
      dict(name='best so far', where='gpgradpy/results/PltOptzResults.py: best_at_all_iter, plt_conv_nx0')],
     observe=['PltOptzResults.load_npz_data', 'best_at_all_iter', 'plt_conv_nx0'],
     tech='property-based testing against a direct reference computation')

prop('C17', 'Text reports and files state the current settings and values',
     'The printed, returned and saved descriptions of the surrogate, its options and its stored hyperparameters agree with the actual '
     'settings and values for every configuration once the history is initialised, and never fail. The mapping from optimised '
     'hyperparameter vectors to named values assigns every entry to the hyperparameter it stands for.',
     ['configurations', 'histories'],
     'all configurations and states of the surrogate (before and after data and hyperparameters are set)',
     'No test prints a report.',
     [S + 'base/GpInfo.py', S + 'base/GpHpara.py', S + 'base/GpParaDef.py'],
     [dict(name='reports', where=S + 'base/GpInfo.py')],
     observe=['print/save methods', 'hp_vec2dataclass', 'hp_dataclass2vec'],
     tech='property-based testing with parsing and round-trip oracles')

prop('C18', 'Preconditioner is the inverse scale of the derivatives and maps are invertible',
     'The preconditioner equals the prior standard deviations of the observations, so that the preconditioned noise-free kernel matrix '
     'has a unit diagonal, it is inverted exactly by its stated inverse, its derivative with respect to the length-scale parameters is '
     'exact, and the maps between length-scale parameters and preconditioner parameters are mutually inverse.',
     ['inputs', 'configurations'],
     'all kernels, dimensions, gradient masks, length scales over many orders of magnitude',
     'The reliable tests cover the derivative for a single point count and dimension per kernel.',
     KER + [S + 'kernel/Kernel.py', S + 'kernel/KernelCommon.py'],
     [dict(name='preconditioner', where=S + 'kernel/Kernel.py')],
     observe=['calc_Kern_precon', 'theta2gamma', 'gamma2theta'],
     tech='property-based testing against the reference kernel and inverse-map round trips')

prop('C19', 'User data are not modified and returned results are independent copies',
     'No call modifies the arrays and hyperparameter objects passed by the user. Modifying the data after they were given to the '
     'surrogate, or an array that a call returned (except getters of internal data and maps that return their argument), does not '
     'change any later result of the surrogate. A call made twice returns the same result, and results returned earlier are not '
     'altered by later calls.',
     ['inputs', 'histories'],
     'all sequences of public calls with their array arguments and return values, all surrogates, overwriting of arrays after each call',
     'Tests never reuse or overwrite arrays.',
     [S + 'GaussianProcess.py', S + 'eval/GpEvalModel.py', S + 'optz/CalcLkd.py', S + 'base/GpHpara.py', S + 'base/GpParaDef.py',
      S + 'base/CommonFun.py', S + 'base/Rescaling.py'],
     [dict(name='copies of the data', where=S + 'GaussianProcess.py: set_data'),
      dict(name='results', where=S + 'eval/GpEvalModel.py: eval_model, ' + S + 'optz/CalcLkd.py: calc_lkd_all')],
     observe=['set_data', 'eval_model', 'calc_lkd_all', 'calc_all_K_w_chofac', 'export_data_surr'],
     tech='stateful property-based testing (differential: a user that overwrites arrays against one that does not)')

prop('C20', 'Gradient masks are consistent: all, some and none',
     'A mask selecting all points gives the same results as no mask, a mask selecting none gives the same values as a gradient-free '
     'surrogate with the same nugget, and a point whose gradient is masked influences results only through its value; order of the '
     'masked points does not matter.',
     ['inputs', 'configurations'],
     'all kernels, data sets, masks, noise kinds and well-conditioning methods',
     'No reliable test uses a mask.',
     [S + 'GaussianProcess.py', S + 'kernel/Kernel.py', S + 'eval/GpEvalModel.py', S + 'optz/CalcLkd.py'] + KER,
     [dict(name='mask handling', where=S + 'GaussianProcess.py: set_data; kernel builders')],
     observe=['set_data(bvec_use_grad)', 'eval_model', 'calc_lkd_all'],
     tech='metamorphic property-based testing between masks')

prop('C21', 'Figures of surrogates and acquisition functions show the given values',
     'A figure of a surrogate shows exactly the requested parts: the mean, the band of plus and minus the given number of standard '
     'deviations, the exact function with its minimum, and the evaluated data, at the given coordinates, and its legend says so. A figure of '
     'acquisition functions shows each function (scaled to [0, 1] when requested) and marks its minimum. The values given are not modified.',
     ['inputs', 'configurations'],
     'all values, numbers of points and functions, and combinations of the parts to show',
     'No test draws a figure.',
     ['gpgradpy/plt/SurrPlt.py'],
     [dict(name='figures', where='gpgradpy/plt/SurrPlt.py: plot_surr, plot_acq')],
     observe=['matplotlib axes after plot_surr, plot_acq'],
     tech='property-based testing of the drawn artists against the given values')

prop('C22', 'The hyperparameter search follows its configuration and history',
     'While the number of evaluations is at most hp_const_n_eval, the surrogate has exactly the initial hyperparameters (and the mean of the values), and '
     'no optimisation is run. Afterwards every run of the optimiser is within the box given by the median of the last hp_median_n_idx entries of '
     'the history divided and multiplied by hp_box_bound_factor and limited to the allowed range, for each optimised hyperparameter, in logarithmic or '
     'linear variables as configured; nothing outside the box is evaluated. It starts from the requested number of points, which form a '
     'Latin hypercube between the median divided and multiplied by hp_lhs_bound_factor, or from the admissible point of highest likelihood among them (hp_best). The '
     'iteration limit and the selected optimiser are respected.',
     ['inputs', 'histories', 'configurations'],
     'all data sets, histories of past hyperparameters (of any magnitude), ranges, factors, windows, starts, optimisers and linear or logarithmic variables',
     'The optimisation tests run one default configuration; a bound taken from the wrong hyperparameter, a window that is off by one or a limit '
     'that is ignored does not change whether they pass.',
     [S + 'optz/GpHparaX0.py', S + 'optz/GpHparaOptz.py', S + 'optz/OptzLkd.py', S + 'GaussianProcess.py'],
     [dict(name='starting points and boxes', where=S + 'optz/GpHparaX0.py: select_hp_optz_x0, get_hp_x0_lhs_median'),
      dict(name='initial hyperparameters', where=S + 'optz/GpHparaOptz.py: get_init_hp_vals, optz_hp')],
     state=[dict(name='hyperparameter history', meaning='past values of each hyperparameter', where=S + 'base/GpParaDef.py: hp_theta_all and others')],
     observe=['arguments and evaluations of scipy.optimize.minimize', 'calc_lkd_all', 'hp_vals'],
     tech='property-based testing over random histories and configurations against an independent model of the box and the starts')

prop('C23', 'Shared helpers give exact distances, data vectors and finite differences',
     'For every set of points the smallest and largest distance helpers return the extremes over all pairs (nan for a single point) whatever the order, '
     'and the coordinate differences of two point sets are the differences of each pair in each coordinate. The data vector holds the values followed by each '
     'direction of the gradients, point by point, in memory of its own. The gradient test helper returns the gradient unchanged together with the central '
     '(or, on request, one-sided) difference quotients for each output and variable with the requested step, without modifying the point.',
     ['inputs'],
     'all point sets (any magnitude, memory layout, coincident points), values, gradients, smooth functions, steps and options',
     'The helpers underlie the nugget, the rescaling and the tests themselves; tests use them as given on one data set.',
     [S + 'base/CommonFun.py'],
     [dict(name='helpers', where=S + 'base/CommonFun.py: calc_dist_min, calc_dist_max, calc_Rtensor, make_data_vec, test_grad_calc')],
     observe=['calc_dist_min', 'calc_dist_max', 'calc_Rtensor', 'make_data_vec', 'test_grad_calc'],
     tech='property-based testing against direct definitions and exact difference quotients of random polynomials')

NOTE = ('Search over generated inputs, not a proof: assurance is limited to the cases generated (counts in the evidence file). '
        'Trusts lib/ref.py (self-tested in setup_cmd), numpy/scipy and the numba code generator at reduced optimisation level.')


def main():
    have = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'checks')) if f.startswith('c') and f.endswith('.py'))
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                    quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                    anchors=dict(files=p['files'], state=p['state'], mechanism=p['mech'],
                                                 observe_at=p['observe'], hook_needed=None))) + '\n')
    checks, na = [], []
    for p in P:
        if p['id'] in have:
            checks.append(dict(property=p['id'], quick_cmd='./check %s quick' % p['id'], thorough_cmd='./check %s thorough' % p['id'],
                               evidence_file='evidence/%s.json' % p['id'], technique=p['tech'], level='exploration',
                               level_note=(p['note'] + ' ' if p['note'] else '') + NOTE))
        else:
            na.append(dict(property=p['id'], reason='check not built yet'))
    m = dict(version=1, setup_cmd='/opt/venv/bin/python -B lib/selftest.py', checks=checks, not_applicable=na,
             notes='No hooks in /repo. See DESIGN.md.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
