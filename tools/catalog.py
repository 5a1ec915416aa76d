"""Catalogue of the properties: text for properties.jsonl and MANIFEST.json."""
TECH = "TLA+ specification checked with TLC; every generated behaviour replayed into the real code"
TECHT = TECH + "; executions recorded from the code validated by TLC"
NOTE = ("TLC explores the specification exhaustively within the stated small constants and by seeded simulation "
        "beyond them; conformance of the code is established for the behaviours generated in the run, comparing "
        "floating point results with exact integer/rational states up to rounding tolerances. ")
S = "src/probnum/"
PROPS = [
 dict(id="C01", title="Configuration overrides are scoped and refused ones change nothing",
  statement="Inside an override block the named options have the given values, and after the block, however it is left and however deep blocks nest, every named option has exactly the value it had when the block was entered. Assignments, overrides and reads naming an unregistered option and registrations of an existing one are refused without changing any option. Other configuration objects and options are never affected.",
  over=["histories", "fault_sequences"], for_all="all interleavings of registering, setting, reading, entering and leaving nested override blocks, normally or by an exception, with known and unknown options in any keyword order",
  why="Tests set one option once in one block; nested blocks, assignments inside blocks, exceptions and refused overrides part-way through the keyword list are histories they do not enumerate.",
  files=[S + "_config.py"], mechanism=[("override context manager", S + "_config.py Configuration.__call__"), ("registry", S + "_config.py Configuration.register/__setattr__/__getattr__")],
  technique=TECH, note=NOTE),
 dict(id="L01", title="Linear operator expressions denote exactly the matrix algebra",
  statement="Any expression built from the library's linear operators by transposition, negation, scaling, sums, products, inverses, type casts, Kronecker, symmetric Kronecker and block-diagonal composition (lazily, eagerly, or mixed with arrays) has the shape of the matrix expression it stands for, and applying it, applying its transpose, applying it along an axis, or making it dense gives that matrix's result. Incompatible shapes are refused, and operands and arguments are left unchanged.",
  over=["programs", "inputs", "configurations"], for_all="all operator expression trees over all operator classes, shapes, element types, and dense/sparse/function-defined leaves, and all ways of applying them",
  why="Tests check each class and a hand-picked list of pairs; the simplification rules that fire depend on the pair of operand types and on shared factors, and nested combinations are unbounded.",
  files=[S + "linops/_arithmetic.py", S + "linops/_arithmetic_fallbacks.py", S + "linops/_linear_operator.py", S + "linops/_kronecker.py", S + "linops/_scaling.py", S + "linops/_block.py"],
  mechanism=[("dispatch tables of simplification rules", S + "linops/_arithmetic.py"), ("generic sum/product/scaled operators", S + "linops/_arithmetic_fallbacks.py"), ("application and densification", S + "linops/_linear_operator.py")],
  technique=TECH, note=NOTE),
 dict(id="L02", title="Answers about a linear operator never depend on the question history",
  statement="Trace, diagonal, determinant, log-determinant, rank, eigenvalues, condition numbers, solves, inverses, Cholesky factors, dense forms and the properties an operator reports about itself agree with the matrix the operator denotes, whatever was asked, cached or truthfully declared before. Questions that are meaningless for the shape, and Cholesky factors of matrices that are not positive definite, are refused.",
  over=["histories", "programs", "inputs"], for_all="all operators, and all sequences of queries, true declarations and passages to the transpose, negation and inverse",
  why="Answers are cached and structure flags select different algorithms, so correctness depends on the order of earlier queries; tests ask each question once on a fresh operator.",
  files=[S + "linops/_linear_operator.py", S + "linops/_arithmetic_fallbacks.py", S + "linops/_kronecker.py", S + "linops/_scaling.py", S + "linops/_block.py"],
  mechanism=[("per-operator caches and property flags", S + "linops/_linear_operator.py LinearOperator"), ("flag-driven choice of solver", S + "linops/_linear_operator.py solve/inv/cholesky")],
  technique=TECH, note=NOTE),
 dict(id="R01", title="Arithmetic on random variables is exact push-forward",
  statement="Adding, subtracting, scaling, matrix-multiplying, indexing, reshaping and transposing normal and constant random variables yields the distribution of the transformed variable: mean, covariance, variance, standard deviation, density, distribution function, entropy, samples of any size and covariance factor all belong to it, for dense and operator covariances alike. Asking for a covariance factor at any point changes nothing else. Incompatible shapes are refused and operands are unchanged.",
  over=["programs", "histories", "inputs"], for_all="all sequences of operations on scalar, vector and matrix random variables with any covariance representation, with the covariance factor requested or not before any step",
  why="The factor cached on an operand is carried through some operations and not others, and covariance layout differs per representation; tests check single operations on fresh operands.",
  files=[S + "randvars/_arithmetic.py", S + "randvars/_normal.py", S + "randvars/_constant.py", S + "randvars/_random_variable.py"],
  mechanism=[("dispatch by operand distribution", S + "randvars/_arithmetic.py"), ("indexing, reshaping, cached factor", S + "randvars/_normal.py")],
  technique=TECH, note=NOTE),
 dict(id="G01", title="Kalman filter and smoother return the exact posterior",
  statement="For any linear Gaussian state-space model and data set, the state returned by the filter at each location is the prior conditioned on exactly the data up to that location, and the smoothed state is the prior conditioned on all data, whatever forward and backward implementations (classic, square-root, Joseph) are chosen, for time-invariant and time-varying priors and measurement models, mixed measurement models, and locations that start at or after the initial time. Data at unsorted or repeated locations is refused.",
  over=["inputs", "configurations", "histories"], for_all="all linear Gaussian models, location grids, data, and implementation choices",
  why="Tests check decreasing errors on a car-tracking example and agreement of variants; none compares with the posterior itself, and time-varying models are never filtered.",
  files=[S + "filtsmooth/gaussian/_kalman.py", S + "randprocs/markov/_transition.py", S + "randprocs/markov/discrete/_linear_gaussian.py"],
  mechanism=[("predict/update recursion", S + "filtsmooth/gaussian/_kalman.py filtered_states_generator"), ("backward recursion", S + "randprocs/markov/_transition.py smooth_list"), ("implementations", S + "randprocs/markov/discrete/_linear_gaussian.py")],
  technique=TECH, note=NOTE),
 dict(id="G02", title="Transitions move and condition beliefs exactly in every variant",
  statement="For discrete linear Gaussian, integrated Wiener, integrated Ornstein-Uhlenbeck, Matern, time-invariant and time-varying linear SDE transitions, the forward operation returns the distribution after the step (with cross-covariance and gain), and the backward operation the conditional distribution before the step given a value or a distribution after it, for any step size, diffusion, and forward/backward implementation. The result does not depend on whether gain and prediction are recomputed or passed back in, nor on earlier operations, and operands are unchanged.",
  over=["inputs", "configurations", "histories"], for_all="all transition families, step sizes, diffusions, implementations, and sequences of forward and backward operations",
  why="Tests mostly compare implementations with each other at unit diffusion on fresh inputs; forces, non-unit diffusions and cached gains are not compared with the exact answer.",
  files=[S + "randprocs/markov/discrete/_linear_gaussian.py", S + "randprocs/markov/integrator/_iwp.py", S + "randprocs/markov/integrator/_ioup.py", S + "randprocs/markov/integrator/_matern.py", S + "randprocs/markov/continuous/_lti_sde.py", S + "randprocs/markov/continuous/_linear_sde.py"],
  mechanism=[("discretisation", S + "randprocs/markov/continuous/_lti_sde.py discretise, _mfd.py"), ("preconditioned coordinates", S + "randprocs/markov/integrator/_preconditioner.py"), ("moment equations", S + "randprocs/markov/continuous/_linear_sde.py")],
  technique=TECH, note=NOTE),
 dict(id="G03", title="Dense output of filtering and smoothing posteriors is the posterior",
  statement="Evaluating a filtering or smoothing posterior at any time at or after the first location, on, between or beyond the data locations, one time or a sorted array of times, returns the prior conditioned on the data (up to that time for the filter, all data for the smoother) at that time. Unsorted times are refused, and asking never changes the posterior.",
  over=["inputs", "histories"], for_all="all linear Gaussian continuous-time priors, data sets and query times",
  why="Tests check that interpolated states have the right shape and agree at the data locations; values between locations are never compared with the exact posterior.",
  files=[S + "filtsmooth/gaussian/_kalmanposterior.py", S + "filtsmooth/_timeseriesposterior.py"],
  mechanism=[("interpolation", S + "filtsmooth/gaussian/_kalmanposterior.py interpolate"), ("dispatch of query times", S + "filtsmooth/_timeseriesposterior.py __call__")],
  technique=TECH, note=NOTE),
 dict(id="G04", title="Joint samples from posteriors and Markov priors have the joint law",
  statement="Samples of a smoothing posterior at any set of times, and of a Markov process or sequence on a grid from its initial time, are jointly distributed as the posterior or the prior at those times, in the order asked for, with independent samples for any sample size, whose dimensions lead the result's shape.",
  over=["inputs", "configurations"], for_all="all linear Gaussian models, sets of sample times (also between and beyond the data) and sample sizes",
  why="A test of samples can only look at shapes or at a few moments; here the exact affine map from the random numbers to the sample is recovered and compared.",
  files=[S + "randprocs/markov/_transition.py", S + "filtsmooth/gaussian/_kalmanposterior.py", S + "randprocs/markov/_markov.py"],
  mechanism=[("forward and backward path sampling", S + "randprocs/markov/_transition.py jointly_transform_base_measure_realization_list_forward/backward"), ("splitting of sample times", S + "filtsmooth/gaussian/_kalmanposterior.py transform_base_measure_realizations")],
  technique=TECH, note=NOTE),
 dict(id="G05", title="Particle filters weight, resample and continue correctly",
  statement="At every data location the particle filter returns normalised weights proportional to the previous weight times the proposal's importance weight of the particle, resamples exactly when resampling is enabled and the effective number of particles is below the threshold, and continues from the particles and weights it returned. Resampling only duplicates existing particles and makes the weights equal, for bootstrap and linearised proposals alike.",
  over=["inputs", "histories", "configurations"], for_all="all data sequences, thresholds, random choices and proposals",
  why="Tests check that the filter runs and that its error decreases; the weights and the resampling decision depend on random choices a test does not follow.",
  files=[S + "filtsmooth/particle/_particle_filter.py", S + "filtsmooth/particle/_importance_distributions.py", S + "filtsmooth/particle/_particle_filter_posterior.py"],
  mechanism=[("filter loop", S + "filtsmooth/particle/_particle_filter.py filter_generator"), ("weights", S + "filtsmooth/particle/_importance_distributions.py process_initrv_with_data, generate_importance_rv, log_correction_factor"), ("resampling", S + "randvars/_categorical.py resample")],
  technique=TECH, note=NOTE),
 dict(id="O01", title="ODE solution loop tiles the domain, hits stops, applies callbacks",
  statement="For every solver, step rule, set of stop locations and set of callbacks, the solution's time points start at t0, increase strictly, never pass tmax and end at tmax, and include every requested stop location inside the domain (duplicate, passed or outside ones are harmless). Each attempted step is the step rule's suggestion shortened to the next stop or tmax, and callbacks see every accepted state in order and what they return is where the solution continues.",
  over=["inputs", "histories", "configurations"], for_all="all accept/reject histories, first steps, stop locations and callbacks",
  why="Tests use a few step sizes with well-placed stops; first steps beyond tmax, repeated or passed stops and several callbacks at one step only show in particular histories.",
  files=[S + "diffeq/_odesolver.py", S + "diffeq/callbacks/_discrete_callback.py"],
  mechanism=[("main loop", S + "diffeq/_odesolver.py solution_generator, perform_full_step"), ("stops", S + "diffeq/_odesolver.py _adjust_time_step"), ("callbacks", S + "diffeq/callbacks/_discrete_callback.py")],
  technique=TECH, note=NOTE),
 dict(id="O02", title="Step-size control is exact and rejected steps leave no trace",
  statement="Adaptive steps accept exactly when the error relative to atol + rtol |reference| is below one, and change the step by the safety factor times error^(-1/(order+1)) within the limits, refusing steps outside the allowed range. The solution and its dense output depend only on the accepted steps: rejected attempts leave no trace in Runge-Kutta, perturbed-step and filtering-based solvers, and a perturbed step integrates over the perturbed length from the current state.",
  over=["inputs", "histories"], for_all="all sequences of errors, accepted and rejected attempts and step perturbations",
  why="Tests compare final errors; stale derivatives, misaligned dense output or polluted estimates after a rejection need a particular history and stay within tolerances.",
  files=[S + "diffeq/stepsize/_steprule.py", S + "diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py", S + "diffeq/perturbed/step/_perturbedstepsolver.py", S + "diffeq/perturbed/step/_perturbedstepsolution.py"],
  mechanism=[("error norm and suggestion", S + "diffeq/stepsize/_steprule.py AdaptiveSteps"), ("Runge-Kutta state", S + "diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py attempt_step"), ("scales and interpolants", S + "diffeq/perturbed/step/_perturbedstepsolver.py attempt_step, method_callback")],
  technique=TECH, note=NOTE),
 dict(id="O03", title="ODE filter solutions are the prior conditioned on the linearised ODE",
  statement="For EK0 and EK1, dynamic and constant diffusion, the filtering solution at every time is the integrated Wiener process prior, with the estimated diffusion of each step, conditioned on the linearised ODE residual being zero at all earlier time points, and the smoothing solution on all of them. This holds on the grid, between grid points and after the last one, for solution, derivative and joint samples.",
  over=["inputs", "histories", "configurations"], for_all="all ODEs (also time-dependent and nonlinear), step sequences, diffusion models and query times",
  why="Tests compare with a reference solution up to large tolerances; wrong diffusions, times or unscaled covariances stay unnoticed.",
  files=[S + "diffeq/odefilter/_odefilter.py", S + "diffeq/odefilter/_odefilter_solution.py", S + "randprocs/markov/continuous/_diffusions.py", S + "filtsmooth/gaussian/_kalmanposterior.py"],
  mechanism=[("filter step", S + "diffeq/odefilter/_odefilter.py attempt_step"), ("calibration and smoothing", S + "diffeq/odefilter/_odefilter.py postprocess"), ("diffusion estimates", S + "randprocs/markov/continuous/_diffusions.py"), ("dense output", S + "filtsmooth/gaussian/_kalmanposterior.py interpolate, transform_base_measure_realizations")],
  technique=TECH, note=NOTE),
 dict(id="Q01", title="Bayesian quadrature beliefs are exact Gaussian process conditioning",
  statement="After any sequence of belief updates the integral belief, the scale estimate and the predictions for the integrand are those of the Gaussian process prior conditioned on all nodes and values seen so far, with the jitter as noise variance. They do not depend on the order of the data or on how they were split into updates, and bayesquad_from_data and the multilevel variant return the same belief. Acquisition functions return the exact variance reduction, mutual information and weighted variance of that belief.",
  over=["inputs", "histories"], for_all="all node sets (also repeated nodes with jitter), values, splits into updates, kernels with known embeddings, measures and scale estimation choices",
  why="Tests compare shapes and one-shot estimates with a tolerance; the incremental update reuses stored matrices, so errors need a particular sequence of updates.",
  files=[S + "quad/solvers/belief_updates/_standard_update.py", S + "quad/solvers/_bq_state.py", S + "quad/_bayesquad.py", S + "quad/solvers/acquisition_functions/_integral_variance_reduction.py"],
  mechanism=[("incremental Gram matrix and kernel means", S + "quad/solvers/belief_updates/_standard_update.py __call__"), ("predictions", S + "quad/solvers/belief_updates/_standard_update.py predict_integrand"), ("entry points", S + "quad/_bayesquad.py")],
  technique=TECH, note=NOTE),
 dict(id="Q02", title="The Bayesian quadrature loop selects, stops and counts exactly",
  statement="The loop first decides whether to stop, on the initial data alone, and then repeats selecting nodes, evaluating the integrand once at each and updating, until the stopping criterion, composed by and, or and not in any way, first holds. The reported numbers of evaluations and iterations, the convergence flag, the nodes and the history of beliefs are those of that run, however the policy, design, tolerances and options are given. Policies return the next points of the van der Corput sequence, or the candidate with the largest acquisition value.",
  over=["histories", "configurations", "inputs"], for_all="all policies, batch sizes, initial data and designs, integrands and stopping criteria",
  why="Stopping depends on the whole history of beliefs; tests look at single criteria on hand-made states and only check that the loop returns.",
  files=[S + "quad/solvers/_bayesian_quadrature.py", S + "quad/solvers/policies/_van_der_corput_policy.py", S + "quad/solvers/policies/_max_aquisition_policy.py", S + "quad/solvers/stopping_criteria/_rel_mean_change.py", S + "_pnmethod/_stopping_criterion.py"],
  mechanism=[("loop", S + "quad/solvers/_bayesian_quadrature.py bq_iterator, integrate, from_problem"), ("criteria and their composition", S + "quad/solvers/stopping_criteria/, " + S + "_pnmethod/_stopping_criterion.py"), ("counting", S + "quad/solvers/_bq_state.py BQIterInfo")],
  technique=TECH, note=NOTE),
 dict(id="Q03", title="Kernel embeddings and measures are the integrals they claim to be",
  statement="For every supported kernel, smoothness, set of length scales, measure and domain, the kernel mean at a point of the domain is the integral of the kernel against the measure and the kernel variance is its double integral, in any dimension and with the measure normalised or not. Densities of the measures agree with that, and samples lie in the domain and follow the measure.",
  over=["inputs", "configurations"], for_all="all half-integer Matern and exponentiated quadratic kernels, boxes, Gaussian measures and points",
  why="Tests compare a few fixed lengths and domains with low-order numerical integration; closed forms mix the dimensions, the ends of the domain and the smoothness in many terms.",
  files=[S + "quad/kernel_embeddings/_matern_lebesgue.py", S + "quad/kernel_embeddings/_expquad_gauss.py", S + "quad/kernel_embeddings/_expquad_lebesgue.py", S + "quad/integration_measures/_gaussian_measure.py"],
  mechanism=[("closed forms", S + "quad/kernel_embeddings/"), ("measures", S + "quad/integration_measures/")],
  technique=TECH, note=NOTE),
 dict(id="A01", title="Solution-based linear solvers condition exactly and stop on time",
  statement="At every step of a probabilistic linear solver run the belief about the solution is the Gaussian prior conditioned on the projections of the system observed so far, with the given noise, whatever policy chose the actions, and the estimate of the inverse is the sum of the observed contributions. Actions, residuals, observations and the step count in the state are those of that run, conjugate gradient actions are the conjugate, if asked reorthogonalised, directions, and random unit vectors follow their documented probabilities. The run ends exactly when the stopping criterion, composed in any way, first holds, also when the system is already solved.",
  over=["inputs", "histories", "configurations"], for_all="all systems, priors, policies, noise variances and stopping criteria",
  why="Tests run a few random systems to convergence; a wrong intermediate belief, direction or stop is repaired by later iterations and stays invisible in the final error.",
  files=[S + "linalg/solvers/_probabilistic_linear_solver.py", S + "linalg/solvers/_state.py", S + "linalg/solvers/policies/_conjugate_gradient.py", S + "linalg/solvers/belief_updates/solution_based/_projected_residual_belief_update.py", S + "linalg/solvers/stopping_criteria/_residual_norm.py"],
  mechanism=[("loop", S + "linalg/solvers/_probabilistic_linear_solver.py solve_iterator, solve"), ("belief update", S + "linalg/solvers/belief_updates/solution_based/_projected_residual_belief_update.py"), ("cached quantities of the state", S + "linalg/solvers/_state.py"), ("policies", S + "linalg/solvers/policies/"), ("stopping", S + "linalg/solvers/stopping_criteria/")],
  technique=TECH, note=NOTE),
 dict(id="A02", title="Matrix-based linear solvers condition A and its inverse exactly",
  statement="At every step of a matrix-based probabilistic linear solver the beliefs about the matrix and about its inverse are the (symmetric) matrix-variate normal priors conditioned on the matrix-vector products observed so far, so each posterior mean reproduces every observation, symmetric beliefs stay symmetric, and the result does not depend on the order or on the units of the data. The belief about the solution is the one induced by the inverse, and the run stops exactly when the stopping criterion first holds.",
  over=["inputs", "histories", "configurations"], for_all="all systems, Kronecker and symmetric Kronecker priors, actions and stopping criteria",
  why="Tests check one update from one prior, or only the final solution; the factors are updated recursively and an error in a correction term only shows at the second or a later observation.",
  files=[S + "linalg/solvers/belief_updates/matrix_based/_symmetric_matrix_based_linear_belief_update.py", S + "linalg/solvers/belief_updates/matrix_based/_matrix_based_linear_belief_update.py", S + "linalg/solvers/beliefs/_linear_system_belief.py", S + "linalg/solvers/information_ops/_matvec.py"],
  mechanism=[("belief updates", S + "linalg/solvers/belief_updates/matrix_based/"), ("induced belief", S + "linalg/solvers/beliefs/_linear_system_belief.py"), ("observations", S + "linalg/solvers/information_ops/_matvec.py")],
  technique=TECH, note=NOTE),
 dict(id="A03", title="problinsolve iterates, beliefs, covariances and stops exactly",
  statement="For a symmetric positive definite system, problinsolve returns after each number of iterations the solution, the posterior means and covariance factors of the matrix and its inverse, and the trace of the solution covariance that its prior and the directions and observations of that run imply, for every way of giving the prior (none, guess, array, operator, random variable). It stops exactly at the iteration limit or at the first tolerance met and says which, shows every iterate to the callback, solves several right-hand sides one after the other, and handles zero right-hand sides and exact guesses.",
  over=["inputs", "histories", "configurations"], for_all="all symmetric positive definite systems, priors, tolerances, iteration limits and numbers of right-hand sides",
  why="Tests compare the final solution to a tolerance; beliefs after few iterations, the covariances, the reported criterion and degenerate right-hand sides are not compared to anything.",
  files=[S + "linalg/_problinsolve.py", S + "linalg/solvers/matrixbased.py"],
  mechanism=[("preparation of the prior, loop over right-hand sides", S + "linalg/_problinsolve.py"), ("iteration, convergence check, posterior covariances", S + "linalg/solvers/matrixbased.py SymmetricMatrixBasedSolver")],
  technique=TECH, note=NOTE),
 dict(id="G06", title="Nonlinear filters and smoothers are exact in the linearised model",
  statement="For nonlinear dynamics and measurements the extended and unscented Kalman filter and smoother return the prior conditioned on the data in the model obtained by linearising (first-order Taylor expansion or cubature) at the current belief, or, in iterated smoothing, at the previous posterior, for discrete and continuous dynamics and any mixture of linear and nonlinear models. Iterated smoothing yields exactly these iterates and stops exactly when its criterion, error relative to atol + rtol |reference|, is first met or the iteration limit is exceeded, and a refused run leaves the criterion usable. For affine models all of them return the exact posterior.",
  over=["inputs", "configurations", "histories"], for_all="all differentiable dynamics and measurement models with Gaussian noise, data sets, linearisation methods and numbers of iterations",
  why="Tests compare error magnitudes on a pendulum example; where each model is linearised, and with which noise, changes the result by little and is never compared with the linearised model's posterior.",
  files=[S + "filtsmooth/gaussian/_kalman.py", S + "filtsmooth/gaussian/approx/_extendedkalman.py", S + "filtsmooth/gaussian/approx/_unscentedkalman.py", S + "filtsmooth/gaussian/approx/_interface.py", S + "filtsmooth/optim/_gauss_newton.py", S + "filtsmooth/optim/_stopping_criterion.py", S + "filtsmooth/optim/_state_space_optimizer.py", S + "randprocs/markov/_transition.py"],
  mechanism=[("linearisation points", S + "filtsmooth/gaussian/_kalman.py filtered_states_generator, iterated_filtsmooth"), ("linearisation", S + "filtsmooth/gaussian/approx/"), ("backward recursion", S + "randprocs/markov/_transition.py smooth_list"), ("stopping", S + "filtsmooth/optim/_stopping_criterion.py")],
  technique=TECH, note=NOTE),
 dict(id="R02", title="Finite and generic random variables keep their law under operations",
  statement="Categorical, generic and scipy-backed random variables report the mean, variance, covariance, mode, probability mass and samples of the law they stand for, and arithmetic, matrix products, broadcasting, indexing, reshaping and transposing transform samples and statistics exactly as they transform each outcome. Samples of any sample size have the sample dimensions leading, one transformed outcome per sample. Statistics that the result of an operation does not know are refused, never invented.",
  over=["programs", "inputs", "configurations"], for_all="all sequences of operations on scalar, vector and matrix random variables with finitely many outcomes and all sample sizes",
  why="Tests check the statistics of fresh random variables; results of operations are lazily assembled from closures that only run when a statistic or a sample of some size is asked for.",
  files=[S + "randvars/_random_variable.py", S + "randvars/_categorical.py", S + "randvars/_arithmetic.py", S + "randvars/_scipy_stats.py", S + "randvars/_constant.py"],
  mechanism=[("closures of transformed statistics", S + "randvars/_random_variable.py RandomVariable.__getitem__/reshape/transpose"), ("fallback arithmetic", S + "randvars/_arithmetic.py"), ("probability mass and mode", S + "randvars/_categorical.py")],
  technique=TECH, note=NOTE),
 dict(id="K01", title="Covariance functions, functions and Gaussian processes act pointwise",
  statement="Covariance functions built from the library's kernels by sums, products and scaling take, on any batch of inputs, single, paired, broadcast, in a matrix or by matrix-vector products, the values of the corresponding pointwise formula, and functions built by sums, differences and scaling those of the pointwise combination, with the shapes the inputs imply. A Gaussian process evaluated at points has the mean, covariance, variance and standard deviation of its mean and covariance function there, in the order of the points and outputs.",
  over=["programs", "inputs", "configurations"], for_all="all expressions of covariance functions and functions, scalar, vector and matrix inputs and outputs, batch shapes and element types",
  why="Tests compare kernels with themselves through other code paths on one batch; values against the defining formula, multi-output layouts, mixed batch shapes and nested expressions are not settled by them.",
  files=[S + "randprocs/covfuncs/_covariance_function.py", S + "randprocs/covfuncs/_arithmetic_fallbacks.py", S + "randprocs/covfuncs/_matern.py", S + "randprocs/covfuncs/_product_matern.py", S + "randprocs/covfuncs/_white_noise.py", S + "randprocs/_gaussian_process.py", S + "functions/_algebra.py", S + "functions/_algebra_fallbacks.py"],
  mechanism=[("batching, matrices, linear operators", S + "randprocs/covfuncs/_covariance_function.py"), ("algebra", S + "randprocs/covfuncs/_arithmetic_fallbacks.py, functions/_algebra_fallbacks.py"), ("evaluation of processes", S + "randprocs/_gaussian_process.py")],
  technique=TECH, note=NOTE),
 dict(id="T01", title="Regression problems and ODE problems turned into them keep every fact",
  statement="Merging regression problems yields exactly their data, each with its location, measurement model and, if known for all, solution, in order of time, and refuses problems that share locations or do not fit together. An initial value problem turned into a regression problem states the initial value at the first location (unless excluded) and a vanishing, linearised ODE residual with the given variance at the others, so that filtering it conditions the prior on exactly these facts. Initialisation routines return the initial value and derivatives they know exactly, in the prior's order, with the stated uncertainty for the rest, and fitted ones the prior conditioned on the numerical solution.",
  over=["inputs", "histories", "configurations"], for_all="all data sets, interleavings of locations, sequences of merges, vector fields, approximation strategies, measurement variances and numbers of derivatives",
  why="Tests check types and lengths of the result and one merge of two alternating problems; what the facts assert about the state is not tested.",
  files=[S + "filtsmooth/utils/_merge_regression_problems.py", S + "problems/_problems.py", S + "diffeq/odefilter/utils/_problem_utils.py", S + "diffeq/odefilter/information_operators/_ode_residual.py", S + "diffeq/odefilter/approx_strategies/_ek.py", S + "diffeq/odefilter/init_routines/_stack.py", S + "diffeq/odefilter/init_routines/_non_probabilistic_fit.py"],
  mechanism=[("merging", S + "filtsmooth/utils/_merge_regression_problems.py"), ("translation", S + "diffeq/odefilter/utils/_problem_utils.py"), ("residual", S + "diffeq/odefilter/information_operators/_ode_residual.py"), ("initialisation", S + "diffeq/odefilter/init_routines/")],
  technique=TECH, note=NOTE),
]
NOT_APPLICABLE = []
