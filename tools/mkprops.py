"""Writes /verif/properties.jsonl (the properties, in one readable place)."""
import json, pathlib
S = "src/tranquilo/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
            mechanism=[dict(name=n, where=S + w) for n, w in mech],
            observe_at=observe, hook_needed=None,
            **({"state": [dict(name=a, meaning=b, where=S + c) for a, b, c in state]} if state else {}))))

p("C01", "Every evaluated point respects the user's bounds",
  "Given a start point inside the bounds, an optimization never evaluates the criterion at, and never returns or records as candidate or iterate, a parameter vector outside the lower and upper bounds, and all such vectors are finite. This holds for two-sided, one-sided, partially infinite and very tight bounds, for start points on a bound, and for every sampler, subsolver, acceptance rule, noise mode and batch size.",
  ["inputs", "configurations", "histories"],
  "all problems, all bound patterns with lower < upper, all built-in component combinations, all points of all iterations",
  "Tests run a handful of two-sided bound problems and look at the solution; whether a bound lies just outside the current trust region, or a line search step overshoots, depends on the trajectory.",
  ["region.py", "solve_subproblem.py", "sample_points.py", "acceptance_decision.py"],
  [("cube regions intersected with the bounds", "region.py"), ("clipping of subproblem solutions", "solve_subproblem.py"), ("clipping of line search points", "acceptance_decision.py")],
  ["arguments of the user's criterion", "solution_x", "states"])

p("C02", "The history records every evaluation exactly once and faithfully",
  "Every criterion evaluation is stored exactly once, under the parameter vector at which it was made and with the value the criterion returned; nothing that was not evaluated is stored and nothing is lost, moved or altered when the history grows or when points are evaluated in batches or repeatedly. Values queried for a point (single, by list, averaged or not) are exactly the recorded ones, aggregated to the scalar objective by identity (scalar), sum (likelihood) or sum of squares (least squares). The query for points in a ball returns exactly the recorded points whose Euclidean distance from its center is at most its radius.",
  ["histories", "inputs", "configurations"],
  "all sequences of adding points, adding evaluations and queries (including beyond any internal capacity), and all optimization runs",
  "Tests store fewer than a dozen entries in one or two fixed orders; storage growth, repeated evaluation in several batches and mixed query forms are never combined.",
  ["history.py", "wrap_criterion.py"],
  [("append-only arrays plus index mapping", "history.py"), ("repetition of points according to the evaluation request", "wrap_criterion.py")],
  ["arguments and results of the user's criterion", "returned history object"],
  [("index_mapper", "point index to evaluation indices", "history.py"), ("n_fun, n_xs", "number of recorded evaluations and points", "history.py")])

p("C03", "The reported solution and iterates are real, evaluated points",
  "The returned solution is a point at which the criterion was actually evaluated, and the returned criterion value is the value (for noisy criteria: an average of values) observed there. In every recorded iteration the accepted index, parameter vector and function value refer to the same evaluated point, the candidate index and candidate vector refer to the same recorded point, and the first record is the start point. The final record agrees with the returned solution.",
  ["inputs", "configurations", "histories"],
  "all optimization runs over all functypes, noise modes, batch sizes, acceptance rules and failure patterns",
  "Tests compare the solution with the known optimum up to a tolerance, which a shifted index, a stale value or a never evaluated but close point also satisfies.",
  ["tranquilo.py", "acceptance_decision.py", "history.py"],
  [("acceptance result copied to the state", "tranquilo.py"), ("acceptance result construction", "acceptance_decision.py")],
  ["solution_x, solution_criterion, states, history, arguments and results of the user's criterion"])

p("C04", "Acceptance: monotone progress, exactly the improving candidates",
  "For a deterministic criterion the function value of the accepted point never increases over the iterations and the returned value is never worse than the start value. A candidate (the subproblem solution or, with line search, the best point of the acceptance batch) is accepted exactly if its observed improvement over the current value is at least the minimal required improvement; if it is rejected, the point, value and index of the iterate stay unchanged. The recorded ratio is observed over expected improvement of the subproblem solution, minus infinity for infinite candidates, and the recorded step lengths are the distance moved, absolutely and relative to the radius.",
  ["inputs", "configurations", "histories"],
  "all optimization runs with deterministic criteria, all acceptance rules including line search with batches, all minimal improvements",
  "Unit tests call one acceptance step with two hand-written values; they do not observe decisions along trajectories, ties, infinite candidates or better line search points.",
  ["acceptance_decision.py", "tranquilo.py"],
  [("acceptance deciders", "acceptance_decision.py")],
  ["states, history, wrapped acceptance decider"])

p("C05", "Evaluation and iteration budgets end every run",
  "Every run terminates after at most the requested number of iterations, and it stops at the end of the first iteration in which the number of evaluations has reached the requested maximum (unless it converged in it), so that it never exceeds that maximum by more than one iteration's evaluations. The returned message names the evaluation or time budget that ended the run, is absent if the iteration limit ended it, and is a convergence message only if the run converged.",
  ["inputs", "configurations", "fault_sequences"],
  "all optimization runs and all budgets, including budgets of one and criteria that never improve or keep failing",
  "Tests use budgets far above what is needed, or a single value; the interaction of budgets with repeated evaluation, batches and rejection streaks is not sampled.",
  ["tranquilo.py", "process_arguments.py"],
  [("main loop and end-of-iteration check", "tranquilo.py")],
  ["number of criterion calls, states, message"])

p("C06", "Convergence is declared exactly when a tolerance is met",
  "A run stops with a convergence message if and only if its last accepted step satisfies the criterion named in that message (gradient, criterion or parameter change; relative or absolute) for the user's tolerances, and no earlier accepted step satisfied any of them. With convergence checks disabled, no run ends with a convergence message; rejected steps never count as convergence, except that a trust region radius below its tolerance may end the run after any step.",
  ["inputs", "configurations", "histories"],
  "all optimization runs and all tolerance combinations",
  "Tests check that runs end near the optimum; a tolerance that is applied to the wrong quantity, point or option still ends near the optimum.",
  ["tranquilo.py", "process_arguments.py", "options.py"],
  [("convergence check", "tranquilo.py"), ("mapping of user options to tolerances", "process_arguments.py")],
  ["states, message"])

p("C07", "Runs are reproducible and isolated from each other",
  "Two runs with the same problem, options and seed evaluate the same points in the same order and return identical results, no matter what was run before, what state the global random number generator is in, or how many cores are used with the same batch size. A run does not change the user's start values, bounds or option containers nor the global random state, and the points it hands to the criterion may be modified by the criterion without effect.",
  ["inputs", "configurations", "histories", "schedules"],
  "all pairs of runs with equal inputs, all sampler, fitter and subsolver combinations, arbitrary previous runs in the same process",
  "Tests never run the same problem twice in one process nor look at their inputs afterwards.",
  ["process_arguments.py", "sample_points.py", "subsolvers/fallback_subsolvers.py", "exploration_sample.py", "wrap_criterion.py"],
  [("seeded generators passed explicitly", "process_arguments.py"), ("fixed seeds in multistart", "subsolvers/fallback_subsolvers.py")],
  ["sequence of criterion arguments, results, user inputs and global random state before and after"])

p("C08", "Failing or infinite evaluations never crash or mislead a run",
  "If evaluations after the start point raise exceptions or return NaN or infinite values (also in single residuals), the run continues until a regular stopping criterion applies. Failed evaluations and NaNs are recorded as plus infinity in the shape of a regular evaluation, and all other values, including successful evaluations of the same batch, are recorded unchanged. A point with infinite value is never accepted over a finite one.",
  ["fault_sequences", "inputs", "configurations"],
  "all patterns of failing evaluations over time, parameter space, residuals and batches, for all functypes, noise modes and components",
  "The tests contain no run with a failing criterion; the set of failure patterns is unbounded.",
  ["wrap_criterion.py", "handle_infinity.py", "acceptance_decision.py", "estimate_variance.py"],
  [("replacement of failed evaluations", "wrap_criterion.py"), ("clipping before fitting", "handle_infinity.py"), ("rejection of infinite candidates", "acceptance_decision.py")],
  ["criterion results, history, states, absence of exceptions"])

p("C09", "Noisy criteria are evaluated as often as the options promise",
  "In noisy mode every point that enters a surrogate model has been evaluated at least the currently required number of times per point, the start point as often as requested, and a candidate between the minimal and maximal number of acceptance evaluations. No point is re-evaluated beyond what its role (model point, start point, candidate, current point) requires, values are averaged over all evaluations of a point, and in deterministic mode with default evaluation counts no point is evaluated more than once.",
  ["inputs", "configurations", "histories"],
  "all runs with noisy criteria, all evaluation count and noise adaptation options, all batch sizes",
  "Tests contain one noisy run that only checks the solution up to one decimal.",
  ["tranquilo.py", "acceptance_decision.py", "acceptance_sample_size.py", "adjust_n_evals.py", "process_arguments.py"],
  [("additional evaluations for reused points", "tranquilo.py"), ("acceptance sample sizes", "acceptance_sample_size.py")],
  ["batches of criterion evaluations, states"])

p("C10", "The trust region follows its update rule and limits",
  "Each iteration's trust region is centered at the currently accepted point, carries the user's bounds, and starts with the configured (or default, strictly positive) initial radius. The radius is expanded by its factor exactly after large steps with a sufficiently high ratio, kept for other acceptable ratios or when the number of evaluations was increased, shrunk by its factor otherwise, and always stays within the configured limits.",
  ["inputs", "configurations", "histories"],
  "all optimization runs and all radius options; all direct inputs of the update rule",
  "Unit tests cover four hand-picked updates; limits, factors and thresholds other than the default are not run.",
  ["adjust_radius.py", "tranquilo.py", "options.py", "region.py"],
  [("radius update", "adjust_radius.py"), ("recentering", "tranquilo.py")],
  ["states, direct calls"])

p("C11", "Samplers deliver the requested number of points inside the region",
  "For every trust region, a sampler returns exactly the requested number of finite points inside the trust region and the bounds, and hull samplers place them on the boundary of the region. The optimal sampler never returns a sample that is worse by its criterion (d-optimality or minimal distance, together with the existing points away from the center) than its random starting sample, and existing points are only read. All random draws come from the supplied generator: equal generator states give equal samples.",
  ["inputs", "configurations"],
  "all regions (spheres, cubes cut by bounds), dimensions, numbers of points, existing points, samplers and sampler options",
  "Tests check a few two-dimensional configurations with one seed.",
  ["sample_points.py", "region.py"],
  [("samplers", "sample_points.py")],
  ["returned points, optimization info, generator state"])

p("C12", "Surrogate fits solve the stated estimation problem",
  "Every fitter returns, for each residual independently and equivariantly under scaling of the data, the model that its documentation promises: least squares (exact on data generated by a model of the fitted class), ridge with unpenalized intercept and the configured penalties, the minimum Frobenius norm Hessian interpolation between the linear and the fully quadratic case, and the unpenalized fit of the tranquilo fitter when identified. Hessians are symmetric, the model is expressed in the coordinates of the trust region, weights act as case replication, infinite values are clipped first, and residualizing against an old model returns old model plus fitted correction.",
  ["inputs", "configurations"],
  "all samples, sample sizes, dimensions, numbers of residuals, regions, weights, penalties and model types",
  "Tests compare against a few fixed vectors; relations between fits, degenerate sample sizes and the coordinates of cut cubes are not sampled.",
  ["fit_models.py", "handle_infinity.py", "models.py"],
  [("fitters", "fit_models.py"), ("fitter template", "fit_models.py")],
  ["returned model evaluated at points"])

p("C13", "Scalar surrogate models are consistent with the residual models",
  "Aggregating a model of several residuals to a scalar model preserves meaning: for least squares with linear residual models the scalar model equals the sum of squared residual predictions at every point, for sums it equals the sum of predictions, and for scalar problems it equals the single residual model. For likelihoods the value at the center and the gradient equal those of the sum of the contributions and the Hessian is minus one half of the outer product of the scores; region information is carried over and inputs are not modified.",
  ["inputs"],
  "all vector models, dimensions, numbers of residuals and evaluation points",
  "Tests use one fixed two-parameter model per rule.",
  ["aggregate_models.py", "models.py"],
  [("aggregators", "aggregate_models.py")],
  ["predictions of returned model"])

p("C14", "Moving, adding and predicting models preserves the function",
  "Moving a model to another region yields a model that describes the same function of the original parameters, so moving there and back is the identity and predictions at corresponding points agree; adding models adds their predictions. Predictions are the same for single points and stacked points, and none of these operations changes its inputs.",
  ["inputs"],
  "all scalar and vector models (linear and quadratic), all pairs of regions including cut cubes with different side lengths",
  "Tests move one fixed model between two spheres.",
  ["models.py", "region.py"],
  [("shift and scale", "models.py")],
  ["predictions before and after"])

p("C15", "Subproblem solutions are feasible and as good as promised",
  "For every surrogate model and trust region the reported candidate lies in the region up to the documented tolerance, its unit-space and original coordinates agree, and the expected improvement is the (never negative) decrease the model predicts between the current point and the candidate. The default solvers attain, up to their documented tolerances, at least the decrease of the best step along the negative (projected) gradient and come close to the global optimum for convex models (the multistart solver also for nonconvex ones of up to three parameters); when a solver raises, the fallback solver's feasible solution is used if and only if fallbacks are enabled.",
  ["inputs", "configurations", "fault_sequences"],
  "all quadratic models (convex, indefinite, singular, badly scaled, hard case), dimensions, regions, solvers and fallback settings",
  "Tests compare solver output on some fixed models with stored values to a few digits.",
  ["solve_subproblem.py", "subsolvers/bntr.py", "subsolvers/bntr_fast.py", "subsolvers/gqtpar.py", "subsolvers/gqtpar_fast.py", "subsolvers/fallback_subsolvers.py"],
  [("solver template", "solve_subproblem.py"), ("solvers", "subsolvers/gqtpar.py"), ("solvers", "subsolvers/bntr.py")],
  ["returned subproblem result, independent reference solution"])

p("C16", "Sample filters select aligned subsets and keep the current point",
  "Every sample filter returns a subset of the offered points together with exactly their indices, without duplicates and without changing its inputs. The current point survives dropping of points; dropping removes exactly the requested number, first the points farthest outside the trust region, then from the closest pair the one nearer to the center; excess filtering keeps everything up to the configured multiple of the target size. Clustering assigns every point to exactly one cluster whose center is within the radius, and no two centers are within the radius of each other.",
  ["inputs", "histories"],
  "all point sets, regions, target sizes and options, and all filter calls in optimization runs",
  "Tests use one five-point example.",
  ["filter_points.py", "clustering.py"],
  [("filters", "filter_points.py"), ("clustering", "clustering.py")],
  ["returned points and indices"])

p("C17", "Infinite values are replaced by finite, strictly unattractive ones",
  "Before fitting, every infinite or undefined entry of the sample of function values is replaced by a finite value, separately for each residual, while finite entries stay untouched. Plus infinity becomes larger and minus infinity smaller than every finite value of that residual, by an amount that scales with their range.",
  ["inputs"],
  "all sample matrices with any pattern of infinite entries, including columns with none or only one distinct finite value",
  "The only test is one 3x4 matrix.",
  ["handle_infinity.py"],
  [("relative clipping", "handle_infinity.py")],
  ["returned matrix"])

p("C18", "Parallel evaluation: complete batches, bounded cores, same results",
  "All criterion evaluations go through the configured batch evaluator, with the requested number of cores but never more cores than evaluations. The batches for surrogate models, start values and acceptance steps are multiples of the batch size where points are free to choose, so that no evaluation slot is wasted, and the values are attributed to the right points in whatever order the evaluator executes them.",
  ["schedules", "configurations", "inputs"],
  "all numbers of cores and batch sizes, all execution orders of a batch, including real process pools",
  "Tests use one parallel run and only check the solution.",
  ["wrap_criterion.py", "tranquilo.py", "acceptance_decision.py", "process_arguments.py"],
  [("rounding up to multiples of the batch size", "tranquilo.py"), ("line search and speculative sampling fill the batch", "acceptance_decision.py")],
  ["calls of the batch evaluator"])

p("C19", "Options are validated, honoured and nothing else changes",
  "Unknown option names, component names, invalid types and contradictory settings are rejected with an exception before the criterion is evaluated for the first time. A component, built-in or supplied by the user, receives exactly the options and arguments its signature names, with user options overriding defaults by name and converted to the default's type; everything else keeps its documented default.",
  ["configurations", "inputs"],
  "all option bundles, components and combinations of user supplied options",
  "Tests check single options in isolation.",
  ["process_arguments.py", "get_component.py", "options.py"],
  [("option bundles", "options.py"), ("component processing", "get_component.py")],
  ["exceptions, arguments seen by user components, processed arguments"])

p("C20", "Trust region geometry is consistent",
  "A trust region is a sphere exactly if no bound lies within its radius of the center, and otherwise a cube of equal volume cut by the bounds. Mapping to and from unit space are inverse to each other, map the region onto the unit sphere or cube, and never leave the bounds; the effective center and radius describe that mapping, and replacing an attribute gives the same region as constructing it anew.",
  ["inputs", "configurations"],
  "all centers, radii over many magnitudes, dimensions and bound patterns",
  "Tests use fixed regions in two dimensions.",
  ["region.py", "bounds.py", "volume.py"],
  [("region construction and maps", "region.py")],
  ["attributes and mapped points"])

p("C21", "Convex problems are solved within a bounded number of evaluations",
  "On well-conditioned smooth problems (least squares with linear or mildly nonlinear residuals, convex quadratic scalar functions), bounded or not, a run with default options comes within a few percent of the possible improvement of the constrained minimum within a modest multiple of the number of parameters in evaluations, exactly to the minimum if residuals are linear, and in most runs to high relative accuracy otherwise. Moderately noisy least-squares problems end within the noise level of the optimum.",
  ["inputs", "configurations"],
  "random well-conditioned problems in one to eight dimensions, with and without bounds, from many start points and with many seeds",
  "Tests solve a few sphere functions from one start point.",
  ["tranquilo.py"],
  [("main loop", "tranquilo.py")],
  ["final criterion value and number of evaluations against an independent solution"])

p("C22", "Every iteration's sample bookkeeping partitions the points",
  "In every recorded iteration the model points consist exactly of the newly sampled points and the reused old points, old points are those that existed before and lay in the search region, and every old point in the search region is either used or reported as discarded, never both. All indices are valid, distinct and were evaluated before being used, enough points are available to reach the target sample size, new points are chosen in view of exactly the reused points, and the surrogate model recorded for the iteration is the one obtained from these points.",
  ["histories", "configurations", "inputs"],
  "all iterations of all optimization runs over filters, samplers, stagnation options and batch sizes",
  "Tests do not look at the recorded iterations.",
  ["tranquilo.py", "filter_points.py", "history.py"],
  [("index bookkeeping in the main loop", "tranquilo.py")],
  ["states, history, wrapped components"])

p("C23", "Compiled and plain subproblem solvers agree",
  "The compiled solvers return the same feasible solution quality as their plain counterparts and as their own uncompiled source, for every model and every conjugate gradient method, without reading or writing outside array bounds and without modifying the model, bounds or start vector.",
  ["inputs", "configurations"],
  "all quadratic models including singular, indefinite, badly scaled and single-parameter ones, all conjugate gradient methods and tolerances",
  "Tests compare both on a few fixed or random well-behaved models; compiled code has no bounds checks.",
  ["subsolvers/bntr_fast.py", "subsolvers/gqtpar_fast.py", "subsolvers/_conjugate_gradient_fast.py", "subsolvers/_steihaug_toint_fast.py", "subsolvers/_trsbox_fast.py", "models.py", "clustering.py", "fit_models.py"],
  [("numba kernels", "subsolvers/bntr_fast.py"), ("numba kernels", "subsolvers/gqtpar_fast.py")],
  ["solver results under JIT, without JIT and with bounds checking"])

p("C24", "Noise is estimated from repeated evaluations and drives sample sizes",
  "The estimated noise variance and covariance are the average, weighted by number of evaluations, of the within-point sample (co)variances of the sufficiently often evaluated points near the trust region; they do not depend on the level of the criterion at different points and are zero without noise. The number of evaluations per point moves by at most one per iteration, within its limits, up only if the simulated and realized ratios are low and down only if they are high.",
  ["inputs", "histories"],
  "all histories of repeated evaluations, regions, options, and all adaptation decisions in noisy runs",
  "One test with three points; the adaptation rule is not tested along runs.",
  ["estimate_variance.py", "adjust_n_evals.py", "rho_noise.py"],
  [("variance estimator", "estimate_variance.py"), ("adaptation rule", "adjust_n_evals.py")],
  ["returned estimates, states"])

p("C25", "Simulated ratios reflect only noise",
  "The ratio simulation evaluates candidates of models refitted to noisy copies of the model's own predictions: without noise and with an identified model it yields exactly the ratio one (or the convention for zero expected improvement), it returns one finite-or-signed-infinite ratio per requested draw, it evaluates no criterion, uses only the supplied generator, and ignores correlations if so requested.",
  ["inputs", "configurations"],
  "all models, samples, regions, noise covariances and options",
  "One statistical smoke test.",
  ["rho_noise.py", "acceptance_decision.py"],
  [("ratio simulation", "rho_noise.py")],
  ["returned ratios, calls of the supplied fitter and subsolver"])

p("C26", "Acceptance sample sizes attain the requested power within limits",
  "The numbers of evaluations for the current point and the candidate are integers within the configured limits, counting already existing evaluations of the current point. Unless capped by a limit they are the smallest ones for which the standard two-sample test at the requested confidence detects the expected improvement with the requested power; they never decrease when noise or power increase or the expected improvement shrinks.",
  ["inputs", "configurations"],
  "all noise levels, expected improvements, existing evaluations, confidence and power levels and limits",
  "Tests check one formula value.",
  ["acceptance_sample_size.py"],
  [("optimal allocation", "acceptance_sample_size.py")],
  ["returned sample sizes against an independent power calculation"])

p("C27", "Geometry utilities: exploration samples, volumes, poisedness",
  "Exploration samples have the requested size, lie within the bounds, follow the requested distribution and are reproducible by seed; volume and radius functions are inverse to each other and consistent between spheres and cubes. The log d-quality of a sample is the log determinant of the cross product of its coordinates relative to the region. The poisedness constant of a sample is the largest absolute value that its Lagrange polynomials attain over the region, at the reported maximizer, and the improvement routine returns a sample inside the region without changing its input.",
  ["inputs", "configurations"],
  "all bounds, sample sizes, methods, distributions, dimensions, radii and samples",
  "Tests use fixed samples and three digits.",
  ["exploration_sample.py", "volume.py", "poisedness.py", "geometry.py"],
  [("utilities", "poisedness.py")],
  ["returned values against independent computation"])

p("C28", "Linear trust-region subproblems are solved exactly within bounds",
  "For every linear model, bounds containing the center and positive radius, the linear trust-region solver returns a finite point inside the bounds and the ball that minimizes the model over their intersection, also if several bounds are active, infinite or touch the center, or if gradient entries are zero. The geometry step returns the feasible point with the largest absolute value of the linear polynomial around a center, and refuses centers outside of the bounds. Models, bounds and centers are not modified.",
  ["inputs"],
  "all gradients, intercepts, centers, bounds and radii over many orders of magnitude",
  "There are no tests of these solvers; failures need particular patterns of active bounds.",
  ["subsolvers/linear_subsolvers.py"],
  [("linear trsbox and geometry step", "subsolvers/linear_subsolvers.py")],
  ["returned points against an exact solution by root search"])

p("C29", "The estimagic interface and diagnostic plots reflect the run",
  "Minimizing through estimagic with the algorithms tranquilo and tranquilo_ls evaluates the same points and returns the same solution, value, message and iterations as calling the optimizer directly with the same options. For every deterministic result and every selection of iterations the diagnostic figure is created without changing the results and shows the recorded run: sample points and criterion values by their role (new, existing, discarded, current), distances from the center relative to the radius, and for all iterations the ratios (cut to [-1, 3]), radii, cluster ratios and log d-quality, with the selected iteration highlighted.",
  ["histories", "configurations", "inputs"],
  "all deterministic runs, all numbers of parameters and all selections of iterations of one or several results",
  "The test only calls the plot function.",
  ["tranquilo.py", "process_arguments.py", "visualize.py", "geometry.py", "clustering.py"],
  [("interface", "process_arguments.py"), ("figure", "visualize.py")],
  ["evaluations through both interfaces, traces of the figure against recorded states"])

p("C30", "Acceptance steps in batch mode search beyond the candidate and explore around it",
  "With a batch size above one and the line search decider, every acceptance step is one batch that contains the candidate. If and only if the candidate lies close to the border of the trust region (within a tenth of its size, wherever the region is located), it also contains the points at two, four and eight times the step (as many as fit), moved into the bounds. All remaining slots are filled with points the configured sampler draws from the region of the configured relative radius around the candidate, with the original bounds and in view of all points known there and the line search. The best of all these points and the current one is accepted.",
  ["inputs", "configurations", "histories"],
  "all trust regions, candidates, batch sizes, samplers and options; all steps of runs in batch mode",
  "Tests check the helper functions on the unit square at the origin and one step with a fixed sampler.",
  ["acceptance_decision.py"],
  [("line search and speculative sampling", "acceptance_decision.py")],
  ["batches and sampler calls of acceptance steps"])

p("C31", "Equivalent formulations of a problem lead to the same run",
  "Only the criterion's values matter, not how the problem is written down. Infinite or never reached bounds act like no bounds, and values may be returned as floats, numpy scalars, lists or arrays, without any difference. For least squares criteria, flipping the signs of residuals leads to the same evaluated points, decisions and result; so do, up to rounding, reordering residuals or likelihood contributions, appending a residual that is always zero, adding a constant to a scalar criterion or to all likelihood contributions, moving the origin of the parameters (start, bounds and criterion together), and measuring parameters, bounds and radii in different units. (Convergence tolerances and default radii are absolute numbers and thus excluded: convergence tests off, radii given. Changes other than notation and units are claimed for noise-free criteria; rank-deficient fits and general-purpose fallback solvers only for signs.)",
  ["inputs", "configurations"],
  "all deterministic criteria, starts, bounds, batch sizes, samplers, filters and options, and all such changes",
  "Tests never run two formulations of the same problem; violations come from absolute thresholds or sign-dependent branches anywhere in the loop.",
  ["tranquilo.py", "fit_models.py", "handle_infinity.py", "acceptance_decision.py", "region.py", "sample_points.py", "filter_points.py"],
  [("optimization loop", "tranquilo.py"), ("scaling to the trust region", "region.py"), ("infinite values", "handle_infinity.py")],
  ["evaluated points of both runs"])

p("C32", "Short steps improve the model as configured before a candidate is tried",
  "In every iteration, as long as the model's solution is closer to the current point than the configured share of the trust region radius and more points than the target are in use, the worst point is dropped, one at a time and never the current point, and the model refitted and solved again. After that, as long as the step is shorter than the second configured share, the configured number of new points is sampled, evaluated and added to the model, replacing the same number of worst points iff dropping is on and enough points exist, at most the configured number of times. Neither happens once the step is long enough. The candidate that is tried is the last solution.",
  ["inputs", "configurations", "histories"],
  "all criteria, stagnation options, filters, sample sizes, bounds, noise and batch settings; all iterations",
  "Tests only run whole optimizations with the default options; the loops depend on lengths of steps that a test does not control.",
  ["tranquilo.py", "filter_points.py", "options.py"],
  [("dropping and adding of points in the loop", "tranquilo.py"), ("worst points", "filter_points.py"), ("stagnation options", "options.py")],
  ["fits, solutions and samples of all iterations"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
