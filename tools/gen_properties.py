import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
S="src/tranquilo/"
p("C01","Every evaluated point respects the user's bounds",
 "Whenever the start vector lies inside the user's lower and upper bounds, every parameter vector at which the criterion is ever evaluated lies inside those bounds exactly, component by component. This covers sampled points, solutions of the trust-region subproblem, line-search points and speculative samples, for two-sided, one-sided and infinite bounds alike.",
 ["inputs","configurations","histories"],"all criteria, start vectors, bounds, option settings and all iterations of a run",
 "The tests run a handful of smooth functions with no or wide bounds; whether a point leaves the bounds depends on the history of the run, on which bounds bind and on rounding.",
 [S+"region.py",S+"sample_points.py",S+"solve_subproblem.py",S+"acceptance_decision.py",S+"tranquilo.py"],
 [("cube bounds are the intersection of the trust region and the bounds",S+"region.py:_create_cube_bounds"),("clipping when mapping back from the unit cube",S+"region.py:Region.map_from_unit"),("points on or inside the unit hull",S+"sample_points.py"),("clipping of the subproblem solution",S+"solve_subproblem.py:_solve_subproblem_template")],
 observe_at=["arguments of every call to the user's criterion"])
p("C02","The reported solution is an evaluated point with its recorded value",
 "The solution vector a run returns is one of the points it evaluated, and the solution value is the value recorded for that point (for a noise-free criterion: the criterion value there). For a noise-free criterion and a non-negative minimum improvement the value of the accepted point never increases from one iteration to the next, so the solution is never worse than the start; every iteration's record describes the point it says it describes.",
 ["inputs","histories","configurations"],"all criteria (including ones returning NaN, infinities or raising), start points and iteration histories",
 "Tests compare the final vector with a known optimum on easy functions; they do not look at the relation between the point, its index and its value along a run.",
 [S+"tranquilo.py",S+"acceptance_decision.py",S+"history.py"],
 [("state update from the acceptance result",S+"tranquilo.py:_internal_tranquilo"),("acceptance result",S+"acceptance_decision.py:_get_acceptance_result")],
 state=[{"name":"State","meaning":"index, x and fval of the accepted point","where":S+"tranquilo.py:State"}])
p("C03","A candidate is accepted exactly when it improves enough",
 "In every iteration the trial point becomes the new iterate if and only if its (mean) criterion value is finite and improves on the current value by at least the required minimum; otherwise the iterate, its value and its index are left unchanged and the step length is zero. The reported improvement ratio equals actual over expected improvement (plus or minus infinity when nothing was expected), and a trial point with a non-finite value yields a ratio of minus infinity.",
 ["inputs","histories"],"all current values, trial values (finite or not), expected improvements and required improvements, for every acceptance strategy",
 "Tests sample two or three value combinations; the boundary cases (equality, zero expectation, infinities) and the agreement of the strategies hold for every input.",
 [S+"acceptance_decision.py"],
 [("simple, noisy and line-search acceptance",S+"acceptance_decision.py:_accept_simple, accept_noisy, accept_classic_line_search"),("rho",S+"acceptance_decision.py:calculate_rho"),("result assembly",S+"acceptance_decision.py:_get_acceptance_result")])
p("C04","The trust-region radius follows its rule and stays within its limits",
 "After every iteration the trust-region radius lies between the configured minimum and maximum radius, and with an initial radius inside these limits it always has been. It is multiplied by the expansion factor exactly when the improvement ratio reaches the expansion threshold and the step was large relative to the radius, left alone when the ratio reaches the lower threshold or the number of evaluations was just increased, and multiplied by the shrinking factor otherwise, before being clipped to the limits.",
 ["inputs","histories","configurations"],"all radii, ratios (including infinities), step lengths and option values, and all iterations",
 "Tests check a few parameter combinations of the update and never the limits over a whole run.",
 [S+"adjust_radius.py",S+"tranquilo.py",S+"process_arguments.py"],
 [("radius update",S+"adjust_radius.py:adjust_radius"),("initial radius",S+"options.py:get_default_radius_options")])
p("C05","The evaluation history is an append-only, correctly indexed store",
 "Adding parameter vectors returns fresh consecutive indices, and looking an index up later returns exactly the vector that was stored under it, however many points were added before or after. Every evaluation is returned for the point it was recorded for, in recording order and for no other point, with the scalar value equal to the plain, summed or sum-of-squares aggregate of the recorded residuals; the counts of points and evaluations are exact, and averaged model data pairs each point with the mean of its own evaluations.",
 ["histories","inputs"],"all sequences of additions and look-ups of any length, including ones that outgrow the initial storage",
 "Tests add a few dozen entries; storage growth at 1000 rows, interleavings and repeated indices are never combined.",
 [S+"history.py"],
 [("index mapping",S+"history.py:History"),("array growth",S+"history.py:_add_entries_to_array"),("extraction",S+"history.py:_extract_from_indices")],
 state=[{"name":"xs, fvecs, fvals, index_mapper, n_xs, n_fun","meaning":"stored rows and the map from point index to evaluation rows","where":S+"history.py:History"}])
p("C06","Requested evaluations happen exactly once each and failures become +inf",
 "A request to evaluate points evaluates the criterion at each requested point exactly the requested number of times, at exactly the stored vector, and records each result under that point; no other evaluation is made or recorded. A raised exception is recorded as plus infinity in every entry of that evaluation, a NaN entry as plus infinity in that entry, infinite results keep their sign, and a failing evaluation never disturbs the results of other points in the same batch.",
 ["inputs","fault_sequences","histories"],"all requests (number of points, repetitions), all return values, and all patterns of failing evaluations, for scalar, likelihood and least-squares criteria",
 "The tests evaluate two or three points with one simple function; failure patterns in vector-valued batches are not tried.",
 [S+"wrap_criterion.py",S+"history.py"],
 [("wrapper",S+"wrap_criterion.py:get_wrapped_criterion")],
 observe_at=["calls of the user's criterion","history records"])
p("C07","Evaluation and iteration budgets bound the work done",
 "A run performs at most the configured number of iterations, and begins no second or later iteration once the number of evaluations has reached the configured maximum; in that case the message says so. Several start evaluations, and the new points sampled per iteration, come in multiples of the batch size, never fewer than needed to reach the target sample size, and each existing point is re-evaluated only up to the current number of evaluations per point.",
 ["histories","configurations","inputs"],"all budgets, batch sizes, sample sizes and run histories",
 "Tests run to convergence and look at the solution; they never count evaluations against budgets.",
 [S+"tranquilo.py",S+"process_arguments.py"],
 [("loop and stopping test",S+"tranquilo.py:_internal_tranquilo"),("rounding to batches",S+"process_arguments.py:next_multiple"),("additional evaluations",S+"tranquilo.py:_get_additional_eval_info")])
p("C08","Trust-region geometry: shape, intersection with bounds, unit mapping",
 "A trust region is a box exactly when some bound lies within one radius of its centre, and is a ball otherwise; the box has the volume-equivalent side length, cut off at the bounds, and never extends beyond them. Mapping to unit coordinates sends the region onto the unit ball or cube with the effective centre at the origin, mapping back inverts it for every point of the region, and the effective centre and radius describe the same affine map.",
 ["inputs"],"all centres, radii and bounds (two-sided, one-sided, missing, infinite) in every dimension, and all points",
 "Tests use dimension two and three with a few fixed bounds; one-sided bounds are not tested at all.",
 [S+"region.py",S+"bounds.py",S+"volume.py"],
 [("shape selection",S+"region.py:_any_bounds_binding"),("box",S+"region.py:_get_cube_bounds"),("mapping",S+"region.py:Region.map_to_unit, map_from_unit")])
p("C09","Subproblem solutions are feasible and never predicted to be worse",
 "Whatever the inner solver returns, the trial point handed to the main algorithm lies in the trust region, its expected improvement is non-negative, and that number is exactly the decrease the surrogate model predicts between the centre and the trial point. If the inner solver's point is predicted to be worse than the centre, the centre itself is returned with zero expected improvement and marked as unsuccessful; if the inner solver raises, the fallback result is treated in the same way or the error is re-raised, as configured.",
 ["inputs","fault_sequences","configurations"],"all surrogate models, all regions and all inner-solver outcomes, including wrong, infeasible or failing ones",
 "Tests call the built-in solvers on a few convex models; the guarantee must hold for every solver outcome.",
 [S+"solve_subproblem.py",S+"subsolvers/fallback_subsolvers.py"],
 [("solver template",S+"solve_subproblem.py:_solve_subproblem_template")])
p("C10","Moving and adding surrogate models preserves the function they represent",
 "Re-expressing a surrogate model on a different region leaves its prediction at every point of the parameter space unchanged, and the sum of two models predicts the sum of their predictions everywhere. Predicting many points at once gives the same numbers as predicting them one by one, and none of these operations changes the models it was given.",
 ["inputs"],"all coefficient arrays (with or without symmetric second-order terms), all regions (ball or box), all numbers of parameters, residuals and points",
 "Tests use small fixed examples, mostly with equal scales; the identity is polynomial in every coefficient and must hold in every dimension.",
 [S+"models.py"],
 [("shift and scale",S+"models.py:move_model"),("prediction",S+"models.py:_predict_vector, _predict_scalar"),("addition",S+"models.py:add_models")])
p("C11","Aggregated models predict the aggregate of the residual models",
 "For least-squares problems the aggregated scalar model's prediction at every point equals the sum of squares of the residual models' predictions; for scalar and summed models it equals the (sum of the) residual predictions, and under the information equality it has the summed value and gradient and minus half the summed outer product of scores as curvature. The aggregated model carries the centre and scale of the model it was built from.",
 ["inputs"],"all coefficients, numbers of residuals and parameters, and all points",
 "Tests evaluate two or three fixed coefficient arrays.",
 [S+"aggregate_models.py"],
 [("aggregators",S+"aggregate_models.py")])
p("C12","Fitted models reproduce the least-squares fit of the data they were given",
 "The fitted model's predictions at the sample points equal the feature matrix times the estimated coefficients, each coefficient ending up at its own intercept, linear or symmetric second-order position, for every number of parameters; the second-order matrices are symmetric. The coefficients minimise the (weighted, penalised) sum of squares in the features of the unit-mapped points and the clipped values, and with residualisation the old model, moved to the new region, is first subtracted and finally added back.",
 ["inputs","configurations"],"all samples, responses, model types, fitters and penalties in every dimension",
 "Tests fit noise-free quadratics in two or three parameters; a misplaced coefficient in higher dimensions or a wrong residualisation goes unnoticed.",
 [S+"fit_models.py"],
 [("feature matrix",S+"fit_models.py:_build_feature_matrix, _quadratic_features"),("coefficients to Hessian",S+"fit_models.py:_reshape_square_terms_to_hess"),("template",S+"fit_models.py:_fitter_template")])
p("C13","Samplers return the requested number of points inside the region",
 "Every sampler returns exactly the requested number of points, each of the right dimension and inside the trust region; the hull samplers return points whose unit coordinates have norm one (Euclidean for balls, maximum norm for boxes). The optimised sampler never returns a sample whose geometry criterion is lower than that of its own starting sample, and a request for no points returns none.",
 ["inputs","configurations"],"all regions, numbers of points, existing points, random states and sampler options",
 "Tests draw a few samples in fixed regions with fixed seeds.",
 [S+"sample_points.py",S+"exploration_sample.py"],
 [("samplers",S+"sample_points.py"),("projection",S+"sample_points.py:_project_onto_unit_hull")])
p("C14","Dropping sample points keeps points and indices aligned and the iterate in",
 "Dropping points removes exactly the requested number, keeps the remaining points paired with their own indices and in their original order, and never removes the current iterate while any other point is left. Points outside the trust region are removed first, furthest away first; the size filter returns at most the configured multiple of the target size and otherwise leaves the sample untouched.",
 ["inputs","histories"],"all samples, numbers of points to drop, regions and iterates",
 "Tests drop one or two points from samples of four or five.",
 [S+"filter_points.py"],
 [("dropping",S+"filter_points.py:drop_worst_points"),("size filter",S+"filter_points.py:drop_excess")])
p("C15","Clusters partition the points and have valid centres",
 "Clustering assigns every point to exactly one cluster, numbered consecutively from zero; each cluster has exactly one centre, which is itself a member, and every member lies within the given distance of its centre. It terminates on every input.",
 ["inputs"],"all point sets and distances",
 "Tests use well separated artificial clusters.",
 [S+"clustering.py",S+"filter_points.py"],
 [("greedy clustering",S+"clustering.py:_cluster")])
p("C16","Noise-driven sample sizes stay within their configured limits",
 "The number of evaluations per point changes by at most one per iteration, rises only when too few simulated ratios are acceptable and falls only when most are high, and stays between its configured minimum and maximum once there. Acceptance tests request a whole number of evaluations at the trial point between the configured minimum and maximum, never request a negative number at the current point, and never bring the current point above the maximum by requesting more.",
 ["inputs","configurations","histories"],"all noise levels, expected improvements, existing evaluation counts, confidence levels and limits",
 "Tests check a few numeric examples.",
 [S+"adjust_n_evals.py",S+"acceptance_sample_size.py",S+"acceptance_decision.py"],
 [("adjustment",S+"adjust_n_evals.py:adjust_n_evals"),("acceptance sample sizes",S+"acceptance_sample_size.py:get_acceptance_sample_sizes")])
p("C17","Infinite criterion values are replaced by finite, clearly worse ones",
 "Before a model is fitted, every infinite entry is replaced by a finite value and every finite entry is left exactly as it is. Within each residual, a plus infinity becomes strictly larger and a minus infinity strictly smaller than every finite entry, and columns do not influence each other.",
 ["inputs"],"all arrays of criterion values of ordinary magnitude with any pattern of infinite entries (including all-infinite columns and a single finite entry)",
 "Tests use two fixed arrays.",
 [S+"handle_infinity.py",S+"fit_models.py"],
 [("clipping",S+"handle_infinity.py:clip_relative")])
p("C18","Convergence is reported exactly when an enabled criterion is met",
 "A run reports convergence only after an accepted step whose gradient, criterion change or parameter change is at or below one of the configured tolerances, and the message names a criterion that is in fact met; if any is met it does report convergence. With convergence checks disabled it never does.",
 ["inputs","configurations","histories"],"all pairs of consecutive iterates and all tolerance settings",
 "Tests check one or two tolerance settings on easy functions; which option reaches which test is never varied.",
 [S+"tranquilo.py",S+"process_arguments.py"],
 [("convergence test",S+"tranquilo.py:_is_converged"),("option processing",S+"process_arguments.py:process_arguments")])
p("C19","User options reach exactly the component and field they name",
 "Updating options changes exactly the fields the user names, converting values of another type to the declared type of the field where it has a default, leaves all other fields at their defaults, rejects unknown names with an error, and does not modify what the user passed in. A component receives exactly those of the options and call arguments it declares, with call arguments passed through unchanged and unknown component names or missing mandatory arguments rejected.",
 ["configurations","inputs"],"all option bundles, user settings, component signatures and argument patterns",
 "Tests try a few option names.",
 [S+"options.py",S+"get_component.py",S+"process_arguments.py"],
 [("option update",S+"options.py:update_option_bundle"),("component processing",S+"get_component.py:get_component")])
p("C20","Volume and radius conversions are exact inverses",
 "Converting between the radius of a ball or cube and its volume, and between a ball and the cube of equal volume, are mutually inverse for every positive radius and every dimension; the converted shape has the original's volume, times the scaling factor when one is given.",
 ["inputs"],"all positive radii, scaling factors and dimensions",
 "Tests use three radii in one to three dimensions.",
 [S+"volume.py"],
 [("conversions",S+"volume.py")])
p("C21","Runs are reproducible and free of side effects on the caller",
 "Two runs with the same inputs and seed evaluate the same points in the same order and return the same result, whatever the state of global random generators. A run changes none of the arrays, bounds and option objects the caller passed in and leaves the global random state as it was.",
 ["inputs","configurations","histories"],"all inputs, options and states of the global random generator",
 "No test runs anything twice or compares arguments before and after.",
 [S+"process_arguments.py",S+"sample_points.py",S+"subsolvers/fallback_subsolvers.py"],
 [("seeded generators",S+"process_arguments.py:_process_seed"),("option handling in samplers",S+"sample_points.py:_optimal_hull_sampler")])
p("C22","Box-constrained inner solvers return points inside the box",
 "The box-constrained subproblem solvers, compiled or not, return a point inside the given lower and upper bounds, for every quadratic model, and the fallback solvers for the ball that reparametrize it or search its inscribed cube return points of norm at most one.",
 ["inputs","configurations"],"all gradients, Hessians, bounds and solver options",
 "Tests solve a fixed set of stored models.",
 [S+"subsolvers/bntr_fast.py",S+"subsolvers/bntr.py",S+"subsolvers/fallback_subsolvers.py",S+"subsolvers/linear_subsolvers.py"],
 [("bound handling",S+"subsolvers/bntr_fast.py"),("fallbacks",S+"subsolvers/fallback_subsolvers.py")])
p("C23","Compiled and reference inner solvers compute the same function",
 "Each compiled building block of the inner solvers returns the same values as its plain reference counterpart for the same input (exact floating-point ties in a branch condition aside), so choosing the compiled solver changes speed and not results.",
 ["inputs"],"all arguments of each pair of building blocks",
 "The tests compare the pairs on one or two fixed inputs each.",
 [S+"subsolvers/bntr_fast.py",S+"subsolvers/bntr.py",S+"subsolvers/gqtpar_fast.py",S+"subsolvers/gqtpar.py",S+"subsolvers/_conjugate_gradient_fast.py",S+"subsolvers/_conjugate_gradient.py"],
 [("paired implementations",S+"subsolvers")])
p("C24","Noise variances are weighted averages over nearby points only",
 "The estimated noise variance is the weighted average of the within-point sample variances (covariances) over exactly those points near the current centre that have enough evaluations, weighted by their number of evaluations, with weights summing to one; it is never negative and does not depend on any other point. At least one point is always used.",
 ["inputs","histories"],"all histories, regions and estimator options",
 "Tests use one simulated history with equal counts.",
 [S+"estimate_variance.py"],
 [("classic estimator",S+"estimate_variance.py:_estimate_variance_classic")])
p("C25","Simulated improvement ratios use the given model as the truth",
 "The noise simulation returns one ratio per draw; each draw refits on the same points with the model's own predictions plus a noise vector from the given covariance (correlations dropped when configured), and its ratio is the true model's improvement at the refitted model's optimum over the refitted model's expected improvement. Without noise every ratio equals the one for the true model.",
 ["inputs","configurations"],"all models, covariances, regions, samples and numbers of draws",
 "Tests check one noise level with one seed.",
 [S+"rho_noise.py"],
 [("simulation",S+"rho_noise.py:simulate_rho_noise")])
p("C26","Poisedness uses genuine Lagrange polynomials",
 "The polynomials whose maxima define the poisedness constant are the Lagrange polynomials of the sample: evaluating a polynomial through its intercept, linear and square terms equals its coefficients times the scaled polynomial features at every point, in every dimension. Improving a sample replaces, in each round, the point with the largest polynomial by its maximiser and changes neither the other points nor the sample passed in.",
 ["inputs"],"all samples and points in every dimension",
 "Tests use two parameters, where a transposed ordering of the second-order terms cannot be seen.",
 [S+"poisedness.py"],
 [("coefficients to matrix",S+"poisedness.py:_reshape_coef_to_square_terms"),("features",S+"poisedness.py:_scaled_polynomial_features")])
if __name__=="__main__":
    import sys
    with open("/verif/properties.jsonl","w") as f:
        for q in P: f.write(json.dumps(q)+"\n")
    import jsonschema
    sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for q in P: jsonschema.validate(q,sch); assert q["statement"].count(". ")<=2,q["id"]
    print(len(P))
