import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],**({"observe_at":observe} if observe else {}))))
U="smt/utils/"; S="smt/surrogate_models/"; A="smt/applications/"
p("P01","Options only ever hold declared names and permitted values",
 "Whatever sequence of declarations, assignments, bulk updates, reads and copies is performed, an options store only contains declared names, and every value it holds is the declared default or satisfies the declaration (one of the permitted values, or of a permitted type). Setting an undeclared name or an impermissible value, and reading an undeclared name, is rejected with an error and leaves every stored value as it was; reading returns the value last accepted. A declaration whose (given) default it does not permit is rejected in the same way. A bulk update performs its assignments one after the other, so entries before a rejected one stay accepted. A copy of a store holds the same values, and later assignments to either do not affect the other.",
 ["inputs","histories"],"all declarations (values and/or types given or not), all keys and values, all sequences of operations",
 "The tests set a handful of valid options; the guarantee is an invariant over every operation sequence, key and value, including rejected ones.",
 [U+"options_dictionary.py"],[("OptionsDictionary","smt/utils/options_dictionary.py")])
p("P02","Training data are stored as private, shape-checked copies",
 "For every model on the shared training store (the surrogate-model base class), supplying training inputs and outputs (or training derivatives) stores, under the given name, numerically equal private two-dimensional copies, so later changes to the caller's arrays do not affect the model, and other names and derivative directions are untouched. Inputs and outputs whose numbers of rows differ are rejected. Replacing the stored outputs or derivatives of existing data keeps the inputs, and is rejected, without changing any stored data, when none are stored or the number of rows differs.",
 ["inputs","histories"],"all array sizes, one- or two-dimensional inputs, all names and derivative directions, all sequences of set/update calls",
 "Aliasing and rejection paths are not asserted by any test; the guarantee covers every shape and call history.",
 [S+"surrogate_model.py"],[("set/update_training_*","smt/surrogate_models/surrogate_model.py")])
p("P03","Prediction calls validate their input and dispatch faithfully",
 "For every model on the shared prediction interface (the surrogate-model base class; MGP, VFM and the mixture of experts define their own entry points), evaluating values, derivatives, variances or output derivatives at points with the wrong number of columns is rejected before the model is evaluated, as is a quantity the model does not declare to support. Otherwise the result is exactly what the model computes for those points (a one-dimensional input being read as rows of a column), shaped as one row per point and one column per output, and the caller's array is left unmodified.",
 ["inputs","configurations"],"all point counts, dimensions, output counts and declared feature sets",
 "Tests call each model with one well-formed array; wrong dimensions, unsupported features and input aliasing are never exercised systematically.",
 [S+"surrogate_model.py",U+"checks.py"],[("predict_*","smt/surrogate_models/surrogate_model.py"),("check_support, check_nx, check_2d_array","smt/utils/checks.py")])
p("P04","Samples have the requested size and lie in the requested box",
 "Every sampling method, asked for a positive number of points on given per-dimension limits (lower not above upper), returns exactly that number of rows and one column per dimension (except where the method documents otherwise), each coordinate lying within that dimension's limits (up to rounding). Criteria that are undefined for the requested number of points or dimensions (a smallest distance needs two points, a correlation two dimensions and three points) are excepted. The mapping from the unit cube to the limits is the per-column affine map sending 0 to the lower and 1 to the upper limit, and the limits passed by the caller are not modified.",
 ["inputs"],"all limits, dimensions, numbers of points and random seeds",
 "Tests draw a few samples on one box; bounds for every limit, dimension and seed cannot be sampled.",
 ["smt/sampling_methods/sampling_method.py","smt/sampling_methods/random.py","smt/sampling_methods/lhs.py","smt/sampling_methods/full_factorial.py"],[("SamplingMethod.__call__, ScaledSamplingMethod._compute, scale_to_xlimits","smt/sampling_methods/sampling_method.py")])
p("P05","Latin hypercube optimisation keeps the Latin property",
 "A Latin hypercube sample has, in every dimension, exactly one point per equal-width cell for the plain, centred and optimised criteria. The optimisation step that exchanges coordinates only ever permutes values within one column, so each column keeps exactly its values, and the incrementally updated space-filling measure equals the measure recomputed from scratch for the exchanged sample. The optimiser returns a design at least as good as its starting design, which it leaves untouched, and never forgets the best design it has accepted. The space-filling measure is the inverse-power sum of pairwise distances it is documented to be.",
 ["inputs","histories"],"all sample sizes, dimensions, exponents, starting designs and random exchange sequences",
 "Randomised search visits unboundedly many designs; tests only check that some sample has the right shape.",
 ["smt/sampling_methods/lhs.py"],[("_maximinESE, _PhiP, _PhiP_exchange, _ese","smt/sampling_methods/lhs.py")])
p("P06","Full factorial samples are complete grids",
 "For limits with the lower below the upper, a full factorial sample is a prefix of a complete grid: it has exactly the requested number of distinct points, each coordinate is one of the equally spaced levels of its dimension (including both limits when there is more than one level), and the level counts multiply to at least the requested number. With the clip option (round up to the complete grid) the whole grid is returned, every combination of levels occurring exactly once.",
 ["inputs","configurations"],"all numbers of points, dimensions, weights and clip settings",
 "Tests check one small grid.",
 ["smt/sampling_methods/full_factorial.py"],[("FullFactorial._compute","smt/sampling_methods/full_factorial.py")])
p("P07","Nested Latin hypercube designs are nested with doubling sizes",
 "A nested design for a given number of fidelity levels returns one design per level, ordered from the cheapest to the most expensive, where each level has half as many points as the previous one and the last has the requested number, and every point of a more expensive level is also a point of every cheaper level. All points lie within the limits.",
 ["inputs"],"all numbers of levels, points, dimensions, limits and seeds",
 "Tests check sizes for one configuration; nestedness for all seeds is not asserted.",
 [A+"mfk.py"],[("NestedLHS.__call__","smt/applications/mfk.py")])
p("P08","Mixed-integer encoding, projection and decoding agree",
 "For every list of float, integer and categorical variables, expanding points to the relaxed space and folding them back returns the original points, the relaxed space has one column per non-categorical variable plus one per category level, and its limits enclose every feasible encoding. Projecting any relaxed point gives a feasible one (integer columns integral, each categorical block one-hot on its largest entry), leaves float columns unchanged, and projecting twice equals projecting once. Inconsistent variable specifications are rejected.",
 ["inputs","configurations"],"all type lists, limits, level counts and point arrays, including ties",
 "Tests use two or three fixed specifications; block offsets depend on every prefix of the type list.",
 [A+"mixed_integer.py"],[("cast_to_discrete_values, fold_with_enum_index, unfold_with_enum_mask, unfold_xlimits_with_continuous_limits, check_xspec_consistency","smt/applications/mixed_integer.py")])
p("P09","A mixed-integer model sees only projected points",
 "A model wrapped for mixed-integer use is trained on the (expanded) feasible training inputs with the outputs and name unchanged, and its values and variances at any points equal those of the wrapped model at the projection of the (expanded) points. Hence two points with the same projection get the same prediction. Mixed-integer sampling returns only feasible points.",
 ["inputs","configurations"],"all type lists, points, wrapped models and both input encodings",
 "Requires comparing through the projection for all points and both encodings, which no test does.",
 [A+"mixed_integer.py"],[("MixedIntegerSurrogateModel, MixedIntegerSamplingMethod","smt/applications/mixed_integer.py")])
p("P10","Optimisation returns the best of truly evaluated points",
 "The efficient global optimiser returns a point and value that occur together in the returned history, whose value is the minimum over that history. Every history entry pairs a point with the value of the objective at that same point (of feasible points when variables are discrete), the initial design is its prefix, and each completed iteration adds exactly the number of parallel points.",
 ["inputs","histories","configurations"],"all objectives, initial designs, criteria, parallel settings and iteration counts",
 "The pairing of points and values is an invariant of the optimisation loop; tests only compare the final optimum with a known value on a few functions.",
 [A+"ego.py"],[("EGO.optimize, _setup_optimizer, _evaluate","smt/applications/ego.py")])
p("P11","Infill criteria and virtual points follow their formulas",
 "Expected improvement at a point equals (best - mean) times the normal distribution function plus standard deviation times the normal density at the standardised improvement, is zero where the predicted variance is zero, and is never negative; the confidence-bound and predicted-mean criteria equal mean minus three standard deviations and the mean. Virtual values for parallel enrichment equal the minimum of the data for the min strategy, and the prediction plus a strategy-specific multiple of the standard deviation otherwise.",
 ["inputs","configurations"],"all predictions, variances, best values and strategies",
 "Only end-to-end optima are tested; criteria values are not.",
 [A+"ego.py"],[("EI, SBO, UCB, _get_virtual_point","smt/applications/ego.py")])
p("P12","Kriging building blocks match their definitions",
 "Standardisation is invertible (scaled data times scale plus offset gives the data back, with constant columns left finite); the pairwise difference table lists every unordered pair exactly once with the matching indices; and each correlation function equals its formula, is 1 at zero distance and within (0,1] for nonnegative parameters where documented. Component-wise distances and their derivatives, and the regression bases, equal their defining formulas for every size and option.",
 ["inputs","configurations"],"all data sizes, dimensions, parameters and kernel choices",
 "Tests evaluate a few kernels at fixed points; the guarantee is for all sizes, pairs and parameters.",
 [U+"kriging_utils.py"],[("standardization, cross_distances, squar_exp, abs_exp, matern32, matern52, componentwise_distance, differences, constant, linear, quadratic","smt/utils/kriging_utils.py")])
p("P13","Kriging derivatives are the derivatives of the kriging mean",
 "For every trained kriging-type model, kernel and regression choice that supports derivatives, the predicted derivative in direction k equals the partial derivative of the predicted mean with respect to input k at every point where the mean is differentiable. The same holds for the models' predicted variance and its reported derivatives.",
 ["inputs","configurations"],"all training sets, hyper-parameters, prediction points, directions, kernels and regressions",
 "Tests compare with finite differences at a few points for default options.",
 [S+"krg_based.py",U+"kriging_utils.py"],[("_predict_values, _predict_derivatives, _predict_variances, _predict_variance_derivatives","smt/surrogate_models/krg_based.py")])
p("P14","Kriging variance is the best linear unbiased predictor's variance",
 "For every trained kriging model, kernel and regression choice, the predicted variance equals process variance times one minus the correlation reduction plus the regression-uncertainty term of universal kriging, clipped at zero, so it is never negative. It is zero (up to rounding) at noise-free training points.",
 ["inputs","configurations"],"all training sets, hyper-parameters, points, kernels and regressions",
 "Tests look at variance only for the constant regression on one data set.",
 [S+"krg_based.py"],[("_predict_variances","smt/surrogate_models/krg_based.py")])
p("P15","Kriging likelihood derivatives match the likelihood",
 "The gradient with respect to the correlation parameters of the concentrated log-likelihood used for hyper-parameter search equals the derivative of the log-likelihood the model computes, for every data set, regression and parameter value at which the correlation matrix is positive definite, and the Hessian equals the derivative of that gradient. The kernel derivative tables used for it equal the first and second partial derivatives of the kernel.",
 ["inputs","configurations"],"all data, parameters and kernels that support it",
 "Finite-difference tests cover a single data set and kernel.",
 [S+"krg_based.py",U+"kriging_utils.py"],[("_reduced_likelihood_function, _reduced_likelihood_gradient, _reduced_likelihood_hessian","smt/surrogate_models/krg_based.py"),("kernel gradient and hessian branches","smt/utils/kriging_utils.py")])
p("P16","Inverse-distance weighting interpolates with convex weights",
 "Away from training points the inverse-distance prediction is the average of training outputs with weights proportional to the inverse distance to the chosen power, so weights are nonnegative and sum to one and predictions stay within the range of the outputs; at a training point it returns that point's output. Reported derivatives with respect to inputs equal the derivatives of the prediction, and derivatives with respect to outputs equal the weights.",
 ["inputs"],"all training sets, points, powers and output counts",
 "Tests check accuracy on two functions; convexity and exactness hold for every data set.",
 [S+"idw.py","smt/src/idw/idw.cpp"],[("IDW","smt/src/idw/idw.cpp"),("IDW wrapper","smt/surrogate_models/idw.py")])
p("P17","Radial basis predictions and derivatives follow the basis expansion",
 "A radial-basis prediction is the sum over training points of a Gaussian of the scaled squared distance times its weight, plus the chosen polynomial terms, where weights satisfy the interpolation system at the training data. Reported derivatives with respect to inputs equal the derivatives of the prediction for every point, direction, scale and polynomial degree, and derivatives with respect to outputs reproduce the prediction when multiplied with the outputs.",
 ["inputs","configurations"],"all training sets, points, scales and degrees",
 "Tests check accuracy for one configuration.",
 [S+"rbf.py","smt/src/rbf/rbf.cpp"],[("RBF","smt/src/rbf/rbf.cpp"),("RBF wrapper","smt/surrogate_models/rbf.py")])
p("P18","Spline and cubic tensor bases are consistent",
 "Tensor-product spline basis rows address only existing control points, are nonnegative and sum to one for every parameter in the unit box, and their first and second derivative rows are the derivatives of the value rows. The cubic Hermite basis rows likewise address only existing coefficients and are exact derivatives of one another, and interpolate nodal values and slopes.",
 ["inputs","configurations"],"all parameter points, orders, control-point and element counts, dimensions and derivative directions",
 "Index arithmetic and recursions must be right for every order, count and span; tests run a couple of grids.",
 ["smt/src/rmts/rmtb.cpp","smt/src/rmts/rmtc.cpp","smt/src/rmts/rmts.cpp","smt/src/rmts/utils.cpp"],[("compute_knot_vector_uniform, compute_basis_*, compute_jac","smt/src/rmts/rmtb.cpp"),("compute_jac","smt/src/rmts/rmtc.cpp")])
p("P19","Energy-minimising splines optimise a consistent objective",
 "The objective minimised when training the regularised tensor splines, its gradient and its Hessian are consistent: the gradient is the derivative of the objective and the Hessian the derivative of the gradient for every coefficient vector, approximation order and weight. Predicted derivatives equal the derivatives of predictions, with the input scaling included, inside the box and, when linear extrapolation is enabled, also outside it. Training-derivative data enter with their own weights whatever the order in which the data are given, and output derivatives are the sensitivities of the minimiser of each output's own objective.",
 ["inputs","configurations"],"all coefficient vectors, training sets, weights and approximation orders",
 "Consistency must hold for every vector and option; tests only compare final accuracy.",
 [S+"rmts.py",S+"rmtb.py",S+"rmtc.py"],[("_opt_func, _opt_grad, _opt_hess, _compute_approx_terms, _compute_energy_terms, _predict_*","smt/surrogate_models/rmts.py")])
p("P20","Polynomial models reproduce the least-squares polynomial",
 "The linear and quadratic models predict, for every point, the affine or full quadratic polynomial with the fitted coefficients, each monomial of degree at most one or two occurring exactly once. The coefficients solve the least-squares normal equations, and reported derivatives equal the derivatives of the prediction for every direction and number of outputs.",
 ["inputs"],"all training sets, dimensions, output counts and points",
 "The monomial indexing must be a bijection for every dimension; tests use one or two dimensions.",
 [S+"ls.py",S+"qp.py"],[("LS","smt/surrogate_models/ls.py"),("QP, _response_surface, _predict_derivatives","smt/surrogate_models/qp.py")])
p("P21","Variable-fidelity bridges combine predictions correctly",
 "The bridge model's prediction equals the low-fidelity prediction plus the discrepancy prediction (additive bridge) or times the ratio prediction (multiplicative bridge), where the discrepancy or ratio model is trained on the corresponding combination at the high-fidelity points. Its reported derivatives are the derivatives of that combination, and the user's option dictionaries are left unchanged.",
 ["inputs","configurations"],"all data, bridge types, underlying models, points and directions",
 "Tests check the final error only for fixed model choices.",
 [A+"vfm.py"],[("VFM._train, _predict_values, _predict_derivatives, _new_train","smt/applications/vfm.py")])
p("P22","Mixture of experts recombines experts with membership probabilities",
 "Cluster membership probabilities are nonnegative and sum to one at every point; the smooth prediction is the membership-weighted sum of the experts' predictions (variance: squared weights), and the hard prediction is that of the expert with the largest membership. The split of the data into validation and training parts is a partition, the chosen expert for a cluster has the smallest validation error among the enabled experts, and only experts permitted by the allow/deny settings and by the requested features are enabled.",
 ["inputs","configurations"],"all data sets, numbers of clusters, experts, points and option settings",
 "Tests check final accuracy on a few functions.",
 [A+"moe.py"],[("_proba_cluster, _predict_hard_output, _predict_smooth_output, _extract_part, _find_best_model, _select_expert_types","smt/applications/moe.py")])
p("P23","Benchmark problems return true derivatives and correct shapes",
 "For every benchmark problem and dimension, requesting a derivative in direction k returns the partial derivative with respect to input k of the value the problem returns without a direction, at every point where the problem is differentiable. Values match the documented formula, the result has one row per point and one column, wrong dimensions or out-of-range directions are rejected, and the caller's points are not modified.",
 ["inputs","configurations"],"all problems, dimensions, points and directions",
 "Tests compare a few random points with finite differences for some problems.",
 ["smt/problems/problem.py","smt/problems/sphere.py","smt/problems/branin.py","smt/problems/rosenbrock.py","smt/problems/cantilever_beam.py","smt/problems/robot_arm.py","smt/problems/welded_beam.py","smt/problems/water_flow.py","smt/problems/wing_weight.py","smt/problems/torsion_vibration.py","smt/problems/tensor_product.py","smt/problems/lp_norm.py","smt/problems/reduced_problem.py"],[("Problem.__call__ and each _evaluate","smt/problems/")])
p("P24","Gradient-enhanced network gradients are exact",
 "For every network size, activation, parameter value and data set, the forward Jacobian equals the derivative of the network output with respect to its inputs, and the back-propagated gradients equal the derivatives of the training cost (data, derivative-matching with any weight between 0 and 1, and regularisation terms) with respect to every weight and bias. Activation first and second derivatives equal the derivatives of the activation.",
 ["inputs","configurations"],"all layer counts and sizes, parameters, data, regularisation and gradient-enhancement weights",
 "Gradient checks in the tests use a single network and weight one.",
 [U+"neural_net/activation.py",U+"neural_net/fwd_prop.py",U+"neural_net/bwd_prop.py",U+"neural_net/loss.py"],[("L_model_forward, L_grads_forward","smt/utils/neural_net/fwd_prop.py"),("L_model_backward","smt/utils/neural_net/bwd_prop.py"),("lse","smt/utils/neural_net/loss.py")])
p("P25","Network data handling neither loses nor alters data",
 "Normalising data and converting predictions and derivatives back are exact inverses (with the chain-rule scale for derivatives) whenever the data are not constant. Random mini-batches of any size form a partition of the training examples, keeping inputs, outputs and derivatives of an example together. Conversions between the surrogate layout and the network layout are inverse.",
 ["inputs"],"all data sizes, batch sizes, seeds and data",
 "Partition and inverse properties hold for every size; tests use one.",
 [U+"neural_net/data.py",S+"genn.py",U+"neural_net/model.py"],[("normalize_data, random_mini_batches","smt/utils/neural_net/data.py"),("smt_to_genn, _predict_*","smt/surrogate_models/genn.py")])
p("P26","Line searches return steps that satisfy their decrease conditions",
 "Whenever a line search returns a point, it lies on the search line at a step satisfying the stated sufficient-decrease condition (and, for the bracketing searches, the strong curvature condition) with respect to the objective at the start. The backtracking search returns the first step in the sequence initial step times powers of a constant factor that satisfies the condition. Trial steps of the bisecting and cubic searches lie in the current bracket, and a cubic interpolant without a usable minimum does not make the search fail.",
 ["inputs"],"all objectives, starting points, directions and bounds",
 "Loops over arbitrary functions; tests only run full optimisations.",
 [U+"line_search.py"],[("BacktrackingLineSearch, BracketedLineSearch, QuadraticLineSearch, CubicLineSearch, BrentLineSearch","smt/utils/line_search.py")])
p("P27","Caching is transparent",
 "Running a computation through the result cache yields the same stored result as running it directly: when a result for an identical input exists it is loaded unchanged, otherwise the computation is run and its result saved. With caching disabled no file is touched and a result is always recomputed, and results stored for different inputs are never confused.",
 ["inputs","histories","configurations"],"all inputs, results, directories and call histories",
 "Histories of hits and misses for different inputs are not tested.",
 [U+"caching.py"],[("cached_operation","smt/utils/caching.py")])
p("P28","Multi-fidelity kriging predicts by the autoregressive recursion",
 "The multi-fidelity prediction at each level equals the scaling regression times the prediction of the level below plus the kriging correction of that level, and predicted derivatives equal the derivatives of the predicted values. Data for missing or misordered fidelity levels and inconsistent dimensions are rejected.",
 ["inputs","configurations"],"all numbers of levels, data sets, points, directions and regressions",
 "Tests use two levels on one function.",
 [A+"mfk.py"],[("MFK._predict_values, _predict_intermediate_values, _predict_derivatives, _check_list_structure","smt/applications/mfk.py")])
p("P29","Accuracy measures are relative root-mean-square errors",
 "The root-mean-square error helper returns the norm of the difference between predicted and reference values divided by the norm of the (non-zero) reference, for validation data, training data or a given derivative direction, so that it is zero exactly when predictions match. Requesting a derivative direction compares derivatives, not values.",
 ["inputs","configurations"],"all data and requested directions",
 "Used by all tests as the oracle, but itself never tested.",
 [U+"misc.py"],[("compute_rms_error","smt/utils/misc.py")])
p("P30","Silenced operation prints nothing and timing nests correctly",
 "With printing disabled no status line, title or timing output reaches standard output during training or prediction of models on the shared interface (warnings about degenerate data aside), and enabling or disabling printing never changes any computed result. The nesting depth of timed sections is the same after every operation, completed or failed, as before it.",
 ["inputs","histories","configurations"],"all operations and printing settings",
 "Tests never inspect the output streams or depth.",
 [U+"printer.py"],[("Printer","smt/utils/printer.py")])
p("P31","Linear solvers return a solution of the given system",
 "For every nonsingular system and right-hand side, the direct solvers (dense LU, dense Cholesky for positive definite matrices, sparse LU, and multigrid without coarse levels, as the models use it) return the solution of the given system, also written into the caller's solution array, whatever its memory layout, when one is given. A Krylov solver runs the chosen iteration on exactly the given system from the given start with the configured tolerance, and returns its result; the preconditioner, built from the same matrix, changes only the cost. Each sweep of a stationary solver adds the damped diagonal or lower-triangular solve of the residual, so a solution is a fixed point for every damping, as it is of a coarse-level correction; a solver used on multigrid levels keeps its configured options. A solver object used before solves the system it was set up with last, also when that is the same array with new content. Neither the matrix nor the right-hand side is modified.",
 ["inputs","configurations"],"all systems, right-hand sides and solver choices",
 "Tests solve a single system per solver.",
 [U+"linear_solvers.py"],[("get_solver and solver classes","smt/utils/linear_solvers.py")])
p("P32","A model trained again is the model of its current data",
 "Training a model object that was trained and used before - with other points, another number of points or outputs - yields the same model as training a fresh object with the same options on the current data: predictions, derivatives and variances agree, and every quantity kept from training (scaling, distances, regression matrix, projection, correlation parameters, weights) is that of the current data. Training leaves the user's settings (number of components, start parameters, kernel, trend) as they were, also when it fails.",
 ["inputs","histories"],"all models with deterministic training, data sets and sequences of trainings",
 "Tests train every model object once; stale state or overwritten options show only in a second training.",
 [S+"krg_based.py",S+"kpls.py",S+"kplsk.py",S+"idw.py",S+"rbf.py",S+"qp.py",S+"ls.py"],[("_new_train, train","smt/surrogate_models/krg_based.py"),("SurrogateModel.train","smt/surrogate_models/surrogate_model.py")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,x['id']
print(len(P))
