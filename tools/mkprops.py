import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
V="src/variables/"
p("C01","Variables form groups and agree with their matrix representation",
 "For every built-in variable type (SO2, SO3, SE2, SE3, vectors of every size, IMU bias), composition is associative, the identity element is neutral on both sides, and composing an element with its inverse in either order gives the identity. Converting to a matrix is a homomorphism: the matrix of a product, inverse and identity is the product, inverse and identity of the matrices, building an element back from its matrix returns the same element, and rotation matrices are orthonormal with determinant +1. Applying a rotation or a rigid transform to a point gives exactly what its matrix gives.",
 ["inputs"],"all elements of each group: every rotation angle (tiny, near and beyond pi, both quaternion signs, every rotation-matrix trace branch), every translation, chains of many operations",
 "the unit tests check one hand-picked element per type for identity and inverse only; from-matrix branches, products of different elements and long chains are never sampled",
 [V+"so2.rs",V+"so3.rs",V+"se2.rs",V+"se3.rs",V+"vector.rs",V+"imu_bias.rs"],
 [("compose / inverse / identity of each Variable","src/variables/*.rs"),("from_matrix / to_matrix / apply of MatrixLieGroup","src/variables/*.rs")],
 ["Variable::compose, inverse, identity","MatrixLieGroup::to_matrix, from_matrix, apply"])
p("C02","Exponential and logarithm are the true matrix maps and mutual inverses",
 "For every tangent vector of every size of angle, the exponential map gives the element whose matrix is the matrix exponential of the tangent's hat matrix. For every element, however it was built (including a quaternion of either sign), the exponential of its logarithm is that same element and the logarithm's rotation part has norm at most pi; for tangents with rotation angle below pi, the logarithm of the exponential returns the tangent. For vectors and IMU biases both maps are the identity on coordinates.",
 ["inputs"],"all tangents (angles 0, 1e-12 .. beyond 2 pi, around every small-angle switch, negative angles), all elements",
 "the tests use a single tangent with every coordinate equal to 1 or 2; small-angle branches, angles beyond pi and negative-scalar quaternions are never reached",
 [V+"so2.rs",V+"so3.rs",V+"se2.rs",V+"se3.rs",V+"vector.rs",V+"imu_bias.rs"],
 [("exp / log of each Variable","src/variables/*.rs")],["Variable::exp, log"])
p("C03","Retract and local difference are exact inverses in the right convention",
 "For every element x, y and tangent d: moving x by the local difference of y from x gives y, and the local difference of x moved by d from x is d (rotation below pi). In the default configuration moving x by d is x composed with exp(d) and the local difference y minus x is log(inverse(x) y); a zero tangent moves nothing, and relative-element subtraction and the explicit right/left variants obey their defining formulas.",
 ["inputs"],"all pairs of elements and tangents of every variable type",
 "tests check one point per variable type",
 [V+"traits.rs",V+"vector.rs",V+"imu_bias.rs"],[("oplus/ominus and right/left variants, minus","src/variables/traits.rs")],["Variable::oplus, ominus, minus, oplus_right/left, ominus_right/left"])
p("C04","Hat, vee, adjoint and the exponential's right Jacobian satisfy their identities",
 "For every matrix Lie group, vee undoes hat, the hat matrices are the Lie algebra of the group, and the adjoint matrix satisfies X exp(d) inverse(X) = exp(Ad(X) d) and is multiplicative. Where provided, the swapped hat satisfies hat(d) p = swap(p) d for all d and p, and the right Jacobian J(d) satisfies exp(d + e) = exp(d) exp(J(d) e) to first order in e, for every d.",
 ["inputs"],"all tangents, elements and points, including near-zero angles",
 "tests compare with one sample; adjoint, vee and the small-angle branch are not exercised for all groups",
 [V+"so2.rs",V+"so3.rs",V+"se2.rs",V+"se3.rs",V+"traits.rs"],[("hat, vee, hat_swap, adjoint","src/variables/*.rs"),("SO3::dexp","src/variables/so3.rs")],["MatrixLieGroup::hat, vee, hat_swap, adjoint","SO3::dexp"])
p("C05","Automatic differentiation returns the true Jacobian of any residual function",
 "For every differentiable function of one to six variables, of any mix of built-in and user-defined variable types and any output dimension, the forward-mode differentiator returns exactly the function's value and the Jacobian with respect to the tangent perturbation of each variable, columns in argument order. This holds at every point, including near-zero rotations and the identity, and does not depend on what other variables the function takes.",
 ["inputs","programs"],"all functions built from the variable operations, all arities 1..6, all type mixes, all points",
 "tests cover a handful of fixed functions at one point each",
 ["src/linalg/forward_prop.rs","src/linalg/dual.rs","src/linalg/mod.rs",V+"traits.rs","src/residuals/traits.rs","factrs-proc/src/residual.rs"],
 [("jacobian_1..6","src/linalg/forward_prop.rs"),("dual_exp / dual setup","src/variables/traits.rs"),("residual wrappers of arity 1..6","src/residuals/traits.rs, factrs-proc/src/residual.rs")],
 ["Diff::jacobian_1..6 of ForwardProp","Residual::residual_jacobian"])
p("C06","Numerical differentiation and derivative helpers agree with true derivatives",
 "Central-difference differentiation of any smooth function of one to six variables returns the function's value and, up to its truncation and round-off error, the same Jacobian as exact differentiation, with each variable's columns in its own position. The scalar derivative, gradient and vector Jacobian helpers of both differentiators return the true derivative at every point.",
 ["inputs","programs"],"all smooth functions, arities and points",
 "tests never differentiate a function of several variables numerically and call only some helpers, at one point each",
 ["src/linalg/numerical_diff.rs","src/linalg/forward_prop.rs","src/linalg/mod.rs"],[("central differences","src/linalg/numerical_diff.rs"),("derivative / gradient_n / jacobian helpers","src/linalg/mod.rs")],["NumericalDiff and ForwardProp Diff methods"])
p("C07","Prior and between residuals measure exactly the documented deviation",
 "For every variable type, a prior residual at v with measurement z is the local difference of z from v, and a between residual on (a, b) with measurement z is the local difference of a composed with z from b; both vanish exactly when the variables satisfy the measurement, have the dimension of the variable, and their reported Jacobian is the derivative of that value with respect to perturbing each variable. They read the variables of the keys they were given, in order, and nothing else; when such a variable is absent or of another type, evaluation panics rather than making up a value.",
 ["inputs"],"all measurements and variable values of every variable type, any other content of the value store",
 "tests check the Jacobians against numerical differences at a single sample per type",
 ["src/residuals/prior.rs","src/residuals/between.rs","src/residuals/traits.rs"],[("PriorResidual / BetweenResidual residual functions","src/residuals/prior.rs, between.rs")],["Residual::residual, residual_jacobian"])
p("C08","Gaussian noise models whiten to the Mahalanobis norm of their covariance",
 "Every way of constructing a Gaussian noise model (scalar or per-component or matrix; standard deviation, covariance or information) yields a model for which the squared norm of a whitened vector equals the vector's Mahalanobis norm under the specified covariance, for every vector. Whitening is linear, whitening a matrix whitens each of its columns identically, constructors describing the same covariance agree, and the unit noise changes nothing.",
 ["inputs"],"all positive-definite covariances (correlated, badly scaled) and vectors, dimensions 1 to 6 and more",
 "tests construct a few diagonal cases; correlated covariances with off-diagonal order mistakes are not covered",
 ["src/noise/gaussian.rs","src/noise/unit.rs"],[("GaussianNoise constructors and whitening","src/noise/gaussian.rs")],["NoiseModel::whiten_vec, whiten_mat"])
p("C09","Robust kernels implement their documented loss and consistent weights",
 "Each robust kernel evaluates its documented loss for every squared residual and every positive parameter, is zero at zero, never negative and never decreasing; the kernels with constant asymptote documented as bounded never exceed that bound. Its weight is always the kernel's influence divided by the residual (twice the derivative of the loss with respect to the squared residual), nonnegative, finite, and non-increasing, except that the absolute-value kernel's weight is capped at 1 for squared residuals up to 0.001. Default construction is construction with the parameter 1.345 (Huber), 1.3998 (Fair, Geman-McClure), 2.3849 (Cauchy), 2.9846 (Welsch), 4.6851 (Tukey).",
 ["inputs"],"all squared residuals from 0 to huge (both sides of and at every threshold) and all positive parameters",
 "tests check derivative consistency at two residuals with default parameters",
 ["src/robust/mod.rs"],[("loss and weight of each RobustCost","src/robust/mod.rs")],["RobustCost::loss, weight, Default, new"])
p("C10","Factor error and linearisation agree with residual, noise and robust kernel",
 "For every factor, its error is the robust loss of the squared norm of the whitened residual; its linearisation's right-hand side is the negative weighted whitened residual, its blocks are the weighted whitened Jacobian of each key in the factor's key order, and the gradient of the error with respect to perturbing the variables equals minus the transposed blocks times the right-hand side. A graph's error is the sum of its factors' errors, and linearising a graph linearises every factor once, in order, at the given values.",
 ["inputs","histories"],"all factors: any residual of any arity, noise, kernel, values; any graph composed of them",
 "tests linearise one factor with a custom residual and default noise and kernel",
 ["src/containers/factor.rs","src/containers/graph.rs","src/linear/factor.rs","src/linalg/nalgebra_wrap.rs"],
 [("Factor::error / linearize, FactorBuilder","src/containers/factor.rs"),("Graph::error / linearize","src/containers/graph.rs"),("MatrixBlock","src/linalg/nalgebra_wrap.rs")],
 ["Factor::error, linearize, dim_out, keys","Graph::error, linearize","LinearFactor fields"])
p("C11","Sparse system assembly equals the dense stacked system",
 "For every graph, key ordering and variable sizes, the assembled sparse Jacobian and right-hand side equal the factor blocks written densely at the rows of each factor and the columns of each key, with the sparsity pattern covering all entries and no value lost, duplicated or misplaced. The error of a linear graph at an increment is half the squared norm of the assembled system's residual at that increment, and increments are read and written per key at the same columns.",
 ["inputs","histories"],"all graphs (any arity, any overlap of keys, mixed dimensions, unconstrained variables) and all orderings",
 "one test assembles a fixed two-variable graph",
 ["src/linear/graph.rs","src/linear/factor.rs","src/linear/values.rs","src/containers/order.rs","src/containers/graph.rs"],
 [("sparsity_pattern, residual_jacobian","src/containers/graph.rs, src/linear/graph.rs"),("LinearValues","src/linear/values.rs"),("ValuesOrder","src/containers/order.rs")],
 ["LinearGraph::residual_jacobian, error","LinearValues get, iter","ValuesOrder"])
p("C12","Every linear solver returns the solution of the system it is given",
 "For every well-posed system, the Cholesky, QR and LU solvers return the solution of a symmetric positive-definite system and the least-squares solution of a full-column-rank rectangular system. Repeated solves on one solver with new values in the same pattern give the same answers as a fresh solver, and the inputs are left unmodified.",
 ["inputs","histories"],"all sparsity patterns, sizes, conditionings and sequences of solves",
 "each solver is tested on one 3x3 system and one solve",
 ["src/linear/solvers.rs"],[("solve_symmetric / solve_lst_sq with cached symbolic factorisation","src/linear/solvers.rs")],["LinearSolver::solve_symmetric, solve_lst_sq"])
p("C13","A Gauss-Newton step is the least-squares step, applied by retraction",
 "For every well-posed graph, one Gauss-Newton step moves each variable by the retraction with its part of the minimiser of the linearised weighted least-squares problem at the current values, keeps every variable's key and type, and does so on every one of successive steps. A graph of linear residuals with quadratic kernels is solved to its exact minimiser in one step from any start.",
 ["inputs","histories"],"all graphs of priors, betweens and custom residuals with any noise and kernel, all starting values, any number of steps",
 "tests optimise three one- or two-variable problems and look at the final error only",
 ["src/optimizers/gauss_newton.rs","src/containers/values.rs","src/linear/solvers.rs","src/linear/graph.rs"],
 [("GaussNewton::step","src/optimizers/gauss_newton.rs"),("Values::oplus_mut","src/containers/values.rs")],["Optimizer::step, optimize, on_step observers"])
p("C14","A Levenberg-Marquardt step is a damped step that decreases the linear error",
 "Every accepted Levenberg-Marquardt step solves the damped normal equations for one common damping value within the configured limits (diagonal or identity damping as configured), moves the values by exactly that step, and strictly decreases the linearised error. Damping starts afresh in every optimisation, is raised by the configured factor on every attempt that does not decrease the linearised error and lowered by it on acceptance, never below the configured minimum; once it exceeds the configured maximum a step failure is reported instead of changed values.",
 ["inputs","histories"],"all graphs, starts, damping parameters and successive steps",
 "tests look at the final error of three tiny problems with default parameters",
 ["src/optimizers/levenberg_marquardt.rs","src/containers/values.rs","src/linear/graph.rs"],[("LevenMarquardt::step","src/optimizers/levenberg_marquardt.rs")],["Optimizer::step, optimize, observers, OptError"])
p("C15","The optimisation loop stops, reports and notifies exactly as specified",
 "For every optimiser and every sequence of step outcomes: the run ends successfully as soon as the error reaches the error tolerance, or the absolute or relative decrease of a step is at most its tolerance; it ends with a max-iterations error carrying the latest values after exactly the configured number of steps; step errors are passed on unchanged. Observers are called once per completed step, in order, with that step's values, and a run on already satisfied values takes no step.",
 ["histories","inputs"],"all error histories (increasing, flat, jumping), tolerances, iteration limits and failing steps",
 "no test exercises the stopping rules; they only run to convergence with default parameters",
 ["src/optimizers/traits.rs"],[("Optimizer::optimize loop","src/optimizers/traits.rs")],["Optimizer::optimize result, OptObserver calls"])
p("C16","Optimisation recovers consistent estimates however the graph is presented",
 "For any connected, anchored pose or vector graph with consistent measurements and a start within the basin, both optimisers return the true configuration; with noisy measurements they return a stationary point of the graph's error no worse than the start. The result does not depend on the order factors or values were inserted, on the key names, on the chosen linear solver, on a common rigid motion of the whole problem, or on what the same optimiser object had optimised before.",
 ["inputs","histories"],"all graphs, truths, perturbations, insertion orders, relabellings, hash orders, rigid motions, reuse histories",
 "three fixed tiny graphs are optimised, each once with a fresh optimiser",
 ["src/optimizers/","src/containers/","src/linear/"],[("optimisers end to end","src/optimizers/*.rs")],["Optimizer::optimize, Graph::error"])
p("C17","The value store behaves as a typed map under every history of operations",
 "After any sequence of insertions, typed and untyped reads, mutable updates, removals, filters and clones, the value store holds exactly what a map from key to typed value would: reads return the last inserted value iff the type matches, overwriting returns or replaces the old one, removal returns the value and only then removes it, and counts, iteration and filtering agree. Applying an increment retracts every variable by its own block, and a failed typed access changes nothing.",
 ["histories"],"all operation sequences over all keys and variable types",
 "no test covers operation sequences on the store",
 ["src/containers/values.rs","src/containers/order.rs"],[("Values","src/containers/values.rs"),("ValuesOrder::from_values","src/containers/order.rs")],["Values methods","ValuesOrder"])
p("C18","Symbols map to keys injectively and back, and print as written",
 "Distinct (letter, index) pairs with index below 2^32 give distinct keys, the same pair always gives the same key however it is written, and converting a key back yields the same letter and index for every character. Printing a symbol shows its letter followed by its index, and so does every entry of a printed value store.",
 ["inputs"],"all characters and all indices below 2^32, built-in and user-assigned symbols",
 "no test converts keys back, uses large indices or non-ASCII characters",
 ["src/containers/symbol.rs"],[("Symbol / DefaultSymbol conversions","src/containers/symbol.rs")],["Key conversions, Display/Debug"])
p("C19","Loading a g2o file builds exactly the problem the file describes",
 "For every well-formed 2D or 3D g2o text, the loaded values are the vertices' poses under their indices, and the loaded graph's error at any values equals that of one prior on the first vertex (unit weight in 2D; variance 1e-6 in rotation and 1e-4 in translation in 3D) plus, for each edge, the squared norm of the pose mismatch weighted by the file's information matrix, with the file's coordinate order respected. Fields may be separated by any whitespace, unknown lines are ignored and the order of edges does not matter.",
 ["inputs"],"all g2o files: any number and order of vertices and edges, any information matrices (correlated), any quaternion signs",
 "no test loads a file",
 ["src/utils.rs"],[("load_g20","src/utils.rs")],["utils::load_g20"])
p("C20","IMU preintegration implements the documented recursion, covariance and residual",
 "For every measurement sequence, time steps, biases, covariances and gravity, the preintegrated factor's residual at any states is the difference between the state predicted by the documented on-manifold recursion (with first-order bias correction) and the actual second state, in rotation, velocity, position, bias order, velocity and position expressed in the first pose's frame, where their covariance is propagated. Its weighting is the inverse of the covariance propagated by the documented linear recursion from the given noise densities, and its Jacobian is the derivative of that residual with respect to every one of its six variables.",
 ["inputs","histories"],"all measurement histories, time steps, noise parameters, states and biases",
 "the tests integrate two constant-motion trajectories and check prediction only; covariance is never checked",
 ["src/residuals/imu_preint/residual.rs","src/residuals/imu_preint/delta.rs","src/residuals/imu_preint/newtypes.rs","src/residuals/imu_preint/README.md"],
 [("ImuDelta integrate/propagate/predict/first-order update","src/residuals/imu_preint/delta.rs"),("ImuPreintegrator, ImuPreintegrationResidual","src/residuals/imu_preint/residual.rs")],
 ["ImuPreintegrator::integrate/build -> Factor::error, linearize"])
p("C21","IMU factors are physically consistent",
 "For measurements generated by any smooth rigid motion, the preintegrated factor's residual at the true states vanishes as the sampling interval shrinks, at first order or better. The factor's error does not change when all states are moved by a common rotation about gravity and translation, or by a common velocity change with the matching position change, and with zero gravity by any common rotation; correcting for a changed accelerometer bias gives what re-integrating with that bias would, and for a small change of the gyroscope bias it does so to first order as long as little rotation was accumulated.",
 ["inputs","histories"],"all smooth trajectories, gravity directions, biases, sampling intervals and gravity-preserving motions",
 "two constant-acceleration or constant-rate trajectories are tested",
 ["src/residuals/imu_preint/residual.rs","src/residuals/imu_preint/delta.rs","src/variables/so3.rs"],[("prediction with gravity and bias correction","src/residuals/imu_preint/delta.rs")],["Factor::error, linearize of an IMU factor"])
p("C22","The factor macro builds the same factor as the explicit builder",
 "Every documented form of the factor macro (a key as a path or call, or an array or tuple of keys; no noise or any noise-model expression; with or without a robust-kernel expression; an optional trailing comma) compiles, evaluates each of its expressions once and builds a factor with the same keys, error and linearisation as the explicit builder with the corresponding arguments, for every residual and numeric argument.",
 ["programs","inputs"],"all macro invocations of the documented grammar, all argument values",
 "tests use only a few macro forms and never compare the factor they build",
 ["factrs-proc/src/fac.rs","src/containers/factor.rs","src/noise/gaussian.rs"],[("fac! expansion","factrs-proc/src/fac.rs")],["fac! result: keys, error, linearize"])
p("C23","Visualisation conversions preserve geometry",
 "With visualisation support enabled, converting any position, rotation, pose or collection of them to the viewer's types keeps the same point, orientation and pose (to single precision) in the same axes, collections keep all elements of the requested type, two-dimensional poses map to the corresponding planar quantities, and the logging observer writes every value of its type at each step's time under its topic.",
 ["inputs","configurations"],"all variable values and collections",
 "no test touches the conversions; they are only type-checked",
 ["src/rerun.rs"],[("From conversions to viewer types","src/rerun.rs")],["From/Into to rerun types"])
p("C24","Alternative configurations (left updates, decoupled exponential) stay consistent",
 "In each supported build configuration (left-hand updates, decoupled translation exponential, and both) the local difference still inverts the retraction for every element, left-hand updates compose on the left and the decoupled exponential leaves translations unscaled, automatic differentiation still returns the true derivative of every residual with respect to the configured perturbation, and optimisation still recovers consistent estimates.",
 ["configurations","inputs"],"each feature combination, all elements, residuals and graphs",
 "the test suite runs in the default configuration only",
 ["src/variables/traits.rs","src/variables/se2.rs","src/variables/se3.rs","src/linalg/forward_prop.rs","src/optimizers/"],
 [("feature-gated oplus/ominus, exp/log","src/variables/traits.rs, se2.rs, se3.rs")],["Variable::oplus, ominus, exp, log","ForwardProp","Optimizer::optimize"])
p("C25","Serialisation round-trips graphs and values",
 "With serialisation enabled, writing any graph or value store and reading it back yields one with the same keys, values, factors, error and linearisation.",
 ["inputs","configurations"],"all graphs and values",
 "the serialisation test is not built in this environment",
 ["src/containers/","factrs-proc/src/variable.rs","factrs-proc/src/residual.rs","factrs-proc/src/noise.rs"],[("tagged (de)serialisation","factrs-proc/src/*.rs")],["serde of Graph and Values"])
p("C26","Single-precision and multithreaded builds give the same answers",
 "Built with single precision, every operation of the library (group operations, exponential and logarithm, moves and differences, prior and between residuals with their Jacobians away from near-zero and half-turn rotation differences, noise whitening, robust losses and weights, linear solvers on well-conditioned systems, g2o loading) returns what exact arithmetic gives up to single-precision rounding, and both optimisers still recover consistent pose and vector graphs with their default settings. Built with multithreading, all of these give the default build's results up to rounding, for small and large systems alike.",
 ["configurations","inputs"],"each of the two builds, all elements, factors, well-conditioned systems and consistent graphs",
 "the test suite runs in the default configuration only; rounding-dependent behaviour needs many inputs",
 ["src/lib.rs","src/variables/","src/noise/gaussian.rs","src/robust/mod.rs","src/linear/solvers.rs","src/optimizers/","src/utils.rs"],
 [("dtype-generic arithmetic, feature-gated parallelism","src/lib.rs, src/variables/*.rs, src/linear/solvers.rs")],["Variable operations, Residual, Factor, LinearSolver, Optimizer::optimize, load_g20 in the f32 and rayon builds"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
