"""Regenerates /verif/properties.jsonl (kept as a script so the text stays readable)."""
import json, pathlib

P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                mechanism=[dict(name=n, where=w) for n, w in mech],
                observe_at=list(observe),
                hook_needed=None,
            ),
        )
    )


p(
    "C01",
    "Graph residual and cost equal factor-by-factor evaluation",
    "For every set of factors (any mix of factor types, noise models, static settings, parameter shapes and connectivity, including one variable used twice) and every assignment, the graph's whitened residual vector holds exactly the entries obtained by evaluating and whitening each factor on its own, none dropped, duplicated or mixed between factors, and its cost is the sum of their squares. "
    "Each factor is given the values of its own variables, in the order it lists them and in the tuple type it declares. "
    "The order of the factors, the storage order of the assignment, and whether the graph is assembled with numpy or JAX make no difference.",
    ["inputs", "programs", "configurations"],
    "all factor collections over all variable types, all assignments in all storage orders, both assembly modes",
    "Tests build seven fixed small graphs with at most two factor types and never compare the stacked computation with unstacked evaluation.",
    ["jaxfg/core/_stacked_factor_graph.py", "jaxfg/core/_factor_stack.py", "jaxfg/core/_factor_base.py"],
    [("group key: treedef of the anonymised factor plus leaf shapes", "StackedFactorGraph.make"), ("gather of flattened values by index", "FactorStack.make / compute_residual_vector"), ("named tuple wrapping", "FactorBase.build_variable_value_tuple")],
    [("factor_stacks", "stacked factors with gather indices", "StackedFactorGraph")],
    ["StackedFactorGraph.compute_whitened_residual_vector", "StackedFactorGraph.compute_cost"],
)
p(
    "C02",
    "The sparse Jacobian is the derivative of the residual",
    "For every factor graph with Gaussian noise and every assignment, the sparse matrix returned by linearisation has one row per residual entry, in the same order as the residual vector, and one column per local parameter, at the position the local storage layout gives, and equals the derivative of the whitened residual with respect to retracting each variable by a local delta. "
    "This holds for every variable type (vectors, scalars, nested values, Lie groups, user-defined manifolds whose local dimension differs from the parameter dimension), for automatic and user-supplied Jacobians, for factors that use one variable several times, and for assignments stored in another order.",
    ["inputs", "programs"],
    "all graphs over all variable and factor types, all assignments",
    "No test checks any Jacobian entry; the tests only see that a few small problems converge.",
    ["jaxfg/core/_factor_base.py", "jaxfg/core/_factor_stack.py", "jaxfg/core/_stacked_factor_graph.py", "jaxfg/core/_variables.py", "jaxfg/geometry/_factors.py", "jaxfg/geometry/_lie_variables.py"],
    [("chain rule through the retraction", "FactorBase.compute_residual_jacobians"), ("coordinates", "FactorStack.compute_jacobian_coords"), ("whitening per block", "StackedFactorGraph.compute_whitened_residual_jacobian")],
    [("jacobian_coords", "row/column of every stored value", "StackedFactorGraph")],
    ["StackedFactorGraph.compute_whitened_residual_jacobian"],
)
p(
    "C03",
    "Variable assignments behave as an immutable variable-to-value map",
    "After any sequence of creating assignments (from defaults, a full dictionary or a partial dictionary), setting values and changing the storage layout, reading a variable returns exactly the value last given to it (its type's default if none was given), through every read path: single value, dictionary, all values of a type stacked in layout order. "
    "No operation changes any other variable or any assignments object created earlier.",
    ["histories", "inputs"],
    "all operation histories over all variable types, counts and orders",
    "Tests read back one or two SE(2) values from one layout; set_value, partial dictionaries and layout changes are never checked.",
    ["jaxfg/core/_variable_assignments.py", "jaxfg/core/_storage_layout.py", "jaxfg/core/_variables.py"],
    [("flatten/unflatten at layout indices", "VariableAssignments.get_value/set_value/get_stacked_value"), ("index shuffle", "VariableAssignments.update_storage_layout"), ("copy_and_mutate", "VariableAssignments.set_value")],
    [("storage", "flat vector", "VariableAssignments"), ("storage_layout", "static metadata", "VariableAssignments")],
    ["get_value", "as_dict", "get_stacked_value", "get_variables"],
)
p(
    "C04",
    "Storage layouts partition the storage vector",
    "For every collection of distinct variables, a storage layout gives each variable a block of exactly its parameter dimension (local dimension for local layouts); the blocks are disjoint and cover the whole vector, variables of one type are contiguous from the type's recorded start in first-seen order with the right count, and iteration over variables and types is in ascending storage order. "
    "Layouts built from the same variables in the same order are equal and hash equally, different orders or kinds are distinguishable, and a graph's two layouts list exactly the variables its factors touch, in the same order.",
    ["inputs"],
    "all lists of distinct variables of any types, global and local layouts, and all factor lists",
    "Tests never inspect a layout; they use at most three variables of at most two types with equal dimensions.",
    ["jaxfg/core/_storage_layout.py", "jaxfg/core/_stacked_factor_graph.py"],
    [("bucket by type, running index", "StorageLayout.make"), ("ordered set of variables", "StackedFactorGraph.make")],
    [("index_from_variable", "start of each block", "StorageLayout")],
    ["StorageLayout fields", "StackedFactorGraph.storage_layout / local_storage_layout"],
)
p(
    "C05",
    "Retraction moves each variable by its own delta, on its manifold",
    "Retracting assignments by local deltas gives every variable exactly its own type's retraction of its own old value by its own delta, whatever the storage orders of the two objects, leaves the inputs and the layout unchanged, and is the identity for zero deltas. "
    "Lie-group variables move by right-multiplication with the exponential of the delta and remain valid group elements; vectors move by addition.",
    ["inputs", "configurations"],
    "all assignments, all deltas, all pairs of storage orders, all mixes of variable types",
    "Retraction is only exercised inside solves on one or two variable types stored in the graph's own order.",
    ["jaxfg/core/_variable_assignments.py", "jaxfg/core/_variables.py", "jaxfg/geometry/_lie_variables.py"],
    [("batched retraction per type", "VariableAssignments.manifold_retract"), ("default and Lie retraction", "VariableBase.manifold_retract, LieVariableBase.manifold_retract")],
    [],
    ["VariableAssignments.manifold_retract"],
)
p(
    "C06",
    "Sparse COO matrices agree with their dense meaning",
    "For every coordinate-format matrix (unsorted entries, explicit zeros, repeated coordinates that add up, empty rows or columns, any shape), multiplication by a vector, transposition, conversion to a dense array and conversion to and from scipy all describe the same linear map.",
    ["inputs"],
    "all coordinate lists and shapes, all vectors",
    "Tests use one 20x5 pattern without repeated entries and never call the dense conversion on repeated coordinates.",
    ["jaxfg/sparse/_sparse_matrix.py"],
    [("scatter-add", "SparseCooMatrix.__matmul__ / as_dense"), ("swapped coordinates", "SparseCooMatrix.T")],
    [],
    ["SparseCooMatrix"],
)
p(
    "C07",
    "Linear solvers solve the damped normal equations",
    "For every full-column-rank sparse A, right-hand side and damping value, the CHOLMOD solver returns the solution of (A'A + damping*I) x = ATb up to a fixed regulariser of at most about 1e-5, and the conjugate-gradient solvers solve (A'A + damping*diag(A'A)) x = ATb to their tolerance, which for the inexact variant is eta divided by the iteration number (counted from one). "
    "The answer is the same inside and outside jit.",
    ["inputs", "configurations"],
    "all full-rank sparse systems, dampings, tolerances and iteration numbers",
    "Tests solve one random 20x5 system per solver with zero damping at iteration zero.",
    ["jaxfg/sparse/_linear_solve.py"],
    [("sparse Cholesky of AA'", "CholmodSolver._solve"), ("Jacobi-preconditioned CG", "_ConjugateGradientSolver.solve_subproblem")],
    [("_cholmod_analyze_cache", "cached symbolic analyses", "jaxfg/sparse/_linear_solve.py")],
    ["solve_subproblem"],
)
p(
    "C08",
    "Results do not depend on what was solved earlier in the process",
    "In any sequence of linear or nonlinear solves in one process (different graphs that share variables and shapes but differ in connectivity, new or reused nonlinear solver objects, different sizes and patterns interleaved), each solve gives the result it would give as the first solve of a fresh process.",
    ["histories"],
    "all sequences of solves over graphs of any connectivity with shared or separate variables and solver objects",
    "Every test solves one system per solver instance, or tiny systems whose factorisation is insensitive to a stale symbolic analysis.",
    ["jaxfg/sparse/_linear_solve.py", "jaxfg/core/_stacked_factor_graph.py", "jaxfg/core/_variables.py"],
    [("symbolic analysis cache", "CholmodSolver._solve"), ("jit caches keyed on static layouts", "jdc.jit on graph and solver methods"), ("canonical instances", "VariableBase.canonical_instance")],
    [("_cholmod_analyze_cache", "module-level dict", "jaxfg/sparse/_linear_solve.py")],
    ["StackedFactorGraph.solve", "CholmodSolver.solve_subproblem"],
)
p(
    "C09",
    "Linear-Gaussian graphs are solved to the unique optimum",
    "For every linear factor graph with Gaussian noise that determines all its variables, every nonlinear solver combined with every linear solver returns, from any start, the unique weighted least-squares solution up to its stopping tolerance, for every variable.",
    ["inputs", "programs", "configurations"],
    "all well-conditioned linear-Gaussian graphs, starts, solver combinations",
    "One linear graph with three scalars is solved, with Gauss-Newton only, and compared with itself rather than with the optimum.",
    ["jaxfg/solvers", "jaxfg/sparse/_linear_solve.py", "jaxfg/core/_stacked_factor_graph.py", "jaxfg/noises/_gaussians.py"],
    [("normal equations and retraction", "_step of each solver")],
    [],
    ["StackedFactorGraph.solve"],
)
p(
    "C10",
    "Solutions are invariant to factor, variable and storage order",
    "Reordering the factors, the variables, or the storage order of the initial assignments does not change the per-variable solution of any solver, beyond rounding. "
    "The returned assignments cover exactly the caller's variables in the caller's storage layout, and the caller's initial assignments are untouched.",
    ["inputs", "configurations"],
    "all permutations of factors, variables and initial storage, all solvers, linear and nonlinear graphs with mixed variable types",
    "One three-scalar linear graph is permuted, for Gauss-Newton with the default linear solver only.",
    ["jaxfg/solvers/_nonlinear_solver_base.py", "jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py", "jaxfg/core/_variable_assignments.py"],
    [("layout update before and after the loop", "NonlinearSolverBase.solve"), ("layout resolution", "VariableAssignments.update_storage_layout / manifold_retract")],
    [],
    ["StackedFactorGraph.solve"],
)
p(
    "C11",
    "Gauss-Newton iterates are exact normal-equation steps",
    "Every Gauss-Newton iteration relinearises at the current assignments and retracts them by the solution of the undamped normal equations, so running k+1 iterations equals running one more from the result of k, and a limit of k iterations performs exactly k steps when no convergence test fires. "
    "The fixed-iteration variant performs exactly its configured number (one or more) of the same steps, whether or not the loop is unrolled.",
    ["inputs", "configurations"],
    "all graphs with nonsingular linearisation, starts, iteration counts, linear solvers and loop modes",
    "Tests only compare the cost before and after a complete solve of a two-pose graph; the fixed-iteration solver is not tested at all.",
    ["jaxfg/solvers/_gauss_newton_solver.py", "jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py", "jaxfg/solvers/_nonlinear_solver_base.py"],
    [("linearise, solve, retract", "GaussNewtonSolver._step / FixedIterationGaussNewtonSolver._step")],
    [],
    ["solve with max_iterations = k"],
)
p(
    "C12",
    "Levenberg-Marquardt never accepts a worse point and damps correctly",
    "Each Levenberg-Marquardt iteration proposes the damped step from the current assignments, residual and damping; it moves only if the ratio of actual to linearly predicted cost change reaches the configured minimum, so the cost never increases from one iteration to the next or from start to result. "
    "Acceptance divides the damping by the configured factor; rejection multiplies it (kept within the configured bounds) and changes nothing else, so the next proposal is the step from the same point with more damping.",
    ["inputs", "histories", "configurations"],
    "all graphs, starts, damping parameters and accept/reject histories",
    "The only test is a two-pose graph on which every step is accepted; rejection is never reached.",
    ["jaxfg/solvers/_levenberg_marquardt_solver.py", "jaxfg/solvers/_mixins.py"],
    [("step quality and accept flag", "_TrustRegionMixin.compute_step_quality"), ("damping update", "LevenbergMarquardtSolver._step")],
    [("lambd", "damping carried between iterations", "_LevenbergMarquardtState")],
    ["solve with max_iterations = k"],
)
p(
    "C13",
    "Dogleg steps stay in the trust region and never raise the cost",
    "Each dogleg iteration proposes, from the current assignments, the Gauss-Newton step if it fits the trust radius, otherwise the steepest-descent step cut to the radius, otherwise the point where the path between them leaves the region; it moves only if the step quality reaches the configured minimum, so the cost never increases. "
    "The radius starts at its configured value, halves when the quality is below 0.25, becomes at least three times the step length when it is above 0.75, and otherwise stays; a rejected step changes nothing else.",
    ["inputs", "histories", "configurations"],
    "all graphs, starts, initial radii and accept/reject histories",
    "The only test is a two-pose graph whose solve never rejects a step.",
    ["jaxfg/solvers/_dogleg_solver.py", "jaxfg/solvers/_mixins.py"],
    [("dogleg blending", "DoglegSolver._step"), ("radius update", "DoglegSolver._step")],
    [("radius", "trust radius carried between iterations", "_DoglegState")],
    ["solve with max_iterations = k"],
)
p(
    "C14",
    "Gaussian noise models whiten by the inverse covariance",
    "For every positive-definite covariance, the noise model built from it whitens a residual r so that the squared norm is r' inv(covariance) r, and whitens a Jacobian with the same linear map, for full and diagonal models; a diagonal model equals the full model of the diagonal matrix, and the reported residual dimension is that of the covariance. "
    "A model built from a square-root precision applies exactly that matrix.",
    ["inputs"],
    "all positive-definite covariances, diagonals, residuals and Jacobians",
    "Tests use identity covariances, apart from two single-pose covariance tests that cannot see the whitening of residuals.",
    ["jaxfg/noises/_gaussians.py"],
    [("inverse Cholesky factor", "Gaussian.make_from_covariance"), ("elementwise scaling", "DiagonalGaussian")],
    [],
    ["whiten_residual_vector", "whiten_jacobian", "get_residual_dim"],
)
p(
    "C15",
    "Huber-wrapped factors follow the Huber loss",
    "A Huber-wrapped noise model equals the wrapped model while the whitened residual norm n is below the threshold d, and beyond it returns the same direction with squared norm d*n; in a graph the linearised gradient (Jacobian transposed times residual) of each such factor is the gradient of half the Huber loss with threshold d, and as d grows the model becomes the wrapped one. "
    "Solving a linear graph with Huber factors therefore converges to the minimiser of the sum of Huber and quadratic losses.",
    ["inputs", "configurations"],
    "all thresholds, wrapped Gaussian models, residuals on both sides of the threshold, graphs mixing Huber and plain factors",
    "The one test checks that the estimate with one huge outlier is 100 times better, which many wrong weights satisfy.",
    ["jaxfg/noises/_huber.py", "jaxfg/core/_stacked_factor_graph.py"],
    [("reweighting of residual and Jacobian", "HuberWrapper")],
    [],
    ["compute_whitened_residual_vector", "compute_whitened_residual_jacobian", "solve"],
)
p(
    "C16",
    "Joint NLL is Mahalanobis distances plus log-determinants",
    "For every graph with Gaussian noise and every assignment, the joint negative log-likelihood (in the library's scale, twice the usual one, without constants) equals the sum over factors of the squared Mahalanobis distance of the residual plus the log-determinant of the factor's noise covariance, is finite for large dimensions or strong noise scales, and is the same whether the default option is omitted or passed explicitly.",
    ["inputs", "programs"],
    "all Gaussian graphs, noise scales and dimensions, assignments",
    "Tests only compare two NLL values under unit covariances, where every log-determinant is zero.",
    ["jaxfg/core/_stacked_factor_graph.py"],
    [("log-determinant per stack", "StackedFactorGraph.compute_joint_nll")],
    [],
    ["StackedFactorGraph.compute_joint_nll"],
)
p(
    "C17",
    "Marginal covariances are blocks of the inverse information matrix",
    "For every graph and assignment with nonsingular information matrix, the marginal covariance of any list of variables is the submatrix of the inverse of J'J (J the graph's whitened Jacobian) for those variables in the order asked, and is symmetric; the dense covariance agrees both ways of computing it. "
    "The answers do not depend on which entries were queried before or on the storage order of the assignment.",
    ["inputs", "histories"],
    "all graphs, assignments, variable subsets and orders, and query histories",
    "Tests use one or two SE(2) poses, where the fill-reducing ordering happens to be the natural one.",
    ["jaxfg/experimental/_sparse_covariance.py"],
    [("recursive recovery from the Cholesky factor", "SparseCovariance.__getitem__"), ("value cache", "SparseCovariance._value_cache")],
    [("_value_cache", "memoised entries", "SparseCovariance")],
    ["compute_marginal", "as_dense"],
)
p(
    "C18",
    "jit, vmap and grad commute with graph computations",
    "Evaluating residuals, cost, Jacobians, retraction or (with the conjugate-gradient solvers) complete solves under jit or without it, batched with vmap over assignments or over factor parameters, gives for each element what the unbatched call gives, independent of the other elements of the batch. "
    "The gradient of the cost with respect to assignments and factor parameters, and of an unrolled fixed-iteration solve with respect to factor parameters, is the true derivative.",
    ["inputs", "configurations"],
    "all batch contents and sizes, parameters, transforms",
    "No test applies vmap or grad; jit is only tested around one linear solve.",
    ["jaxfg/core/_stacked_factor_graph.py", "jaxfg/core/_variable_assignments.py", "jaxfg/solvers", "jaxfg/sparse/_linear_solve.py"],
    [("pytree dataclasses with static layouts", "jdc.pytree_dataclass"), ("while_loop under vmap", "NonlinearSolverBase.solve")],
    [],
    ["public methods under jax transforms"],
)
p(
    "C19",
    "Lie-group variables and factors follow group arithmetic",
    "For SO(2), SE(2), SO(3) and SE(3), the prior factor's residual is log(T^-1 mu) and the between factor's is log((Ta^-1 Tb)^-1 Tab), as computed by independent matrix exponentials and logarithms; they vanish exactly when the constraint is met and are invariant to moving all poses (and priors) by a common left transform. "
    "Each variable type's default is the identity, its local dimension is the group's tangent dimension, and its retraction Jacobian is the derivative of the retraction at zero.",
    ["inputs"],
    "all group elements with relative rotation below pi, all measurements",
    "Tests use SE(2) only, with axis-aligned translations and zero rotations.",
    ["jaxfg/geometry/_factors.py", "jaxfg/geometry/_lie_variables.py"],
    [("rminus residuals", "PriorFactor / BetweenFactor.compute_residual_vector"), ("rplus", "LieVariableBase")],
    [],
    ["compute_residual_vector", "manifold_retract_jacobian"],
)
p(
    "C20",
    "The g2o loader builds the graph the file describes",
    "For every well-formed SE(2) or SE(3) g2o file, the loader creates one variable per vertex with the file's initial pose, one between factor per edge joining the file's two vertices in order with the file's measurement and with squared whitened norm r' * information * r for the file's symmetric information matrix, and one prior anchoring the first pose at its initial value. "
    "Lines of other kinds are rejected.",
    ["inputs"],
    "all well-formed g2o files with sequential vertex ids and positive-definite information matrices",
    "No test imports the scripts.",
    ["scripts/_g2o_utils.py"],
    [("line parser", "parse_g2o")],
    [],
    ["parse_g2o"],
)
p(
    "C21",
    "Variable types flatten, unflatten and retract losslessly",
    "For every variable type, built in or user defined with nested values, flattening and unflattening are inverse, the parameter dimension is the total number of scalars, the default retraction adds the delta to the flattened value, and the retraction Jacobian is, leaf by leaf, the derivative of the retraction at zero. "
    "Vector types of equal dimension are the same type and of different dimensions are different, and separate variable objects stay distinct.",
    ["programs", "inputs"],
    "all value structures (nested containers, scalar and array leaves), all dimensions, all values",
    "Tests define one two-field value and scalars, and check none of these laws.",
    ["jaxfg/core/_variables.py"],
    [("ravel_pytree at subclass creation", "VariableBase.__init_subclass__"), ("cached template", "_RealVectorVariableTemplate.__getitem__")],
    [],
    ["VariableBase.flatten/unflatten/get_parameter_dim/manifold_retract/manifold_retract_jacobian", "RealVectorVariable[N]"],
)
p(
    "C22",
    "Solvers stop only for a documented reason, and then do stop",
    "Gauss-Newton, Levenberg-Marquardt and dogleg return the iterate of the first iteration at which a documented test holds (for the latter two only on accepted steps): relative cost change below the cost tolerance (default 1e-5), largest absolute coordinate change under a gradient step below the gradient tolerance (1e-9) once the configured start step (10) is reached, or step norm below the parameter tolerance rule (1e-7); otherwise they run exactly the maximum number of iterations. "
    "No other condition ends a solve, and no solve runs past a test that holds.",
    ["inputs", "histories", "configurations"],
    "all graphs, starts, tolerances, start steps and iteration limits",
    "Tests never look at the number of iterations or at tolerances; the gradient test is not reached before iteration ten.",
    ["jaxfg/solvers/_mixins.py", "jaxfg/solvers/_nonlinear_solver_base.py"],
    [("termination criteria", "_TerminationCriteriaMixin")],
    [],
    ["solve with given tolerances, against tolerance-free iterates"],
)
p(
    "C23",
    "Misuse is rejected instead of giving a silent wrong answer",
    "Evaluating or solving a graph with assignments that lack or add variables or are in local form, changing to a layout with other variables, retracting by deltas that are not local or cover other variables, reading a variable that is not assigned, factors without type hints or with values of other types or number than hinted, noise models whose dimension does not fit the residual, between factors of mixed groups, non-square covariances, matrix products with wrongly shaped operands, the likelihood of non-Gaussian models or with constants, and non-integer vector dimensions all raise an exception.",
    ["inputs", "programs"],
    "all such misuses applied to generated valid graphs and assignments",
    "Tests contain no negative case.",
    ["jaxfg/core/_variable_assignments.py", "jaxfg/core/_factor_base.py", "jaxfg/core/_factor_stack.py", "jaxfg/core/_stacked_factor_graph.py", "jaxfg/noises/_gaussians.py", "jaxfg/sparse/_sparse_matrix.py", "jaxfg/geometry/_factors.py"],
    [("assertions and type-hint validation", "FactorBase.build_variable_value_tuple, VariableAssignments.update_storage_layout")],
    [],
    ["public constructors and methods"],
)
p(
    "C24",
    "Each noise model is applied to its own factor, residual-dependent ones included",
    "For every noise model, built in or user defined, also ones whose whitening is nonlinear, each factor's raw residual and each of its Jacobian blocks are whitened by that factor's own noise model, and the Jacobian whitening is given the entries of the residual-vector argument that belong to that factor, exactly as passed in. "
    "The rows of the graph's whitened Jacobian are therefore those obtained factor by factor from the factor's own Jacobians, in the same row order as its whitened residual, with blocks of a variable used twice added.",
    ["inputs", "programs"],
    "all graphs mixing linear, Huber and nonlinear user-defined noise models, all assignments, all residual-vector arguments",
    "Tests use one noise model per graph, all residual-independent except in one Huber example, and never pass a residual vector other than the graph's own.",
    ["jaxfg/core/_stacked_factor_graph.py", "jaxfg/core/_factor_stack.py", "jaxfg/core/_factor_base.py", "jaxfg/noises/_noise_model_base.py", "jaxfg/noises/_huber.py"],
    [("slices of the residual vector per stack and factor", "StackedFactorGraph.compute_whitened_residual_jacobian"), ("vmap over stacked noise models", "StackedFactorGraph")],
    [("jacobian_coords", "row and column of every Jacobian entry", "StackedFactorGraph")],
    ["StackedFactorGraph.compute_whitened_residual_jacobian(assignments, residual_vector)", "FactorBase.compute_residual_jacobians"],
)
p(
    "C25",
    "Progress messages report the iterates and do not change the solution",
    "A nonlinear solver with verbose=False prints nothing. With verbose=True it returns the same solution and reports, in order, one line per iteration performed with the iteration number, counted from zero, and the cost at the start of that iteration, then a last line with the number of iterations performed and the cost of the returned assignments; Levenberg-Marquardt starts from the configured damping and dogleg from the configured radius. "
    "This holds for every solver, with and without unrolling, also when a compiled solve is used again.",
    ["inputs", "configurations", "histories"],
    "all graphs, starts, solvers, linear solvers and iteration limits",
    "Tests leave printing on but capture none of it.",
    ["jaxfg/solvers/_nonlinear_solver_base.py", "jaxfg/solvers/_gauss_newton_solver.py", "jaxfg/solvers/_levenberg_marquardt_solver.py", "jaxfg/solvers/_dogleg_solver.py", "jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py"],
    [("host callback printing", "NonlinearSolverBase._hcb_print")],
    [],
    ["standard output during solve"],
)
p(
    "C26",
    "Graphs, factors, noise models and assignments are pytrees of their parameters",
    "Flattening and unflattening a graph, a factor or an assignment gives an equivalent object of the same type with the same variables. "
    "Applying a function to all parameters of the factors and then assembling them, or assembling them and then applying it to the leaves of the stacked graph, gives the same residuals, and so does changing the parameters of one factor inside a stack. "
    "Replacing fields or changing a copy leaves the originals as they were, the leaves of assignments are their values, and the helpers pytree_stack and pytree_concatenate act leaf by leaf along the given axis.",
    ["inputs", "programs", "histories"],
    "all factor types with scalar, array and nested parameters, all noise models, all assignments",
    "Tests never flatten, map over or copy library objects.",
    ["jaxfg/core/_stacked_factor_graph.py", "jaxfg/core/_factor_stack.py", "jaxfg/core/_factor_base.py", "jaxfg/core/_variable_assignments.py", "jaxfg/utils.py"],
    [("pytree registration of dataclasses with static fields", "jdc.pytree_dataclass"), ("stacking of factor leaves", "FactorStack.make")],
    [],
    ["jax.tree_util on library objects", "utils.pytree_stack / pytree_concatenate"],
)

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
