"""The properties, in one place: properties.jsonl and MANIFEST.json are generated
from this file (python3 lib/spec.py)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, observe=observe, technique=technique, note=note, state=state))


I = "internal/ceres/"
H = "include/ceres/"

p("C01", "Jet arithmetic carries exact first derivatives",
  "For every function and operator offered on Jet numbers, with Jet or plain scalar operands, the scalar part equals the ordinary function value and the infinitesimal part equals the exact chain-rule derivative up to rounding. "
  "This includes compositions, compound assignment and aliased operands, Jets of Jets, Jets as Eigen scalars, and the documented special cases (pow at zero and negative bases, fmin/fmax with ties and NaN, copysign, hypot overflow, floor/ceil, classification). "
  "Comparisons and numeric_limits of a Jet agree with those of its scalar type.",
  ["inputs", "programs"], "all supported functions, all finite and special operands, all Jet dimensions, all compositions",
  "The tests evaluate each function at a handful of points with 2-dimensional Jets; derivative formulas that fail for other signs, other dimensions, scalar operands or in compositions are not seen.",
  [H + "jet.h", H + "internal/jet_traits.h"],
  [("operator and function overloads", H + "jet.h"), ("rank promotion in mixed comparisons", H + "internal/jet_traits.h")],
  ["return values of the overloads"],
  "online reference monitor (long-double dual numbers with running error bounds) under ASan/UBSan and an optimised build",
  "Random points, dimensions 1..8, random expression trees; not every Eigen operation is exercised.")

p("C02", "Automatic differentiation returns the true value and Jacobian",
  "A cost function or manifold built from a templated functor (fixed-size, dynamically sized with any stride, or first-order) returns the functor's value unchanged and its exact Jacobian in row-major blocks, for every combination of parameter block sizes and residual counts. "
  "Asking for only some Jacobian blocks, or none, gives the same values for those asked for and never touches the others. "
  "A functor reporting failure makes the evaluation report failure, an output it never sets is not passed off as a value in the fixed-size form, and the functor is destroyed exactly when ownership says so.",
  ["inputs", "programs", "configurations"], "all parameter block shapes, strides, Jacobian request patterns, evaluation points",
  "Tests fix a few block shapes and one or two points; offsets into Jacobian storage, stride sections and null-pointer patterns vary with all of these.",
  [H + "internal/autodiff.h", H + "autodiff_cost_function.h", H + "dynamic_autodiff_cost_function.h", H + "autodiff_first_order_function.h", H + "autodiff_manifold.h"],
  [("Make1stOrderPerturbation / Take1stOrderPart", H + "internal/autodiff.h"), ("stride loop over active parameters", H + "dynamic_autodiff_cost_function.h")],
  ["CostFunction::Evaluate outputs, with canaries around every buffer"],
  "reference monitor with analytic Jacobians and guarded buffers under ASan",
  "A fixed set of about 40 template instantiations, random values.")

p("C03", "Numeric differentiation approximates the true Jacobian",
  "Numerically differentiated cost functions (forward, central, Ridders; fixed-size or dynamic, and first-order functions) return the functor's value unchanged and a Jacobian within the method's error of the true one, for every block shape and request pattern. "
  "The user's parameter values are bitwise unchanged after the evaluation, and the functor is only ever called with one perturbed coordinate, by the documented step. "
  "A failing functor makes the evaluation fail.",
  ["inputs", "programs", "configurations"], "all methods, block shapes, points, step options",
  "Tests use a few functors at a few points; error depends on the point, the block in which a coordinate sits and the options.",
  [H + "internal/numeric_diff.h", H + "numeric_diff_cost_function.h", H + "dynamic_numeric_diff_cost_function.h", H + "numeric_diff_first_order_function.h", H + "numeric_diff_options.h"],
  [("EvaluateJacobianColumn", H + "internal/numeric_diff.h"), ("Ridders extrapolation", H + "internal/numeric_diff.h")],
  ["Evaluate outputs; every call the functor receives is recorded"],
  "call-recording monitor and analytic Jacobian oracle under ASan",
  "Error bounds are those of the method on smooth functions with known higher derivatives.")

p("C04", "Cost function wrappers compose values and derivatives correctly",
  "A wrapper around cost functions (conditioning per residual, use of a cost function or functor inside another functor, normal prior, use in the tiny solver) returns the values and Jacobians that the chain rule gives for the composition, for every shape and request pattern. "
  "Failure of a wrapped function makes the wrapper fail. "
  "Wrapped objects are destroyed exactly once or never, as ownership says.",
  ["inputs", "configurations", "programs"], "all wrapper kinds, shapes, null patterns, conditioner choices",
  "Tests use one composition per wrapper.",
  [H + "cost_function_to_functor.h", H + "dynamic_cost_function_to_functor.h", H + "conditioned_cost_function.h", I + "conditioned_cost_function.cc", H + "normal_prior.h", I + "normal_prior.cc", H + "tiny_solver_cost_function_adapter.h", H + "tiny_solver_autodiff_function.h"],
  [("chain rule application", H + "dynamic_cost_function_to_functor.h")],
  ["Evaluate outputs, destructor counters"],
  "reference monitor (explicit chain rule) with ownership counters under ASan",
  "Random smooth inner functions.")

p("C05", "Loss functions are consistent and robustification is exact",
  "Every loss function, alone or scaled, composed or wrapped, satisfies rho(0)=0 where documented, returns first and second derivatives that are the derivatives of its value, is non-decreasing on s>=0, and behaves like the identity near zero where documented. "
  "Robustifying a residual block turns residuals and Jacobian into ones whose gradient equals that of half the loss of the squared norm, and whose Gauss-Newton matrix matches the documented second-order correction.",
  ["inputs", "configurations"], "all loss functions, parameters and nesting; all squared norms; all residual sizes",
  "Tests check derivative consistency at a few s per loss, and the corrector on few residuals.",
  [I + "loss_function.cc", H + "loss_function.h", I + "corrector.cc", I + "corrector.h", I + "residual_block.cc"],
  [("LossFunction::Evaluate overrides", I + "loss_function.cc"), ("Corrector", I + "corrector.cc")],
  ["Evaluate outputs; corrected residuals and Jacobians"],
  "reference monitor: closed forms in long double and derivative consistency, under ASan/UBSan",
  "Random parameters and nesting depth up to 4.")

p("C06", "Manifold operations obey the manifold laws",
  "For every shipped manifold (Euclidean, subset, quaternions, sphere, line, products, automatically differentiated), Plus with zero is the identity, Plus stays on the manifold, Minus inverts Plus, and reported Jacobians are the true derivatives of Plus at zero and of Minus at equality. "
  "Coordinates a subset manifold holds constant never change, and product manifolds act as their components do. "
  "Right-multiplying by the Plus Jacobian equals the explicit matrix product.",
  ["inputs", "configurations"], "all manifolds, all sizes (fixed and dynamic), all points and tangent vectors including zero, tiny and large ones",
  "Tests draw a limited number of samples at a few sizes, and nested products are barely tested.",
  [I + "manifold.cc", H + "manifold.h", H + "product_manifold.h", H + "sphere_manifold.h", H + "line_manifold.h", H + "internal/sphere_manifold_functions.h", H + "internal/householder_vector.h", H + "autodiff_manifold.h", H + "internal/fixed_array.h"],
  [("Plus/Minus/PlusJacobian/MinusJacobian", I + "manifold.cc"), ("Householder based sphere functions", H + "internal/sphere_manifold_functions.h")],
  ["return values of the four operations"],
  "algebraic-law monitor with differentiated references under ASan/UBSan",
  "Random points including near-antipodal and near-identity ones; tolerance scales with conditioning.")

p("C07", "Rotation conversions are mutually consistent",
  "Conversions among angle-axis, quaternion, rotation matrix (row- or column-major) and Euler angles describe the same rotation, return unit quaternions and orthonormal matrices with the documented conventions, and rotating a point gives the same result whichever representation is used. "
  "This holds over the whole range of rotations, including zero, tiny, near-pi and gimbal-lock ones, and derivatives taken through them with Jets are finite and correct.",
  ["inputs"], "all rotations, axes, magnitudes, Euler conventions, scalar types",
  "Tests sample selected angles; branches taken near 0, pi or particular trace signs need specific points, also with Jets.",
  [H + "rotation.h", H + "internal/euler_angles.h", H + "internal/euler_angles.h"],
  [("case splits on theta and on the largest diagonal", H + "rotation.h")],
  ["function outputs"],
  "cross-representation monitor with long-double reference rotations under ASan/UBSan",
  "Random plus boundary-targeted rotations.")

p("C08", "Cubic interpolation reproduces its data and is smooth everywhere",
  "One- and two-dimensional cubic interpolation reproduces grid values at grid points, reproduces low-degree polynomials exactly inside the grid, is continuously differentiable everywhere including outside, and clamps to the nearest sample outside. "
  "Returned derivatives are the derivatives of the returned value, for every data dimension, storage order and value type, and no sample outside the supplied array is ever read.",
  ["inputs", "configurations"], "all grids (offset ranges, sizes down to 1), data dimensions, layouts, query points",
  "Tests use a few grids and interior points.",
  [H + "cubic_interpolation.h"],
  [("CubicHermiteSpline", H + "cubic_interpolation.h"), ("Grid clamping", H + "cubic_interpolation.h")],
  ["Evaluate outputs; ASan around exactly sized arrays"],
  "reference monitor (Catmull-Rom in long double) with guarded arrays under ASan",
  "Random grids up to 12x12, data dimension 1..4.")

p("C09", "Problem evaluation returns the true cost, residuals, gradient, Jacobian",
  "Evaluating a problem, whole or for a chosen set of parameter and residual blocks, with or without loss functions, returns the cost, residual vector, gradient and sparse Jacobian that the definition gives, in the documented order, with constant blocks contributing nothing and manifolds reducing columns to tangent space. "
  "Evaluating a single residual block agrees with it. "
  "Evaluation leaves all user state unchanged, and the result does not depend on which outputs are requested or on the number of threads beyond rounding.",
  ["inputs", "programs", "configurations"], "all problems: block sizes, sharing, constancy, manifolds, losses, subsets, thread counts",
  "Tests evaluate a few fixed small problems.",
  [I + "problem_impl.cc", I + "program.cc", I + "program_evaluator.h", I + "residual_block.cc", I + "parameter_block.h", I + "block_jacobian_writer.cc", I + "compressed_row_jacobian_writer.cc", I + "dense_jacobian_writer.h", I + "evaluator.cc", I + "scratch_evaluate_preparer.cc", I + "dynamic_compressed_row_jacobian_writer.cc", I + "dynamic_compressed_row_finalizer.h"],
  [("ProgramEvaluator::Evaluate", I + "program_evaluator.h"), ("Jacobian writers", I + "compressed_row_jacobian_writer.cc")],
  ["Problem::Evaluate / EvaluateResidualBlock outputs"],
  "reference-model monitor: independent dense evaluation of random problems, under ASan and TSan",
  "Random problems up to about 30 parameter blocks of size 1..9 and 60 residual blocks.")

p("C10", "Problem editing keeps the model consistent and owns objects correctly",
  "After any sequence of additions, removals, constancy changes, manifold and bound changes and queries, a problem reports exactly the blocks, sizes, associations, bounds, manifolds and orders that the sequence implies. "
  "Every owned cost function, loss function and manifold is destroyed exactly once, never while a block of the problem still uses it and at the latest with the problem, and unowned ones never. "
  "No sequence of legal edits touches freed memory or leaks.",
  ["histories", "configurations"], "all legal edit sequences, ownership modes and fast-removal settings",
  "Tests run fixed short edit scripts; consistency depends on the order and sharing in the history.",
  [I + "problem_impl.cc", I + "problem.cc", I + "program.cc", I + "residual_block.h", I + "parameter_block.h"],
  [("back-pointer sets and reference counts", I + "problem_impl.cc")],
  ["Problem query API after every edit; destructor counters"],
  "history monitor against an executable set model, with exactly-once destruction counters, under ASan",
  "Random histories of up to 200 edits.")

p("C11", "Solve never worsens the cost and respects constraints",
  "Whatever the problem and solver configuration, a solve ends with user parameters whose cost equals the reported final cost and does not exceed the initial cost, and an unusable solution leaves the parameters at their initial values. "
  "Constant parameter blocks are bitwise unchanged, bounded parameters end within their bounds, blocks with manifolds end on them and fixed coordinates of subset manifolds do not move. "
  "Well-conditioned problems converge to a stationary point that does not depend on the linear solver, ordering or thread count chosen.",
  ["inputs", "configurations", "programs"], "all problems and valid solver options",
  "Tests solve selected problems with selected solver combinations.",
  [I + "solver.cc", I + "trust_region_minimizer.cc", I + "trust_region_preprocessor.cc", I + "line_search_minimizer.cc", I + "coordinate_descent_minimizer.cc", I + "trust_region_step_evaluator.cc", I + "solver_utils.h", I + "program.cc", I + "line_search_preprocessor.cc", I + "reorder_program.cc", I + "parameter_block_ordering.cc"],
  [("step acceptance", I + "trust_region_minimizer.cc"), ("final cost and state copy-out", I + "solver.cc")],
  ["user parameter arrays and Solver::Summary"],
  "end-to-end monitor: independent cost and constraint evaluation around real solves, under ASan",
  "Random problems of moderate size; option combinations drawn at random.")

p("C12", "Solver reports and iteration records are truthful",
  "Termination type and message match what happened: convergence is reported only when a configured tolerance was met, limits and user callbacks are honoured exactly, and invalid or failing runs are reported as failures. "
  "Iteration records are consecutive, their costs, gradient norms, step norms and counts agree with one another and with the problem, and callbacks are invoked once per iteration in order with the state they ask for. "
  "Counts, sizes and settings in the summary describe the problem and options actually used.",
  ["histories", "configurations", "inputs"], "all solves, callbacks and stopping conditions",
  "Tests check selected termination reasons and few summary fields.",
  [I + "solver.cc", I + "trust_region_minimizer.cc", I + "line_search_minimizer.cc", I + "callbacks.cc", I + "minimizer.cc", I + "trust_region_step_evaluator.cc"],
  [("FinalizeIterationAndCheckIfMinimizerCanContinue", I + "trust_region_minimizer.cc"), ("PreSolveSummarize / PostSolveSummarize", I + "solver.cc")],
  ["Solver::Summary, IterationSummary passed to callbacks"],
  "trace checker over iteration records and callback event logs of real solves",
  "Random problems and options.")

p("C13", "All linear solvers solve the same system",
  "Every available linear solver and factorization (dense QR, dense Cholesky, sparse Cholesky with each ordering, dense and sparse Schur, iterative Schur, conjugate gradients, with every available preconditioner, with or without mixed precision and refinement) returns the minimiser of the regularised linear least squares problem it is given. "
  "Repeated solves with changing values but the same structure stay correct, and the inputs are left unchanged. "
  "Singular or non-positive-definite systems are reported as failures instead of returning garbage as success.",
  ["inputs", "configurations", "histories"], "all block structures, values, diagonals, solver choices and repetition patterns",
  "Tests solve a few stored problems.",
  [I + "linear_solver.cc", I + "dense_qr.cc", I + "dense_qr_solver.cc", I + "dense_cholesky.cc", I + "dense_normal_cholesky_solver.cc", I + "sparse_cholesky.cc", I + "eigensparse.cc", I + "sparse_normal_cholesky_solver.cc", I + "dynamic_sparse_normal_cholesky_solver.cc", I + "schur_complement_solver.cc", I + "iterative_schur_complement_solver.cc", I + "cgnr_solver.cc", I + "conjugate_gradients_solver.h", I + "iterative_refiner.cc"],
  [("LinearSolver::Create and Solve", I + "linear_solver.cc")],
  ["LinearSolver::Solve outputs and summaries"],
  "differential monitor against a dense reference solution, under ASan",
  "Eigen-only build: SuiteSparse, CUDA, LAPACK and Accelerate back ends are absent here.")

p("C14", "Sparse matrix containers and kernels equal their dense meaning",
  "Every matrix container (triplet, compressed row, block sparse, dense, dynamic compressed row) performs products, scaling, norms, transposition, conversion, row edits, serialisation and construction exactly as the dense matrix it represents. "
  "The small dense kernels, in fixed and dynamic sizes and all strides, and inner and outer product computations agree with plain matrix arithmetic and write only the cells they should. "
  "Results with several threads equal those with one.",
  ["inputs", "configurations"], "all sizes including empty, block structures, offsets, strides, accumulate modes, thread counts",
  "Tests use fixed small matrices; index arithmetic errors show only for particular shapes.",
  [I + "triplet_sparse_matrix.cc", I + "compressed_row_sparse_matrix.cc", I + "block_sparse_matrix.cc", I + "dense_sparse_matrix.cc", I + "dynamic_compressed_row_sparse_matrix.cc", I + "small_blas.h", I + "small_blas_generic.h", I + "inner_product_computer.cc", I + "block_random_access_dense_matrix.cc", I + "block_random_access_sparse_matrix.cc", I + "block_random_access_diagonal_matrix.cc", I + "block_structure.cc", I + "compressed_col_sparse_matrix_utils.cc", I + "parallel_vector_ops.cc", I + "power_series_expansion_preconditioner.cc", I + "invert_psd_matrix.h"],
  [("container operations", I + "compressed_row_sparse_matrix.cc"), ("unrolled kernels", I + "small_blas.h")],
  ["operation outputs with guarded buffers"],
  "differential monitor against dense arithmetic with guarded buffers, under ASan/UBSan",
  "Sizes up to about 60.")

p("C15", "Schur elimination and its operators equal dense block elimination",
  "For every bipartite block structure, eliminating the first blocks gives the dense Schur complement and reduced right-hand side, back substitution recovers the eliminated variables, and the implicit operator and its products agree with the explicit one. "
  "This holds for every specialised block-size combination, the generic one, every thread count and with or without a regularising diagonal. "
  "Partitioned matrix products and the preconditioners built from them are the matrices they claim to approximate.",
  ["inputs", "configurations"], "all block structures, sizes, specialisations, diagonals, thread counts",
  "Tests use a few stored problems that exercise a few of the specialisations.",
  [I + "schur_eliminator.h", I + "schur_eliminator_impl.h", I + "schur_eliminator.cc", I + "schur_eliminator_template.py", I + "partitioned_matrix_view.cc", I + "partitioned_matrix_view_impl.h", I + "implicit_schur_complement.cc", I + "schur_jacobi_preconditioner.cc", I + "block_jacobi_preconditioner.cc", I + "visibility_based_preconditioner.cc", I + "power_series_expansion_preconditioner.cc", I + "subset_preconditioner.cc", I + "generated/"],
  [("SchurEliminator::Eliminate / BackSubstitute", I + "schur_eliminator_impl.h"), ("ImplicitSchurComplement", I + "implicit_schur_complement.cc")],
  ["eliminator, view and operator outputs"],
  "differential monitor against dense elimination, under ASan and TSan",
  "Problems up to about 40 blocks; visibility clustering as far as Eigen sparse allows.")

p("C16", "Trust region strategies produce the steps they define",
  "Levenberg-Marquardt returns the exact minimiser of the damped linear model for the current radius with clamped diagonal scaling, and both dogleg variants return a step within the radius on their defining path or subspace whose model decrease is at least that of the Cauchy point. "
  "Radius updates after accepted, rejected and invalid steps follow the documented rules and stay positive and bounded. "
  "Reuse of cached quantities after rejected steps never changes the step that would be computed from scratch.",
  ["inputs", "histories", "configurations"], "all Jacobians, residuals, radii and accept/reject histories",
  "Tests check a few fixed problems and single updates.",
  [I + "levenberg_marquardt_strategy.cc", I + "dogleg_strategy.cc", I + "trust_region_strategy.cc", I + "polynomial.cc", I + "trust_region_step_evaluator.cc"],
  [("ComputeStep / StepAccepted / StepRejected / StepIsInvalid", I + "dogleg_strategy.cc")],
  ["steps and radii over random histories"],
  "history monitor against a dense reference model, under ASan/UBSan",
  "Up to 12 variables.")

p("C17", "Line search and gradient-based minimisation honour their conditions",
  "A successful line search returns a step that satisfies the conditions of its type (sufficient decrease for Armijo, strong Wolfe including curvature for Wolfe, which falls back to the best point of sufficient decrease when an iteration or size limit stops it) with function values that belong to that step. "
  "Polynomial fitting, root finding and interval minimisation are exact for the data given, and every descent direction (steepest, nonlinear conjugate gradient, BFGS, limited-memory BFGS) is the one its formula defines and is a descent direction. "
  "Gradient problem solves never worsen the cost, report it truthfully and reach stationary points on smooth problems.",
  ["inputs", "histories", "configurations"], "all one-dimensional functions, sample sets, histories of updates, option combinations",
  "Tests run selected functions.",
  [I + "line_search.cc", I + "line_search_direction.cc", I + "line_search_minimizer.cc", I + "low_rank_inverse_hessian.cc", I + "polynomial.cc", I + "function_sample.cc", I + "gradient_problem.cc", I + "gradient_problem_solver.cc", I + "gradient_problem_evaluator.h"],
  [("ArmijoLineSearch / WolfeLineSearch", I + "line_search.cc"), ("LowRankInverseHessian two-loop recursion", I + "low_rank_inverse_hessian.cc")],
  ["line search summaries, polynomial outputs, solver summaries"],
  "condition monitor over recorded function samples and dense reference updates, under ASan/UBSan",
  "Random smooth functions.")

p("C18", "Covariance estimates equal the inverse normal matrix",
  "For every problem, covariance blocks in ambient and tangent space, singly and as matrices, equal the corresponding blocks of the (pseudo-)inverse of J'J, whatever the algorithm, block order or thread count, and are symmetric with transposed off-diagonal blocks. "
  "Constant blocks and held coordinates have zero covariance. "
  "Rank deficiency is reported as failure unless the pseudo-inverse was asked for, in which case null-space handling follows the options.",
  ["inputs", "configurations", "programs"], "all problems, requested pairs, algorithms, null-space ranks, thread counts",
  "Tests use one six-parameter problem and a large random one.",
  [I + "covariance_impl.cc", I + "covariance.cc", H + "covariance.h"],
  [("ComputeCovarianceSparsity / ComputeCovarianceValues*", I + "covariance_impl.cc")],
  ["Covariance API outputs"],
  "differential monitor against a dense inverse, under ASan and TSan",
  "SuiteSparse QR is absent; Eigen sparse QR and dense SVD are checked.")

p("C19", "Parallel runtime runs every task exactly once, safely",
  "A parallel loop, with any range, thread count, grain, partition or cost function, runs its body exactly once for every index, never concurrently with the same thread id, with ids in range, and returns only when all of it is done with its effects visible. "
  "Thread pools execute every submitted task exactly once, resizing never loses one and shutting down waits for all; the queue delivers each element once in order and wakes waiting consumers when stopped. "
  "Nothing in it races or deadlocks under any schedule.",
  ["schedules", "inputs", "histories"], "all ranges, thread counts, body durations, nested use and interleavings",
  "Tests run few fixed loops without instrumentation for races.",
  [I + "parallel_for.h", I + "parallel_invoke.h", I + "parallel_invoke.cc", I + "thread_pool.cc", I + "thread_pool.h", I + "concurrent_queue.h", I + "context_impl.cc", I + "context_impl.h", I + "partition_range_for_parallel_for.h", I + "thread_token_provider.cc", I + "parallel_utils.cc"],
  [("ParallelInvoke work stealing loop and BlockUntilFinished", I + "parallel_invoke.h"), ("ConcurrentQueue::Wait / StopWaiters", I + "concurrent_queue.h")],
  ["per-index execution counters, thread ids, event order"],
  "exactly-once and happens-before monitors on stress schedules with injected delays, under TSan and ASan",
  "Real threads on 8 cores with random delays; schedules are sampled.")

p("C20", "Thread count never changes results and internals are race free",
  "Evaluating, solving and estimating covariance with several threads is free of data races and gives the result of one thread up to rounding in sums. "
  "Two problems can be solved concurrently, also sharing one context, without affecting each other. "
  "User functions are called concurrently only as the thread count allows, and never twice for one block in one evaluation.",
  ["schedules", "configurations"], "all thread counts, problems, solvers and interleavings",
  "Tests compare few thread counts and cannot see races.",
  [I + "program_evaluator.h", I + "schur_eliminator_impl.h", I + "covariance_impl.cc", I + "coordinate_descent_minimizer.cc", I + "implicit_schur_complement.cc", I + "block_sparse_matrix.cc", I + "partitioned_matrix_view_impl.h", I + "parallel_vector_ops.h", I + "block_random_access_dense_matrix.cc", I + "context_impl.cc", I + "dynamic_sparse_normal_cholesky_solver.cc"],
  [("per-thread scratch and cell locks", I + "schur_eliminator_impl.h"), ("evaluate scratch", I + "program_evaluator.h")],
  ["TSan reports; results per thread count; call logs from cost functions"],
  "ThreadSanitizer plus thread-count differential monitor on random problems",
  "Schedules are sampled; Eigen itself is header-only and instrumented.")

p("C21", "Orderings, graphs and program reduction preserve meaning",
  "Independent sets contain no adjacent vertices, orderings are permutations with the required groups first, and spanning forests and clusterings partition their vertices as defined. "
  "Removing fixed blocks and reordering a program changes neither the set of free parameters and residuals nor the cost (apart from the reported constant), and automatic orderings for Schur solvers and inner iterations contain only independent blocks. "
  "Ordered groups behave as the ordered map of disjoint sets they are after any edit sequence.",
  ["inputs", "histories", "programs"], "all graphs, problems, ordering edits",
  "Tests use a few small graphs and programs.",
  [I + "graph.h", I + "graph_algorithms.h", I + "parameter_block_ordering.cc", I + "reorder_program.cc", I + "program.cc", H + "ordered_groups.h", I + "canonical_views_clustering.cc", I + "single_linkage_clustering.cc", I + "visibility.cc", I + "detect_structure.cc", I + "coordinate_descent_minimizer.cc"],
  [("StableIndependentSetOrdering", I + "graph_algorithms.h"), ("RemoveFixedBlocks", I + "program.cc")],
  ["outputs of the algorithms on random graphs and programs"],
  "structural-invariant and reference-model monitors, under ASan",
  "Graphs up to 60 vertices.")

p("C22", "Evaluation callbacks see a faithful call protocol",
  "When an evaluation callback is installed it is called before the user's cost functions are evaluated, with flags that say truthfully whether Jacobians will be requested and whether the point is new. "
  "Every cost function call then sees parameter values equal to those in the user's memory at the time of that callback, and any point change is announced as new. "
  "This holds for problem evaluation, solving, inner reuse after rejected steps and gradient checking alike.",
  ["histories", "configurations"], "all evaluation and solve histories",
  "Tests check selected solves with a counting callback.",
  [I + "program_evaluator.h", I + "problem_impl.cc", I + "solver.cc", I + "gradient_checking_cost_function.cc", I + "trust_region_minimizer.cc", H + "evaluation_callback.h", I + "program.cc"],
  [("EvaluationCallback invocation", I + "program_evaluator.h"), ("state pointer set-up", I + "solver.cc")],
  ["event log of callback and cost function calls"],
  "trace checker over the event log of callback and cost function calls",
  "Single- and multi-threaded random solves.")

p("C23", "Faulty user functions fail safely",
  "A user function that reports failure, returns non-finite numbers or leaves outputs unwritten, at any call, never makes the library crash, loop forever, accept the bad point or report success with garbage. "
  "If it happens at the initial point the solve or evaluation reports failure with parameters restored; if at a trial point, the step is rejected and the solve goes on from the last good point, still never worse than the start; if the Jacobian of an accepted point cannot be evaluated, the solve reports failure with parameters restored (unless the user asked for the state to be updated in every iteration).",
  ["fault_sequences", "inputs", "configurations"], "all positions and kinds of user function faults, in all minimizers, linear solvers, inner iterations, numeric differentiation and covariance",
  "Tests inject failure at very few places.",
  [I + "residual_block.cc", I + "residual_block_utils.cc", I + "array_utils.cc", I + "program_evaluator.h", I + "trust_region_minimizer.cc", I + "line_search_minimizer.cc", I + "line_search.cc", I + "levenberg_marquardt_strategy.cc", I + "dogleg_strategy.cc", I + "covariance_impl.cc", I + "coordinate_descent_minimizer.cc"],
  [("IsEvaluationValid / invalidated outputs", I + "residual_block_utils.cc"), ("HandleInvalidStep", I + "trust_region_minimizer.cc")],
  ["Solver::Summary and user parameters under injected faults"],
  "fault-injection monitor: the k-th user call misbehaves, for every k in range, under ASan",
  "Small problems, all single faults at the first calls and random multiple faults.")

p("C24", "TinySolver minimises and reports truthfully",
  "The tiny solver never returns a point with a higher cost than it was given, reports the cost, gradient norm and iteration count of the point it returns, and stops for the reason it states within the iteration limit. "
  "It converges to a stationary point on well-behaved problems of every fixed or dynamic size, with automatic differentiation or a wrapped cost function, and a solver object can be reused.",
  ["inputs", "configurations", "histories"], "all problems, sizes, options",
  "Tests run a few fixed problems.",
  [H + "tiny_solver.h", H + "tiny_solver_autodiff_function.h", H + "tiny_solver_cost_function_adapter.h"],
  [("TinySolver::Solve", H + "tiny_solver.h")],
  ["returned x and summary"],
  "end-to-end monitor with independent evaluation of every returned point, under ASan/UBSan",
  "Sizes up to 8 parameters.")

p("C25", "Gradient checking tells right Jacobians from wrong ones",
  "The gradient checker accepts cost functions whose Jacobians are correct and rejects ones with any Jacobian entry wrong by clearly more than the tolerance (and than what numeric differentiation resolves there), with or without manifolds, naming the right block. "
  "Its reported residuals and Jacobians are those of the cost function and of numeric differentiation. "
  "Checked solving behaves as unchecked solving for correct functions and aborts with an explanation for incorrect ones; manifold checking likewise accepts correct manifolds and rejects wrong ones.",
  ["inputs", "configurations"], "all cost functions, shapes, manifolds and single wrong entries",
  "Tests perturb one fixed function.",
  [I + "gradient_checker.cc", H + "gradient_checker.h", I + "gradient_checking_cost_function.cc", H + "manifold_test_utils.h", I + "is_close.cc"],
  [("GradientChecker::Probe", I + "gradient_checker.cc"), ("CreateGradientCheckingProblemImpl", I + "gradient_checking_cost_function.cc")],
  ["ProbeResults, solver summaries"],
  "verdict monitor: known-right and known-wrong functions, under ASan",
  "Random smooth functions; errors well above tolerance.")

p("C26", "Options, enumerations and the C interface behave as documented",
  "Invalid solver, line search and gradient-solver options are rejected with an explanatory message before any user function is called, valid ones are accepted, rejected solves leave parameters unchanged, and accepted ones run without crashing however unusual the values. "
  "Problems no solve can start from (constants out of bounds, empty boxes, values that are not finite, bounds with a line search) are refused the same way. "
  "Every enumeration value round-trips through its name, and unknown names are rejected. "
  "The C interface solves the same problems to the same result as the C++ one; reports show what the summary holds; dumped trust region problems are the ones solved; path, file and array utilities behave as specified for all inputs.",
  ["inputs", "configurations"], "all option values and combinations, names, C API use",
  "Tests check selected invalid options and names.",
  [I + "solver.cc", I + "types.cc", H + "types.h", I + "c_api.cc", H + "c_api.h", I + "linear_least_squares_problems.cc", I + "array_utils.cc", I + "gradient_problem_solver.cc", H + "gradient_problem_solver.h", H + "solver.h", I + "file.cc"],
  [("Solver::Options::IsValid", I + "solver.cc"), ("ToString / StringTo*", I + "types.cc")],
  ["IsValid results, summaries, string functions"],
  "rule-table monitor over random option sets, under ASan/UBSan",
  "Options relevant to the Eigen-only build.")


def main():
    import sys
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    from props import PROPS
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps({
                "id": q["id"], "title": q["title"], "statement": q["statement"],
                "quantifier": {"over": q["over"], "text": q["qtext"]},
                "why_tests_cant": q["why"],
                "anchors": {"files": sorted(set(q["files"])), "state": list(q["state"]),
                            "mechanism": [{"name": a, "where": b} for a, b in q["mech"]],
                            "observe_at": q["observe"], "hook_needed": None}}) + "\n")
            assert len(q["title"]) <= 80, q["title"]
    checks, na = [], []
    for q in P:
        if q["id"] in PROPS:
            checks.append({"property": q["id"],
                           "quick_cmd": f"python3 lib/run.py {q['id']} quick",
                           "thorough_cmd": f"python3 lib/run.py {q['id']} thorough",
                           "evidence_file": f"evidence/{q['id']}.json",
                           "technique": q["technique"], "level": "exploration",
                           "level_note": q["note"]})
        else:
            na.append({"property": q["id"], "reason": "the check is still being built"})
    m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks}
    m["not_applicable"] = na
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
