"""Which harnesses decide which property, and how much of each tier."""
from dataclasses import dataclass


@dataclass
class Run:
    name: str
    flavor: str = "asan"
    quick: float = 1.0
    thorough: float = 20.0
    shards: int = 8
    threads: int = 1      # slots one shard takes
    cpu: int = 120        # per-case CPU budget, s
    wall: int = 300       # per-case wall budget, s
    total: int = 780      # per-shard wall budget, s
    valgrind: bool = False


PROPS = {}


def prop(pid, rule, runs, must_see=(), assumptions=()):
    PROPS[pid] = dict(rule=rule, runs=runs, must_see=list(must_see), assumptions=list(assumptions))


prop("C01",
     "Random expressions over every function Jet supports, in 1..8 variables, over special and "
     "random points, against an independent long-double dual number with running error bounds; "
     "distinct = (operation or expression shape, Jet type, sign/zero class of the operands).",
     [Run("jet", "asan", 8, 300), Run("jet", "rel", 8, 300)],
     must_see=["unary", "binary", "tree", "special", "compare", "nested"])

prop("C02",
     "Random smooth functors with analytic derivatives in 32 fixed instantiations, dynamic cost "
     "functions with strides 1..11 over random block lists, first-order functions and manifolds; every "
     "request pattern; distinct = (instantiation, block shape, request mode).",
     [Run("autodiff", "asan", 5, 300), Run("autodiff", "rel", 5, 300)],
     must_see=["evaluate", "jacobian-blocks", "failure", "ownership", "moved"])

prop("C03",
     "Random smooth functors with bounded higher derivatives through forward, central and Ridders "
     "differentiation, fixed and dynamic, functor and cost-function form, every request pattern, random "
     "step options; every functor call is recorded and each call position made to fail in turn; "
     "distinct = (method, instantiation, block shape, construction form).",
     [Run("numdiff", "asan", 5, 200)],
     must_see=["evaluate", "entries", "perturbed-calls", "failure", "ownership"])

prop("C04",
     "Random smooth functions composed through every wrapper (cost function as functor, static and "
     "dynamic; conditioning with shared, missing and repeated conditioners; normal prior; both tiny "
     "solver adapters) against the explicit chain rule, every request pattern, every single failure; "
     "distinct = (wrapper, shape, conditioner pattern, ownership).",
     [Run("wrappers", "asan", 5, 300)],
     must_see=["evaluate", "jacobian-blocks", "failure", "ownership"])

prop("C05",
     "Random losses (all shipped ones, a growing user loss, and trees of composed, scaled and wrapped "
     "ones up to depth 4) against long-double closed forms at squared norms 0..1e6 and extremes; random "
     "robustified residual blocks against the defining identities for gradient and Gauss-Newton matrix; "
     "distinct = (loss tree shape) and (residual size, Jacobian width, correction branch).",
     [Run("loss", "asan", 8, 600)],
     must_see=["evaluate", "corrector", "block", "ownership"])

prop("C06",
     "Random manifolds (all shipped ones, fixed and dynamic, and products nested to depth 3, by value "
     "and by pointer) at random, polar and near-degenerate points with zero to near-injectivity-radius "
     "tangents: the four laws, documented closed forms, differenced Jacobians, block structure, exact "
     "buffers; distinct = manifold structure.",
     [Run("manifold", "asan", 8, 400)],
     must_see=["plus", "minus", "jacobian", "right-multiply", "failure"])

prop("C07",
     "Random rotations over all magnitude classes (zero, denormal, tiny, generic, around pi and 2 pi, "
     "large) and axis classes, both quaternion orders, all matrix layouts, all 24 Euler systems in and "
     "near gimbal lock, against long-double references; Jets of every map against differenced references; "
     "distinct = (trace sign, largest diagonal, magnitude class, signs and zeros) and (Euler system, "
     "quadrants, distance from lock).",
     [Run("rotation", "asan", 3, 150), Run("rotation", "rel", 3, 150)],
     must_see=["conversions", "euler", "euler-back", "euler-jets", "jets", "float"])

prop("C08",
     "Random one- and two-dimensional grids of every size from one sample, value types double, float, int, "
     "short, byte, 1..4 components, both storage orders, offset origins, at points on, next to, between, "
     "outside and far outside the samples, against a long-double Hermite reference with explicit clamping; "
     "distinct = (component count, layout, value type, size class, position class).",
     [Run("cubic", "asan", 10, 600)],
     must_see=["evaluate-1d", "evaluate-2d", "grid-point", "clamped", "polynomial", "knot-crossing", "jet"])

prop("C09",
     "Random problems (shared blocks, constants, subset, quaternion, sphere, product and zero-dimensional "
     "manifolds, all losses) evaluated whole and by subset in random order, every output request, 1..8 "
     "threads, one residual block at a time, after failures, and through every internal evaluator and "
     "Jacobian layout of the reduced program, against an independent dense evaluation; "
     "distinct = (request, subset form, threads, size class) and (layout, threads, elimination).",
     [Run("problem_eval", "asan", 4, 120)],
     must_see=["evaluate", "residual-block", "failure", "internal-evaluate", "plus", "constant-jacobian-refused"])

prop("C10",
     "Random histories of up to 200 edits (blocks added, re-added, removed, their memory freed and "
     "reused; residual blocks sharing cost, loss and manifold objects; constancy, manifolds, bounds; moves "
     "of the problem; evaluations and short solves in between) in every ownership and removal mode, every "
     "query compared with an executable model after the edits; every user object counts its destruction and "
     "unowned ones are freed the moment nothing uses them; library allocations are tracked to the end; "
     "distinct = windows of the edit history.",
     [Run("problem_edit", "asan", 6, 300)],
     must_see=["checked", "edits", "destroyed", "evaluated", "solved", "adjacent"])

prop("C11",
     "Random problems (shared and Schur-structured blocks, constants, manifolds, bounds with starts outside "
     "them, losses, rank deficiency, far starts) through random valid options over both minimizers, every linear "
     "solver, preconditioner, strategy and line search, with independent cost, bound, manifold and bitwise "
     "constancy checks around each solve and a second solve on top; well-conditioned problems through several "
     "configurations against a dense reference; distinct = (full option signature, problem class).",
     [Run("solve", "asan", 6, 180)],
     must_see=["solved", "unusable", "bounded-blocks", "held", "on-manifold", "agreed", "closed-form", "improved"])

prop("C12",
     "Random problems and options with 0..3 recording callbacks (some stopping the solve), state updating on "
     "and off, all limits and tolerances: every iteration record, callback call, user state seen by a callback, "
     "evaluation count, size, setting, ordering, message and report of the solve is checked against the model and "
     "against one another; distinct = (option signature, termination and reason, callback set-up).",
     [Run("records", "asan", 5, 200)],
     must_see=["records", "callbacks", "gradients", "steps", "summaries", "rejected", "user-stop", "gradient-tolerance",
               "function-tolerance", "parameter-tolerance", "radius-tolerance", "max-iterations", "max-time", "fixed-cost"])

prop("C13",
     "Random block structured systems (E and F blocks, rows with and without E, with and without a diagonal, "
     "scaled columns) solved 1..4 times by one solver object of every kind, preconditioner, ordering, thread count, "
     "precision and refinement, against a long-double least squares solution with condition-dependent bounds and "
     "bitwise input checks; systems with an exactly zero pivot and recovery after them; the factorization classes "
     "and conjugate gradients alone; distinct = (solver configuration, size) and block structure.",
     [Run("linsolve", "asan", 8, 400)],
     must_see=["solves", "direct-checked", "iterative-checked", "refined", "singular", "recovered", "factored",
               "indefinite", "cg", "cg-residual", "cg-quadratic", "cg-limit"])

prop("C14",
     "Random matrices of every container kind, with empty rows, columns and blocks, repeated and unsorted entries, "
     "shuffled value layouts and random histories of appends, deletions, resizes, copies and refills; every interface "
     "operation with 0..8 threads on exactly sized buffers; kernels in all operations, offsets and strides with the "
     "cells around the block compared bitwise; all against dense long-double arithmetic; distinct = (sizes, history), "
     "block structure, kernel dimensions.",
     [Run("matrices", "asan", 20, 500), Run("blas", "asan", 15, 300)],
     must_see=["products", "interfaces", "edits", "read-back", "conversions", "inner-products", "cells", "kernels",
               "inverted", "triangular", "vectors", "finalized"])

prop("C15",
     "Random bipartite block structures in every specialised size combination, near misses and mixed sizes (rows "
     "without E of other sizes, odd F blocks, both value layouts, exactly deficient E blocks), eliminated 1..3 "
     "times by one eliminator into dense, partial and diagonal targets with 1..6 threads; implicit operator, views "
     "and their forced single and multi threaded variants, block diagonals and all preconditioners as explicit "
     "inverses, against long-double dense elimination; distinct = (sizes, threads, variant).",
     [Run("schur", "asan", 20, 700)],
     must_see=["eliminations", "compared", "back-substitutions", "one-block", "deficient", "view-products", "view-diagonals",
               "implicit-products", "implicit-back", "power-operators", "power-series", "preconditioners", "clustered", "halved"])

prop("C16",
     "Random Jacobians (scaled, deficient, nearly orthogonal, ill-conditioned, integer; dense, compressed row, block) "
     "and radii through random histories of accepted, rejected and invalid steps, with a recording linear solver that "
     "solves in long double or fails, returns NaN or writes nothing, against an executable model of each strategy and "
     "of the path, subspace and Cauchy point; then the real linear solvers; the step evaluator next to its algorithm; "
     "distinct = (size, Jacobian kind, case of the step, history).",
     [Run("trustregion", "asan", 5, 150)],
     must_see=["lm-steps", "lm-checked", "dogleg-checked", "reused", "accepted", "rejected", "invalid", "failures",
               "regularised", "dogleg-gauss-newton", "dogleg-cauchy", "dogleg-segment", "dogleg-boundary",
               "dogleg-parallel", "dogleg-near-parallel", "real-lm", "real-dogleg", "qualities", "uphill", "monotonic"])

prop("C17",
     "Polynomials from known roots (multiple, zero, complex, leading zeros) and random samples against the product of "
     "the roots, constraints and grids; line searches on smooth, noisy and inconsistent functions with invalid regions "
     "(failure, NaN, infinities, non-finite gradients, failing Plus), every trial logged and the outcome judged from the "
     "log; direction histories against dense long-double formulas; gradient problem solves on manifolds with logged "
     "evaluations and callbacks, and convex problems that must be solved; distinct = (kind, options, trials, outcome).",
     [Run("linesearch", "asan", 15, 600)],
     must_see=["root-findings", "minimisations", "interpolations", "step-choices", "searches", "armijo-successes",
               "armijo-failures", "wolfe-successes", "wolfe-failures", "strong-wolfe-points", "armijo-only-points",
               "directions", "restarts", "gradient-solves", "converged", "convex-solves"])

prop("C18",
     "Random problems (manifolds, constants, unused blocks, losses, deficient and zero Jacobians, more columns than rows) "
     "with random requests as pairs or lists, algorithms, null space ranks, condition limits and threads, computed 1..3 "
     "times at different points with one object: success, every pair of blocks in ambient and tangent space, and whole "
     "matrices against a long-double singular value decomposition; pairs never asked for; failing cost functions and "
     "recovery; distinct = (options, columns, rank).",
     [Run("covariance", "asan", 80, 4000)],
     must_see=["computed", "blocks", "not-asked", "matrices", "pseudo-inverses", "deficient", "faults", "recovered"])

prop("C19",
     "Random loops of every form (ranges, thread counts, block sizes, partitions, costs), nested, from several user "
     "threads on one context that is resized meanwhile and destroyed at once; task floods with respawning tasks, resizes "
     "and immediate destruction; producer and consumer histories of the queue checked for linearizability; completion "
     "counters and tokens; injected delays throughout; monitors use relaxed atomics so that ThreadSanitizer still sees "
     "every missing synchronisation; distinct = execution orders observed.",
     [Run("threads", "tsan", 60, 1000, shards=4, threads=2), Run("threads", "asan", 30, 500, shards=4, threads=2)],
     must_see=["loops", "segments", "nested-loops", "tasks", "respawned", "barriers", "operations", "empty-results",
               "blocks", "tokens", "partitions", "pairs"])

prop("C20",
     "Random problems evaluated, solved (every minimizer, linear solver, preconditioner, inner iterations) and their "
     "covariance estimated with one and with 2..10 threads under ThreadSanitizer and AddressSanitizer, with yielding cost "
     "functions: residuals, Jacobians and covariances bitwise, sums and solves up to rounding (a mismatch only counts "
     "when tiny perturbations of the start do not cause one too); calls per block and calls in flight; several solves at "
     "once sharing a context or functions against each alone; distinct = (configuration, threads, sizes).",
     [Run("mt", "tsan", 16, 250, shards=4, threads=2), Run("mt", "asan", 10, 150, shards=4, threads=2)],
     must_see=["evaluations", "concurrent-calls", "agreed", "solves", "repeated", "together", "shared-context",
               "shared-functions", "covariances", "matrix-refused"])

prop("C21",
     "Random edit histories of ordered groups and (weighted) graphs with self edges against models; independent sets, "
     "spanning forests, clusterings and visibility graphs on random, dense, path, star, clique and bipartite graphs with "
     "ties and invalid weights against their definitions; random programs reduced, reordered in every way and descended "
     "along inner orderings: exact sets of blocks, order, indices, block sparsity, cost and gradient against the model, "
     "refused orderings; distinct = (operation, size, outcome) and windows of the edit history.",
     [Run("ordering", "asan", 6, 300)],
     must_see=["group-edits", "reversed", "graph-edits", "looped-removed", "independent-sets", "forests", "linkages",
               "clusterings", "invalid-views", "visibilities", "reductions", "fixed-residuals", "faults", "sparsities",
               "schur-orderings", "inner-orderings", "invalid-groupings", "automatic", "refused", "descents", "moved",
               "stationary"])

prop("C22",
     "Random histories of Problem::Evaluate (all output masks, selections, thread counts), EvaluateResidualBlock and its "
     "AssumingParametersUnchanged form, user moves, covariances and solves (trust region, line search, every linear solver, "
     "gradient checking, aborting callbacks, deterministic evaluation faults) with a logging evaluation callback; cost "
     "functions check their parameters against the snapshot taken in the callback; a caching user's results are compared "
     "bit for bit with those of a twin problem without a callback; distinct = (operation, options, outcome).",
     [Run("evalcb", "asan", 6, 200)],
     must_see=["evaluations", "residual-blocks", "residual-blocks-unchanged", "covariances", "trust-region-solves",
               "line-search-solves", "checked-solves", "inner-refused", "twins", "announced-old", "reused-points",
               "with-jacobians", "faulted-calls", "user-moves"])

prop("C23",
     "Random problems (all minimizers, linear solvers, strategies, inner iterations, bounds, manifolds, losses, numeric "
     "differentiation), evaluations, residual block evaluations, covariances and gradient problems with one deterministic "
     "fault plan: in which function (cost, loss, manifold plus / Jacobian, callback), kind (false, NaN, infinity, unwritten, "
     "huge), when (once, from, periodic, random, in a region of the parameter space); the log of calls and faults decides "
     "rejection, failure, restoration, monotonicity and that reported results come from good points; distinct = (family, "
     "configuration, fault, outcome).",
     [Run("faulty", "asan", 8, 150)],
     must_see=["solves", "trust-region", "line-search", "inner", "bounded", "numeric", "faults", "what-1", "what-2",
               "what-3", "what-4", "what-8", "what-16", "false", "nan-residual", "inf-residual", "unwritten-residual",
               "nan-jacobian", "inf-jacobian", "unwritten-jacobian", "huge-jacobian", "initial-faults", "region-results",
               "rejected-candidates", "converged-after-fault", "evaluate-faults", "residual-block-faults",
               "covariance-faults", "lift-faults", "gradient-faults", "gradient-initial-faults", "ended-CONVERGENCE",
               "ended-NO_CONVERGENCE", "ended-FAILURE"])

prop("C24",
     "Random problems (well behaved, degenerate, badly scaled) of fixed, dynamic, bounded and mixed sizes in double and float, "
     "written directly, with automatic differentiation or around a cost function, with four linear solvers, random options "
     "and trial points with NaN residuals; every function call is logged and the log decides acceptance, monotonicity, "
     "termination reason, iteration count, reported cost, gradient, residuals and Jacobian; reused solvers against fresh "
     "ones; distinct = (size, scalar, status, trials, rejections).",
     [Run("tiny", "asan", 12, 500)],
     must_see=["direct", "autodiff", "adapter", "fixed", "dynamic", "half-dynamic", "float", "accepted", "rejected",
               "status-gradient", "status-step", "status-cost", "status-limit", "status-change", "steps-too-small",
               "converged", "reused", "nan-trials"])

prop("C25",
     "GradientChecker::Probe on random smooth cost functions (blocks, manifolds, numeric tolerances) as they are, with one "
     "wrong Jacobian entry, wrong only in some region, failing or with failing manifolds: verdict, named block, residuals and "
     "Jacobians against analytic ones; solves with check_gradients on right functions against their unchecked twins, on "
     "functions wrong from some call on; manifolds and twisted ones through the manifold matchers; distinct = (family, shape, "
     "kind of mistake, verdict).",
     [Run("gradcheck", "asan", 8, 400)],
     must_see=["probes", "must-accept", "must-reject", "accepted", "rejected", "with-manifolds", "failing-functions",
               "failing-manifolds", "changed-residuals", "solves", "wrong-solves", "wrong-later", "right-solves", "twins",
               "line-search", "inner", "manifolds", "twist-0", "twist-1", "twist-2", "twist-3", "twist-4", "twist-5"])

prop("C26",
     "Random option sets with up to three unusual or hostile values (NaN, infinities, denormals, limits, equal bounds) on "
     "random problems against a table of the documented rules: verdict, named option, no call and no change when refused, a "
     "sane solve when accepted; the same for gradient problems; every enumeration value and mangled names; C interface "
     "against C++ bit for bit with stock and user losses, failing functions; reports of random summaries line by line; "
     "dumped linear problems solved again; array, path and file functions against models; distinct = (change, violated "
     "rules, configuration).",
     [Run("config", "asan", 12, 500)],
     must_see=["names", "parsed", "refused-names", "valid", "invalid", "refused-solves", "unusual-solves", "moved",
               "failed-solves", "gradient-invalid", "gradient-solves", "capi-blocks", "capi-solved", "capi-again",
               "valid-arrays", "invalid-arrays", "mapped", "joined", "files", "report-lines", "dumped", "dump-solutions",
               "dump-residuals", "bad-max_lbfgs_rank", "bad-eta", "bad-num_threads", "bad-DOGLEG", "bad-NESDIS",
               "bad-trust_region_radius", "bad-line_search_type", "bad-sparse_linear_algebra_library_type"])
