// C26: options, enumerations, the C interface, reports, dumps and utilities.
#include <sys/stat.h>
#include <unistd.h>

#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <set>
#include <sstream>

#include "ceres/array_utils.h"
#include "ceres/c_api.h"
#include "ceres/evaluation_callback.h"
#include "ceres/file.h"
#include "ceres/first_order_function.h"
#include "ceres/gradient_problem.h"
#include "ceres/gradient_problem_solver.h"
#include "ceres/solver.h"
#include "ceres/types.h"
#include "options.h"

using namespace vh;
using ceres::Solver;

namespace {

constexpr double kInf = std::numeric_limits<double>::infinity();
constexpr double kNaN = std::numeric_limits<double>::quiet_NaN();

// ---------------------------------------------------------------- enumerations
std::string Mixed(Rng& r, std::string s) {
  const int how = r.range(0, 3);
  for (auto& ch : s)
    if (how == 1 || (how == 2 && r.chance(0.5))) ch = static_cast<char>(std::tolower(ch));
  return s;
}

std::string Mangled(Rng& r, const std::string& s) {
  std::string t = s;
  switch (r.range(0, 7)) {
    case 0: t += r.of({' ', '_', 'X', '\0', '\n'}); break;
    case 1: t = t.substr(0, t.size() - 1); break;
    case 2: t = std::string(1, r.of({' ', '_', 'K'})) + t; break;
    case 3: t[r.range(0, t.size() - 1)] = r.of({'#', '-', '\0', '\x80'}); break;
    case 4: t.clear(); break;
    case 5: t = t.substr(1); break;
    case 6: t += t; break;
    default: t = "UNKNOWN"; break;
  }
  return t;
}

template <typename E>
void Enum(Case& c, const char* type, const std::vector<std::pair<E, const char*>>& names, const char* (*to)(E), bool (*from)(std::string, E*)) {
  Rng& r = c.rng;
  std::set<std::string> known;
  for (auto& n : names) known.insert(n.second);
  for (auto& n : names) {
    const char* got = to(n.first);
    c.expect(got && n.second == std::string(got), "enum:name", "%s %d is called %s instead of %s", type, int(n.first), got, n.second);
    c.count("names");
    if (!from) continue;
    const E other = names[r.range(0, names.size() - 1)].first;
    E v = other;
    const std::string in = Mixed(r, n.second);
    c.expect(from(in, &v) && v == n.first, "enum:parse", "%s \"%s\" parsed as %d instead of %d", type, in.c_str(), int(v), int(n.first));
    c.count("parsed");
    const std::string bad = Mangled(r, n.second);
    std::string up = bad;
    for (auto& ch : up) ch = static_cast<char>(std::toupper(static_cast<unsigned char>(ch)));
    if (known.count(up)) continue;
    v = other;
    c.expect(!from(bad, &v), "enum:unknown-accepted", "%s accepts \"%s\" as %d", type, Esc(bad).c_str(), int(v));
    c.expect(v == other, "enum:unknown-written", "%s \"%s\" is refused but written", type, Esc(bad).c_str());
    c.count("refused-names");
    c.sig(HashStr(type + bad));
  }
}

#define N(x) {ceres::x, #x}
void Enums(Case& c) {
  using namespace ceres;
  Enum<LinearSolverType>(c, "LinearSolverType", {N(DENSE_NORMAL_CHOLESKY), N(DENSE_QR), N(SPARSE_NORMAL_CHOLESKY), N(DENSE_SCHUR), N(SPARSE_SCHUR), N(ITERATIVE_SCHUR), N(CGNR)}, LinearSolverTypeToString, StringToLinearSolverType);
  Enum<PreconditionerType>(c, "PreconditionerType", {N(IDENTITY), N(JACOBI), N(SCHUR_JACOBI), N(SCHUR_POWER_SERIES_EXPANSION), N(CLUSTER_JACOBI), N(CLUSTER_TRIDIAGONAL), N(SUBSET)}, PreconditionerTypeToString, StringToPreconditionerType);
  Enum<VisibilityClusteringType>(c, "VisibilityClusteringType", {N(CANONICAL_VIEWS), N(SINGLE_LINKAGE)}, VisibilityClusteringTypeToString, StringToVisibilityClusteringType);
  Enum<SparseLinearAlgebraLibraryType>(c, "SparseLinearAlgebraLibraryType", {N(SUITE_SPARSE), N(EIGEN_SPARSE), N(ACCELERATE_SPARSE), N(CUDA_SPARSE), N(NO_SPARSE)}, SparseLinearAlgebraLibraryTypeToString, StringToSparseLinearAlgebraLibraryType);
  Enum<LinearSolverOrderingType>(c, "LinearSolverOrderingType", {N(AMD), N(NESDIS)}, LinearSolverOrderingTypeToString, StringToLinearSolverOrderingType);
  Enum<DenseLinearAlgebraLibraryType>(c, "DenseLinearAlgebraLibraryType", {N(EIGEN), N(LAPACK), N(CUDA)}, DenseLinearAlgebraLibraryTypeToString, StringToDenseLinearAlgebraLibraryType);
  Enum<TrustRegionStrategyType>(c, "TrustRegionStrategyType", {N(LEVENBERG_MARQUARDT), N(DOGLEG)}, TrustRegionStrategyTypeToString, StringToTrustRegionStrategyType);
  Enum<DoglegType>(c, "DoglegType", {N(TRADITIONAL_DOGLEG), N(SUBSPACE_DOGLEG)}, DoglegTypeToString, StringToDoglegType);
  Enum<MinimizerType>(c, "MinimizerType", {N(LINE_SEARCH), N(TRUST_REGION)}, MinimizerTypeToString, StringToMinimizerType);
  Enum<LineSearchDirectionType>(c, "LineSearchDirectionType", {N(STEEPEST_DESCENT), N(NONLINEAR_CONJUGATE_GRADIENT), N(LBFGS), N(BFGS)}, LineSearchDirectionTypeToString, StringToLineSearchDirectionType);
  Enum<LineSearchType>(c, "LineSearchType", {N(ARMIJO), N(WOLFE)}, LineSearchTypeToString, StringToLineSearchType);
  Enum<NonlinearConjugateGradientType>(c, "NonlinearConjugateGradientType", {N(FLETCHER_REEVES), N(POLAK_RIBIERE), N(HESTENES_STIEFEL)}, NonlinearConjugateGradientTypeToString, StringToNonlinearConjugateGradientType);
  Enum<LineSearchInterpolationType>(c, "LineSearchInterpolationType", {N(BISECTION), N(QUADRATIC), N(CUBIC)}, LineSearchInterpolationTypeToString, StringToLineSearchInterpolationType);
  Enum<CovarianceAlgorithmType>(c, "CovarianceAlgorithmType", {N(DENSE_SVD), N(SPARSE_QR)}, CovarianceAlgorithmTypeToString, StringToCovarianceAlgorithmType);
  Enum<NumericDiffMethodType>(c, "NumericDiffMethodType", {N(CENTRAL), N(FORWARD), N(RIDDERS)}, NumericDiffMethodTypeToString, StringToNumericDiffMethodType);
  Enum<LoggingType>(c, "LoggingType", {N(SILENT), N(PER_MINIMIZER_ITERATION)}, LoggingTypeToString, StringToLoggingType);
  Enum<DumpFormatType>(c, "DumpFormatType", {N(CONSOLE), N(TEXTFILE)}, DumpFormatTypeToString, StringToDumpFormatType);
  Enum<TerminationType>(c, "TerminationType", {N(CONVERGENCE), N(NO_CONVERGENCE), N(FAILURE), N(USER_SUCCESS), N(USER_FAILURE)}, TerminationTypeToString, nullptr);
  for (auto t : {DENSE_NORMAL_CHOLESKY, DENSE_QR, SPARSE_NORMAL_CHOLESKY, DENSE_SCHUR, SPARSE_SCHUR, ITERATIVE_SCHUR, CGNR})
    c.expect(IsSchurType(t) == (t == DENSE_SCHUR || t == SPARSE_SCHUR || t == ITERATIVE_SCHUR), "enum:schur", "IsSchurType(%s) is %d", LinearSolverTypeToString(t), IsSchurType(t));
  // what this build has
  c.expect(IsSparseLinearAlgebraLibraryTypeAvailable(EIGEN_SPARSE) && IsSparseLinearAlgebraLibraryTypeAvailable(NO_SPARSE) && IsDenseLinearAlgebraLibraryTypeAvailable(EIGEN), "enum:unavailable", "a library of this build is reported unavailable");
  c.expect(!IsSparseLinearAlgebraLibraryTypeAvailable(SUITE_SPARSE) && !IsSparseLinearAlgebraLibraryTypeAvailable(ACCELERATE_SPARSE) && !IsSparseLinearAlgebraLibraryTypeAvailable(CUDA_SPARSE) && !IsDenseLinearAlgebraLibraryTypeAvailable(LAPACK) && !IsDenseLinearAlgebraLibraryTypeAvailable(CUDA), "enum:available", "a missing library is reported available");
}
#undef N

// ---------------------------------------------------------------- options
double AnyReal(Rng& r) {
  switch (r.range(0, 9)) {
    case 0: return r.of({kNaN, -kNaN});
    case 1: return r.of({-kInf, -1.0, -1e-300, -5e-324, -1e-12});
    case 2: return r.of({0.0, -0.0});
    case 3: return r.of({5e-324, 1e-300, 1e-12});
    case 4: return r.of({std::nextafter(1.0, 0.0), 1.0, std::nextafter(1.0, 2.0)});
    case 5: return r.of({kInf, std::numeric_limits<double>::max(), 1e300});
    case 6: return r.uni();
    case 7: return r.uni(1, 100);
    default: return std::pow(10.0, r.uni(-20, 20));
  }
}
int AnyInt(Rng& r) {
  return r.chance(0.25) ? r.of({INT_MIN, -1, -2, -1000}) : r.chance(0.4) ? 0 : r.chance(0.2) ? INT_MAX : r.range(1, 20);
}

struct Bad {
  std::vector<std::string> names;  // each violated rule by what the message has to mention
  bool unclear = false;
  void rule(bool ok, const std::string& name) { if (!ok) names.push_back(name); }
};

// The documented constraints.
template <typename O>
void LineSearchRules(const O& o, bool trust_region, Bad* b) {
  b->rule(o.max_lbfgs_rank > 0, "max_lbfgs_rank");
  b->rule(o.min_line_search_step_size > 0, "min_line_search_step_size");
  b->rule(o.max_line_search_step_contraction > 0, "max_line_search_step_contraction");
  b->rule(o.max_line_search_step_contraction < 1, "max_line_search_step_contraction");
  b->rule(o.max_line_search_step_contraction < o.min_line_search_step_contraction, "max_line_search_step_contraction");
  b->rule(o.min_line_search_step_contraction <= 1, "min_line_search_step_contraction");
  if (o.min_line_search_step_contraction == 1) b->unclear = true;  // documented as < 1, accepted
  b->rule(o.max_num_line_search_step_size_iterations >= (trust_region ? 0 : 1), "max_num_line_search_step_size_iterations");
  b->rule(o.line_search_sufficient_function_decrease > 0, "line_search_sufficient_function_decrease");
  b->rule(o.line_search_sufficient_function_decrease < o.line_search_sufficient_curvature_decrease, "line_search_sufficient_function_decrease");
  b->rule(o.line_search_sufficient_curvature_decrease < 1, "line_search_sufficient_curvature_decrease");
  b->rule(o.max_line_search_step_expansion > 1, "max_line_search_step_expansion");
  b->rule(!(o.line_search_direction_type == ceres::BFGS || o.line_search_direction_type == ceres::LBFGS) || o.line_search_type == ceres::WOLFE, "line_search_type");
}
template <typename O>
void CommonRules(const O& o, Bad* b) {
  b->rule(o.max_num_iterations >= 0, "max_num_iterations");
  b->rule(o.max_solver_time_in_seconds >= 0, "max_solver_time_in_seconds");
  b->rule(o.function_tolerance >= 0, "function_tolerance");
  b->rule(o.gradient_tolerance >= 0, "gradient_tolerance");
  b->rule(o.parameter_tolerance >= 0, "parameter_tolerance");
}

Bad Rules(const Solver::Options& o) {
  using namespace ceres;
  Bad b;
  CommonRules(o, &b);
  b.rule(o.num_threads > 0, "num_threads");
  if (o.check_gradients) {
    b.rule(o.gradient_check_relative_precision > 0, "gradient_check_relative_precision");
    b.rule(o.gradient_check_numeric_derivative_relative_step_size > 0, "gradient_check_numeric_derivative_relative_step_size");
  }
  LineSearchRules(o, o.minimizer_type == TRUST_REGION, &b);
  if (o.minimizer_type != TRUST_REGION) return b;
  b.rule(o.initial_trust_region_radius > 0, "initial_trust_region_radius");
  b.rule(o.min_trust_region_radius > 0, "min_trust_region_radius");
  b.rule(o.max_trust_region_radius > 0, "max_trust_region_radius");
  b.rule(o.min_trust_region_radius <= o.max_trust_region_radius, "trust_region_radius");
  b.rule(o.min_trust_region_radius <= o.initial_trust_region_radius, "trust_region_radius");
  b.rule(o.initial_trust_region_radius <= o.max_trust_region_radius, "trust_region_radius");
  b.rule(o.min_relative_decrease >= 0, "min_relative_decrease");
  b.rule(o.min_lm_diagonal > 0, "min_lm_diagonal");
  b.rule(o.max_lm_diagonal > 0, "max_lm_diagonal");
  b.rule(o.min_lm_diagonal <= o.max_lm_diagonal, "lm_diagonal");
  b.rule(o.max_num_consecutive_invalid_steps >= 0, "max_num_consecutive_invalid_steps");
  b.rule(o.eta > 0, "eta");
  b.rule(o.min_linear_solver_iterations >= 0, "min_linear_solver_iterations");
  b.rule(o.max_linear_solver_iterations >= 0, "max_linear_solver_iterations");
  b.rule(o.min_linear_solver_iterations <= o.max_linear_solver_iterations, "linear_solver_iterations");
  if (o.use_inner_iterations) b.rule(o.inner_iteration_tolerance >= 0, "inner_iteration_tolerance");
  if (o.use_nonmonotonic_steps) b.rule(o.max_consecutive_nonmonotonic_steps > 0, "max_consecutive_nonmonotonic_steps");
  const auto l = o.linear_solver_type;
  const bool iterative = l == CGNR || l == ITERATIVE_SCHUR;
  b.rule(!(o.trust_region_strategy_type == DOGLEG && iterative), "DOGLEG");
  const bool dense = l == DENSE_QR || l == DENSE_NORMAL_CHOLESKY || l == DENSE_SCHUR;
  if (dense) b.rule(o.dense_linear_algebra_library_type == EIGEN, "dense_linear_algebra_library_type");
  b.rule(!(o.use_mixed_precision_solves && (l == DENSE_QR || iterative)), "use_mixed_precision_solves");
  b.rule(!(o.dynamic_sparsity && (l == DENSE_SCHUR || l == SPARSE_SCHUR || iterative)), "ynamic sparsity");
  bool cholesky = l == SPARSE_NORMAL_CHOLESKY || l == SPARSE_SCHUR;
  const auto p = o.preconditioner_type;
  if (l == ITERATIVE_SCHUR) {
    if (o.use_explicit_schur_complement) {
      b.rule(p == SCHUR_JACOBI, "use_explicit_schur_complement");
      b.rule(!o.use_spse_initialization, "use_spse_initialization");
    }
    if (o.use_spse_initialization || p == SCHUR_POWER_SERIES_EXPANSION) {
      b.rule(o.max_num_spse_iterations >= 1, "max_num_spse_iterations");
      b.rule(o.spse_tolerance >= 0, "spse_tolerance");
    }
    b.rule(p != SUBSET, "SUBSET");
    cholesky = p == CLUSTER_JACOBI || p == CLUSTER_TRIDIAGONAL;
  }
  if (l == CGNR) {
    b.rule(p == IDENTITY || p == JACOBI || p == SUBSET, "preconditioner_type");
    if (p == SUBSET) {
      b.rule(!o.residual_blocks_for_subset_preconditioner.empty(), "residual_blocks_for_subset_preconditioner");
      cholesky = true;
    }
    b.rule(o.sparse_linear_algebra_library_type != CUDA_SPARSE, "sparse_linear_algebra_library_type");
  }
  if (cholesky) {
    b.rule(o.sparse_linear_algebra_library_type == EIGEN_SPARSE, "sparse_linear_algebra_library_type");
    b.rule(o.linear_solver_ordering_type == AMD, "NESDIS");
  }
  b.rule(!(!o.trust_region_minimizer_iterations_to_dump.empty() && o.trust_region_problem_dump_format_type != CONSOLE && o.trust_region_problem_dump_directory.empty()), "trust_region_problem_dump_directory");
  return b;
}

// One random change. Returns what it was.
const char* Change(Rng& r, Solver::Options* o) {
  using namespace ceres;
#define D(x) o->x = AnyReal(r); return #x
#define I(x) o->x = AnyInt(r); return #x
  switch (r.range(0, 52)) {
    case 0: I(max_num_iterations);
    case 1: D(max_solver_time_in_seconds);
    case 2: D(function_tolerance);
    case 3: D(gradient_tolerance);
    case 4: D(parameter_tolerance);
    case 5: I(num_threads);
    case 6: o->check_gradients = true; D(gradient_check_relative_precision);
    case 7: o->check_gradients = r.chance(0.8); D(gradient_check_numeric_derivative_relative_step_size);
    case 8: I(max_lbfgs_rank);
    case 9: D(min_line_search_step_size);
    case 10: D(max_line_search_step_contraction);
    case 11: D(min_line_search_step_contraction);
    case 12: o->max_line_search_step_contraction = o->min_line_search_step_contraction; return "contractions equal";
    case 13: I(max_num_line_search_step_size_iterations);
    case 14: D(line_search_sufficient_function_decrease);
    case 15: D(line_search_sufficient_curvature_decrease);
    case 16: o->line_search_sufficient_function_decrease = o->line_search_sufficient_curvature_decrease; return "decreases equal";
    case 17: D(max_line_search_step_expansion);
    case 18: o->line_search_type = r.of({ARMIJO, WOLFE}); o->line_search_direction_type = r.of({STEEPEST_DESCENT, NONLINEAR_CONJUGATE_GRADIENT, LBFGS, BFGS}); return "search types";
    case 19: D(initial_trust_region_radius);
    case 20: D(min_trust_region_radius);
    case 21: D(max_trust_region_radius);
    case 22: o->min_trust_region_radius = o->max_trust_region_radius = o->initial_trust_region_radius; return "radii equal";
    case 23: D(min_relative_decrease);
    case 24: D(min_lm_diagonal);
    case 25: D(max_lm_diagonal);
    case 26: o->min_lm_diagonal = o->max_lm_diagonal = AnyReal(r); return "lm diagonals equal";
    case 27: I(max_num_consecutive_invalid_steps);
    case 28: D(eta);
    case 29: I(min_linear_solver_iterations);
    case 30: I(max_linear_solver_iterations);
    case 31: o->max_linear_solver_iterations = o->min_linear_solver_iterations = AnyInt(r); return "linear iterations equal";
    case 32: o->use_inner_iterations = r.chance(0.8); D(inner_iteration_tolerance);
    case 33: o->use_nonmonotonic_steps = r.chance(0.8); I(max_consecutive_nonmonotonic_steps);
    case 34: o->trust_region_strategy_type = r.of({DOGLEG, LEVENBERG_MARQUARDT}); return "strategy";
    case 35: o->dense_linear_algebra_library_type = r.of({EIGEN, LAPACK, CUDA}); return "dense library";
    case 36: o->sparse_linear_algebra_library_type = r.of({SUITE_SPARSE, EIGEN_SPARSE, ACCELERATE_SPARSE, CUDA_SPARSE, NO_SPARSE}); return "sparse library";
    case 37: o->linear_solver_ordering_type = r.of({AMD, NESDIS}); return "ordering type";
    case 38: o->use_mixed_precision_solves = r.chance(0.8); o->max_num_refinement_iterations = AnyInt(r); return "mixed";
    case 39: o->dynamic_sparsity = r.chance(0.8); return "dynamic";
    case 40: o->use_explicit_schur_complement = r.chance(0.8); return "explicit";
    case 41: o->use_spse_initialization = r.chance(0.8); D(spse_tolerance);
    case 42: o->use_spse_initialization = r.chance(0.8); I(max_num_spse_iterations);
    case 43: o->preconditioner_type = static_cast<PreconditionerType>(r.range(0, 6)); return "preconditioner";
    case 44: o->linear_solver_type = static_cast<LinearSolverType>(r.range(0, 6)); return "linear solver";
    case 45: o->residual_blocks_for_subset_preconditioner.clear(); return "no subset";
    case 46:
      for (int k = r.range(1, 4); k > 0; --k) o->trust_region_minimizer_iterations_to_dump.push_back(r.chance(0.8) ? r.range(1000, 2000) : AnyInt(r) < 0 ? -1 : 5000);
      o->trust_region_problem_dump_directory = r.chance(0.5) ? "" : "/nonexistent-dump-directory";
      o->trust_region_problem_dump_format_type = r.of({CONSOLE, TEXTFILE});
      return "dump";
    case 47: I(max_num_line_search_direction_restarts);
    case 48: o->minimizer_type = r.of({LINE_SEARCH, TRUST_REGION}); return "minimizer";
    case 49: o->dogleg_type = r.of({TRADITIONAL_DOGLEG, SUBSPACE_DOGLEG}); o->jacobi_scaling = r.chance(0.5); return "dogleg";
    case 50: o->update_state_every_iteration = r.chance(0.5); return "update state";
    case 51: o->line_search_interpolation_type = r.of({BISECTION, QUADRATIC, CUBIC}); o->nonlinear_conjugate_gradient_type = r.of({FLETCHER_REEVES, POLAK_RIBIERE, HESTENES_STIEFEL}); return "interpolation";
    default: o->use_approximate_eigenvalue_bfgs_scaling = r.chance(0.5); return "scaling";
  }
#undef D
#undef I
}

struct CountingCallback : ceres::IterationCallback {
  int calls = 0;
  ceres::CallbackReturnType operator()(const ceres::IterationSummary&) override { ++calls; return ceres::SOLVER_CONTINUE; }
};
struct CountingEvaluation : ceres::EvaluationCallback {
  int calls = 0;
  void PrepareForEvaluation(bool, bool) override { ++calls; }
};

bool Mentions(const std::string& message, const Bad& b) {
  for (auto& n : b.names)
    if (message.find(n) != std::string::npos) return true;
  return false;
}
std::string All(const Bad& b) {
  std::string s;
  for (auto& n : b.names) s += n + " ";
  return s;
}

void Options_(Case& c) {
  Rng& r = c.rng;
  Model m;
  ModelOptions mo;
  mo.max_pb = 4;
  mo.max_rb = 6;
  mo.max_size = 3;
  mo.regular = r.chance(0.7);
  mo.p_bound = r.chance(0.3) ? 0.5 : 0;
  mo.schur = r.chance(0.3);
  m.Init(r, mo);
  CountingEvaluation ev;
  CountingCallback cb;
  auto po = Model::NoOwn();
  const bool with_ev = r.chance(0.5);
  if (with_ev) po.evaluation_callback = &ev;
  ceres::Problem problem(po);
  m.AddTo(&problem);
  OptionRules rules;
  rules.inner = !with_ev;
  auto o = RandomOptions(r, m, rules);
  o.callbacks.push_back(&cb);
  const int changes = r.range(0, 3);
  std::string what;
  for (int k = 0; k < changes; ++k) what += std::string(k ? "," : "") + Change(r, &o);
  if (with_ev) o.use_inner_iterations = false;
  const Bad bad = Rules(o);
  c.note("%s; %s; violates %s; %s", DescribeOptions(o).c_str(), what.c_str(), All(bad).c_str(), m.Describe().c_str());
  std::string error = "untouched";
  if (c.verbose()) std::fprintf(stderr, "options %s; %s\n", DescribeOptions(o).c_str(), what.c_str());
  const bool valid = o.IsValid(&error);
  c.count(valid ? "valid" : "invalid");
  c.sig(what + All(bad) + DescribeOptions(o));
  if (!bad.unclear) {
    if (!c.expect(valid == bad.names.empty(), valid ? "options:invalid-accepted" : "options:valid-refused", "%s: %s", valid ? "accepted" : "refused", valid ? All(bad).c_str() : error.c_str())) return;
  }
  if (valid) {
    c.expect(error == "untouched", "options:message-for-valid", "message for valid options: %s", error.c_str());
  } else if (!bad.names.empty()) {
    c.expect(Mentions(error, bad), "options:message", "the message does not name a violated option (%s): %s", All(bad).c_str(), error.c_str());
    for (auto& n : bad.names) c.count("bad-" + n);
  }
  const auto before = m.Get();
  std::vector<double> costs;
  if (valid) {
    // keep it short and small
    o.num_threads = std::min(o.num_threads, 4);
    o.max_lbfgs_rank = std::min(o.max_lbfgs_rank, 50);
    o.max_num_iterations = std::min(o.max_num_iterations, 20);
    o.max_linear_solver_iterations = std::min(o.max_linear_solver_iterations, 100);
    o.min_linear_solver_iterations = std::min(o.min_linear_solver_iterations, o.max_linear_solver_iterations);
    o.max_num_line_search_step_size_iterations = std::min(o.max_num_line_search_step_size_iterations, 20);
    o.max_consecutive_nonmonotonic_steps = std::min(o.max_consecutive_nonmonotonic_steps, 100);
    o.max_num_consecutive_invalid_steps = std::min(o.max_num_consecutive_invalid_steps, 10);
    o.max_num_refinement_iterations = std::min(o.max_num_refinement_iterations, 10);
    o.max_num_spse_iterations = std::min(o.max_num_spse_iterations, 10);
    o.max_num_line_search_direction_restarts = std::min(o.max_num_line_search_direction_restarts, 10);
    for (int& k : o.trust_region_minimizer_iterations_to_dump)
      if (k <= 20 && k >= 0) k += 1000;
  }
  Solver::Summary s;
  ceres::Solve(o, &problem, &s);
  const auto after = m.Get();
  int calls = 0;
  for (auto& b : m.rbs) calls += b.smooth->calls;
  if (!valid) {
    c.expect(calls == 0 && ev.calls == 0 && cb.calls == 0, "options:called", "%d cost function calls, %d evaluation and %d iteration callbacks with invalid options", calls, ev.calls, cb.calls);
    c.expect(after == before, "options:parameters", "parameters changed with invalid options");
    c.expect(s.termination_type == ceres::FAILURE && !s.IsSolutionUsable(), "options:termination", "%s with invalid options", ceres::TerminationTypeToString(s.termination_type));
    c.expect(s.message == error, "options:summary-message", "the summary says \"%s\", IsValid \"%s\"", s.message.c_str(), error.c_str());
    c.expect(s.iterations.empty() && s.initial_cost == -1 && s.final_cost == -1, "options:summary", "results with invalid options");
    const std::string f = s.FullReport(), b = s.BriefReport();
    c.expect(f.find("FAILURE") != f.npos && f.find(error) != f.npos && b.find("FAILURE") != b.npos, "options:report", "the report does not tell: %s", f.c_str());
    c.count("refused-solves");
    return;
  }
  c.count("valid-solves");
  if (changes) c.count("unusual-solves");
  c.expect(s.message.find("Invalid configuration") == s.message.npos, "options:refused-late", "valid options: %s", s.message.c_str());
  if (!s.IsSolutionUsable()) {
    c.count("failed-solves");
    if (!o.update_state_every_iteration) c.expect(after == before, "options:failed-moved", "a failed solve changed the parameters: %s", s.message.c_str());
    return;
  }
  // never worse than the start: bounded blocks are projected first
  c.expect(s.final_cost <= s.initial_cost, "options:worse", "cost %.17g became %.17g: %s", s.initial_cost, s.final_cost, s.message.c_str());
  double mag = 0;
  const double cost = m.Cost(after, true, &mag);
  c.expect(Near(cost, s.final_cost, 1e-9 * mag), "options:cost", "final cost %.17g, the parameters have %.17g", s.final_cost, cost);
  if (after != before) c.count("moved");
}

// Problems no solve can start from: constants out of bounds, empty boxes, values that
// are not numbers, bounds where the minimizer has none.
void Startable(Case& c) {
  Rng& r = c.rng;
  Model m;
  ModelOptions mo;
  mo.max_pb = 5;
  mo.max_rb = 6;
  mo.max_size = 4;
  mo.regular = true;
  mo.p_bound = r.of({0.0, 0.6});
  mo.p_const = r.of({0.15, 0.5});
  m.Init(r, mo);
  const double big = std::numeric_limits<double>::max();
  const int changes = r.range(0, 3);
  std::vector<std::pair<double*, double>> later;
  for (int k = 0; k < changes; ++k) {
    auto& b = m.pbs[r.range(0, m.pbs.size() - 1)];
    const int i = r.range(0, b.size - 1);
    const int what = r.range(0, 6);
    if (what < 5 && !b.Bounded()) {
      if (b.man && b.tangent) continue;  // a step on a manifold need not keep to a box
      b.lo.assign(b.size, -big);
      b.hi.assign(b.size, big);
    }
    const double x = b.x[i];
    switch (what) {
      case 0: b.lo[i] = std::nextafter(x, big); if (r.chance(0.5)) b.lo[i] = x + r.uni(0.01, 1); break;
      case 1: b.hi[i] = std::nextafter(x, -big); if (r.chance(0.5)) b.hi[i] = x - r.uni(0.01, 1); break;
      case 2: b.lo[i] = b.hi[i] = x; break;
      case 3: b.lo[i] = x + r.uni(0, 1); b.hi[i] = x - r.uni(0, 1); break;
      case 4: b.lo[i] = r.chance(0.5) ? x : x - 1; break;
      default: if (r.chance(0.5)) later.emplace_back(&b.x[i], r.of({NAN, INFINITY, -INFINITY})); else if (r.chance(0.3) && !b.man) later.emplace_back(&b.x[i], r.of({1e300, -1e305}));
    }
  }
  ceres::Problem problem(Model::NoOwn());
  m.AddTo(&problem);
  for (auto& [x, v] : later) *x = v;
  Solver::Options o;
  o.max_num_iterations = 5;
  o.logging_type = ceres::SILENT;
  o.num_threads = 1;
  o.minimizer_type = r.chance(0.35) ? ceres::LINE_SEARCH : ceres::TRUST_REGION;
  o.linear_solver_type = ceres::DENSE_QR;
  CountingCallback cb;
  o.callbacks.push_back(&cb);
  std::string why;
  bool huge = false;
  for (size_t k = 0; k < m.pbs.size(); ++k) {
    auto& b = m.pbs[k];
    for (int i = 0; i < b.size; ++i) {
      const double x = b.x[i];
      if (!std::isfinite(x)) why += Fmt("block %zu is %g at %d; ", k, x, i);
      if (std::fabs(x) > 1e100) huge = true;
      if (!b.Bounded()) continue;
      if (o.minimizer_type == ceres::LINE_SEARCH) {
        if (!b.Fixed() && (b.lo[i] > -big || b.hi[i] < big)) why += Fmt("line search, block %zu has bounds at %d; ", k, i);
      } else if (b.Fixed()) {
        if (x < b.lo[i] || x > b.hi[i]) why += Fmt("constant %zu is out of bounds at %d; ", k, i);
      } else if (b.lo[i] >= b.hi[i]) {
        why += Fmt("the box of %zu is empty at %d; ", k, i);
      }
    }
  }
  c.note("%s | %s | %s", o.minimizer_type == ceres::LINE_SEARCH ? "line search" : "trust region", why.c_str(), m.Describe().c_str());
  const auto before = m.Get();
  auto unchanged = [&] {
    const auto after = m.Get();
    for (size_t k = 0; k < before.size(); ++k)
      for (size_t i = 0; i < before[k].size(); ++i)
        if (!Bits(before[k][i], after[k][i])) return false;
    return true;
  };
  Solver::Summary s;
  ceres::Solve(o, &problem, &s);
  int calls = 0;
  for (auto& b : m.rbs) calls += b.smooth->calls;
  c.sig(Fmt("%d %d", static_cast<int>(o.minimizer_type), changes) + m.Describe());
  if (!why.empty()) {
    c.count("unstartable");
    c.expect(s.termination_type == ceres::FAILURE && !s.IsSolutionUsable(), "start:accepted", "%s, %s: %s", ceres::TerminationTypeToString(s.termination_type), why.c_str(), s.message.c_str());
    c.expect(calls == 0 && cb.calls == 0 && s.iterations.empty(), "start:called", "%d calls and %d callbacks: %s", calls, cb.calls, why.c_str());
    c.expect(unchanged(), "start:changed", "parameters changed: %s", why.c_str());
    c.expect(!s.message.empty() && s.FullReport().find(s.message) != std::string::npos, "start:message", "no word of why: \"%s\"", s.message.c_str());
    return;
  }
  c.count("startable");
  if (huge) {  // may well not be evaluable
    if (!s.IsSolutionUsable()) c.expect(unchanged(), "start:unusable-changed", "parameters changed: %s", s.message.c_str());
    return;
  }
  c.expect(s.IsSolutionUsable(), "start:refused", "%s", s.message.c_str());
  for (size_t k = 0; k < m.pbs.size(); ++k) {
    auto& b = m.pbs[k];
    for (size_t i = 0; i < b.lo.size() && o.minimizer_type == ceres::TRUST_REGION; ++i)
      c.expect(b.lo[i] <= b.x[i] && b.x[i] <= b.hi[i], "start:out-of-bounds", "block %zu ends at %.17g, bounds %.17g %.17g", k, b.x[i], b.lo[i], b.hi[i]);
    if (b.constant) for (int i = 0; i < b.size; ++i) c.expect(Bits(b.x[i], before[k][i]), "start:constant-moved", "block %zu", k);
  }
}

struct Bowl : ceres::FirstOrderFunction {
  int n;
  mutable int calls = 0;
  explicit Bowl(int n) : n(n) {}
  bool Evaluate(const double* x, double* f, double* g) const override {
    ++calls;
    *f = 0;
    for (int i = 0; i < n; ++i) {
      *f += (i + 1) * (x[i] - i) * (x[i] - i) + 0.1 * std::cos(x[i]);
      if (g) g[i] = 2 * (i + 1) * (x[i] - i) - 0.1 * std::sin(x[i]);
    }
    return true;
  }
  int NumParameters() const override { return n; }
};

void GradientOptions(Case& c) {
  using namespace ceres;
  Rng& r = c.rng;
  GradientProblemSolver::Options o;
  o.logging_type = SILENT;
  CountingCallback cb;
  o.callbacks.push_back(&cb);
  o.line_search_direction_type = r.of({STEEPEST_DESCENT, NONLINEAR_CONJUGATE_GRADIENT, LBFGS, BFGS});
  std::string what;
#define D(x) o.x = AnyReal(r); what += #x " "; break
#define I(x) o.x = AnyInt(r); what += #x " "; break
  for (int k = r.range(0, 3); k > 0; --k) switch (r.range(0, 17)) {
      case 0: I(max_num_iterations);
      case 1: D(max_solver_time_in_seconds);
      case 2: D(function_tolerance);
      case 3: D(gradient_tolerance);
      case 4: D(parameter_tolerance);
      case 5: I(max_lbfgs_rank);
      case 6: D(min_line_search_step_size);
      case 7: D(max_line_search_step_contraction);
      case 8: D(min_line_search_step_contraction);
      case 9: I(max_num_line_search_step_size_iterations);
      case 10: D(line_search_sufficient_function_decrease);
      case 11: D(line_search_sufficient_curvature_decrease);
      case 12: D(max_line_search_step_expansion);
      case 13: o.line_search_type = r.of({ARMIJO, WOLFE}); what += "type "; break;
      case 14: o.line_search_interpolation_type = r.of({BISECTION, QUADRATIC, CUBIC}); what += "interpolation "; break;
      case 15: o.nonlinear_conjugate_gradient_type = r.of({FLETCHER_REEVES, POLAK_RIBIERE, HESTENES_STIEFEL}); what += "cg "; break;
      case 16: I(max_num_line_search_direction_restarts);
      default: o.use_approximate_eigenvalue_bfgs_scaling = true; what += "scaling "; break;
    }
#undef D
#undef I
  Bad bad;
  CommonRules(o, &bad);
  LineSearchRules(o, false, &bad);
  c.note("%s %s; %s; violates %s", LineSearchDirectionTypeToString(o.line_search_direction_type), LineSearchTypeToString(o.line_search_type), what.c_str(), All(bad).c_str());
  std::string error = "untouched";
  const bool valid = o.IsValid(&error);
  c.count(valid ? "gradient-valid" : "gradient-invalid");
  c.sig(what + All(bad));
  if (!bad.unclear && !c.expect(valid == bad.names.empty(), valid ? "gradient:invalid-accepted" : "gradient:valid-refused", "%s: %s", valid ? "accepted" : "refused", valid ? All(bad).c_str() : error.c_str())) return;
  if (!valid && !bad.names.empty()) c.expect(Mentions(error, bad), "gradient:message", "the message does not name a violated option (%s): %s", All(bad).c_str(), error.c_str());
  if (valid) {
    o.max_num_iterations = std::min(o.max_num_iterations, 30);
    o.max_lbfgs_rank = std::min(o.max_lbfgs_rank, 50);
    o.max_num_line_search_step_size_iterations = std::min(o.max_num_line_search_step_size_iterations, 20);
    o.max_num_line_search_direction_restarts = std::min(o.max_num_line_search_direction_restarts, 10);
  }
  const int n = r.range(1, 5);
  auto owned = std::make_unique<Bowl>(n);
  const Bowl* f = owned.get();
  GradientProblem problem(std::move(owned));
  std::vector<double> x(n);
  for (auto& v : x) v = r.uni(-5, 5);
  const auto before = x;
  GradientProblemSolver::Summary s;
  ceres::Solve(o, problem, x.data(), &s);
  const std::string full = s.FullReport(), brief = s.BriefReport();
  const char* term = TerminationTypeToString(s.termination_type);
  c.expect(full.find(term) != full.npos && brief.find(term) != brief.npos && full.find(s.message) != full.npos, "gradient:report", "the reports do not tell how it ended: %s", full.c_str());
  c.expect(s.num_parameters == n && s.num_tangent_parameters == n && s.line_search_type == o.line_search_type && s.line_search_direction_type == o.line_search_direction_type && s.line_search_interpolation_type == o.line_search_interpolation_type && s.nonlinear_conjugate_gradient_type == o.nonlinear_conjugate_gradient_type && s.max_lbfgs_rank == o.max_lbfgs_rank, "gradient:summary-options", "the summary shows other options");
  if (!valid) {
    c.expect(f->calls == 0 && cb.calls == 0, "gradient:called", "%d function calls, %d callbacks with invalid options", f->calls, cb.calls);
    c.expect(x == before && s.termination_type == FAILURE && s.message == error && s.iterations.empty(), "gradient:refusal", "%s: %s", term, s.message.c_str());
    return;
  }
  c.count("gradient-solves");
  if (!s.IsSolutionUsable()) {
    c.expect(x == before, "gradient:failed-moved", "a failed solve changed the parameters: %s", s.message.c_str());
    return;
  }
  c.expect(s.final_cost <= s.initial_cost, "gradient:worse", "cost %.17g became %.17g", s.initial_cost, s.final_cost);
  double cost;
  f->Evaluate(x.data(), &cost, nullptr);
  c.expect(Near(cost, s.final_cost, 1e-12 * (1 + std::fabs(cost))), "gradient:cost", "final cost %.17g, the parameters have %.17g", s.final_cost, cost);
}

// ---------------------------------------------------------------- C interface
struct CUser {
  const SmoothCost* f;
  int calls = 0, fail_at = -1, returns = 1;
  std::string wrong;
  std::vector<double*> addresses;
};
int CEvaluate(void* user, double** x, double* res, double** jac) {
  auto* u = static_cast<CUser*>(user);
  if (u->calls++ == u->fail_at) return 0;
  return u->f->Evaluate(x, res, jac) ? u->returns : 0;
}
// what needs no data of its own gets a null pointer for it
const SmoothCost* g_cost = nullptr;
int g_calls = 0;
int CEvaluateNoData(void* user, double** x, double* res, double** jac) {
  ++g_calls;
  return user == nullptr && g_cost->Evaluate(x, res, jac);
}
int g_loss_calls = 0;
void CLossNoData(void* user, double s, double out[3]) {
  ++g_loss_calls;
  ceres::TolerantLoss(0.3, 0.2).Evaluate(s, out);
  if (user) out[0] = out[1] = -7;
}
struct CLossUser { const ceres::LossFunction* loss; int calls = 0; };
void CLoss(void* user, double s, double out[3]) {
  auto* u = static_cast<CLossUser*>(user);
  ++u->calls;
  u->loss->Evaluate(s, out);
}
struct FailingCost : ceres::CostFunction {
  const SmoothCost* f;
  mutable int calls = 0;
  int fail_at;
  FailingCost(const SmoothCost* f, int fail_at) : f(f), fail_at(fail_at) {
    set_num_residuals(f->num_residuals());
    *mutable_parameter_block_sizes() = f->parameter_block_sizes();
  }
  bool Evaluate(double const* const* x, double* res, double** jac) const override {
    if (calls++ == fail_at) return false;
    return f->Evaluate(x, res, jac);
  }
};

struct Muted {
  std::ostringstream to;
  std::streambuf* old;
  Muted() : old(std::cout.rdbuf(to.rdbuf())) {}
  ~Muted() { std::cout.rdbuf(old); }
};

void CApi(Case& c) {
  Rng& r = c.rng;
  Model m;
  ModelOptions mo;
  mo.max_pb = 4;
  mo.max_rb = 6;
  mo.max_size = 4;
  mo.p_manifold = mo.p_const = mo.p_isolated = mo.p_loss = 0;
  mo.regular = r.chance(0.6);
  m.Init(r, mo);
  const auto x0 = m.Get();
  // one loss per residual block: none, a stock one, a function of the user
  std::vector<std::unique_ptr<ceres::LossFunction>> losses;
  std::vector<void*> stock;
  std::vector<std::unique_ptr<CLossUser>> own;
  std::vector<std::unique_ptr<CUser>> users;
  std::string desc;
  g_cost = nullptr;
  g_calls = g_loss_calls = 0;
  int without = -1;
  ceres_init();
  ceres_problem_t* p = ceres_create_problem();
  std::set<ceres_residual_block_id_t*> ids;
  for (auto& b : m.rbs) {
    const double a = std::pow(10.0, r.uni(-1, 1)), a2 = std::pow(10.0, r.uni(-1, 1));
    void* data = nullptr;
    ceres_loss_function_t fun = nullptr;
    const int kind = r.range(0, 7);
    std::unique_ptr<ceres::LossFunction> l;
    switch (kind) {
      case 0: data = ceres_create_huber_loss_function_data(a); l.reset(new ceres::HuberLoss(a)); break;
      case 1: data = ceres_create_softl1_loss_function_data(a); l.reset(new ceres::SoftLOneLoss(a)); break;
      case 2: data = ceres_create_cauchy_loss_function_data(a); l.reset(new ceres::CauchyLoss(a)); break;
      case 3: data = ceres_create_arctan_loss_function_data(a); l.reset(new ceres::ArctanLoss(a)); break;
      case 4: data = ceres_create_tolerant_loss_function_data(a, a2); l.reset(new ceres::TolerantLoss(a, a2)); break;
      case 5:
        l.reset(new ceres::TukeyLoss(a + 3));
        own.emplace_back(new CLossUser{l.get()});
        data = own.back().get();
        fun = CLoss;
        break;
      case 6:
        l.reset(new ceres::TolerantLoss(0.3, 0.2));
        fun = CLossNoData;
        break;
      default: break;
    }
    if (kind <= 4) {
      fun = ceres_stock_loss_function;
      stock.push_back(data);
      for (int k = 0; k < 5; ++k) {
        const double s = k == 0 ? 0 : k == 1 ? a * a : std::pow(10.0, r.uni(-6, 6));
        double got[3] = {7, 7, 7}, want[3];
        ceres_stock_loss_function(data, s, got);
        l->Evaluate(s, want);
        c.expect(Bits(got[0], want[0]) && Bits(got[1], want[1]) && Bits(got[2], want[2]), "capi:loss", "stock loss %d(%g, %g) at %g is %g %g %g instead of %g %g %g", kind, a, a2, s, got[0], got[1], got[2], want[0], want[1], want[2]);
      }
    }
    desc += Fmt("%d", kind);
    losses.push_back(std::move(l));
    users.emplace_back(new CUser{b.smooth});
    if (r.chance(0.15)) users.back()->fail_at = r.range(0, 8);
    users.back()->returns = r.of({1, 1, -1, 2});
    std::vector<int> sizes;
    std::vector<double*> x;
    for (int k : b.pbs) sizes.push_back(m.pbs[k].size), x.push_back(m.pbs[k].x.get());
    const bool no_data = !g_cost && r.chance(0.15);
    if (no_data) g_cost = b.smooth, without = users.size() - 1, users.back()->fail_at = -1;
    auto* id = ceres_problem_add_residual_block(p, no_data ? CEvaluateNoData : CEvaluate, no_data ? nullptr : users.back().get(), fun, data, b.smooth->num_residuals(), x.size(), sizes.data(), x.data());
    // the interface must not keep the caller's arrays
    std::fill(sizes.begin(), sizes.end(), -5);
    std::fill(x.begin(), x.end(), nullptr);
    c.expect(id != nullptr && ids.insert(id).second, "capi:id", "residual block id null or repeated");
    c.count("capi-blocks");
  }
  std::string printed;
  {
    Muted mute;
    ceres_solve(p);
    printed = mute.to.str();
  }
  const auto got = m.Get();
  if (without >= 0) users[without]->calls = g_calls;
  if (desc.find('6') != std::string::npos) c.count(g_loss_calls ? "capi-loss-without-data" : "capi-loss-not-reached");
  // the same in C++
  m.Set(x0);
  std::string want_report;
  std::vector<std::unique_ptr<FailingCost>> costs;
  ceres::Solver::Summary s;
  {
    ceres::Problem q(Model::NoOwn());
    for (size_t i = 0; i < m.rbs.size(); ++i) {
      costs.emplace_back(new FailingCost(m.rbs[i].smooth, users[i]->fail_at));
      std::vector<double*> x;
      for (int k : m.rbs[i].pbs) x.push_back(m.pbs[k].x.get());
      q.AddResidualBlock(costs.back().get(), losses[i].get(), x);
    }
    ceres::Solver::Options o;
    o.max_num_iterations = 100;
    o.linear_solver_type = ceres::DENSE_QR;
    o.logging_type = ceres::SILENT;
    ceres::Solve(o, &q, &s);
  }
  const auto want = m.Get();
  c.note("losses %s; %s; %s", desc.c_str(), s.BriefReport().c_str(), m.Describe().c_str());
  c.expect(got == want, "capi:solution", "the C interface ended elsewhere than the C++ one: %s", s.BriefReport().c_str());
  c.expect(printed.find(Fmt("%e", s.initial_cost)) != printed.npos && printed.find(ceres::TerminationTypeToString(s.termination_type)) != printed.npos, "capi:report", "no report of the solve: %s", printed.c_str());
  for (size_t i = 0; i < users.size(); ++i) c.expect(users[i]->calls == costs[i]->calls, "capi:calls", "block %d called %d times, by C++ %d times", int(i), users[i]->calls, costs[i]->calls);
  c.count("capi-solves");
  if (s.IsSolutionUsable()) c.count("capi-solved");
  c.sig(desc + Fmt("%zu %d", m.pbs.size(), s.termination_type));
  // solving again goes on from there
  if (r.chance(0.3)) {
    Muted mute;
    for (auto& u : users) u->fail_at = -1;
    ceres_solve(p);
    if (s.IsSolutionUsable()) {
      double a = 0, b = 0, ma = 0;
      const auto now = m.Get();
      for (size_t i = 0; i < m.rbs.size(); ++i)
        for (int pass = 0; pass < 2; ++pass) {
          std::vector<double> res(m.rbs[i].smooth->num_residuals());
          std::vector<const double*> x;
          for (int k : m.rbs[i].pbs) x.push_back((pass ? now : want)[k].data());
          m.rbs[i].smooth->Evaluate(x.data(), res.data(), nullptr);
          double sq = 0;
          for (double v : res) sq += v * v;
          double rho[3] = {sq, 1, 0};
          if (losses[i]) losses[i]->Evaluate(sq, rho);
          (pass ? b : a) += rho[0] / 2;
          ma += std::fabs(rho[0]) + sq;
        }
      c.expect(b <= a + 1e-9 * ma, "capi:again", "solving again made %.17g of %.17g", b, a);
      c.count("capi-again");
    }
  }
  ceres_free_problem(p);
  for (void* d : stock) ceres_free_stock_loss_function_data(d);
}

// ---------------------------------------------------------------- arrays, files
void Utilities(Case& c) {
  using namespace ceres::internal;
  Rng& r = c.rng;
  {
    const int n = r.chance(0.1) ? 0 : r.range(1, 40);
    std::unique_ptr<double[]> x(new double[n]);  // exactly, for ASan
    int first = n;
    for (int i = 0; i < n; ++i) x[i] = r.chance(0.3) ? r.of({0.0, -0.0, 5e-324, 1e301, -1e302, 1.7e308, std::nextafter(1e302, 0), std::nextafter(1e302, kInf)}) : r.mag(-300, 300);
    for (int k = r.chance(0.5) ? 0 : r.range(1, 3); k > 0 && n > 0; --k) {
      const int i = r.range(0, n - 1);
      x[i] = r.of({kNaN, -kNaN, kInf, -kInf, 1e302});
      first = std::min(first, i);
    }
    for (int i = 0; i < n; ++i)
      if (x[i] == 1e302) first = std::min(first, i);
    c.expect(IsArrayValid(n, x.get()) == (first == n), "arrays:valid", "IsArrayValid is wrong: first bad entry %d of %d", first, n);
    c.expect(FindInvalidValue(n, x.get()) == first, "arrays:find", "FindInvalidValue %lld instead of %d", (long long)FindInvalidValue(n, x.get()), first);
    c.expect(IsArrayValid(n, nullptr) && FindInvalidValue(n, nullptr) == n, "arrays:null", "a null array is invalid");
    std::string s = "keep", t = "keep";
    AppendArrayToString(n, x.get(), &s);
    for (int i = 0; i < n; ++i) t += x[i] == 1e302 ? "Uninitialized " : Fmt("%12g ", x[i]);
    c.expect(s == t, "arrays:string", "\"%s\" instead of \"%s\"", s.c_str(), t.c_str());
    s.clear();
    t.clear();
    AppendArrayToString(n, nullptr, &s);
    for (int i = 0; i < n; ++i) t += "Not Computed  ";
    c.expect(s == t, "arrays:string-null", "\"%s\"", s.c_str());
    InvalidateArray(n, x.get());
    InvalidateArray(n, nullptr);
    for (int i = 0; i < n; ++i) c.expect(x[i] == 1e302, "arrays:invalidate", "entry %d is %g", i, x[i]);
    c.count(first == n ? "valid-arrays" : "invalid-arrays");
    c.sig(Combine(n, first));
  }
  {
    const int n = r.range(0, 50);
    std::unique_ptr<int[]> a(new int[n]);
    const int span = r.of({1, 3, 10, 1000000});
    for (int i = 0; i < n; ++i) a[i] = r.chance(0.05) ? r.of({INT_MIN, INT_MAX, 0, -1}) : r.range(-span, span);
    const std::set<int> u(a.get(), a.get() + n);
    std::vector<int> want;
    for (int i = 0; i < n; ++i) want.push_back(std::distance(u.begin(), u.find(a[i])));
    MapValuesToContiguousRange(n, a.get());
    c.expect(std::equal(want.begin(), want.end(), a.get()), "arrays:map", "wrong ranks");
    c.count("mapped");
  }
  {
    const std::string parts[] = {"", "/", "a", "a/", "/a", "a/b", "/a/b/", "//", ".", "a//", std::string("a\0b", 3), " ", "\\"};
    const std::string d = parts[r.range(0, 12)], b = parts[r.range(0, 12)];
    std::string want;
    if (d.empty() || (!b.empty() && b[0] == '/')) want = b;
    else want = d + (d.back() == '/' ? "" : "/") + b;
    c.expect(JoinPath(d, b) == want, "file:join", "JoinPath(\"%s\", \"%s\") is \"%s\"", d.c_str(), b.c_str(), JoinPath(d, b).c_str());
    c.count("joined");
  }
  if (c.index % 8 == 0) {
    char dir[] = "/tmp/vh-config-XXXXXX";
    if (!mkdtemp(dir)) return;
    const std::string name = JoinPath(dir, "f");
    for (int k = 0; k < 2; ++k) {
      std::string data(r.chance(0.2) ? 0 : r.range(1, 20000), 0), back = "garbage";
      for (auto& ch : data) ch = static_cast<char>(r.chance(0.1) ? 0 : r.u64());
      WriteStringToFileOrDie(data, name);
      ReadFileToStringOrDie(name, &back);
      c.expect(back == data, "file:roundtrip", "%zu bytes written, %zu read, %s", data.size(), back.size(), back == data ? "equal" : "different");
      std::ifstream f(name, std::ios::binary);
      const std::string disk((std::istreambuf_iterator<char>(f)), {});
      c.expect(disk == data, "file:content", "%zu bytes written, %zu on disk", data.size(), disk.size());
    }
    unlink(name.c_str());
    rmdir(dir);
    c.count("files");
  }
}

// ---------------------------------------------------------------- reports of any summary
bool Line(const std::string& report, const std::string& label, const std::vector<std::string>& values) {
  std::istringstream in(report);
  for (std::string l; std::getline(in, l);) {
    size_t a = l.find_first_not_of(' ');
    if (a == l.npos || l.compare(a, label.size(), label)) continue;
    std::istringstream rest(l.substr(a + label.size()));
    std::string got, want;  // without the blanks: wide names may touch
    for (std::string w; rest >> w;) got += w;
    for (auto& w : values) want += w;
    if (got == want) return true;
  }
  return false;
}

void Reports(Case& c) {
  using namespace ceres;
  Rng& r = c.rng;
  Solver::Summary s;
  auto n = [&] { return r.chance(0.1) ? -1 : r.chance(0.1) ? 123456789 : r.range(0, 1000); };
  auto v = [&] { return r.chance(0.05) ? r.of({kNaN, kInf, -kInf, 0.0, -1.0}) : r.mag(-12, 12); };
  s.minimizer_type = r.of({LINE_SEARCH, TRUST_REGION});
  s.termination_type = static_cast<TerminationType>(r.range(0, 4));
  s.message = r.of({"", "Why not.", "100%s %d %n", "two\nlines"});
  s.initial_cost = v(), s.final_cost = v(), s.fixed_cost = v();
  s.num_successful_steps = n(), s.num_unsuccessful_steps = n(), s.num_inner_iteration_steps = n(), s.num_line_search_steps = n();
  s.num_linear_solves = n(), s.num_residual_evaluations = n(), s.num_jacobian_evaluations = n();
  s.num_parameter_blocks = n(), s.num_parameters = n(), s.num_effective_parameters = n(), s.num_residual_blocks = n(), s.num_residuals = n();
  s.num_parameter_blocks_reduced = n(), s.num_parameters_reduced = n(), s.num_residual_blocks_reduced = n(), s.num_residuals_reduced = n();
  s.num_effective_parameters_reduced = r.chance(0.5) ? s.num_parameters_reduced : n();
  s.preprocessor_time_in_seconds = r.uni(0, 100), s.minimizer_time_in_seconds = r.uni(0, 100), s.postprocessor_time_in_seconds = r.uni(0, 100), s.total_time_in_seconds = r.uni(0, 100);
  s.linear_solver_time_in_seconds = r.uni(0, 100), s.residual_evaluation_time_in_seconds = r.uni(0, 100), s.jacobian_evaluation_time_in_seconds = r.uni(0, 100), s.inner_iteration_time_in_seconds = r.uni(0, 100);
  s.is_constrained = r.chance(0.5);
  s.num_threads_given = r.range(1, 99), s.num_threads_used = r.range(1, 99);
  s.linear_solver_type_given = static_cast<LinearSolverType>(r.range(0, 6)), s.linear_solver_type_used = static_cast<LinearSolverType>(r.range(0, 6));
  s.mixed_precision_solves_used = r.chance(0.3);
  s.linear_solver_ordering_type = r.of({AMD, NESDIS});
  auto order = [&] { std::vector<int> o(r.range(0, 4)); for (int& k : o) k = n(); return o; };
  auto shown = [&](const std::vector<int>& o) { std::string t; for (size_t i = 0; i < o.size(); ++i) t += (i ? "," : "") + Fmt("%d", o[i]); return o.empty() ? std::string("AUTOMATIC") : t; };
  s.linear_solver_ordering_given = order(), s.linear_solver_ordering_used = order(), s.inner_iteration_ordering_given = order(), s.inner_iteration_ordering_used = order();
  s.schur_structure_given = "2,3,9", s.schur_structure_used = "d,d,d";
  s.inner_iterations_given = r.chance(0.5), s.inner_iterations_used = s.inner_iterations_given && r.chance(0.5);
  s.preconditioner_type_given = static_cast<PreconditionerType>(r.range(0, 6)), s.preconditioner_type_used = static_cast<PreconditionerType>(r.range(0, 6));
  s.visibility_clustering_type = r.of({CANONICAL_VIEWS, SINGLE_LINKAGE});
  s.trust_region_strategy_type = r.of({LEVENBERG_MARQUARDT, DOGLEG}), s.dogleg_type = r.of({TRADITIONAL_DOGLEG, SUBSPACE_DOGLEG});
  s.line_search_direction_type = r.of({STEEPEST_DESCENT, NONLINEAR_CONJUGATE_GRADIENT, LBFGS, BFGS}), s.line_search_type = r.of({ARMIJO, WOLFE});
  s.line_search_interpolation_type = r.of({BISECTION, QUADRATIC, CUBIC}), s.nonlinear_conjugate_gradient_type = r.of({FLETCHER_REEVES, POLAK_RIBIERE, HESTENES_STIEFEL});
  s.max_lbfgs_rank = r.range(1, 40);
  const bool tr = s.minimizer_type == TRUST_REGION, search = !tr || s.is_constrained;
  const std::string f = s.FullReport(), b = s.BriefReport();
  auto d = [](int k) { return Fmt("%d", k); };
  auto e = [](double x) { return Fmt("%e", x); };
  auto t = [](double x) { return Fmt("%.6f", x); };
  auto line = [&](const std::string& label, const std::vector<std::string>& values) {
    std::string all;
    for (auto& w : values) all += w + " ";
    c.expect(Line(f, label, values), "report:line", "no line \"%s %s\" in %s", label.c_str(), all.c_str(), f.c_str());
    c.count("report-lines");
  };
  const char* term = TerminationTypeToString(s.termination_type);
  line("Parameter blocks", {d(s.num_parameter_blocks), d(s.num_parameter_blocks_reduced)});
  line("Parameters", {d(s.num_parameters), d(s.num_parameters_reduced)});
  if (s.num_effective_parameters_reduced != s.num_parameters_reduced) line("Effective parameters", {d(s.num_effective_parameters), d(s.num_effective_parameters_reduced)});
  line("Residual blocks", {d(s.num_residual_blocks), d(s.num_residual_blocks_reduced)});
  line("Residuals", {d(s.num_residuals), d(s.num_residuals_reduced)});
  line("Minimizer", {tr ? "TRUST_REGION" : "LINE_SEARCH"});
  line("Threads", {d(s.num_threads_given), d(s.num_threads_used)});
  line("Initial", {e(s.initial_cost)});
  const bool good = s.termination_type != FAILURE && s.termination_type != USER_FAILURE;
  if (good) {
    line("Final", {e(s.final_cost)});
    line("Change", {e(s.initial_cost - s.final_cost)});
  }
  c.expect(s.IsSolutionUsable() == good, "report:usable", "IsSolutionUsable is %d for %s", s.IsSolutionUsable(), term);
  line("Minimizer iterations", {d(s.num_successful_steps + s.num_unsuccessful_steps)});
  if (tr) {
    line("Successful steps", {d(s.num_successful_steps)});
    line("Unsuccessful steps", {d(s.num_unsuccessful_steps)});
    line("Linear solver", {LinearSolverTypeToString(s.linear_solver_type_given), LinearSolverTypeToString(s.linear_solver_type_used)});
    line("Linear solver", {t(s.linear_solver_time_in_seconds), "(" + d(s.num_linear_solves) + ")"});
    line("Linear solver ordering", {shown(s.linear_solver_ordering_given), shown(s.linear_solver_ordering_used)});
    if (s.trust_region_strategy_type == DOGLEG) line("Trust region strategy", {"DOGLEG", s.dogleg_type == TRADITIONAL_DOGLEG ? "(TRADITIONAL)" : "(SUBSPACE)"});
    else line("Trust region strategy", {"LEVENBERG_MARQUARDT"});
    if (s.linear_solver_type_given == CGNR || s.linear_solver_type_given == ITERATIVE_SCHUR) line("Preconditioner ", {PreconditionerTypeToString(s.preconditioner_type_given), PreconditionerTypeToString(s.preconditioner_type_used)});
    if (IsSchurType(s.linear_solver_type_used)) line("Schur structure", {"2,3,9", "d,d,d"});
    if (s.inner_iterations_given) line("Use inner iterations", {"True", s.inner_iterations_used ? "True" : "False"});
    if (s.inner_iterations_used) line("Inner iteration ordering", {shown(s.inner_iteration_ordering_given), shown(s.inner_iteration_ordering_used)});
  } else {
    if (s.line_search_direction_type == LBFGS) line("Line search direction", {"LBFGS", "(" + d(s.max_lbfgs_rank) + ")"});
    else line("Line search direction", {s.line_search_direction_type == NONLINEAR_CONJUGATE_GRADIENT ? NonlinearConjugateGradientTypeToString(s.nonlinear_conjugate_gradient_type) : LineSearchDirectionTypeToString(s.line_search_direction_type)});
    line("Line search type", {LineSearchInterpolationTypeToString(s.line_search_interpolation_type), LineSearchTypeToString(s.line_search_type)});
  }
  if (s.inner_iterations_used) line("Steps with inner iterations", {d(s.num_inner_iteration_steps)});
  if (search) line("Line search steps", {d(s.num_line_search_steps)});
  line("Preprocessor", {t(s.preprocessor_time_in_seconds)});
  line("Residual only evaluation", {t(s.residual_evaluation_time_in_seconds), "(" + d(s.num_residual_evaluations) + ")"});
  line("Jacobian & residual evaluation", {t(s.jacobian_evaluation_time_in_seconds), "(" + d(s.num_jacobian_evaluations) + ")"});
  line("Minimizer", {t(s.minimizer_time_in_seconds)});
  line("Postprocessor", {t(s.postprocessor_time_in_seconds)});
  line("Total", {t(s.total_time_in_seconds)});
  c.expect(f.find(Fmt("%s (%s)", term, s.message.c_str())) != f.npos, "report:end", "how it ended is missing: %s", f.c_str());
  c.expect(b == Fmt("Ceres Solver Report: Iterations: %d, Initial cost: %e, Final cost: %e, Termination: %s", s.num_successful_steps + s.num_unsuccessful_steps, s.initial_cost, s.final_cost, term), "report:brief", "%s", b.c_str());
  c.count("reports");
  c.sig(Fmt("%d %d %d %d", s.minimizer_type, s.termination_type, s.linear_solver_type_used, s.linear_solver_type_given));
}

// ---------------------------------------------------------------- dumped trust region problems
std::vector<double> Numbers(const std::string& name, bool* ok) {
  std::ifstream f(name);
  *ok = f.good();
  std::vector<double> v;
  for (double d; f >> d;) v.push_back(d);
  return v;
}

void Dumps(Case& c) {
  using namespace ceres;
  Rng& r = c.rng;
  Model m;
  ModelOptions mo;
  mo.max_pb = 4;
  mo.max_rb = 6;
  mo.max_size = 3;
  mo.p_const = 0;
  mo.regular = true;
  m.Init(r, mo);
  Problem problem(Model::NoOwn());
  m.AddTo(&problem);
  OptionRules rules;
  rules.line_search = false;
  rules.inexact = rules.mixed = rules.extremes = rules.inner = rules.nonmonotonic = false;
  auto o = RandomOptions(r, m, rules);
  o.jacobi_scaling = r.chance(0.5);
  o.max_num_iterations = 6;
  char dir[] = "/tmp/vh-dump-XXXXXX";
  if (!mkdtemp(dir)) return;
  o.trust_region_problem_dump_directory = std::string(dir) + (r.chance(0.5) ? "/" : "");
  o.trust_region_problem_dump_format_type = TEXTFILE;
  std::set<int> asked;
  for (int k = r.range(1, 4); k > 0; --k) {
    const int i = r.range(0, 8);
    o.trust_region_minimizer_iterations_to_dump.push_back(i);
    asked.insert(i);
  }
  std::vector<int> asked_twice = o.trust_region_minimizer_iterations_to_dump;
  Solver::Summary s;
  Solve(o, &problem, &s);
  c.note("%s; %s; %s", DescribeOptions(o).c_str(), s.BriefReport().c_str(), m.Describe().c_str());
  c.expect(o.trust_region_minimizer_iterations_to_dump == asked_twice, "dump:options", "the user's list was changed");
  int files = 0;
  for (int k = 0; k <= 9; ++k) {
    const std::string base = Fmt("%s/ceres_solver_iteration_%03d", dir, k);
    bool a, b, d, x, script;
    const auto A = Numbers(base + "_A.txt", &a), B = Numbers(base + "_b.txt", &b), D = Numbers(base + "_D.txt", &d), X = Numbers(base + "_x.txt", &x);
    script = std::ifstream(base + ".m").good();
    const bool any = a || b || d || x || script;
    const int last = s.iterations.empty() ? -1 : s.iterations.back().iteration;
    if (any && !c.expect(asked.count(k), "dump:unasked", "iteration %d dumped without being asked for", k)) continue;
    // every iteration computes a step, unless the dogleg strategy reuses the last one
    if (asked.count(k) && k >= 1 && k <= last && o.trust_region_strategy_type == LEVENBERG_MARQUARDT) c.expect(any, "dump:missing", "iteration %d of %d was not dumped", k, last);
    if (!any) continue;
    ++files;
    c.count("dumped");
    if (!c.expect(a && b && d && x && script, "dump:incomplete", "iteration %d: A %d b %d D %d x %d script %d", k, a, b, d, x, script)) continue;
    const int rows = B.size(), cols = X.size();
    if (!c.expect(A.size() % 3 == 0 && rows == s.num_residuals_reduced && cols == s.num_effective_parameters_reduced && int(D.size()) == cols, "dump:size", "iteration %d: A %zu b %d x %d D %zu", k, A.size(), rows, cols, D.size())) continue;
    MatrixXd J = MatrixXd::Zero(rows, cols);
    bool in = true;
    for (size_t i = 0; i + 2 < A.size(); i += 3) {
      in = in && A[i] >= 0 && A[i] < rows && A[i + 1] >= 0 && A[i + 1] < cols && A[i] == std::floor(A[i]) && A[i + 1] == std::floor(A[i + 1]);
      if (in) J(int(A[i]), int(A[i + 1])) += A[i + 2];
    }
    if (!c.expect(in, "dump:index", "iteration %d: an entry outside of the matrix", k)) continue;
    // x minimises |Ax - b|^2 + |Dx|^2, up to sign and the printed digits
    const Eigen::Map<const VectorXd> bv(B.data(), rows), xv(X.data(), cols), dv(D.data(), cols);
    const MatrixXd H = J.transpose() * J + MatrixXd(dv.array().square().matrix().asDiagonal());
    const VectorXd g = J.transpose() * bv;
    const double err = std::min((H * xv - g).norm(), (H * xv + g).norm());
    const double tol = 3e-6 * (1 + H.norm()) * (1 + xv.norm()) * (1 + J.norm()) * (rows + cols) + 3e-6 * bv.norm() * rows;
    c.expect(err <= tol, "dump:solution", "iteration %d: x is not the solution of the dumped problem: %g, tolerance %g", k, err, tol);
    if (bv.norm() > 1e-2) c.count("dump-solutions");
    if (k == 1) {
      const auto x0 = m.Get();
      (void)x0;
      // half the squared residuals of the first problem are the reduced initial cost when there is no loss function
      bool loss = false;
      for (auto& q : m.rbs) loss = loss || q.loss;
      if (!loss) {
        c.expect(Near(bv.squaredNorm() / 2 + s.fixed_cost, s.initial_cost, 1e-5 * (1 + s.initial_cost) * rows), "dump:residuals", "iteration 1: residuals of cost %g, initial cost %g", bv.squaredNorm() / 2 + s.fixed_cost, s.initial_cost);
        c.count("dump-residuals");
      }
    }
  }
  for (int k = 0; k <= 9; ++k)
    for (const char* e : {"_A.txt", "_b.txt", "_D.txt", "_x.txt", ".m"}) unlink(Fmt("%s/ceres_solver_iteration_%03d%s", dir, k, e).c_str());
  rmdir(dir);
  c.count("dump-solves");
  c.sig(DescribeOptions(o) + Fmt("%d", files));
}

}  // namespace

VH_MAIN({"enums", Enums, 200}, {"options", Options_, 4000}, {"startable", Startable, 2000}, {"gradient", GradientOptions, 2000}, {"capi", CApi, 500}, {"utilities", Utilities, 2000}, {"reports", Reports, 500}, {"dumps", Dumps, 300})
