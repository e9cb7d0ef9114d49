// Random valid solver configurations for a model.
#ifndef OPTIONS_H_
#define OPTIONS_H_
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "ceres/solver.h"
#include "ceres/types.h"
#include "model.h"

namespace vh {

struct OptionRules {
  bool line_search = true;      // may choose the line search minimizer
  bool trust_region = true;
  bool inexact = true;          // may choose iterative linear solvers
  bool inner = true;
  bool mixed = true;            // mixed precision
  bool dogleg = true;
  bool threads = true;
  bool extremes = true;         // unusual radii, limits and tolerances
  bool nonmonotonic = true;
};

// Which blocks of the model share a residual block.
inline std::vector<std::set<int>> Adjacency(const Model& m) {
  std::vector<std::set<int>> a(m.pbs.size());
  for (auto& b : m.rbs)
    for (int i : b.pbs)
      for (int j : b.pbs)
        if (i != j) a[i].insert(j);
  return a;
}

// A linear solver ordering whose first group is an independent set, all blocks present.
inline std::shared_ptr<ceres::ParameterBlockOrdering> RandomSchurOrdering(Rng& r, const Model& m) {
  auto o = std::make_shared<ceres::ParameterBlockOrdering>();
  const auto adj = Adjacency(m);
  std::vector<int> order(m.pbs.size());
  for (size_t i = 0; i < order.size(); ++i) order[i] = i;
  if (m.num_e == 0 || r.chance(0.3)) r.shuffle(order);
  std::set<int> e;
  for (int i : order) {
    if (!e.empty() && (r.chance(0.2) || (m.num_e && i >= m.num_e))) continue;
    bool ok = true;
    for (int j : adj[i]) ok = ok && !e.count(j);
    if (ok) e.insert(i);
  }
  const int g0 = r.range(0, 4);
  const bool more = r.chance(0.3);
  for (int i : order) o->AddElementToGroup(m.pbs[i].x.get(), e.count(i) ? g0 : g0 + 1 + (more ? r.range(0, 2) : 0));
  return o;
}

inline std::shared_ptr<ceres::ParameterBlockOrdering> RandomInnerOrdering(Rng& r, const Model& m) {
  auto o = std::make_shared<ceres::ParameterBlockOrdering>();
  const auto adj = Adjacency(m);
  std::vector<int> order(m.pbs.size());
  for (size_t i = 0; i < order.size(); ++i) order[i] = i;
  r.shuffle(order);
  std::vector<std::set<int>> groups;
  for (int i : order) {
    if (r.chance(0.2)) continue;
    bool placed = false;
    for (auto& g : groups) {
      bool ok = r.chance(0.9);
      for (int j : adj[i]) ok = ok && !g.count(j);
      if (ok) {
        g.insert(i);
        placed = true;
        break;
      }
    }
    if (!placed) groups.push_back({i});
  }
  for (size_t g = 0; g < groups.size(); ++g)
    for (int i : groups[g]) o->AddElementToGroup(m.pbs[i].x.get(), g);
  if (groups.empty()) return nullptr;
  return o;
}

inline void RandomLinearSolver(Rng& r, const Model& m, const OptionRules& rules, ceres::Solver::Options* o) {
  using namespace ceres;
  o->sparse_linear_algebra_library_type = EIGEN_SPARSE;
  o->dense_linear_algebra_library_type = EIGEN;
  o->linear_solver_ordering_type = AMD;
  for (;;) {
    o->linear_solver_type = static_cast<LinearSolverType>(r.range(0, 6));
    if (!rules.inexact && (o->linear_solver_type == ITERATIVE_SCHUR || o->linear_solver_type == CGNR)) continue;
    break;
  }
  const bool schur = o->linear_solver_type == DENSE_SCHUR || o->linear_solver_type == SPARSE_SCHUR || o->linear_solver_type == ITERATIVE_SCHUR;
  if (schur) {
    if (r.chance(0.7)) o->linear_solver_ordering = RandomSchurOrdering(r, m);
  } else if (r.chance(0.2)) {
    o->linear_solver_ordering = RandomSchurOrdering(r, m);
  }
  if (o->linear_solver_type == CGNR) {
    o->preconditioner_type = r.of({IDENTITY, JACOBI, SUBSET});
    if (o->preconditioner_type == SUBSET) {
      for (auto& b : m.rbs)
        if (r.chance(0.6)) o->residual_blocks_for_subset_preconditioner.insert(b.id);
      if (o->residual_blocks_for_subset_preconditioner.empty()) o->preconditioner_type = JACOBI;
    }
  }
  if (o->linear_solver_type == ITERATIVE_SCHUR) {
    o->use_explicit_schur_complement = r.chance(0.3);
    if (o->use_explicit_schur_complement) {
      o->preconditioner_type = SCHUR_JACOBI;
    } else {
      o->preconditioner_type = r.of({IDENTITY, JACOBI, SCHUR_JACOBI, SCHUR_POWER_SERIES_EXPANSION, CLUSTER_JACOBI, CLUSTER_TRIDIAGONAL});
      o->use_spse_initialization = r.chance(0.2);
      o->max_num_spse_iterations = r.range(1, 8);
      o->spse_tolerance = r.of({0.0, 0.1});
    }
    o->visibility_clustering_type = r.of({CANONICAL_VIEWS, SINGLE_LINKAGE});
  }
  if (o->linear_solver_type == SPARSE_NORMAL_CHOLESKY) o->dynamic_sparsity = r.chance(0.3);
  if (rules.mixed && (o->linear_solver_type == DENSE_NORMAL_CHOLESKY || o->linear_solver_type == SPARSE_NORMAL_CHOLESKY || o->linear_solver_type == DENSE_SCHUR || o->linear_solver_type == SPARSE_SCHUR)) {
    o->use_mixed_precision_solves = r.chance(0.15);
    o->max_num_refinement_iterations = o->use_mixed_precision_solves ? r.range(0, 4) : 0;
  }
}

inline std::string DescribeOptions(const ceres::Solver::Options& o) {
  using namespace ceres;
  std::string s = MinimizerTypeToString(o.minimizer_type);
  if (o.minimizer_type == TRUST_REGION) {
    s += Fmt(" %s %s", TrustRegionStrategyTypeToString(o.trust_region_strategy_type), LinearSolverTypeToString(o.linear_solver_type));
    if (o.trust_region_strategy_type == DOGLEG) s += Fmt(" %s", DoglegTypeToString(o.dogleg_type));
    if (o.linear_solver_type == CGNR || o.linear_solver_type == ITERATIVE_SCHUR) s += Fmt(" %s", PreconditionerTypeToString(o.preconditioner_type));
    s += Fmt("%s%s%s%s%s%s%s%s", o.use_explicit_schur_complement ? " explicit" : "", o.use_spse_initialization ? " spse" : "", o.dynamic_sparsity ? " dynamic" : "",
             o.use_mixed_precision_solves ? " mixed" : "", o.use_nonmonotonic_steps ? " nonmonotonic" : "", o.use_inner_iterations ? " inner" : "",
             o.jacobi_scaling ? "" : " noscale", o.linear_solver_ordering ? " ordered" : "");
  } else {
    s += Fmt(" %s %s %s", LineSearchDirectionTypeToString(o.line_search_direction_type), LineSearchTypeToString(o.line_search_type), LineSearchInterpolationTypeToString(o.line_search_interpolation_type));
  }
  return s + Fmt(" t%d", o.num_threads);
}

inline ceres::Solver::Options RandomOptions(Rng& r, const Model& m, const OptionRules& rules) {
  using namespace ceres;
  Solver::Options o;
  o.logging_type = SILENT;
  o.minimizer_progress_to_stdout = false;
  o.minimizer_type = rules.line_search && (!rules.trust_region || r.chance(0.25)) ? LINE_SEARCH : TRUST_REGION;
  RandomLinearSolver(r, m, rules, &o);
  const bool inexact = o.linear_solver_type == CGNR || o.linear_solver_type == ITERATIVE_SCHUR;
  if (rules.dogleg && !inexact && r.chance(0.35)) {
    o.trust_region_strategy_type = DOGLEG;
    o.dogleg_type = r.of({TRADITIONAL_DOGLEG, SUBSPACE_DOGLEG});
  }
  if (rules.nonmonotonic && r.chance(0.25)) {
    o.use_nonmonotonic_steps = true;
    o.max_consecutive_nonmonotonic_steps = r.range(1, 6);
  }
  o.jacobi_scaling = r.chance(0.7);
  o.num_threads = rules.threads && r.chance(0.4) ? r.range(2, 4) : 1;
  if (rules.inner && r.chance(0.25)) {
    o.use_inner_iterations = true;
    if (r.chance(0.5)) o.inner_iteration_ordering = RandomInnerOrdering(r, m);
    o.inner_iteration_tolerance = r.of({0.0, 1e-3, 0.5});
  }
  o.max_num_iterations = r.chance(0.1) ? r.range(0, 2) : r.range(3, 40);
  o.max_linear_solver_iterations = r.chance(0.2) ? r.range(1, 3) : 500;
  o.min_linear_solver_iterations = r.chance(0.2) ? std::min(o.max_linear_solver_iterations, r.range(0, 3)) : 0;
  if (rules.extremes) {
    if (r.chance(0.3)) o.initial_trust_region_radius = std::pow(10.0, r.uni(-6, 12));
    if (r.chance(0.2)) o.max_trust_region_radius = std::max(o.initial_trust_region_radius, std::pow(10.0, r.uni(-1, 10)));
    if (r.chance(0.1)) o.min_trust_region_radius = std::min(o.initial_trust_region_radius, std::pow(10.0, r.uni(-30, -2)));
    if (r.chance(0.2)) o.min_lm_diagonal = std::pow(10.0, r.uni(-12, 0));
    if (r.chance(0.2)) o.max_lm_diagonal = std::max(o.min_lm_diagonal, std::pow(10.0, r.uni(0, 32)));
    if (r.chance(0.2)) o.min_relative_decrease = std::pow(10.0, r.uni(-6, -0.5));
    if (r.chance(0.15)) o.function_tolerance = r.of({0.0, 1e-2, 1e-12});
    if (r.chance(0.15)) o.gradient_tolerance = r.of({0.0, 1e-2, 1e-14});
    if (r.chance(0.15)) o.parameter_tolerance = r.of({0.0, 1e-2, 1e-14});
    if (r.chance(0.15)) o.max_num_consecutive_invalid_steps = r.range(0, 3);
    if (r.chance(0.15)) o.eta = std::pow(10.0, r.uni(-6, 0));
  }
  // line search (also used by constrained trust region problems)
  o.line_search_direction_type = r.of({STEEPEST_DESCENT, NONLINEAR_CONJUGATE_GRADIENT, LBFGS, BFGS});
  o.nonlinear_conjugate_gradient_type = r.of({FLETCHER_REEVES, POLAK_RIBIERE, HESTENES_STIEFEL});
  o.line_search_type = o.line_search_direction_type == LBFGS || o.line_search_direction_type == BFGS || r.chance(0.5) ? WOLFE : ARMIJO;
  o.line_search_interpolation_type = r.of({BISECTION, QUADRATIC, CUBIC});
  o.max_lbfgs_rank = r.range(1, 20);
  o.use_approximate_eigenvalue_bfgs_scaling = r.chance(0.5);
  if (rules.extremes) {
    if (r.chance(0.2)) o.max_num_line_search_step_size_iterations = r.range(o.minimizer_type == TRUST_REGION ? 0 : 1, 5);
    if (r.chance(0.2)) o.max_num_line_search_direction_restarts = r.range(0, 2);
    if (r.chance(0.2)) o.line_search_sufficient_function_decrease = std::pow(10.0, r.uni(-6, -1));
    if (r.chance(0.2)) o.line_search_sufficient_curvature_decrease = r.uni(0.2, 0.95);
  }
  return o;
}

}  // namespace vh
#endif
