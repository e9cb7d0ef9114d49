// C12: termination, messages, iteration records, callbacks and summary fields.
#include <set>
#include <Eigen/Dense>

#include "options.h"
#include "vh.h"

using namespace vh;
using ceres::IterationSummary;
using ceres::Solver;

namespace {

const double kMax = std::numeric_limits<double>::max();

bool Used(const Model& m, int i) {
  for (auto& b : m.rbs)
    for (int k : b.pbs)
      if (k == i) return true;
  return false;
}
bool Active(const Model& m, int i) { return !m.pbs[i].Fixed() && Used(m, i); }
bool ActiveRb(const Model& m, const Model::RB& b) {
  for (int k : b.pbs)
    if (!m.pbs[k].Fixed()) return true;
  return false;
}

// |x - Plus(x, -g)|, per the definition, over the active blocks.
void ProjectedGradient(const Model& m, const Model::State& x, double* two, double* inf, double* scale) {
  const auto g = m.Gradient(x);
  *two = *inf = 0;
  *scale = 1;
  for (size_t i = 0; i < m.pbs.size(); ++i) {
    if (!Active(m, i)) continue;
    const auto& p = m.pbs[i];
    std::vector<double> y(p.size);
    VectorXd d = -g[i];
    *scale = std::max(*scale, d.size() ? d.lpNorm<Eigen::Infinity>() : 0.0);
    if (p.man) p.man->Plus(x[i].data(), d.data(), y.data());
    else
      for (int k = 0; k < p.size; ++k) y[k] = x[i][k] + d[k];
    for (int k = 0; k < p.size; ++k) {
      if (p.Bounded()) y[k] = std::min(std::max(y[k], p.lo[k]), p.hi[k]);
      *two += (y[k] - x[i][k]) * (y[k] - x[i][k]);
      *inf = std::max(*inf, std::fabs(y[k] - x[i][k]));
      *scale = std::max(*scale, std::fabs(x[i][k]));
    }
  }
  *two = std::sqrt(*two);
}

struct Event {
  int who;
  IterationSummary it;
  Model::State x;
};
struct Recorder : ceres::IterationCallback {
  const Model* m;
  std::vector<Event>* log;
  int who = 0, stop_at = -1, when_seen = 0;
  ceres::CallbackReturnType how = ceres::SOLVER_CONTINUE;
  ceres::CallbackReturnType operator()(const IterationSummary& s) override {
    log->push_back({who, s, m->Get()});
    if (s.iteration == stop_at) return how;
    return ceres::SOLVER_CONTINUE;
  }
};

bool SameRecord(const IterationSummary& a, const IterationSummary& b) {
  return a.iteration == b.iteration && a.step_is_valid == b.step_is_valid && a.step_is_nonmonotonic == b.step_is_nonmonotonic && a.step_is_successful == b.step_is_successful && Bits(a.cost, b.cost) && Bits(a.cost_change, b.cost_change) && Bits(a.gradient_max_norm, b.gradient_max_norm) && Bits(a.gradient_norm, b.gradient_norm) && Bits(a.step_norm, b.step_norm) && Bits(a.relative_decrease, b.relative_decrease) && Bits(a.trust_region_radius, b.trust_region_radius) && Bits(a.eta, b.eta) && Bits(a.step_size, b.step_size) && a.linear_solver_iterations == b.linear_solver_iterations && a.line_search_iterations == b.line_search_iterations && a.line_search_function_evaluations == b.line_search_function_evaluations;
}

bool StartsWith(const std::string& s, const char* p) { return s.compare(0, std::strlen(p), p) == 0; }
bool Has(const std::string& s, const std::string& p) { return s.find(p) != std::string::npos; }

// The two numbers of "... %e <= %e" or ">=".
bool TwoNumbers(const std::string& s, const char* op, double* a, double* b) {
  const size_t k = s.rfind(op);
  if (k == std::string::npos) return false;
  const size_t colon = s.rfind(": ", k);
  if (colon == std::string::npos) return false;
  *a = std::atof(s.c_str() + colon + 2);
  *b = std::atof(s.c_str() + k + std::strlen(op));
  return true;
}

std::vector<int> Sizes(const ceres::ParameterBlockOrdering* o) {
  std::vector<int> v;
  if (o)
    for (auto& g : o->group_to_elements()) v.push_back(g.second.size());
  return v;
}

void Records(Case& c) {
  Rng& r = c.rng;
  ModelOptions mo;
  mo.schur = r.chance(0.4);
  mo.regular = r.chance(0.5);
  mo.p_bound = r.chance(0.25) ? 0.5 : 0;
  mo.p_const = r.chance(0.1) ? 0.9 : 0.15;
  if (r.chance(0.2)) mo.max_pb = 3, mo.max_rb = 4;
  Model m;
  m.Init(r, mo);
  for (auto& p : m.pbs)
    if (p.Bounded() && !p.Fixed() && r.chance(0.3))
      for (int k = 0; k < p.size; ++k) p.x[k] += r.uni(-2, 2);
  ceres::Problem problem(Model::NoOwn());
  m.AddTo(&problem);
  OptionRules rules;
  Solver::Options o = RandomOptions(r, m, rules);
  // the first group may be held constant altogether: nothing is left to eliminate then
  std::set<const double*> first;
  if (o.linear_solver_ordering && o.linear_solver_ordering->NumElements() > 0) {
    for (auto& g : o.linear_solver_ordering->group_to_elements())
      if (!g.second.empty()) {
        first.insert(g.second.begin(), g.second.end());
        break;
      }
    bool hold = r.chance(0.1);
    for (auto& p : m.pbs)
      if (first.count(p.x.get()) && p.Bounded()) hold = false;  // may be out of bounds, which no constant may
    for (auto& p : m.pbs)
      if (hold && first.count(p.x.get())) {
        p.constant = true;
        problem.SetParameterBlockConstant(p.x.get());
      }
  }
  bool first_gone = !first.empty();
  for (size_t i = 0; i < m.pbs.size(); ++i)
    if (first.count(m.pbs[i].x.get()) && Active(m, i)) first_gone = false;
  bool any_active = false, bounded = false, reduced_bounded = false;
  for (size_t i = 0; i < m.pbs.size(); ++i) {
    const auto& p = m.pbs[i];
    any_active = any_active || Active(m, i);
    if (p.constant) continue;
    for (size_t k = 0; k < p.lo.size(); ++k)
      if (p.lo[k] > -kMax || p.hi[k] < kMax) {
        bounded = true;
        if (Active(m, i)) reduced_bounded = true;
      }
  }
  if (o.minimizer_type == ceres::LINE_SEARCH && bounded) o.minimizer_type = ceres::TRUST_REGION;
  if (r.chance(0.05)) o.max_solver_time_in_seconds = 0;
  o.update_state_every_iteration = r.chance(0.5);
  o.logging_type = ceres::SILENT;
  std::vector<Event> log;
  std::vector<std::unique_ptr<Recorder>> recs;
  const int ncb = r.range(0, 3);
  for (int k = 0; k < ncb; ++k) {
    recs.emplace_back(new Recorder);
    recs.back()->m = &m;
    recs.back()->log = &log;
    recs.back()->who = k;
    if (r.chance(0.15)) {
      recs.back()->stop_at = r.range(0, 6);
      recs.back()->how = r.of({ceres::SOLVER_ABORT, ceres::SOLVER_TERMINATE_SUCCESSFULLY});
    }
    o.callbacks.push_back(recs.back().get());
  }
  c.note("%s; %s; %d callbacks%s", m.Describe().c_str(), DescribeOptions(o).c_str(), ncb, o.update_state_every_iteration ? " updating" : "");
  std::string why;
  if (!c.expect(o.IsValid(&why), "harness/options", "%s", why.c_str())) return;
  const std::vector<int> lin_given = Sizes(o.linear_solver_ordering.get()), inner_given = Sizes(o.inner_iteration_ordering.get());
  const Model::State x0 = m.Get();
  for (auto& b : m.rbs) b.smooth->calls = b.smooth->jcalls = 0;
  Solver::Summary s;
  ceres::Solve(o, &problem, &s);
  const Model::State xf = m.Get();
  const bool ls = o.minimizer_type == ceres::LINE_SEARCH;
  const bool usable = s.IsSolutionUsable();
  const char* term = ceres::TerminationTypeToString(s.termination_type);
  const char* kind = ls ? "ls" : "tr";
  c.count(Fmt("%s-%s", kind, term));
  c.expect(!s.message.empty(), "summary/message", "empty message");
  c.expect(usable == (s.termination_type == ceres::CONVERGENCE || s.termination_type == ceres::NO_CONVERGENCE || s.termination_type == ceres::USER_SUCCESS), "summary/usable", "IsSolutionUsable %d for %s", usable, term);

  // ---- what was asked for ----
  c.expect(s.minimizer_type == o.minimizer_type && s.linear_solver_type_given == o.linear_solver_type && s.preconditioner_type_given == o.preconditioner_type && s.trust_region_strategy_type == o.trust_region_strategy_type && s.dogleg_type == o.dogleg_type && s.num_threads_given == o.num_threads && s.inner_iterations_given == o.use_inner_iterations && s.line_search_direction_type == o.line_search_direction_type && s.line_search_type == o.line_search_type && s.line_search_interpolation_type == o.line_search_interpolation_type && s.nonlinear_conjugate_gradient_type == o.nonlinear_conjugate_gradient_type && s.max_lbfgs_rank == o.max_lbfgs_rank && s.visibility_clustering_type == o.visibility_clustering_type && s.sparse_linear_algebra_library_type == o.sparse_linear_algebra_library_type && s.dense_linear_algebra_library_type == o.dense_linear_algebra_library_type && s.linear_solver_ordering_type == o.linear_solver_ordering_type,
           "summary/settings", "the summary's settings are not those of the options");
  c.expect(s.linear_solver_ordering_given == lin_given, "summary/ordering-given", "linear solver ordering given is reported wrong");
  c.expect(s.inner_iteration_ordering_given == inner_given, "summary/inner-ordering-given", "inner iteration ordering given is reported wrong");

  // ---- the problem ----
  int n[5] = {0}, q[5] = {0};
  double fixed = 0, fixed_mag = 1;
  std::vector<int> active;
  for (size_t i = 0; i < m.pbs.size(); ++i) {
    const auto& p = m.pbs[i];
    n[0]++, n[1] += p.size, n[2] += p.tangent;
    if (Active(m, i)) q[0]++, q[1] += p.size, q[2] += p.tangent, active.push_back(i);
  }
  for (auto& b : m.rbs) {
    n[3]++, n[4] += b.smooth->f.m;
    if (ActiveRb(m, b)) q[3]++, q[4] += b.smooth->f.m;
    else {
      const auto e = m.EvalBlock(b, x0);
      fixed += e.cost, fixed_mag += std::fabs(e.cost) + e.mag;
    }
  }
  c.expect(s.num_parameter_blocks == n[0] && s.num_parameters == n[1] && s.num_effective_parameters == n[2] && s.num_residual_blocks == n[3] && s.num_residuals == n[4], "summary/size", "sizes %d %d %d %d %d, are %d %d %d %d %d", s.num_parameter_blocks, s.num_parameters, s.num_effective_parameters, s.num_residual_blocks, s.num_residuals, n[0], n[1], n[2], n[3], n[4]);
  c.expect(s.num_parameter_blocks_reduced == q[0] && s.num_parameters_reduced == q[1] && s.num_effective_parameters_reduced == q[2] && s.num_residual_blocks_reduced == q[3] && s.num_residuals_reduced == q[4], "summary/size-reduced", "reduced sizes %d %d %d %d %d, are %d %d %d %d %d", s.num_parameter_blocks_reduced, s.num_parameters_reduced, s.num_effective_parameters_reduced, s.num_residual_blocks_reduced, s.num_residuals_reduced, q[0], q[1], q[2], q[3], q[4]);
  c.expect(Near(s.fixed_cost, fixed, 1e-12 * fixed_mag), "summary/fixed-cost", "fixed cost %.17g, is %.17g", s.fixed_cost, fixed);
  c.count("summaries");
  if (fixed > 0) c.count("fixed-cost");
  const std::string full = s.FullReport(), brief = s.BriefReport();
  c.expect(Has(full, term) && Has(full, s.message), "report/termination", "the full report does not tell how the solve ended: %s", full.c_str());
  c.expect(Has(full, Fmt("%e", s.initial_cost)) && Has(brief, Fmt("Initial cost: %e", s.initial_cost)) && Has(brief, Fmt("Final cost: %e", s.final_cost)) && Has(brief, term), "report/costs", "the reports do not show the costs: %s", brief.c_str());
  c.expect(usable == Has(full, Fmt("%e", s.initial_cost - s.final_cost)) || !usable, "report/change", "cost change missing from the full report");
  c.expect(Has(brief, Fmt("Iterations: %d", s.num_successful_steps + s.num_unsuccessful_steps)), "report/iterations", "brief report: %s", brief.c_str());

  if (!any_active) {
    c.expect(s.termination_type == ceres::CONVERGENCE && StartsWith(s.message, "Function tolerance reached. No non-constant"), "stop/nothing-to-do", "no free parameter, but %s: %s", term, s.message.c_str());
    c.expect(s.iterations.empty() && log.empty(), "stop/nothing-to-do-iterations", "iterations on a problem without free parameters");
    c.expect(Near(s.initial_cost, fixed, 1e-12 * fixed_mag) && Bits(s.initial_cost, s.final_cost), "stop/nothing-to-do-cost", "cost %.17g", s.final_cost);
    c.count("nothing-free");
    return;
  }
  c.expect(s.num_threads_used == o.num_threads, "summary/threads-used", "threads used %d of %d", s.num_threads_used, o.num_threads);
  if (!ls) {
    c.expect(s.is_constrained == reduced_bounded, "summary/constrained", "is_constrained %d, bounds on active blocks %d", s.is_constrained, reduced_bounded);
    c.expect(!s.inner_iterations_used || o.use_inner_iterations, "summary/inner-used", "inner iterations used without being asked for");
    if (o.use_inner_iterations && q[0] == 1) c.expect(!s.inner_iterations_used, "summary/inner-single", "inner iterations on one block");
    if (o.use_inner_iterations && q[0] > 1 && !o.inner_iteration_ordering) c.expect(s.inner_iterations_used, "summary/inner-unused", "inner iterations asked for but not used");
    // the first group of the given ordering decides whether Schur elimination is possible
    const bool schur = o.linear_solver_type == ceres::DENSE_SCHUR || o.linear_solver_type == ceres::SPARSE_SCHUR || o.linear_solver_type == ceres::ITERATIVE_SCHUR;
    if (!schur) c.expect(s.linear_solver_type_used == o.linear_solver_type, "summary/solver-used", "linear solver used %s", ceres::LinearSolverTypeToString(s.linear_solver_type_used));
    int used = 0;
    for (int k : s.linear_solver_ordering_used) used += k;
    c.expect(used == q[0], "summary/ordering-used", "the ordering used holds %d blocks of %d", used, q[0]);
    if (s.linear_solver_type_used == ceres::DENSE_SCHUR || s.linear_solver_type_used == ceres::SPARSE_SCHUR || s.linear_solver_type_used == ceres::ITERATIVE_SCHUR) {
      c.expect(s.linear_solver_type_used == o.linear_solver_type, "summary/schur-used", "Schur solver was replaced by another");
      c.expect(!s.schur_structure_given.empty() && !s.schur_structure_used.empty(), "summary/schur-structure", "no Schur structure reported");
      c.count("schur");
    } else if (schur) {
      c.count("schur-replaced");
      c.expect(lin_given.size() > 0, "summary/schur-replaced", "Schur replaced without a user ordering");
    }
    const auto given = o.linear_solver_type;
    auto solver = given;
    auto preconditioner = o.preconditioner_type;
    if (schur && first_gone) {
      solver = given == ceres::DENSE_SCHUR ? ceres::DENSE_QR : given == ceres::SPARSE_SCHUR ? ceres::SPARSE_NORMAL_CHOLESKY : ceres::CGNR;
      if (given == ceres::ITERATIVE_SCHUR && preconditioner != ceres::IDENTITY && preconditioner != ceres::JACOBI && preconditioner != ceres::SUBSET) preconditioner = ceres::JACOBI;
      c.count("first-group-gone");
    }
    c.expect(s.linear_solver_type_used == solver && s.preconditioner_type_used == preconditioner, "summary/replaced", "%s with %s for %s with %s, first group %s", ceres::LinearSolverTypeToString(s.linear_solver_type_used), ceres::PreconditionerTypeToString(s.preconditioner_type_used), ceres::LinearSolverTypeToString(given), ceres::PreconditionerTypeToString(o.preconditioner_type), first_gone ? "constant" : first.empty() ? "unknown" : "there");
    c.expect(s.mixed_precision_solves_used == o.use_mixed_precision_solves, "summary/mixed", "mixed precision used %d", s.mixed_precision_solves_used);
  }

  // ---- records ----
  const auto& its = s.iterations;
  double mag0 = 0;
  Model::State start = x0;
  for (int i : active)
    for (size_t k = 0; k < m.pbs[i].lo.size(); ++k) start[i][k] = std::min(std::max(start[i][k], m.pbs[i].lo[k]), m.pbs[i].hi[k]);
  const double c0 = m.Cost(start, true, &mag0);
  const double tol = 1e-9 * mag0;
  if (s.termination_type == ceres::FAILURE && its.empty()) {
    c.fail("stop/early-failure", "failed before the first iteration: %s", s.message.c_str());
    return;
  }
  c.expect(Near(s.initial_cost, c0, tol), "record/initial-cost", "initial cost %.17g, is %.17g", s.initial_cost, c0);
  int good = 0, bad = 0, lin = 0;
  double best = s.initial_cost, current = s.initial_cost, cumulative = 0;
  double g2 = 0, ginf = 0;
  for (size_t i = 0; i < its.size(); ++i) {
    const IterationSummary& t = its[i];
    c.count("records");
    c.expect(t.iteration == static_cast<int>(i), "record/number", "iteration %d at position %zu", t.iteration, i);
    if (ls) {
      c.expect(i == 0 || (t.step_is_successful && t.step_is_valid), "record/ls-success", "line search iteration %zu not successful", i);
    } else {
      c.expect(!t.step_is_successful || t.step_is_valid, "record/valid", "iteration %zu successful but invalid", i);
      c.expect(i > 0 || t.step_is_successful, "record/first", "iteration 0 not successful");
    }
    c.expect(std::isfinite(t.cost) || !t.step_is_successful, "record/cost-finite", "iteration %zu cost %g", i, t.cost);
    if (i == 0) {
      c.expect(Near(t.cost, s.initial_cost, 1e-14 * mag0) && t.cost_change == 0 && t.step_norm == 0, "record/zero", "iteration 0: cost %.17g change %g step %g", t.cost, t.cost_change, t.step_norm);
    } else if (t.step_is_successful) {
      const double scale = std::fabs(current) + std::fabs(t.cost) + s.fixed_cost;
      c.expect(Near(t.cost_change, current - t.cost, 1e-12 * scale), "record/cost-change", "iteration %zu: change %.17g but cost went from %.17g to %.17g", i, t.cost_change, current, t.cost);
      // (sums over threads may round differently at the same point)
      c.expect(t.step_norm > 0 || std::fabs(t.cost_change) <= 1e-12 * scale, "record/step-norm", "iteration %zu changed the cost by %g with a step of length %g", i, t.cost_change, t.step_norm);
      if (!ls) {
        c.expect(o.use_nonmonotonic_steps || t.cost <= current + 1e-12 * scale, "record/monotonic", "iteration %zu accepted at cost %.17g after %.17g", i, t.cost, current);
        if (!s.inner_iterations_used) c.expect(t.relative_decrease > o.min_relative_decrease, "record/relative-decrease", "iteration %zu accepted with relative decrease %g, limit %g", i, t.relative_decrease, o.min_relative_decrease);
        c.expect(t.step_is_nonmonotonic == !(t.cost < best) || std::fabs(t.cost - best) <= 1e-13 * scale, "record/nonmonotonic", "iteration %zu: nonmonotonic %d, cost %.17g, best %.17g", i, t.step_is_nonmonotonic, t.cost, best);
      } else {
        c.expect(t.step_size >= 0 && t.line_search_iterations >= 0 && t.line_search_function_evaluations >= 1, "record/line-search", "iteration %zu: step size %g, %d evaluations", i, t.step_size, t.line_search_function_evaluations);
      }
    } else if (!ls) {
      if (t.step_is_valid) {
        const double scale = std::fabs(current) + std::fabs(t.cost) + s.fixed_cost;
        if (t.cost < kMax) c.expect(Near(t.cost_change, current - t.cost, 1e-12 * scale), "record/cost-change-rejected", "iteration %zu: change %.17g, costs %.17g and %.17g", i, t.cost_change, current, t.cost);
        c.expect(t.relative_decrease <= o.min_relative_decrease, "record/rejected-though-good", "iteration %zu rejected with relative decrease %g", i, t.relative_decrease);
        c.count("rejected");
      } else {
        c.expect(t.cost_change == 0 && t.step_norm == 0 && Near(t.cost, current, 1e-12 * (1 + std::fabs(current))), "record/invalid", "invalid iteration %zu: cost %.17g change %g step %g", i, t.cost, t.cost_change, t.step_norm);
        c.count("invalid");
      }
      c.expect(Bits(t.gradient_norm, g2) && Bits(t.gradient_max_norm, ginf), "record/gradient-kept", "iteration %zu did not move but its gradient norms changed", i);
    }
    g2 = t.gradient_norm, ginf = t.gradient_max_norm;
    c.expect(ginf <= g2 * (1 + 1e-12) && g2 <= ginf * std::sqrt(1.0 * q[1]) * (1 + 1e-12), "record/norms", "iteration %zu: gradient norms %g and max %g", i, g2, ginf);
    if (t.step_is_successful || i == 0) ++good;
    else ++bad;
    if (t.step_is_successful || i == 0) current = t.cost, best = std::min(best, t.cost);
    lin += t.linear_solver_iterations;
    if (!ls) {
      c.expect(t.trust_region_radius > 0 && std::isfinite(t.trust_region_radius), "record/radius", "iteration %zu radius %g", i, t.trust_region_radius);
      if (o.trust_region_strategy_type == ceres::LEVENBERG_MARQUARDT) c.expect(t.trust_region_radius <= o.max_trust_region_radius, "record/radius-max", "iteration %zu radius %g above the limit %g", i, t.trust_region_radius, o.max_trust_region_radius);
    }
    c.expect(t.iteration_time_in_seconds >= 0 && t.cumulative_time_in_seconds >= cumulative, "record/time", "iteration %zu times %g %g", i, t.iteration_time_in_seconds, t.cumulative_time_in_seconds);
    cumulative = t.cumulative_time_in_seconds;
  }
  c.expect(Near(s.final_cost, best, 1e-13 * (1 + std::fabs(best))), "record/final-cost", "final cost %.17g, best successful record %.17g", s.final_cost, best);
  if (!its.empty()) {
    const int g = ls ? good - 1 : good;
    c.expect(s.num_successful_steps == g && s.num_unsuccessful_steps == bad, "summary/steps", "steps reported %d+%d, recorded %d+%d", s.num_successful_steps, s.num_unsuccessful_steps, g, bad);
  }
  c.expect(s.total_time_in_seconds >= s.minimizer_time_in_seconds && s.minimizer_time_in_seconds >= 0 && s.preprocessor_time_in_seconds >= 0 && s.postprocessor_time_in_seconds >= 0, "summary/time", "times do not add up");

  // ---- how it ended ----
  const int last = static_cast<int>(its.size()) - 1;
  int stopper = -1, stop_iter = 1 << 30;
  for (int k = 0; k < ncb; ++k)
    if (recs[k]->stop_at >= 0 && recs[k]->stop_at < stop_iter) stop_iter = recs[k]->stop_at, stopper = k;
  c.expect(last <= o.max_num_iterations, "stop/max-iterations", "%d iterations, limit %d", last, o.max_num_iterations);
  c.expect(last <= stop_iter, "stop/callback-ignored", "callback %d stopped at %d but %d iterations were made", stopper, stop_iter, last);
  double a, b;
  if (s.termination_type == ceres::CONVERGENCE) {
    if (StartsWith(s.message, "Gradient tolerance reached")) {
      c.count("gradient-tolerance");
      c.expect(TwoNumbers(s.message, " <= ", &a, &b) && a <= b * (1 + 1e-5) && Near(b, o.gradient_tolerance, 1e-5 * b), "stop/gradient-message", "%s", s.message.c_str());
      double two, inf, scale;
      if (!its.empty()) c.expect(its.back().gradient_max_norm <= o.gradient_tolerance, "stop/gradient", "gradient %g, tolerance %g", its.back().gradient_max_norm, o.gradient_tolerance);
      // non-monotonic solves return the cheapest point, which may be an earlier one of equal cost
      bool cheapest = !its.empty() && its.back().cost <= s.final_cost;
      if (o.use_nonmonotonic_steps)
        for (size_t i = 0; i + 1 < its.size(); ++i) cheapest = cheapest && !(its[i].step_is_successful && its[i].cost <= its.back().cost);
      if (cheapest) {
        ProjectedGradient(m, xf, &two, &inf, &scale);
        c.expect(inf <= o.gradient_tolerance + 1e-10 * scale * mag0, "stop/gradient-true", "gradient at the solution %g, tolerance %g", inf, o.gradient_tolerance);
      }
    } else if (StartsWith(s.message, "Function tolerance reached")) {
      c.count("function-tolerance");
      if (TwoNumbers(s.message, " <= ", &a, &b) && !std::isnan(a)) c.expect(a <= b * (1 + 1e-5) && Near(b, o.function_tolerance, 1e-5 * b), "stop/function-message", "%s", s.message.c_str());
      if (ls) c.expect(std::fabs(its.back().cost_change) <= o.function_tolerance * (std::fabs(its.back().cost) + std::fabs(its.back().cost_change)) * (1 + 1e-9), "stop/function", "change %g at cost %g", its.back().cost_change, its.back().cost);
    } else if (StartsWith(s.message, "Parameter tolerance reached")) {
      c.count("parameter-tolerance");
      c.expect(TwoNumbers(s.message, " <= ", &a, &b) && a <= b * (1 + 1e-5) && Near(b, o.parameter_tolerance, 1e-5 * b), "stop/parameter-message", "%s", s.message.c_str());
    } else if (StartsWith(s.message, "Minimum trust region radius reached")) {
      c.count("radius-tolerance");
      c.expect(!ls && its.back().trust_region_radius <= o.min_trust_region_radius, "stop/radius", "radius %g, limit %g", its.back().trust_region_radius, o.min_trust_region_radius);
    } else {
      c.fail("stop/reason", "convergence because: %s", s.message.c_str());
    }
  } else if (s.termination_type == ceres::NO_CONVERGENCE) {
    if (StartsWith(s.message, "Maximum number of iterations reached")) {
      c.count("max-iterations");
      c.expect(last == o.max_num_iterations, "stop/iterations", "stopped after %d iterations, limit %d", last, o.max_num_iterations);
    } else if (StartsWith(s.message, "Maximum solver time reached")) {
      c.count("max-time");
      c.expect(s.total_time_in_seconds >= o.max_solver_time_in_seconds, "stop/time", "time %g, limit %g", s.total_time_in_seconds, o.max_solver_time_in_seconds);
      c.expect(o.max_solver_time_in_seconds == 0 ? last == 0 : true, "stop/time-zero", "no time allowed but %d iterations", last);
    } else {
      c.fail("stop/reason", "no convergence because: %s", s.message.c_str());
    }
  } else if (s.termination_type == ceres::USER_SUCCESS || s.termination_type == ceres::USER_FAILURE) {
    const bool abort = s.termination_type == ceres::USER_FAILURE;
    c.expect(stopper >= 0 && last == stop_iter, "stop/user", "%s at iteration %d, callback asked at %d", term, last, stop_iter);
    if (stopper >= 0) c.expect(recs[stopper]->how == (abort ? ceres::SOLVER_ABORT : ceres::SOLVER_TERMINATE_SUCCESSFULLY), "stop/user-how", "%s", term);
    c.expect(s.message == (abort ? "User callback returned SOLVER_ABORT." : "User callback returned SOLVER_TERMINATE_SUCCESSFULLY."), "stop/user-message", "%s", s.message.c_str());
    c.count("user-stop");
  } else {
    c.expect(!ls || Has(s.message, "line search") || Has(s.message, "Line search"), "stop/failure", "failed: %s", s.message.c_str());
    if (!ls) c.expect(Has(s.message, "consecutive invalid steps"), "stop/failure", "failed: %s", s.message.c_str());
  }
  if (last == stop_iter && its.size()) c.expect(s.termination_type == ceres::USER_SUCCESS || s.termination_type == ceres::USER_FAILURE, "stop/callback-overruled", "a callback stopped iteration %d but the solve ended with %s: %s", stop_iter, term, s.message.c_str());

  // ---- callbacks ----
  size_t e = 0;
  double best_cb = s.initial_cost;
  for (size_t i = 0; i < its.size() && ncb > 0; ++i) {
    if (its[i].step_is_successful || i == 0) best_cb = std::min(best_cb, its[i].cost);
    for (int k = 0; k < ncb; ++k) {
      const bool present = e < log.size();
      if (!c.expect(present, ls && usable ? "callback/missing-last" : "callback/missing", "callback %d not called for iteration %zu of %zu (%s)", k, i, its.size(), s.message.c_str())) return;
      const Event& v = log[e++];
      if (!c.expect(v.who == k && v.it.iteration == static_cast<int>(i), "callback/order", "callback %d called for iteration %d, expected callback %d for %zu", v.who, v.it.iteration, k, i)) return;
      c.expect(SameRecord(v.it, its[i]), "callback/record", "the record passed for iteration %zu is not the one kept", i);
      c.count("callbacks");
      if (o.update_state_every_iteration) {
        double mag = 0;
        const double cost = m.Cost(v.x, true, &mag);
        c.expect(Near(cost, best_cb, 1e-9 * (mag + mag0)), "callback/state", "at iteration %zu the user state costs %.17g, the best so far is %.17g", i, cost, best_cb);
        if (v.it.step_is_successful && best_cb == its[i].cost) {
          double two, inf, scale;
          ProjectedGradient(m, v.x, &two, &inf, &scale);
          c.expect(Near(two, its[i].gradient_norm, 1e-8 * scale * std::sqrt(mag0 + 1)) && Near(inf, its[i].gradient_max_norm, 1e-8 * scale * std::sqrt(mag0 + 1)), "record/gradient", "iteration %zu: gradient norms %.12g %.12g, are %.12g %.12g", i, its[i].gradient_norm, its[i].gradient_max_norm, two, inf);
          c.count("gradients");
        }
        // the distance travelled
        if (i > 0 && its[i].step_is_successful && its[i - 1].step_is_successful && !its[i].step_is_nonmonotonic && !its[i - 1].step_is_nonmonotonic && e >= static_cast<size_t>(ncb) + 1) {
          const Event& w = log[e - 1 - ncb];
          double d = 0, len = 1;
          for (int p : active)
            for (int k2 = 0; k2 < m.pbs[p].size; ++k2) d += std::pow(v.x[p][k2] - w.x[p][k2], 2), len = std::max(len, std::fabs(v.x[p][k2]));
          c.expect(Near(std::sqrt(d), its[i].step_norm, 1e-12 * len), "record/step-norm-true", "iteration %zu moved by %.12g but reports a step of %.12g", i, std::sqrt(d), its[i].step_norm);
          c.count("steps");
        }
      } else {
        bool same = true;
        for (size_t p = 0; p < v.x.size(); ++p)
          for (size_t k2 = 0; k2 < v.x[p].size(); ++k2) same = same && Bits(v.x[p][k2], x0[p][k2]);
        c.expect(same, "callback/untouched", "user state changed before the end of the solve, at iteration %zu", i);
      }
      if (recs[k]->stop_at == static_cast<int>(i)) {
        c.expect(e == log.size() && i + 1 == its.size(), "callback/after-stop", "work went on after a callback stopped the solve");
        break;
      }
    }
  }
  c.expect(e == log.size(), "callback/extra", "%zu callback calls, expected %zu", log.size(), e);

  // ---- evaluations ----
  if (!s.inner_iterations_used) {
    for (auto& b : m.rbs) {
      if (!ActiveRb(m, b)) continue;
      const int plain = b.smooth->calls - b.smooth->jcalls;
      if (!c.expect(plain == s.num_residual_evaluations && b.smooth->jcalls == s.num_jacobian_evaluations, "summary/evaluations", "a cost function was called %d+%d times, reported %d+%d", plain, b.smooth->jcalls.load(), s.num_residual_evaluations, s.num_jacobian_evaluations)) break;
      c.count("evaluations", plain + b.smooth->jcalls);
    }
  }
  if (!ls) {
    int computed = 0;
    for (auto& t : its) computed += t.iteration > 0;
    if (o.trust_region_strategy_type == ceres::LEVENBERG_MARQUARDT) c.expect(s.num_linear_solves == computed || s.num_linear_solves == computed + 1, "summary/linear-solves-lm", "%d linear solves for %d steps", s.num_linear_solves, computed);
  }
  c.sig(Fmt("%s|%s|%.12s|%d%d%d", DescribeOptions(o).c_str(), term, s.message.c_str(), ncb, o.update_state_every_iteration, bounded));
}

}  // namespace

VH_MAIN({"records", Records, 3000})
