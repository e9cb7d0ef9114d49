// C11: Solve never worsens the cost and respects constraints.
#include <Eigen/Dense>

#include "options.h"
#include "vh.h"

using namespace vh;

namespace {

// The user parameters a minimizer starts from: bounded free blocks projected.
Model::State Projected(const Model& m, const Model::State& x) {
  Model::State y = x;
  for (size_t i = 0; i < m.pbs.size(); ++i) {
    const auto& p = m.pbs[i];
    if (p.Fixed() || !p.Bounded()) continue;
    for (int k = 0; k < p.size; ++k) y[i][k] = std::min(std::max(y[i][k], p.lo[k]), p.hi[k]);
  }
  return y;
}

bool Used(const Model& m, int i) {
  for (auto& b : m.rbs)
    for (int k : b.pbs)
      if (k == i) return true;
  return false;
}

// What every solve must leave behind, however it went.
void CheckAfter(Case& c, const Model& m, const Model::State& x0, const ceres::Solver::Summary& s, bool constrained) {
  const Model::State x = m.Get();
  bool finite = true;
  for (auto& b : x)
    for (double v : b) finite = finite && std::isfinite(v);
  if (!c.expect(finite, "solve/finite", "a final parameter is not finite")) return;
  const bool usable = s.IsSolutionUsable();
  c.count(ceres::TerminationTypeToString(s.termination_type));
  if (!usable) {
    for (size_t i = 0; i < x.size(); ++i)
      for (size_t k = 0; k < x[i].size(); ++k)
        c.expect(Bits(x[i][k], x0[i][k]), "solve/restore", "%s but block %zu[%zu] went from %.17g to %.17g (%s)", ceres::TerminationTypeToString(s.termination_type), i, k, x0[i][k], x[i][k], s.message.c_str());
    c.count("unusable");
    return;
  }
  c.count("usable");
  for (size_t i = 0; i < x.size(); ++i) {
    const auto& p = m.pbs[i];
    const bool fixed = p.Fixed() || !Used(m, i);
    if (fixed) {
      c.count("fixed-blocks");
      for (int k = 0; k < p.size; ++k)
        c.expect(Bits(x[i][k], x0[i][k]), p.constant ? "solve/constant" : "solve/unused", "block %zu[%d] must not move but went from %.17g to %.17g", i, k, x0[i][k], x[i][k]);
      continue;
    }
    if (p.Bounded()) {
      c.count("bounded-blocks");
      for (int k = 0; k < p.size; ++k) c.expect(x[i][k] >= p.lo[k] && x[i][k] <= p.hi[k], "solve/bounds", "block %zu[%d] ended at %.17g outside [%.17g, %.17g]", i, k, x[i][k], p.lo[k], p.hi[k]);
    }
    for (int k : p.held) {
      c.count("held");
      c.expect(Bits(x[i][k], x0[i][k]), "solve/held", "held coordinate %zu[%d] went from %.17g to %.17g", i, k, x0[i][k], x[i][k]);
    }
    if (p.kind == kQuat || p.kind == kEigenQuat || p.kind == kSphere || p.kind == kProduct) {
      c.count("on-manifold");
      double n = 0, n0 = 0;
      const int dim = p.kind == kProduct ? 4 : p.size;
      for (int k = 0; k < dim; ++k) n += x[i][k] * x[i][k], n0 += x0[i][k] * x0[i][k];
      c.expect(std::fabs(std::sqrt(n) - std::sqrt(n0)) <= 1e-9, "solve/on-manifold", "block %zu left its manifold: norm %.17g, was %.17g", i, std::sqrt(n), std::sqrt(n0));
    }
  }
  const Model::State start = Projected(m, x0);
  double mag0 = 0, mag = 0;
  const double c0 = m.Cost(start, true, &mag0), c1 = m.Cost(x, true, &mag);
  c.expect(Near(s.initial_cost, c0, 1e-10 * mag0 + 1e-300), "solve/initial-cost", "initial cost reported %.17g, is %.17g", s.initial_cost, c0);
  c.expect(Near(s.final_cost, c1, 1e-9 * mag + 1e-300), "solve/final-cost", "final cost reported %.17g, that of the final parameters is %.17g (%s)", s.final_cost, c1, s.message.c_str());
  c.expect(s.final_cost <= s.initial_cost, "solve/not-worse", "final cost %.17g above initial cost %.17g", s.final_cost, s.initial_cost);
  c.expect(c1 <= c0 + 1e-10 * (mag + mag0), "solve/not-worse-true", "cost at the end %.17g above that at the start %.17g", c1, c0);
  if (c1 < c0) c.count("improved");
  c.count("solved");
  (void)constrained;
}

void Random(Case& c) {
  Rng& r = c.rng;
  ModelOptions mo;
  mo.schur = r.chance(0.4);
  mo.regular = r.chance(0.3);
  mo.p_bound = r.chance(0.35) ? 0.5 : 0;
  mo.p_const = r.chance(0.1) ? 0.9 : 0.15;
  if (r.chance(0.1)) mo.max_pb = 2, mo.max_rb = 3;
  Model m;
  m.Init(r, mo);
  if (r.chance(0.1)) {
    // far from home
    for (auto& p : m.pbs)
      if (!p.man && !p.Bounded())
        for (int k = 0; k < p.size; ++k) p.x[k] *= 1e3;
  }
  bool constrained = false, free = false;
  for (size_t i = 0; i < m.pbs.size(); ++i) {
    auto& p = m.pbs[i];
    if (!p.Fixed() && Used(m, i)) free = true;
    if (!p.Bounded()) continue;
    if (!p.Fixed() && r.chance(0.3))
      for (int k = 0; k < p.size; ++k)
        if (r.chance(0.5)) p.x[k] += r.uni(-3, 3);
    if (!p.Fixed())
      for (int k = 0; k < p.size; ++k) constrained = constrained || p.lo[k] > -std::numeric_limits<double>::max() || p.hi[k] < std::numeric_limits<double>::max();
  }
  ceres::Problem problem(Model::NoOwn());
  m.AddTo(&problem);
  const ceres::Solver::Options o = RandomOptions(r, m, OptionRules());
  c.note("%s; %s", m.Describe().c_str(), DescribeOptions(o).c_str());
  std::string why;
  if (!c.expect(o.IsValid(&why), "harness/options", "%s", why.c_str())) return;
  const Model::State x0 = m.Get();
  ceres::Solver::Summary s;
  ceres::Solve(o, &problem, &s);
  if (o.minimizer_type == ceres::LINE_SEARCH && constrained) {
    c.expect(s.termination_type == ceres::FAILURE, "solve/line-search-bounds", "the line search minimizer accepted bounds: %s", s.message.c_str());
    c.count("line-search-bounds");
  } else if (s.termination_type == ceres::FAILURE && free) {
    // nothing about these problems is fatal at the start
    c.expect(s.initial_cost >= 0, "solve/spurious-failure", "solve failed before evaluating: %s", s.message.c_str());
  }
  CheckAfter(c, m, x0, s, constrained);
  c.sig(Fmt("%s|%d%d%d%d", DescribeOptions(o).c_str(), mo.schur, mo.regular, constrained, free));
  // A second solve from where the first ended must not worsen it either.
  if (r.chance(0.3)) {
    const Model::State x1 = m.Get();
    ceres::Solver::Options o2 = RandomOptions(r, m, OptionRules());
    ceres::Solver::Summary s2;
    c.note("then %s", DescribeOptions(o2).c_str());
    ceres::Solve(o2, &problem, &s2);
    CheckAfter(c, m, x1, s2, constrained);
    c.count("resolved");
  }
}

// Smallest eigenvalue of the Gauss-Newton matrix of the free coordinates.
bool WellConditioned(const Model& m, const Model::State& x) {
  std::vector<int> off;
  int n = 0;
  for (auto& p : m.pbs) off.push_back(n), n += p.Fixed() ? 0 : p.tangent;
  if (n == 0) return false;
  MatrixXd H = MatrixXd::Zero(n, n);
  for (auto& b : m.rbs) {
    const auto e = m.EvalBlock(b, x);
    for (size_t i = 0; i < b.pbs.size(); ++i)
      for (size_t j = 0; j < b.pbs.size(); ++j) {
        if (m.pbs[b.pbs[i]].Fixed() || m.pbs[b.pbs[j]].Fixed()) continue;
        H.block(off[b.pbs[i]], off[b.pbs[j]], e.J[i].cols(), e.J[j].cols()) += e.J[i].transpose() * e.J[j];
      }
  }
  Eigen::SelfAdjointEigenSolver<MatrixXd> es(H);
  return es.eigenvalues()(0) > 0.05 && es.eigenvalues()(n - 1) < 500;
}

double GradientMax(const Model& m, const Model::State& x) {
  double g = 0;
  for (auto& v : m.Gradient(x))
    if (v.size()) g = std::max(g, v.lpNorm<Eigen::Infinity>());
  return g;
}

ceres::Solver::Options Tight(ceres::Solver::Options o) {
  o.function_tolerance = 0;
  o.gradient_tolerance = 1e-10;
  o.parameter_tolerance = 0;
  o.max_num_iterations = o.minimizer_type == ceres::LINE_SEARCH ? 3000 : 300;
  o.max_linear_solver_iterations = 500;
  o.eta = 1e-12;
  o.max_num_consecutive_invalid_steps = 20;
  return o;
}

// The same well-conditioned problem through many configurations.
void Agree(Case& c) {
  Rng& r = c.rng;
  ModelOptions mo;
  mo.schur = r.chance(0.6);
  mo.regular = true;
  mo.linear = r.chance(0.3);
  mo.p_loss = mo.linear ? 0 : 0.3;
  mo.p_manifold = mo.linear ? 0.0 : 0.3;
  Model m;
  m.Init(r, mo);
  ceres::Problem problem(Model::NoOwn());
  m.AddTo(&problem);
  ceres::Solver::Options ref;
  ref.logging_type = ceres::SILENT;
  ref.linear_solver_type = ceres::DENSE_QR;
  ref = Tight(ref);
  ceres::Solver::Summary rs;
  ceres::Solve(ref, &problem, &rs);
  const Model::State xs = m.Get();
  c.note("%s", m.Describe().c_str());
  if (!c.expect(rs.IsSolutionUsable(), "agree/reference", "reference solve: %s", rs.message.c_str())) return;
  if (!WellConditioned(m, xs)) {
    c.count("not-conditioned");
    return;
  }
  const double g = GradientMax(m, xs);
  if (g > 1e-6) {
    // Curvature of the residuals can slow Gauss-Newton down; then nothing can be compared.
    c.expect(!mo.linear, "agree/linear-stationary", "a linear problem was left with gradient %.3g: %s", g, rs.message.c_str());
    c.count("reference-slow");
    return;
  }
  if (mo.linear) {
    // closed form
    std::vector<int> off;
    int n = 0, rows = 0;
    for (auto& p : m.pbs) off.push_back(n), n += p.Fixed() ? 0 : p.tangent;
    for (auto& b : m.rbs) rows += b.smooth->f.m;
    MatrixXd A = MatrixXd::Zero(rows, n);
    VectorXd b0(rows);
    int row = 0;
    for (auto& b : m.rbs) {
      const auto e = m.EvalBlock(b, xs);
      b0.segment(row, e.r.size()) = e.r;
      for (size_t i = 0; i < b.pbs.size(); ++i)
        if (!m.pbs[b.pbs[i]].Fixed()) A.block(row, off[b.pbs[i]], e.J[i].rows(), e.J[i].cols()) += e.J[i];
      row += e.r.size();
    }
    const VectorXd d = A.colPivHouseholderQr().solve(b0);
    c.expect(d.lpNorm<Eigen::Infinity>() <= 1e-7, "agree/closed-form", "the linear solution is off by %.3g", d.lpNorm<Eigen::Infinity>());
    c.count("closed-form");
  }
  // start nearby, along the manifolds
  Model::State x0 = xs;
  for (size_t i = 0; i < x0.size(); ++i) {
    auto& p = m.pbs[i];
    if (p.Fixed()) continue;
    VectorXd d(p.tangent);
    for (int k = 0; k < p.tangent; ++k) d[k] = r.uni(-1, 1) * (mo.linear ? 3 : 0.02);
    if (p.man) p.man->Plus(xs[i].data(), d.data(), x0[i].data());
    else
      for (int k = 0; k < p.size; ++k) x0[i][k] += d[k];
  }
  const int reps = r.range(2, 5);
  for (int k = 0; k < reps; ++k) {
    m.Set(x0);
    OptionRules rules;
    rules.extremes = false;
    rules.nonmonotonic = false;
    ceres::Solver::Options o = Tight(RandomOptions(r, m, rules));
    if (o.linear_solver_type == ceres::CGNR || o.linear_solver_type == ceres::ITERATIVE_SCHUR) o.min_linear_solver_iterations = 0;
    // With a first order method the way is long; only how it ends is checked.
    const bool first_order = o.minimizer_type == ceres::LINE_SEARCH;
    if (o.use_mixed_precision_solves) o.max_num_refinement_iterations = std::max(o.max_num_refinement_iterations, 2);
    std::string why;
    if (!c.expect(o.IsValid(&why), "harness/options", "%s", why.c_str())) return;
    ceres::Solver::Summary s;
    ceres::Solve(o, &problem, &s);
    c.note("%s", DescribeOptions(o).c_str());
    if (c.verbose())
      for (auto& it : s.iterations)
        std::fprintf(stderr, "%s %d cost %.17g change %.3g grad %.3g step %.3g rel %.3g radius %.3g lin %d ok %d valid %d\n", DescribeOptions(o).c_str(), it.iteration, it.cost, it.cost_change, it.gradient_max_norm, it.step_norm, it.relative_decrease, it.trust_region_radius, it.linear_solver_iterations, it.step_is_successful, it.step_is_valid);
    const double gk = GradientMax(m, m.Get());
    if (first_order && gk > 1e-6) {
      c.count("first-order-slow");
      continue;
    }
    // a run may end by an invalid step next to the optimum; it is then reported as failure and undone
    if (s.termination_type == ceres::FAILURE) {
      c.count("failed-at-optimum");
      c.expect(!s.iterations.empty() && s.iterations.back().gradient_max_norm < 1e-6, "agree/failure", "%s failed: %s, last gradient %.3g", DescribeOptions(o).c_str(), s.message.c_str(), s.iterations.empty() ? -1 : s.iterations.back().gradient_max_norm);
      continue;
    }
    // a truncated linear solve only promises a step, not a rate
    const bool subset = o.linear_solver_type == ceres::CGNR && o.preconditioner_type == ceres::SUBSET;
    if (subset && gk < 1e-2 && gk > 1e-5) {
      c.count("subset-slow");
      continue;
    }
    c.expect(gk <= 1e-5, "agree/stationary", "%s left gradient %.3g (%s)", DescribeOptions(o).c_str(), gk, s.message.c_str());
    const Model::State x = m.Get();
    double worst = 0;
    for (size_t i = 0; i < x.size(); ++i)
      for (size_t q = 0; q < x[i].size(); ++q) worst = std::max(worst, std::fabs(x[i][q] - xs[i][q]));
    c.expect(worst <= 1e-3, "agree/solution", "%s ended %.3g away from the dense solution (%s)", DescribeOptions(o).c_str(), worst, s.message.c_str());
    c.count("agreed");
    c.sig(Fmt("agree %s", DescribeOptions(o).c_str()));
  }
}

}  // namespace

VH_MAIN({"random", Random, 2500}, {"agree", Agree, 400})
