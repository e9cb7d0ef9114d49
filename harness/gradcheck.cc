// C25: gradient checking.
#include <mutex>

#include "ceres/dynamic_numeric_diff_cost_function.h"
#include "ceres/gradient_checker.h"
#include "ceres/gradient_checking_cost_function.h"
#include "ceres/internal/port.h"
#include "ceres/is_close.h"
#include "ceres/line_manifold.h"
#include "ceres/manifold_test_utils.h"
#include "ceres/problem.h"
#include "ceres/solver.h"
#include "model.h"
#include "options.h"
#include "vh.h"

namespace {
using namespace vh;
using ceres::GradientChecker;
using ceres::Manifold;
using ceres::Problem;
using ceres::Solver;
bool Bits(const std::vector<double>& a, const std::vector<double>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!vh::Bits(a[i], b[i])) return false;
  return true;
}
const double kNaN = std::numeric_limits<double>::quiet_NaN();

// The function with one Jacobian entry wrong.
struct WrongCost : ceres::CostFunction {
  const SmoothCost* f;
  int block = -1, row = 0, col = 0;
  double factor = 1, add = 0;
  int from = 0;          // wrong from this call with Jacobians on
  double shift = 0;      // of a residual, only when Jacobians are asked for
  bool relative = false;
  std::vector<const Manifold*> mans;
  bool fail_with = false, fail_without = false, skip = false, nan = false;
  mutable std::atomic<int> jcalls{0}, calls{0}, wrong{0};
  mutable std::atomic<bool> tiny{false};
  explicit WrongCost(const SmoothCost* f) : f(f) {
    set_num_residuals(f->num_residuals());
    *mutable_parameter_block_sizes() = f->parameter_block_sizes();
  }
  bool Evaluate(double const* const* x, double* r, double** j) const override {
    ++calls;
    if (!f->Evaluate(x, r, j)) return false;
    if (!j) return !fail_without;
    const int k = jcalls++;
    if (fail_with) return false;
    r[row] += shift;
    for (size_t b = 0; b < parameter_block_sizes().size(); ++b)
      if (j[b])
        for (int e = 0; e < num_residuals() * parameter_block_sizes()[b]; ++e)
          if (std::fabs(j[b][e]) < 1e-5) tiny = true;
    // far from the origin the steps of Ridders' method (relative to the parameter) are too
    // large for a function that oscillates
    for (size_t b = 0; b < parameter_block_sizes().size(); ++b)
      for (int i = 0; i < parameter_block_sizes()[b]; ++i)
        if (std::fabs(x[b][i]) > 4) tiny = true;
    for (size_t b = 0; b < mans.size(); ++b)
      if (mans[b] && j[b] && mans[b]->TangentSize()) {
        RowMajorXd P(parameter_block_sizes()[b], mans[b]->TangentSize());
        mans[b]->PlusJacobian(x[b], P.data());
        if ((Eigen::Map<RowMajorXd>(j[b], num_residuals(), parameter_block_sizes()[b]) * P).cwiseAbs().minCoeff() < 1e-5) tiny = true;
      }
    if (block >= 0 && k >= from && j[block]) {
      double& e = j[block][row * parameter_block_sizes()[block] + col];
      e = nan ? kNaN : skip ? 0 : relative ? e + add * (1 + std::fabs(e)) : e * factor + add;
      ++wrong;
    }
    return true;
  }
};

// relative difference as documented: absolute when one of the two is zero
double RelDiff(double a, double b) { return a == 0 || b == 0 ? std::fabs(a - b) : std::fabs(a - b) / std::max(std::fabs(a), std::fabs(b)); }

// The comparison everything else rests on, at the edges of the number line.
constexpr double kInf = std::numeric_limits<double>::infinity();

void Close_(Case& c) {
  Rng& r = c.rng;
  auto number = [&] {
    switch (r.range(0, 7)) {
      case 0: return r.of({0.0, -0.0});
      case 1: return r.of({5e-324, -5e-324, 1e-310, -1e-310, 2.2250738585072009e-308, 2.2250738585072014e-308});
      case 2: return r.sign() * std::pow(10.0, r.uni(300, 308));
      case 3: return r.of({kInf, -kInf, kNaN});
      case 4: return r.sign() * std::pow(10.0, r.uni(-320, -300));
      case 5: return r.sign() * std::pow(10.0, r.uni(-300, 300));
      default: return r.normal();
    }
  };
  for (int k = 0; k < 50; ++k) {
    const double x = number();
    double y = number();
    if (r.chance(0.5)) y = x * (1 + std::pow(10.0, r.uni(-16, -1)) * r.sign());
    if (r.chance(0.1)) y = x;
    double tol = std::pow(10.0, r.uni(-15, 1));
    if (r.chance(0.2)) tol = -tol;
    if (r.chance(0.05)) tol = 0;
    double rel = 7, abs = 7;
    const bool want_rel = r.chance(0.7), want_abs = r.chance(0.7);
    const double ea = std::fabs(x - y), er = RelDiff(x, y);
    const bool got = ceres::internal::IsClose(x, y, tol, want_rel ? &rel : nullptr, want_abs ? &abs : nullptr);
    auto same = [](double a, double b) { return SameOrNaN(a, b) || std::fabs(a - b) <= 4e-16 * std::fabs(b) + 5e-324; };
    c.expect(!want_abs || same(abs, ea), "close-absolute", "|%.17g - %.17g| is %.17g, not %.17g", x, y, abs, ea);
    c.expect(!want_rel || same(rel, er), "close-relative", "relative difference of %.17g and %.17g is %.17g, not %.17g", x, y, rel, er);
    c.expect(got == (er < std::fabs(tol)) || (std::isfinite(er) && std::fabs(er - std::fabs(tol)) <= 1e-15 * er), "close-verdict", "%.17g and %.17g within %g: %d, relative difference %.17g", x, y, tol, got, er);
    c.count("compared");
    c.sig(Fmt("%d %d %d %d %d", std::fpclassify(x), std::fpclassify(y), got, want_rel, want_abs));
  }
}

struct Setup {
  Model m;
  std::vector<int> pbs;
  std::vector<const Manifold*> mans;
  std::vector<const double*> x;
  int n = 0;
  SmoothCost* f = nullptr;
  bool Init(Rng& r) {
    ModelOptions o;
    o.max_pb = 4;
    o.max_rb = 1;
    o.max_size = r.of({1, 4, 7});
    o.max_res = r.of({1, 5});
    o.p_manifold = r.of({0.0, 0.7});
    m.Init(r, o);
    if (m.rbs.empty()) return false;
    pbs = m.rbs[0].pbs;
    f = m.rbs[0].smooth;
    for (int k : pbs) {
      mans.push_back(m.pbs[k].man.get());
      x.push_back(m.pbs[k].x.get());
    }
    return true;
  }
};

struct BadPlusJacobian : Manifold {
  const Manifold* m;
  int how;
  BadPlusJacobian(const Manifold* m, int how) : m(m), how(how) {}
  int AmbientSize() const override { return m->AmbientSize(); }
  int TangentSize() const override { return m->TangentSize(); }
  bool Plus(const double* x, const double* d, double* y) const override { return m->Plus(x, d, y); }
  bool PlusJacobian(const double* x, double* J) const override { return how ? m->PlusJacobian(x, J), false : false; }
  bool Minus(const double* y, const double* x, double* d) const override { return m->Minus(y, x, d); }
  bool MinusJacobian(const double* x, double* J) const override { return m->MinusJacobian(x, J); }
};

void Probe_(Case& c) {
  auto& r = c.rng;
  Setup s;
  if (!s.Init(r)) return;
  WrongCost w(s.f);
  const auto& sizes = w.parameter_block_sizes();
  const int m = w.num_residuals();
  const double tol = r.of({1e-2, 1e-4, 1e-6});
  const int mode = r.range(0, 9);
  if (mode >= 3) {
    w.block = r.range(0, (int)sizes.size() - 1);
    w.row = r.range(0, m - 1);
    w.col = r.range(0, sizes[w.block] - 1);
    switch (r.range(0, 5)) {
      case 0: w.skip = true; break;
      case 1: w.factor = -1; break;
      case 2: w.add = r.normal(); break;
      case 3: w.factor = 1 + r.of({0.1, 0.5, 2.0, 10.0, 100.0}) * tol * r.sign(); break;
      case 4: w.add = r.of({0.1, 3.0, 30.0}) * tol; break;
      default: w.nan = r.chance(0.3); w.factor = 1.0 + 1.0 * r.uni(-1, 1);
    }
  }
  const int special = r.chance(0.15) ? r.range(1, 4) : 0;
  if (special == 1) w.fail_with = true;
  if (special == 2) w.fail_without = true;
  if (special == 3) w.shift = r.of({0.5, -3.0});
  std::vector<const Manifold*> mans = s.mans;
  std::unique_ptr<BadPlusJacobian> badman;
  if (special == 4) {
    for (auto& q : mans)
      if (q && q->TangentSize()) {
        badman = std::make_unique<BadPlusJacobian>(q, r.range(0, 1));
        q = badman.get();
        break;
      }
  }
  bool any_man = false;
  for (auto* q : mans) any_man = any_man || q;
  ceres::NumericDiffOptions nd;
  if (r.chance(0.5)) nd.relative_step_size = r.of({1e-6, 1e-5, 1e-7});
  GradientChecker checker(&w, !any_man && r.chance(0.5) ? nullptr : &mans, nd);
  GradientChecker::ProbeResults res;
  const int times = r.range(1, 2);
  for (int t = 0; t < times && !c.bad; ++t) {
    if (t) {  // another point, reused results
      for (int k : s.pbs)
        if (!s.m.pbs[k].man)
          for (int i = 0; i < s.m.pbs[k].size; ++i) s.m.pbs[k].x[i] = r.uni(-2, 2);
    }
    const auto start = s.m.Get();
    const bool ok = checker.Probe(s.x.data(), tol, &res);
    c.note("%s; tol %g; wrong %d (%d,%d) *%g +%g %s%s special %d; log %.200s", s.m.Describe().c_str(), tol, w.block, w.row, w.col, w.factor, w.add, w.skip ? "skip" : "", w.nan ? "nan" : "", special, res.error_log.c_str());
    c.count("probes");
    if (!c.expect(s.m.Get() == start, "moved", "Probe changed the parameters")) return;
    if (!c.expect(checker.Probe(s.x.data(), tol, nullptr) == ok, "null-results", "with results %d", ok)) return;
    c.sig(Fmt("%d/%zu/%d/%d/%g/%d/%d", m, sizes.size(), any_man, mode, tol, special, ok));
    if (!c.expect(ok == res.error_log.empty(), "log", "returned %d with the log '%s'", ok, res.error_log.c_str())) return;
    if (special == 1 || special == 2) {
      c.count("failing-functions");
      if (!c.expect(!ok && !res.return_value, "failure-ignored", "the function failed, Probe gave %d, return_value %d", ok, res.return_value)) return;
      continue;
    }
    if (special == 4 && badman) {
      c.count("failing-manifolds");
      if (!c.expect(!ok, "manifold-failure-ignored", "PlusJacobian failed, Probe gave %d", ok)) return;
      continue;
    }
    if (special == 3) {
      c.count("changed-residuals");
      if (!c.expect(!ok, "residual-change-ignored", "the residuals with and without Jacobians differ")) return;
      continue;
    }
    if (!c.expect(res.return_value, "return-value", "false")) return;
    // reported numbers
    Blocks jb(std::vector<int>(0)), nb(std::vector<int>(0));
    std::vector<double*> jp, np;
    for (int q : sizes) jp.push_back(jb.Add(m * q)), np.push_back(nb.Add(m * q));
    std::vector<double> rr(m), rn(m);
    w.Evaluate(s.x.data(), rr.data(), jp.data());
    ceres::DynamicNumericDiffCostFunction<ceres::CostFunction, ceres::RIDDERS> num(&w, ceres::DO_NOT_TAKE_OWNERSHIP, nd);
    for (int q : sizes) num.AddParameterBlock(q);
    num.SetNumResiduals(m);
    num.Evaluate(s.x.data(), rn.data(), np.data());
    if (!c.expect(res.residuals.size() == m && Bits(std::vector<double>(res.residuals.data(), res.residuals.data() + m), rr), "residuals", "not those of the function")) return;
    const size_t nk = sizes.size();
    if (!c.expect(res.jacobians.size() == nk && res.numeric_jacobians.size() == nk && res.local_jacobians.size() == nk && res.local_numeric_jacobians.size() == nk, "shape", "%zu jacobians", res.jacobians.size())) return;
    bool must_reject = false, must_accept = true;
    double worst = 0;
    int bad = 0;
    std::string must_name;
    for (size_t k = 0; k < nk; ++k) {
      const auto& J = res.jacobians[k];
      const auto& N = res.numeric_jacobians[k];
      const auto& L = res.local_jacobians[k];
      const auto& LN = res.local_numeric_jacobians[k];
      const int q = sizes[k], tq = mans[k] ? mans[k]->TangentSize() : q;
      if (!c.expect(J.rows() == m && J.cols() == q && N.rows() == m && N.cols() == q && L.rows() == m && L.cols() == tq && LN.rows() == m && LN.cols() == tq, "shape", "block %zu", k)) return;
      if (!c.expect(Bits(std::vector<double>(J.data(), J.data() + m * q), std::vector<double>(jp[k], jp[k] + m * q)), "jacobians", "block %zu is not what the function wrote", k)) return;
      if (!c.expect(Bits(std::vector<double>(N.data(), N.data() + m * q), std::vector<double>(np[k], np[k] + m * q)), "numeric-jacobians", "block %zu is not what numeric differentiation gives", k)) return;
      RowMajorXd P = RowMajorXd::Identity(q, q);
      if (mans[k]) {
        P.resize(q, tq);
        if (tq) mans[k]->PlusJacobian(s.x[k], P.data());
      }
      const MatrixXd l = J * P, ln = N * P;
      // the truth
      std::vector<double> flat, TJ;
      for (size_t b = 0; b < nk; ++b) flat.insert(flat.end(), s.x[b], s.x[b] + sizes[b]);
      s.f->f.Jac(flat, &TJ);
      const double scale = s.f->f.Scale(flat), noise = 1e-8 * scale;
      MatrixXd T(m, q);
      for (int i = 0; i < m; ++i)
        for (int e = 0; e < q; ++e) T(i, e) = TJ[i * s.f->f.n + s.f->f.off[k] + e];
      const MatrixXd lt = T * P;
      for (int i = 0; i < m; ++i)
        for (int e = 0; e < tq; ++e) {
          const double big = 1 + J.row(i).array().isFinite().select(J.row(i).array().abs(), 0).maxCoeff() + scale;
          if (std::isfinite(l(i, e)) && !c.expect(Near(L(i, e), l(i, e), 1e-13 * big * q), "local-jacobians", "block %zu (%d,%d): %.17g, should be %.17g", k, i, e, L(i, e), l(i, e))) return;
          if (!c.expect(Near(LN(i, e), ln(i, e), 1e-13 * big * q), "local-numeric-jacobians", "block %zu (%d,%d): %.17g, should be %.17g", k, i, e, LN(i, e), ln(i, e))) return;
          if (!c.expect(Near(LN(i, e), lt(i, e), 1e-7 * scale), "numeric-wrong", "block %zu (%d,%d): %.17g, true derivative %.17g", k, i, e, LN(i, e), lt(i, e))) return;
          const double rel = RelDiff(L(i, e), LN(i, e));
          worst = std::max(worst, rel);
          if (!(rel < tol)) ++bad;
          // independent verdict
          const double d = std::fabs(L(i, e) - lt(i, e));
          const double a = std::max(std::fabs(L(i, e)), std::fabs(lt(i, e)));
          if (!std::isfinite(L(i, e)) || (d > 3 * tol * std::max(a, 1.0) + 10 * noise)) must_reject = true, must_name = Fmt("(%zu,%d,%d)", k, i, e);
          if (!(d <= 0.3 * tol * std::min(a, 1.0) - 2 * noise)) {
            const bool exact_zero = L(i, e) == 0 && LN(i, e) == 0;
            if (!exact_zero) must_accept = false;
          }
        }
    }
    if (!c.expect(SameOrNaN(res.maximum_relative_error, worst), "maximum-relative-error", "%.17g, should be %.17g", res.maximum_relative_error, worst)) return;
    if (must_reject) {
      c.count("must-reject");
      if (!c.expect(!ok, "wrong-accepted", "entry %s", must_name.c_str())) return;
      if (!c.expect(res.error_log.find(must_name + " Relative error worse") != std::string::npos, "wrong-not-named", "entry %s in %s", must_name.c_str(), res.error_log.c_str())) return;
    }
    if (must_accept) {
      c.count("must-accept");
      if (!c.expect(ok, "right-rejected", "worst %g", worst)) return;
    }
    c.count(ok ? "accepted" : "rejected");
    if (any_man) c.count("with-manifolds");
    if (!ok && !c.expect(bad > 0 && res.error_log.find(Fmt("Detected %d bad Jacobian component", bad)) != std::string::npos, "bad-count", "%d bad entries: %s", bad, res.error_log.c_str())) return;
    // the checking cost function gives the same numbers
    ceres::internal::GradientCheckingIterationCallback cb;
    auto checking = ceres::internal::CreateGradientCheckingCostFunction(&w, &mans, nd.relative_step_size, tol, "here I am", &cb);
    std::vector<double> cr(m, 7.0);
    Blocks ob(std::vector<int>(0));
    std::vector<double*> op;
    for (int q : sizes) {
      double* p = ob.Add(m * q);
      op.push_back(r.chance(0.7) ? p : nullptr);
    }
    const bool cost_only = r.chance(0.2);
    const bool cok = checking->Evaluate(s.x.data(), cr.data(), cost_only ? nullptr : op.data());
    if (!c.expect(cok && Bits(cr, rr), "checking-residuals", "returned %d", cok)) return;
    if (!cost_only)
      for (size_t k = 0; k < nk; ++k)
        if (op[k] && !c.expect(Bits(std::vector<double>(op[k], op[k] + m * sizes[k]), std::vector<double>(jp[k], jp[k] + m * sizes[k])), "checking-jacobians", "block %zu", k)) return;
    const bool want_error = !cost_only && !ok;
    if (!c.expect(cb.gradient_error_detected() == want_error, "checking-callback", "error %d, Probe %d", cb.gradient_error_detected(), ok)) return;
    if (want_error && !c.expect(cb.error_log().find("here I am") != std::string::npos && cb.error_log().find(res.error_log) != std::string::npos, "checking-log", "%s", cb.error_log().c_str())) return;
    if (!c.expect(cb(ceres::IterationSummary()) == (want_error ? ceres::SOLVER_ABORT : ceres::SOLVER_CONTINUE), "checking-callback", "wrong answer")) return;
  }
}

void Solve_(Case& c) {
  auto& r = c.rng;
  Model m, m2;
  ModelOptions mo;
  mo.max_pb = r.of({2, 6});
  mo.max_rb = r.of({3, 8});
  mo.p_bound = r.chance(0.2) ? 0.5 : 0;
  mo.p_manifold = r.of({0.2, 0.7});
  mo.p_loss = 0.3;
  mo.schur = r.chance(0.4);
  mo.regular = r.chance(0.6);
  m.Init(r, mo);
  if (m.rbs.empty()) return;
  std::vector<std::unique_ptr<WrongCost>> costs;
  for (auto& b : m.rbs) {
    costs.push_back(std::make_unique<WrongCost>(b.smooth));
    for (int k : b.pbs) costs.back()->mans.push_back(m.pbs[k].man.get());
  }
  const bool wrong = r.chance(0.6);
  int which = -1;
  if (wrong) {
    which = r.range(0, (int)m.rbs.size() - 1);
    auto& w = *costs[which];
    w.block = r.range(0, (int)w.parameter_block_sizes().size() - 1);
    w.row = r.range(0, w.num_residuals() - 1);
    w.col = r.range(0, w.parameter_block_sizes()[w.block] - 1);
    w.relative = true;
    w.add = r.sign() * r.uni(0.5, 2);
    w.from = r.chance(0.4) ? 0 : r.range(1, 12);
  }
  auto build = [&] {
    auto p = std::make_unique<Problem>(Model::NoOwn());
    for (auto& b : m.pbs) {
      p->AddParameterBlock(b.x.get(), b.size, b.man.get());
      if (b.constant) p->SetParameterBlockConstant(b.x.get());
      for (size_t k = 0; k < b.lo.size(); ++k) {
        p->SetParameterLowerBound(b.x.get(), k, b.lo[k]);
        p->SetParameterUpperBound(b.x.get(), k, b.hi[k]);
      }
    }
    for (size_t i = 0; i < m.rbs.size(); ++i) {
      std::vector<double*> x;
      for (int k : m.rbs[i].pbs) x.push_back(m.pbs[k].x.get());
      m.rbs[i].id = p->AddResidualBlock(costs[i].get(), m.rbs[i].loss.get(), x);
    }
    return p;
  };
  auto p = build();
  OptionRules rules;
  Solver::Options o = RandomOptions(r, m, rules);
  bool bounded = false, free = false;
  for (auto& b : m.pbs) bounded = bounded || b.Bounded();
  if (bounded) o.minimizer_type = ceres::TRUST_REGION;
  o.max_num_iterations = r.of({0, 1, 5, 20});
  o.max_solver_time_in_seconds = 1e6;
  o.update_state_every_iteration = false;
  if (o.preconditioner_type == ceres::SUBSET) o.preconditioner_type = ceres::JACOBI;
  if (o.use_inner_iterations && r.chance(0.5)) o.inner_iteration_ordering = RandomInnerOrdering(r, m);
  o.gradient_check_relative_precision = 1e-2;
  o.gradient_check_numeric_derivative_relative_step_size = 1e-6;
  o.check_gradients = true;
  // a twin without
  Solver::Options plain = o;
  plain.check_gradients = false;
  if (o.linear_solver_ordering) plain.linear_solver_ordering = std::make_shared<ceres::ParameterBlockOrdering>(*o.linear_solver_ordering);
  if (o.inner_iteration_ordering) plain.inner_iteration_ordering = std::make_shared<ceres::ParameterBlockOrdering>(*o.inner_iteration_ordering);
  const auto start = m.Get();
  c.note("%s; %s; wrong in %d from %d", m.Describe().c_str(), DescribeOptions(o).c_str(), which, wrong ? costs[which]->from : 0);
  Solver::Summary s;
  Solve(o, p.get(), &s);
  const auto x = m.Get();
  c.count("solves");
  if (o.minimizer_type == ceres::LINE_SEARCH) c.count("line-search");
  if (o.use_inner_iterations) c.count("inner");
  bool fired = false, tiny = false;
  for (auto& w : costs) fired = fired || w->wrong, tiny = tiny || w->tiny;
  c.sig(Fmt("%s/%d/%d/%d", DescribeOptions(o).c_str(), wrong, fired, (int)s.termination_type));
  const bool detected = s.message.find("Gradient Error detected") != std::string::npos;
  if (wrong && fired) {
    // an error along the null space of the manifold does not count
    auto& w = *costs[which];
    const Model::PB& b = m.pbs[m.rbs[which].pbs[w.block]];
    if (b.kind == kNone || b.kind == kEuclid) {
      c.count("wrong-solves");
      if (w.from) c.count("wrong-later");
      if (!c.expect(detected && s.termination_type == ceres::FAILURE && !s.IsSolutionUsable(), "wrong-undetected", "%s: %s", ceres::TerminationTypeToString(s.termination_type), s.message.c_str())) return;
      if (!c.expect(s.message.find(Fmt("Residual block id %d;", which)) != std::string::npos, "wrong-block-not-named", "%s", s.message.c_str())) return;
      if (!c.expect(x == start, "failure-moved", "gradient checking failed but the parameters moved")) return;
    }
    return;
  }
  if (detected) {
    c.count("unresolved");
    c.expect(tiny, "right-rejected", "%s", s.message.c_str());
    c.expect(x == start, "failure-moved", "gradient checking failed but the parameters moved");
    return;
  }
  c.count("right-solves");
  for (auto& w : costs) w->block = -1;
  m.Set(start);
  auto p2 = build();
  Solver::Summary t;
  Solve(plain, p2.get(), &t);
  const auto y = m.Get();
  const bool clustered = o.linear_solver_type == ceres::ITERATIVE_SCHUR && (o.preconditioner_type == ceres::CLUSTER_JACOBI || o.preconditioner_type == ceres::CLUSTER_TRIDIAGONAL);
  // the automatic ordering of inner iterations depends on addresses
  if (clustered || o.num_threads > 1 || (o.use_inner_iterations && !o.inner_iteration_ordering)) return;
  c.count("twins");
  if (!c.expect(s.termination_type == t.termination_type && s.message == t.message && s.iterations.size() == t.iterations.size(), "solve-differs", "checked: %s; unchecked: %s", s.message.c_str(), t.message.c_str())) return;
  for (size_t i = 0; i < s.iterations.size(); ++i)
    if (!c.expect(SameOrNaN(s.iterations[i].cost, t.iterations[i].cost), "solve-differs", "iteration %zu: cost %.17g checked, %.17g unchecked", i, s.iterations[i].cost, t.iterations[i].cost)) return;
  c.expect(x == y, "solve-differs", "the parameters");
  c.expect(SameOrNaN(s.final_cost, t.final_cost) && SameOrNaN(s.initial_cost, t.initial_cost) && SameOrNaN(s.fixed_cost, t.fixed_cost), "solve-differs", "final cost %.17g checked, %.17g unchecked", s.final_cost, t.final_cost);
}

// Manifold checking.
struct TwistedManifold : Manifold {
  const Manifold* m;
  int what = 0;  // 1 plus, 2 minus, 3 plus jacobian, 4 minus jacobian, 5 the product with the plus jacobian
  int at = 0;
  double eps = 0;
  explicit TwistedManifold(const Manifold* m) : m(m) {}
  int AmbientSize() const override { return m->AmbientSize(); }
  int TangentSize() const override { return m->TangentSize(); }
  bool Plus(const double* x, const double* d, double* y) const override {
    const bool ok = m->Plus(x, d, y);
    if (what == 1) y[at % AmbientSize()] += eps;
    return ok;
  }
  bool PlusJacobian(const double* x, double* J) const override {
    const bool ok = m->PlusJacobian(x, J);
    if (what == 3) J[at % (AmbientSize() * TangentSize())] += eps;
    return ok;
  }
  bool RightMultiplyByPlusJacobian(const double* x, int rows, const double* a, double* t) const override {
    const bool ok = m->RightMultiplyByPlusJacobian(x, rows, a, t);
    if (what == 5 && rows) t[at % (rows * TangentSize())] += eps;
    return ok;
  }
  bool Minus(const double* y, const double* x, double* d) const override {
    const bool ok = m->Minus(y, x, d);
    if (what == 2) d[at % TangentSize()] += eps;
    return ok;
  }
  bool MinusJacobian(const double* x, double* J) const override {
    const bool ok = m->MinusJacobian(x, J);
    if (what == 4) J[at % (AmbientSize() * TangentSize())] += eps;
    return ok;
  }
};

void Manifold_(Case& c) {
  auto& r = c.rng;
  Model::PB b;
  Model m;
  std::unique_ptr<Manifold> line;
  if (r.chance(0.15)) {
    line = std::make_unique<ceres::LineManifold<3>>();
    b.size = 6;
    b.x.reset(new double[6]);
    for (int i = 0; i < 3; ++i) b.x[i] = r.uni(-2, 2);
    Model::RandomUnit(r, b.x.get() + 3, 3);
  } else {
    b.size = r.range(1, 7);
    b.x.reset(new double[b.size]);
    for (int i = 0; i < b.size; ++i) b.x[i] = r.uni(-2, 2);
    for (int k = 0; k < 20 && !b.man; ++k) m.AddManifold(r, &b);
    if (!b.man || b.tangent == 0) return;
  }
  TwistedManifold t(line ? line.get() : b.man.get());
  t.what = r.range(0, 5);
  t.at = r.range(0, 1000);
  t.eps = r.sign() * r.of({1e-3, 0.1, 1.0});
  const int na = t.AmbientSize(), nt = t.TangentSize();
  ceres::Vector x = Eigen::Map<ceres::Vector>(b.x.get(), na), y(na), delta(nt);
  auto small = [&] {
    ceres::Vector d(nt);
    for (int i = 0; i < nt; ++i) d[i] = r.normal();
    return ceres::Vector(d * (r.uni(0.05, 0.6) / d.norm()));
  };
  delta = small();
  const ceres::Vector d2 = small();
  t.m->Plus(x.data(), d2.data(), y.data());
  const double tol = 1e-6;
  const ceres::Vector zero = ceres::Vector::Zero(nt);
  using testing::Matches;
  const Manifold& man = t;
  const bool plus_zero = Matches(ceres::XPlusZeroIsXAt(x, tol))(man), minus_self = Matches(ceres::XMinusXIsZeroAt(x, tol))(man),
             minus_plus = Matches(ceres::MinusPlusIsIdentityAt(x, delta, tol))(man), minus_plus_zero = Matches(ceres::MinusPlusIsIdentityAt(x, zero, tol))(man),
             pj = Matches(ceres::HasCorrectPlusJacobianAt(x, tol))(man), mj = Matches(ceres::HasCorrectMinusJacobianAt(x, tol))(man),
             mpj = Matches(ceres::MinusPlusJacobianIsIdentityAt(x, tol))(man), rm = Matches(ceres::HasCorrectRightMultiplyByPlusJacobianAt(x, tol))(man);
  const bool plus_minus_self = Matches(ceres::PlusMinusIsIdentityAt(x, x, tol))(man), plus_minus = Matches(ceres::PlusMinusIsIdentityAt(x, y, tol))(man);
  c.count("manifolds");
  c.count(Fmt("twist-%d", t.what));
  c.sig(Fmt("%d/%d/%d/%d/%g", b.kind, na, nt, t.what, t.eps));
  c.note("kind %d %d/%d twist %d at %d by %g", b.kind, na, nt, t.what, t.at, t.eps);
  const std::string got = Fmt("plus-zero %d minus-self %d minus-plus %d %d plus-minus %d %d plus-jacobian %d minus-jacobian %d product %d right-multiply %d", plus_zero, minus_self, minus_plus, minus_plus_zero, plus_minus_self, plus_minus, pj, mj, mpj, rm);
  const bool all = plus_zero && minus_self && minus_plus && minus_plus_zero && plus_minus_self && plus_minus && pj && mj && mpj && rm;
  switch (t.what) {
    case 0: c.expect(all, "right-manifold-rejected", "%s", got.c_str()); break;
    case 1: c.expect(!plus_zero && !plus_minus_self && !plus_minus && mpj && mj && minus_self && rm, "wrong-plus", "%s", got.c_str()); break;
    case 2: c.expect(!minus_self && !minus_plus && !minus_plus_zero && plus_zero && pj && mpj && rm, "wrong-minus", "%s", got.c_str()); break;
    case 3: c.expect(!pj && !rm && plus_zero && minus_self && minus_plus && plus_minus && mj, "wrong-plus-jacobian", "%s", got.c_str()); break;
    case 4: c.expect(!mj && plus_zero && minus_self && minus_plus && plus_minus && pj && rm, "wrong-minus-jacobian", "%s", got.c_str()); break;
    case 5: c.expect(!rm && plus_zero && minus_self && minus_plus && plus_minus && pj && mj && mpj, "wrong-right-multiply", "%s", got.c_str()); break;
  }
}

}  // namespace

VH_MAIN({"close", Close_, 400}, {"probe", Probe_, 6000}, {"solve", Solve_, 1500}, {"manifold", Manifold_, 2000})
