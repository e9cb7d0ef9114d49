// C23: user functions that fail, at any call and in any way.
#include <atomic>
#include <mutex>

#include "ceres/covariance.h"
#include "ceres/dynamic_numeric_diff_cost_function.h"
#include "ceres/first_order_function.h"
#include "ceres/gradient_problem.h"
#include "ceres/gradient_problem_solver.h"
#include "ceres/problem.h"
#include "ceres/solver.h"
#include "model.h"
#include "options.h"
#include "vh.h"

namespace {
using namespace vh;
using ceres::Problem;
using ceres::Solver;
const double kNaN = std::numeric_limits<double>::quiet_NaN(), kInf = std::numeric_limits<double>::infinity();

enum What { kResidual = 1, kJacobian = 2, kLoss = 4, kPlus = 8, kPlusJacobian = 16 };
enum Kind { kFalse, kNanR, kInfR, kUnwrittenR, kHugeR, kNanJ, kInfJ, kUnwrittenJ, kHugeJ };
enum When { kOnce, kFrom, kRegion, kRandom };
const char* kKind[] = {"false", "nan-residual", "inf-residual", "unwritten-residual", "huge-residual", "nan-jacobian", "inf-jacobian", "unwritten-jacobian", "huge-jacobian"};
const char* kWhen[] = {"once", "from", "region", "random"};

struct Injector {
  bool on = false;
  int what = 0, kind = 0, when = 0, at = 0, mod = 1, numeric = -1;
  uint64_t salt = 0;
  std::atomic<int> seen{0}, fired{0}, calls{0}, costs_at_first{-1}, fired_jacobian{0};
  std::atomic<bool> tail{false};  // a fault and nothing evaluated well since
  void Plan(Rng& r) {
    on = true;
    what = r.of({1, 1, 1, 1, 3, 3, 2, 4, 4, 8, 8, 16});
    kind = what & (kResidual | kJacobian) ? r.range(0, what & kJacobian ? 8 : 4) : r.range(0, 2);
    if (kind >= kNanJ) what = kJacobian;
    when = r.range(0, 3);
    at = r.chance(0.25) ? 0 : r.range(0, r.of({5, 30, 150}));
    mod = r.of({2, 4, 10, 30});
    salt = r.u64();
    Reset();
  }
  void Reset() {
    seen = fired = calls = fired_jacobian = 0;
    costs_at_first = -1;
    tail = false;
  }
  std::string Describe() const { return Fmt("what %d %s %s at %d mod %d", what, kKind[kind], kWhen[when], at, mod); }
  bool BadPoint(uint64_t point) const { return Combine(salt, point) % mod == 0; }
  bool Fire(int w, uint64_t point) {
    if (!on || !(what & w)) return false;
    const int k = seen++;
    bool f = false;
    switch (when) {
      case kOnce: f = k == at; break;
      case kFrom: f = k >= at; break;
      case kRegion: f = BadPoint(point); break;
      default: f = Combine(salt, k) % mod == 0;
    }
    if (f) {
      if (w == kJacobian) ++fired_jacobian;
      ++fired;
      int none = -1;
      costs_at_first.compare_exchange_strong(none, calls);
      tail = true;
    }
    return f;
  }
};

uint64_t Hash(const double* x, int n, uint64_t h = 7) {
  for (int i = 0; i < n; ++i) {
    uint64_t u;
    const double v = x[i] == 0 ? 0 : x[i];
    std::memcpy(&u, &v, 8);
    h = Combine(h, u);
  }
  return h;
}

struct FaultyCost : ceres::CostFunction {
  Injector* in;
  const SmoothCost* f;
  bool overflows;  // a huge residual makes an infinite cost: no loss function bounds it
  FaultyCost(Injector* in, const SmoothCost* f, bool overflows) : in(in), f(f), overflows(overflows) {
    set_num_residuals(f->num_residuals());
    *mutable_parameter_block_sizes() = f->parameter_block_sizes();
  }
  static uint64_t Point(const SmoothCost* f, double const* const* x) {
    uint64_t h = f->num_residuals();
    for (size_t k = 0; k < f->parameter_block_sizes().size(); ++k) h = Hash(x[k], f->parameter_block_sizes()[k], h);
    return h;
  }
  bool Evaluate(double const* const* x, double* r, double** j) const override {
    ++in->calls;
    int entries = 0;
    if (j)
      for (size_t k = 0; k < f->parameter_block_sizes().size(); ++k) entries += j[k] != nullptr;
    const bool fault = in->kind < kNanJ || entries ? in->Fire(entries ? kJacobian : kResidual, Point(f, x)) : false;
    if (!fault) {
      const bool ok = f->Evaluate(x, r, j);
      bool finite = true;
      for (int i = 0; i < num_residuals(); ++i) finite = finite && std::isfinite(r[i]);
      if (finite && in->what & (kResidual | kJacobian)) in->tail = false;
      return ok;
    }
    const int m = num_residuals(), row = in->fired % m;
    if (in->kind == kFalse) {
      if (in->fired % 2) f->Evaluate(x, r, j), r[row] = 1e300;
      return false;
    }
    const double keep = r[row];
    std::vector<double> before;
    int block = -1;
    if (in->kind >= kNanJ)
      for (size_t k = 0; k < f->parameter_block_sizes().size(); ++k)
        if (j[k]) block = k;
    int e = 0;
    double keepj = 0;
    if (block >= 0) e = (in->fired * 7) % (m * f->parameter_block_sizes()[block]), keepj = j[block][e];
    f->Evaluate(x, r, j);
    switch (in->kind) {
      case kNanR: r[row] = kNaN; break;
      case kInfR: r[row] = in->fired % 2 ? kInf : -kInf; break;
      case kUnwrittenR: r[row] = keep; break;
      case kHugeR: r[row] = overflows ? (in->fired % 2 ? 1e200 : -1e160) : kInf; break;
      case kNanJ: j[block][e] = kNaN; break;
      case kInfJ: j[block][e] = in->fired % 2 ? kInf : -kInf; break;
      case kUnwrittenJ: j[block][e] = keepj; break;
      case kHugeJ: j[block][e] = in->fired % 2 ? 1e308 : 1e200; break;
    }
    return true;
  }
};
// The same with numeric differentiation of a faulty functor. Outputs which it
// leaves unwritten at a perturbed point are not looked for by the library.
struct FaultyFunctor {
  Injector* in;
  const SmoothCost* f;
  bool operator()(double const* const* x, double* r) const {
    FaultyCost c(in, f, false);
    if (in->kind == kUnwrittenR) return f->Evaluate(x, r, nullptr);
    return c.Evaluate(x, r, nullptr);
  }
};
struct FaultyLoss : ceres::LossFunction {
  Injector* in;
  const ceres::LossFunction* l;
  FaultyLoss(Injector* in, const ceres::LossFunction* l) : in(in), l(l) {}
  void Evaluate(double s, double rho[3]) const override {
    l->Evaluate(s, rho);
    if (in->Fire(kLoss, Hash(&s, 1))) {
      rho[in->at % 3 == 2 ? 1 : in->at % 3] = in->kind == kFalse ? kNaN : in->kind == kNanR ? kInf : -kNaN;
    } else if (in->what == kLoss && std::isfinite(rho[0])) {
      in->tail = false;
    }
  }
};
struct FaultyManifold : ceres::Manifold {
  Injector* in;
  const ceres::Manifold* m;
  FaultyManifold(Injector* in, const ceres::Manifold* m) : in(in), m(m) {}
  int AmbientSize() const override { return m->AmbientSize(); }
  int TangentSize() const override { return m->TangentSize(); }
  bool Plus(const double* x, const double* d, double* y) const override {
    const bool fire = in->Fire(kPlus, Hash(d, m->TangentSize(), Hash(x, m->AmbientSize())));
    if (fire && in->kind == kFalse) return false;
    const bool ok = m->Plus(x, d, y);
    if (fire) y[in->fired % m->AmbientSize()] = in->kind == kNanR ? kNaN : kInf;
    else if (in->what == kPlus) in->tail = false;
    return ok;
  }
  bool PlusJacobian(const double* x, double* J) const override {
    const bool fire = m->TangentSize() > 0 && in->Fire(kPlusJacobian, Hash(x, m->AmbientSize()));
    if (fire && in->kind == kFalse) return false;
    const bool ok = m->PlusJacobian(x, J);
    if (fire) J[in->fired % (m->AmbientSize() * m->TangentSize())] = in->kind == kNanR ? kNaN : kInf;
    else if (in->what == kPlusJacobian) in->tail = false;
    return ok;
  }
  bool Minus(const double* y, const double* x, double* d) const override { return m->Minus(y, x, d); }
  bool MinusJacobian(const double* x, double* J) const override { return m->MinusJacobian(x, J); }
};

struct Faulty {
  Injector in;
  Model* m;
  std::vector<std::unique_ptr<ceres::CostFunction>> costs;
  std::vector<std::unique_ptr<ceres::LossFunction>> losses;
  std::vector<std::unique_ptr<ceres::Manifold>> mans;
  std::vector<ceres::ResidualBlockId> ids;
  bool numeric = false;
  std::unique_ptr<Problem> p;
  void Fill(Rng& r, Model* model) {
    m = model;
    p = std::make_unique<Problem>(Model::NoOwn());
    for (auto& b : m->pbs) {
      mans.emplace_back(b.man ? new FaultyManifold(&in, b.man.get()) : nullptr);
      p->AddParameterBlock(b.x.get(), b.size, mans.back().get());
      if (b.constant) p->SetParameterBlockConstant(b.x.get());
      for (size_t k = 0; k < b.lo.size(); ++k) {
        p->SetParameterLowerBound(b.x.get(), k, b.lo[k]);
        p->SetParameterUpperBound(b.x.get(), k, b.hi[k]);
      }
    }
    for (auto& b : m->rbs) {
      std::vector<double*> x;
      for (int k : b.pbs) x.push_back(m->pbs[k].x.get());
      if (r.chance(0.15)) {
        numeric = true;
        auto* c = new ceres::DynamicNumericDiffCostFunction<FaultyFunctor, ceres::CENTRAL>(new FaultyFunctor{&in, b.smooth});
        for (int k : b.pbs) c->AddParameterBlock(m->pbs[k].size);
        c->SetNumResiduals(b.smooth->num_residuals());
        costs.emplace_back(c);
      } else {
        // the cost of what cannot move is a constant, left out of the minimisation
        bool moves = false;
        for (int k : b.pbs) moves = moves || !m->pbs[k].Fixed();
        costs.emplace_back(new FaultyCost(&in, b.smooth, !b.loss && moves));
      }
      losses.emplace_back(b.loss ? new FaultyLoss(&in, b.loss.get()) : nullptr);
      ids.push_back(p->AddResidualBlock(costs.back().get(), losses.back().get(), x));
      b.id = ids.back();
    }
  }
  bool Bad(const Model::State& x) const {
    for (auto& b : m->rbs) {
      std::vector<const double*> p;
      for (int k : b.pbs) p.push_back(x[k].data());
      if (in.BadPoint(FaultyCost::Point(b.smooth, p.data()))) return true;
    }
    return false;
  }
};

bool AllFinite(const Model::State& s) {
  for (auto& b : s)
    for (double v : b)
      if (!std::isfinite(v)) return false;
  return true;
}

ModelOptions Shape(Rng& r) {
  ModelOptions o;
  o.max_pb = r.of({2, 5, 8});
  o.max_rb = r.of({3, 8, 12});
  o.p_bound = r.chance(0.3) ? 0.5 : 0;
  o.p_manifold = r.of({0.2, 0.8});
  o.p_loss = r.of({0.2, 0.8});
  o.p_const = r.of({0.0, 0.2});
  o.schur = r.chance(0.4);
  o.regular = r.chance(0.4);
  return o;
}

void CheckHealthy(Case& c, Faulty& f, const char* after) {
  // with the faults gone everything works again
  f.in.on = false;
  const auto x = f.m->Get();
  double mag = 0;
  const double want = f.m->Cost(x, true, &mag);
  double got = 0;
  std::vector<double> grad;
  if (!c.expect(f.p->Evaluate(Problem::EvaluateOptions(), &got, nullptr, &grad, nullptr), "no-recovery", "evaluation fails after %s", after)) return;
  if (!c.expect(Near(got, want, 1e-11 * mag), "no-recovery", "after %s the cost is %.17g, should be %.17g", after, got, want)) return;
  const auto g = f.m->Gradient(x);
  size_t at = 0;
  double gm = 1;
  for (auto& v : g) gm = std::max(gm, v.size() ? v.cwiseAbs().maxCoeff() : 0);
  for (size_t i = 0; i < g.size(); ++i) {
    for (int k = 0; k < g[i].size(); ++k, ++at)
      if (!c.expect(at < grad.size() && Near(grad[at], g[i][k], (f.numeric ? 1e-4 : 1e-9) * (gm + mag)), "no-recovery", "after %s gradient %zu is %.9g, should be %.9g", after, at, at < grad.size() ? grad[at] : 0.0, g[i][k])) return;
  }
  c.expect(f.m->Get() == x, "evaluate-moved", "after %s", after);
}

void Solve_(Case& c) {
  auto& r = c.rng;
  Model m;
  m.Init(r, Shape(r));
  if (m.rbs.empty()) return;
  Faulty f;
  f.Fill(r, &m);
  const int rounds = r.range(1, 2);
  for (int round = 0; round < rounds && !c.bad; ++round) {
    OptionRules rules;
    Solver::Options o = RandomOptions(r, m, rules);
    o.max_num_iterations = r.of({1, 5, 20, 60});
    o.max_solver_time_in_seconds = 1e6;
    o.check_gradients = false;
    o.update_state_every_iteration = r.chance(0.2);
    bool bounded = false;
    for (auto& p : m.pbs) bounded = bounded || p.Bounded();
    if (bounded) o.minimizer_type = ceres::TRUST_REGION;
    if (o.use_inner_iterations && r.chance(0.5)) o.inner_iteration_ordering = RandomInnerOrdering(r, m);
    auto& in = f.in;
    in.Plan(r);
    const bool tr = o.minimizer_type == ceres::TRUST_REGION;
    const auto start = m.Get();
    double mag = 0;
    const double initial = m.Cost(start, true, &mag);
    c.note("%s; %s%s%s; %s", m.Describe().c_str(), DescribeOptions(o).c_str(), o.use_inner_iterations ? " inner" : "", f.numeric ? " numeric" : "", in.Describe().c_str());
    const bool region = in.when == kRegion && in.what == (kResidual | kJacobian) && in.kind < kNanJ && !f.numeric;
    const bool bad_start = region && f.Bad(start);
    Solver::Summary s;
    Solve(o, f.p.get(), &s);
    in.on = false;
    const auto x = m.Get();
    c.count("solves");
    c.count(tr ? "trust-region" : "line-search");
    if (o.use_inner_iterations) c.count("inner");
    if (bounded) c.count("bounded");
    if (f.numeric) c.count("numeric");
    if (in.fired) {
      c.count(Fmt("what-%d", in.what));
      c.count(kKind[in.kind]);
      c.count(kWhen[in.when]);
      c.count("faults", in.fired);
      c.count(std::string("ended-") + ceres::TerminationTypeToString(s.termination_type));
    }
    c.sig(Fmt("%s/%d/%d/%d/%d/%d", DescribeOptions(o).c_str(), in.what, in.kind, in.when, (int)s.termination_type, std::min(3, (int)s.iterations.size())));
    const bool usable = s.IsSolutionUsable();
    if (!usable) {
      if (o.update_state_every_iteration) c.count("update-state-failures");
      if (!c.expect(s.termination_type == ceres::FAILURE, "termination", "%s", s.message.c_str())) return;
      if (!c.expect(x == start, "failure-moved", "the solve failed (%s) but the parameters changed", s.message.c_str())) return;
    } else {
      if (!c.expect(AllFinite(x), "non-finite-result", "%s", s.message.c_str())) return;
      const double final = m.Cost(x);
      if (!c.expect(final <= initial + 1e-9 * (std::fabs(initial) + mag), "worse", "cost %.9g from %.9g (%s)", final, initial, s.message.c_str())) return;
      if (!c.expect(Near(s.final_cost, final, 1e-9 * (std::fabs(final) + mag)), "final-cost", "reported %.17g, is %.17g (%s)", s.final_cost, final, s.message.c_str())) return;
      if (!c.expect(Near(s.initial_cost, initial, 1e-9 * (std::fabs(initial) + mag)), "initial-cost", "reported %.17g, is %.17g (%s)", s.initial_cost, initial, s.message.c_str())) return;
      if (region) {
        c.count("region-results");
        if (!c.expect(!f.Bad(x), "bad-point-accepted", "the result is a point that cannot be evaluated (%s)", s.message.c_str())) return;
      }
    }
    const bool value = in.kind < kNanJ;
    // at the initial point
    const int n = m.rbs.size();
    bool initial_fault = bad_start;
    if (in.fired && in.costs_at_first >= 0 && in.costs_at_first <= n && !f.numeric) {
      if (in.what & (kResidual | kJacobian) && in.kind != kHugeJ) initial_fault = true;
      if (in.what == kLoss && in.costs_at_first > 0) initial_fault = true;
    }
    if (initial_fault) {
      c.count("initial-faults");
      if (!c.expect(!usable, "initial-fault-ignored", "the initial point cannot be evaluated, yet: %s", s.message.c_str())) return;
      if (!c.expect(s.iterations.size() <= 1, "initial-fault-ignored", "%zu records", s.iterations.size())) return;
    } else if (tr && in.fired) {
      const bool candidates = (in.what == kResidual && value) || in.what == kLoss && false;
      if (candidates && !f.numeric) {
        c.count("rejected-candidates");
        // invalid steps have other reasons
        if (!c.expect(usable || s.message.find("consecutive invalid steps") != std::string::npos, "no-rejection", "a candidate could not be evaluated: %s", s.message.c_str())) return;
      }
      if (in.tail && in.kind != kHugeJ && in.what != kPlusJacobian && !o.use_inner_iterations && s.termination_type == ceres::CONVERGENCE) {
        c.count("converged-after-fault");
        if (!c.expect(s.message.find("Function tolerance") == std::string::npos && s.message.find("Gradient tolerance") == std::string::npos, "false-convergence", "%s", s.message.c_str())) return;
        if (in.what == kPlus && s.message.find("Parameter tolerance") != std::string::npos && s.message.find("step_norm: 0.0") != std::string::npos && !c.expect(false, "false-convergence", "%s", s.message.c_str())) return;
      }
    }
    if (!c.expect(s.message.find("norm: nan") == std::string::npos || !usable, "false-convergence", "%s", s.message.c_str())) return;
    CheckHealthy(c, f, s.message.c_str());
    // and the next solve starts from here
  }
}

void Evaluate_(Case& c) {
  auto& r = c.rng;
  Model m;
  m.Init(r, Shape(r));
  if (m.rbs.empty()) return;
  Faulty f;
  f.Fill(r, &m);
  auto& in = f.in;
  c.note("%s%s", m.Describe().c_str(), f.numeric ? " numeric" : "");
  const int ops = r.range(1, 5);
  bool any_free = false;
  for (auto& b : m.rbs)
    for (int k : b.pbs) any_free = any_free || !m.pbs[k].Fixed();
  for (int i = 0; i < ops && !c.bad; ++i) {
    in.Plan(r);
    if (in.what == kPlus) in.what = kPlusJacobian;
    in.at = in.at % (2 * m.rbs.size() + 1);
    const auto start = m.Get();
    const int op = r.range(0, 2);
    if (op == 0) {
      Problem::EvaluateOptions eo;
      eo.num_threads = r.of({1, 1, 4});
      eo.apply_loss_function = r.chance(0.8);
      double cost = 0;
      std::vector<double> res, grad;
      ceres::CRSMatrix J;
      const int mask = r.range(0, 7);
      const bool ok = f.p->Evaluate(eo, &cost, mask & 1 ? &res : nullptr, mask & 2 ? &grad : nullptr, mask & 4 ? &J : nullptr);
      c.count("evaluate");
      c.sig(Fmt("evaluate/%d/%d/%d/%d/%d", mask, in.what, in.kind, in.fired > 0, ok));
      if (in.fired) {
        c.count("evaluate-faults");
        c.count(Fmt("evaluate-%d-%s", in.what, kKind[in.kind]));
        if (!c.expect(!ok || in.what == kPlusJacobian || in.kind == kHugeJ, "fault-ignored", "Problem::Evaluate succeeded (mask %d, %s)", mask, in.Describe().c_str())) return;
        if (ok && in.kind != kHugeJ) {
          bool finite = std::isfinite(cost);
          for (double v : res) finite = finite && std::isfinite(v);
          for (double v : grad) finite = finite && std::isfinite(v);
          for (double v : J.values) finite = finite && std::isfinite(v);
          if (!c.expect(finite, "garbage", "Problem::Evaluate succeeded with a non-finite result (%s)", in.Describe().c_str())) return;
        }
      } else if (!c.expect(ok, "failed", "Problem::Evaluate (%s)", in.Describe().c_str())) {
        return;
      }
    } else if (op == 1) {
      const int k = r.range(0, (int)m.rbs.size() - 1);
      auto& b = m.rbs[k];
      std::vector<double> res(b.smooth->num_residuals());
      std::vector<std::vector<double>> js;
      std::vector<double*> jp;
      for (int q : b.pbs) js.emplace_back(res.size() * m.pbs[q].size + 1);
      for (size_t q = 0; q < js.size(); ++q) jp.push_back(m.pbs[b.pbs[q]].Fixed() || r.chance(0.1) ? nullptr : js[q].data());
      double cost = 0;
      const bool want = r.chance(0.6);
      const bool ok = f.p->EvaluateResidualBlock(f.ids[k], r.chance(0.7), &cost, res.data(), want ? jp.data() : nullptr);
      c.count("residual-block");
      c.sig(Fmt("block/%d/%d/%d/%d/%d", want, in.what, in.kind, in.fired > 0, ok));
      if (in.fired) {
        c.count("residual-block-faults");
        if (!c.expect(!ok || in.what == kPlusJacobian || in.kind == kHugeJ || in.kind == kHugeR, "fault-ignored", "EvaluateResidualBlock succeeded (%s)", in.Describe().c_str())) return;
        if (ok && in.kind != kHugeJ && in.kind != kHugeR) {
          bool finite = std::isfinite(cost);
          for (double v : res) finite = finite && std::isfinite(v);
          if (want)
            for (auto& j : js)
              for (double v : j) finite = finite && std::isfinite(v);
          if (!c.expect(finite, "garbage", "EvaluateResidualBlock succeeded with a non-finite result (%s)", in.Describe().c_str())) return;
        }
      } else if (!c.expect(ok, "failed", "EvaluateResidualBlock (%s)", in.Describe().c_str())) {
        return;
      }
    } else {
      ceres::Covariance::Options co;
      co.algorithm_type = r.chance(0.5) ? ceres::DENSE_SVD : ceres::SPARSE_QR;
      co.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
      if (co.algorithm_type == ceres::DENSE_SVD) co.null_space_rank = -1;
      ceres::Covariance cov(co);
      std::vector<std::pair<const double*, const double*>> pairs;
      for (size_t i = 0; i < m.pbs.size(); ++i)
        for (size_t j = i; j < m.pbs.size(); ++j)
          if (i == j || r.chance(0.3)) pairs.push_back({m.pbs[i].x.get(), m.pbs[j].x.get()});
      const bool ok = cov.Compute(pairs, f.p.get());
      c.count("covariance");
      c.sig(Fmt("covariance/%d/%d/%d/%d", in.what, in.kind, in.fired > 0, ok));
      if (in.fired && (in.what & (kResidual | kJacobian | kLoss)) && in.kind != kHugeJ) {
        c.count("covariance-faults");
        if (!c.expect(!ok, "fault-ignored", "Covariance::Compute succeeded (%s)", in.Describe().c_str())) return;
      }
      if (ok) {
        for (auto& pr : pairs) {
          int a = 0, b = 0;
          for (size_t i = 0; i < m.pbs.size(); ++i) {
            if (m.pbs[i].x.get() == pr.first) a = i;
            if (m.pbs[i].x.get() == pr.second) b = i;
          }
          std::vector<double> v(m.pbs[a].size * m.pbs[b].size + 1);
          const int before = in.fired;
          const bool got = cov.GetCovarianceBlock(pr.first, pr.second, v.data());
          c.count("covariance-blocks");
          if (in.fired > before) c.count("lift-faults");
          if (!got) { c.expect(in.fired > before, "failed", "GetCovarianceBlock (%s)", in.Describe().c_str()); break; }
          bool finite = true;
          for (double z : v) finite = finite && std::isfinite(z);
          if (!c.expect(in.fired == before || in.kind != kFalse, "fault-ignored", "GetCovarianceBlock succeeded (%s)", in.Describe().c_str())) return;
          if (in.what == kPlusJacobian && !c.expect(finite, "garbage", "GetCovarianceBlock succeeded with a non-finite result (%s)", in.Describe().c_str())) return;
        }
      }
    }
    in.on = false;
    if (!c.expect(m.Get() == start, "evaluate-moved", "%d", op)) return;
    CheckHealthy(c, f, "faults");
  }
}

// General unconstrained minimisation.
struct Fn : ceres::FirstOrderFunction {
  Injector* in;
  const Model* m;
  Fn(Injector* in, const Model* m) : in(in), m(m) {}
  int NumParameters() const override { return m->pbs[0].size; }
  bool Evaluate(const double* x, double* cost, double* g) const override {
    ++in->calls;
    const int n = NumParameters();
    const bool fault = in->kind < kNanJ || g ? in->Fire(g ? kJacobian : kResidual, Hash(x, n)) : false;
    Model::State s{std::vector<double>(x, x + n)};
    double keep = *cost;
    long double t = 0;
    std::vector<double> grad(n, 0.0);
    for (auto& b : m->rbs) {
      std::vector<double> J, r;
      b.smooth->f.Jac(s[0], &J, &r);
      for (int i = 0; i < b.smooth->f.m; ++i) {
        t += r[i] * r[i] / 2;
        for (int k = 0; k < n; ++k) grad[k] += J[i * n + k] * r[i];
      }
    }
    if (fault && in->kind == kFalse) return false;
    *cost = static_cast<double>(t);
    if (fault && in->kind == kNanR) *cost = kNaN;
    if (fault && (in->kind == kInfR || in->kind == kUnwrittenR || in->kind == kHugeR)) *cost = in->fired % 2 ? kInf : -kInf;
    (void)keep;
    if (!fault && std::isfinite(*cost)) in->tail = false;
    if (g) {
      std::copy(grad.begin(), grad.end(), g);
      if (fault && in->kind >= kNanJ) g[in->fired % n] = in->kind == kNanJ ? kNaN : kInf;
    }
    return true;
  }
};

void Gradient_(Case& c) {
  auto& r = c.rng;
  Model m;
  ModelOptions mo;
  mo.exact_pb = 1;
  mo.max_rb = 5;
  mo.p_loss = mo.p_const = 0;
  mo.p_manifold = 0.4;
  mo.regular = r.chance(0.5);
  m.Init(r, mo);
  if (m.rbs.empty() || m.pbs[0].tangent == 0) return;
  Injector in;
  in.Plan(r);
  if (!m.pbs[0].man && (in.what == kPlus || in.what == kPlusJacobian)) in.what = kResidual | kJacobian;
  if (in.what == kLoss) in.what = kResidual | kJacobian;
  std::unique_ptr<ceres::GradientProblem> problem_ptr(m.pbs[0].man ? new ceres::GradientProblem(std::make_unique<Fn>(&in, &m), std::make_unique<FaultyManifold>(&in, m.pbs[0].man.get())) : new ceres::GradientProblem(std::make_unique<Fn>(&in, &m)));
  auto& problem = *problem_ptr;
  ceres::GradientProblemSolver::Options o;
  o.logging_type = ceres::SILENT;
  o.line_search_direction_type = static_cast<ceres::LineSearchDirectionType>(r.range(0, 3));
  o.line_search_type = r.chance(0.5) ? ceres::WOLFE : ceres::ARMIJO;
  if (o.line_search_direction_type == ceres::BFGS || o.line_search_direction_type == ceres::LBFGS) o.line_search_type = ceres::WOLFE;
  o.line_search_interpolation_type = static_cast<ceres::LineSearchInterpolationType>(r.range(0, 2));
  o.nonlinear_conjugate_gradient_type = static_cast<ceres::NonlinearConjugateGradientType>(r.range(0, 2));
  o.max_num_iterations = r.of({1, 5, 30});
  o.update_state_every_iteration = r.chance(0.3);
  const auto start = m.Get();
  double mag = 0;
  const double initial = m.Cost(start, true, &mag);
  std::vector<double> x = start[0];
  const bool region = in.when == kRegion && in.what == (kResidual | kJacobian) && in.kind < kNanJ;
  const bool bad_start = region && in.BadPoint(Hash(x.data(), x.size()));
  c.note("%s; direction %d search %d interpolation %d; %s", m.Describe().c_str(), o.line_search_direction_type, o.line_search_type, o.line_search_interpolation_type, in.Describe().c_str());
  ceres::GradientProblemSolver::Summary s;
  Solve(o, problem, x.data(), &s);
  in.on = false;
  c.count("gradient-solves");
  if (in.fired) {
    c.count("gradient-faults", in.fired);
    c.count(std::string("gradient-ended-") + ceres::TerminationTypeToString(s.termination_type));
  }
  c.sig(Fmt("%d/%d/%d/%d/%d/%d/%d", o.line_search_direction_type, o.line_search_type, o.line_search_interpolation_type, in.what, in.kind, in.when, (int)s.termination_type));
  const bool usable = s.IsSolutionUsable();
  if (!usable) {
    // with this option the state of the last iteration stays
    c.expect(o.update_state_every_iteration ? AllFinite({x}) : x == start[0], "gradient-failure-moved", "the solve failed (%s) but the parameters changed", s.message.c_str());
  } else {
    bool finite = true;
    for (double v : x) finite = finite && std::isfinite(v);
    if (!c.expect(finite, "gradient-non-finite-result", "%s", s.message.c_str())) return;
    const double final = m.Cost({x});
    if (!c.expect(final <= initial + 1e-9 * (std::fabs(initial) + mag), "gradient-worse", "cost %.9g from %.9g (%s)", final, initial, s.message.c_str())) return;
    if (!c.expect(Near(s.final_cost, final, 1e-9 * (std::fabs(final) + mag)), "gradient-final-cost", "reported %.17g, is %.17g (%s)", s.final_cost, final, s.message.c_str())) return;
    if (region && !c.expect(!in.BadPoint(Hash(x.data(), x.size())), "gradient-bad-point-accepted", "%s", s.message.c_str())) return;
  }
  if (bad_start || (in.fired && in.costs_at_first >= 0 && in.costs_at_first <= 1 && (in.what & (kResidual | kJacobian)) && in.kind < kUnwrittenJ)) {
    c.count("gradient-initial-faults");
    c.expect(!usable, "gradient-initial-fault-ignored", "the initial point cannot be evaluated, yet: %s", s.message.c_str());
  }
}

}  // namespace

VH_MAIN({"solve", Solve_, 4000}, {"evaluate", Evaluate_, 3000}, {"gradient", Gradient_, 3000})
