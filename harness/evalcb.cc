// C22: the evaluation callback protocol, judged from a log of callback and cost function calls.
// A caching user (everything computed in PrepareForEvaluation, cost functions only copy) must
// get what a user without a callback gets.
#include <atomic>
#include <mutex>

#include "ceres/covariance.h"
#include "ceres/evaluation_callback.h"
#include "ceres/iteration_callback.h"
#include "ceres/problem.h"
#include "ceres/solver.h"
#include "model.h"
#include "options.h"
#include "vh.h"

namespace {
using namespace vh;
using ceres::Problem;
using ceres::Solver;
using Pairs = std::vector<std::pair<const double*, const double*>>;

struct Monitor : ceres::EvaluationCallback {
  Case* c = nullptr;
  Model* m = nullptr;
  // the caching user
  Model::State point;           // at the last call
  bool prepared = false, jac = false, selected = false, was_selected = false,  // Jacobians may be of nothing
       have_jac = false;
  std::vector<std::vector<double>> res;
  std::vector<std::vector<std::vector<double>>> J;
  // protocol
  bool first = true;            // first call of the current operation
  int in_op = 0;                // calls during the current operation
  bool trust_region = false;    // strict about needless announcements
  bool checking = false;        // numeric differentiation looks at points of its own
  bool quiet = false;           // not now: no calls are expected
  std::string op;
  uint64_t fault_mod = 0;
  int prepares = 0, reused = 0, olds = 0, jacs = 0, needless = 0;
  std::atomic<int> calls{0}, vcalls{0}, jcalls{0}, faults{0};  // vcalls: with a variable block
  int vcalls_at_prepare = 0, jcalls_at_prepare = 0;

  static uint64_t Hash(const Model::State& s) {
    uint64_t h = 1;
    for (auto& b : s)
      for (double v : b) {
        uint64_t u;
        if (v == 0) v = 0;
        std::memcpy(&u, &v, 8);
        h = Combine(h, u);
      }
    return h;
  }
  bool Same(const Model::State& a, const Model::State& b) const {
    for (size_t i = 0; i < a.size(); ++i)
      if (std::memcmp(a[i].data(), b[i].data(), 8 * a[i].size())) return false;
    return true;
  }
  void Compute(bool jacobians, const Model::State& x) {
    res.resize(m->rbs.size());
    J.resize(m->rbs.size());
    for (size_t i = 0; i < m->rbs.size(); ++i) {
      auto& b = m->rbs[i];
      std::vector<const double*> p;
      for (int k : b.pbs) p.push_back(x[k].data());
      res[i].resize(b.smooth->num_residuals());
      std::vector<double*> jp;
      if (jacobians) {
        J[i].resize(b.pbs.size());
        for (size_t k = 0; k < b.pbs.size(); ++k) {
          J[i][k].resize(b.smooth->num_residuals() * m->pbs[b.pbs[k]].size);
          jp.push_back(J[i][k].data());
        }
      }
      b.smooth->Evaluate(p.data(), res[i].data(), jacobians ? jp.data() : nullptr);
    }
  }
  void Begin(const char* name, bool tr, bool sel = false) {
    selected = sel;
    op = name;
    first = true;
    in_op = 0;
    trust_region = tr;
  }
  // after an operation without faults: the Jacobians that were announced were requested
  void CheckRequested() {
    if (prepared && jac && faults == 0 && !was_selected && vcalls > vcalls_at_prepare && !checking)
      c->expect(jcalls > jcalls_at_prepare, "announced-jacobians", "%s: Jacobians were announced but none was requested", op.c_str());
  }
  void PrepareForEvaluation(bool evaluate_jacobians, bool new_point) override {
    const Model::State now = m->Get();
    if (c->verbose()) std::fprintf(stderr, "  %s prepare(jacobians %d, new %d) point %016llx calls so far %d\n", op.c_str(), evaluate_jacobians, new_point, (unsigned long long)Hash(now), (int)calls);
    CheckRequested();
    c->expect(!quiet, "unexpected-prepare", "%s", op.c_str());
    ++prepares;
    if (evaluate_jacobians) ++jacs;
    if (!new_point) {
      ++olds;
      if (!c->expect(prepared, "old-before-new", "%s: the first call says the point is not new", op.c_str())) {
      } else {
        c->expect(Same(now, point), "change-not-announced", "%s: the point differs from the last one but is not announced as new", op.c_str());
      }
      if (prepared && Same(now, point)) ++reused;
    } else if (prepared && Same(now, point) && !first) {
      ++needless;
      // the second call of a solve may follow the one for the fixed cost
      if (trust_region && evaluate_jacobians && in_op > 1) c->fail("not-new", "%s: the last point again, announced as new with Jacobians", op.c_str());
    }
    first = false;
    ++in_op;
    jac = evaluate_jacobians;
    if (new_point || !prepared) {
      point = now;
      have_jac = evaluate_jacobians;
      Compute(evaluate_jacobians, point);
    } else if (evaluate_jacobians && !have_jac) {
      Compute(true, point);  // what it remembers, not what is there now
      have_jac = true;
    }
    prepared = true;
    was_selected = selected;
    vcalls_at_prepare = vcalls;
    jcalls_at_prepare = jcalls;
  }
};

struct Watched : ceres::CostFunction {
  Monitor* mon;
  int rb;
  bool cached;
  Watched(Monitor* mon, int rb, bool cached) : mon(mon), rb(rb), cached(cached) {
    auto& b = mon->m->rbs[rb];
    set_num_residuals(b.smooth->num_residuals());
    *mutable_parameter_block_sizes() = b.smooth->parameter_block_sizes();
  }
  bool Evaluate(double const* const* x, double* r, double** j) const override {
    auto& b = mon->m->rbs[rb];
    mon->calls.fetch_add(1, std::memory_order_relaxed);
    bool any = false, varies = false;
    for (int k : b.pbs) varies = varies || !mon->m->pbs[k].Fixed();
    if (varies) mon->vcalls.fetch_add(1, std::memory_order_relaxed);
    if (j)
      for (size_t k = 0; k < b.pbs.size(); ++k) any = any || j[k];
    if (any) mon->jcalls.fetch_add(1, std::memory_order_relaxed);
    Case& c = *mon->c;
    if (!c.expect(mon->prepared, "unprepared", "%s: a cost function is called before the callback", mon->op.c_str())) return b.smooth->Evaluate(x, r, j);
    bool same = true;
    for (size_t k = 0; k < b.pbs.size(); ++k) same = same && !std::memcmp(x[k], mon->point[b.pbs[k]].data(), 8 * mon->point[b.pbs[k]].size());
    if (!(mon->checking && !any)) {
      c.expect(same, "other-point", "%s: a cost function sees parameters other than those at the callback", mon->op.c_str());
      c.expect(!any || mon->jac, "unannounced-jacobians", "%s: Jacobians are requested but were not announced", mon->op.c_str());
    }
    if (!cached || (mon->checking && !same)) {
      if (mon->fault_mod && !mon->checking && Monitor::Hash(mon->point) % mon->fault_mod == 0) return mon->faults.fetch_add(1), false;
      return b.smooth->Evaluate(x, r, j);
    }
    if (mon->fault_mod && Monitor::Hash(mon->point) % mon->fault_mod == 0) return mon->faults.fetch_add(1), false;
    std::copy(mon->res[rb].begin(), mon->res[rb].end(), r);
    if (any && mon->have_jac)
      for (size_t k = 0; k < b.pbs.size(); ++k)
        if (j[k]) std::copy(mon->J[rb][k].begin(), mon->J[rb][k].end(), j[k]);
    return true;
  }
};
// The same user without a callback.
struct Plain : ceres::CostFunction {
  const ceres::CostFunction* f;
  const Model* m;
  uint64_t fault_mod = 0;
  std::vector<int> pbs;
  explicit Plain(const Model* m, const Model::RB& b) : f(b.smooth), m(m), pbs(b.pbs) {
    set_num_residuals(f->num_residuals());
    *mutable_parameter_block_sizes() = f->parameter_block_sizes();
  }
  bool Evaluate(double const* const* x, double* r, double** j) const override { return f->Evaluate(x, r, j); }
};

struct Side {
  Model* m = nullptr;
  std::unique_ptr<Problem> p;
  std::vector<std::unique_ptr<ceres::CostFunction>> costs;
  std::vector<ceres::ResidualBlockId> ids;
};
void Fill(Side* s, ceres::EvaluationCallback* cb, Model* m, Monitor* mon, bool cached) {
  s->m = m;
  Problem::Options po = Model::NoOwn();
  po.evaluation_callback = cb;
  s->p = std::make_unique<Problem>(po);
  for (auto& b : m->pbs) {
    s->p->AddParameterBlock(b.x.get(), b.size, b.man.get());
    if (b.constant) s->p->SetParameterBlockConstant(b.x.get());
    for (size_t k = 0; k < b.lo.size(); ++k) {
      s->p->SetParameterLowerBound(b.x.get(), k, b.lo[k]);
      s->p->SetParameterUpperBound(b.x.get(), k, b.hi[k]);
    }
  }
  for (size_t i = 0; i < m->rbs.size(); ++i) {
    std::vector<double*> x;
    for (int k : m->rbs[i].pbs) x.push_back(m->pbs[k].x.get());
    s->costs.emplace_back(mon ? (ceres::CostFunction*)new Watched(mon, i, cached) : new Plain(m, m->rbs[i]));
    s->ids.push_back(s->p->AddResidualBlock(s->costs.back().get(), m->rbs[i].loss.get(), x));
    m->rbs[i].id = s->ids.back();
  }
}

struct UserCallback : ceres::IterationCallback {
  int stop = -1;
  ceres::CallbackReturnType operator()(const ceres::IterationSummary& s) override { return s.iteration == stop ? ceres::SOLVER_ABORT : ceres::SOLVER_CONTINUE; }
};

void Protocol(Case& c) {
  auto& r = c.rng;
  ModelOptions o;
  o.max_pb = 6;
  o.max_rb = 10;
  o.p_bound = r.chance(0.4) ? 0.5 : 0;
  o.p_const = r.of({0.0, 0.2, 0.6});
  o.p_loss = 0.3;
  o.schur = r.chance(0.4);
  o.regular = r.chance(0.4);
  Model m, twin;
  const Rng fork = r;
  m.Init(r, o);
  {
    Rng again = fork;
    twin.Init(again, o);
  }
  c.note("%s", m.Describe().c_str());
  Monitor mon;
  mon.c = &c;
  mon.m = &m;
  const bool cached = r.chance(0.7);
  const bool faulty = r.chance(0.25);
  if (faulty) mon.fault_mod = r.of({2, 4, 8});
  Side a, b;
  Fill(&b, nullptr, &twin, nullptr, false);
  std::vector<ceres::ResidualBlockId> twin_ids = b.ids;
  Fill(&a, &mon, &m, &mon, cached);
  const bool compare = !faulty;
  bool moved = true;  // parameters changed since the last user-requested evaluation
  const int ops = r.range(1, 7);
  for (int step = 0; step < ops && !c.bad; ++step) {
    const int op = r.range(0, 9);
    if (op <= 1) {
      // Problem::Evaluate
      Problem::EvaluateOptions eo, bo;
      eo.num_threads = bo.num_threads = r.of({1, 1, 3});
      eo.apply_loss_function = bo.apply_loss_function = r.chance(0.7);
      if (r.chance(0.4))
        for (size_t i = 0; i < a.ids.size(); ++i)
          if (r.chance(0.6)) eo.residual_blocks.push_back(a.ids[i]), bo.residual_blocks.push_back(b.ids[i]);
      if (r.chance(0.3))
        for (size_t i = 0; i < m.pbs.size(); ++i)
          if (r.chance(0.6)) eo.parameter_blocks.push_back(m.pbs[i].x.get()), bo.parameter_blocks.push_back(twin.pbs[i].x.get());
      const int mask = r.range(0, 15);
      double ca = 0, cb = 0;
      std::vector<double> ra, rb, ga, gb;
      ceres::CRSMatrix ja, jb;
      // empty selections have their own conventions
      bool none = eo.residual_blocks.empty() ? m.rbs.empty() : false;
      if (none) continue;
      mon.Begin("Problem::Evaluate", false, !eo.residual_blocks.empty() || !eo.parameter_blocks.empty());
      const int before = mon.prepares;
      const bool ok = a.p->Evaluate(eo, &ca, mask & 2 ? &ra : nullptr, mask & 4 ? &ga : nullptr, mask & 8 ? &ja : nullptr);
      mon.CheckRequested();
      c.count("evaluations");
      c.sig(Fmt("evaluate/%d/%d/%d", mask, eo.num_threads, mon.faults > 0));
      if (!c.expect(mon.prepares == before + 1, "prepare-count", "Problem::Evaluate called the callback %d times", mon.prepares - before)) return;
      bool gradient = false;  // has any entries
      for (auto& p : m.pbs)
        if (p.tangent && (eo.parameter_blocks.empty() ? true : std::count(eo.parameter_blocks.begin(), eo.parameter_blocks.end(), p.x.get()) > 0)) gradient = gradient || !p.Fixed();
      if (mon.jac != ((mask & 12) != 0) && (gradient || mon.jac)) { c.fail("jacobian-flag", "Problem::Evaluate: flag %d, requested %d", mon.jac, mask & 12); return; }
      if (compare) {
        const bool okb = b.p->Evaluate(bo, &cb, mask & 2 ? &rb : nullptr, mask & 4 ? &gb : nullptr, mask & 8 ? &jb : nullptr);
        if (!c.expect(ok == okb && (eo.num_threads > 1 ? Near(ca, cb, 1e-12 * (1 + std::fabs(cb))) : Bits(ca, cb)) && ra == rb && ja.values == jb.values, "evaluate-differs", "with a callback %d %.17g, without %d %.17g", ok, ca, okb, cb)) return;
        if (eo.num_threads == 1 && !c.expect(ga == gb, "evaluate-differs", "the gradient")) return;
      }
      moved = false;
    } else if (op <= 4) {
      if (m.rbs.empty()) continue;
      // one residual block
      const int k = r.range(0, (int)m.rbs.size() - 1);
      const bool unchanged = !moved && r.chance(0.6);
      auto& rb = m.rbs[k];
      std::vector<double> res(rb.smooth->num_residuals()), res2(res);
      std::vector<std::vector<double>> js, js2;
      std::vector<double*> jp, jp2;
      const bool want = r.chance(0.6);
      bool any = false;
      for (int q : rb.pbs) {
        js.emplace_back(res.size() * m.pbs[q].size + 1);
        js2.emplace_back(res.size() * m.pbs[q].size + 1);
      }
      for (size_t q = 0; q < rb.pbs.size(); ++q) {
        const bool give = !m.pbs[rb.pbs[q]].Fixed() && r.chance(0.8);
        any = any || give;
        jp.push_back(give ? js[q].data() : nullptr);
        jp2.push_back(give ? js2[q].data() : nullptr);
      }
      double cost = 0, cost2 = 0;
      const bool apply = r.chance(0.7);
      mon.Begin("EvaluateResidualBlock", false, true);
      const int before = mon.prepares, olds = mon.olds, calls = mon.calls;
      const bool ok = unchanged ? a.p->EvaluateResidualBlockAssumingParametersUnchanged(a.ids[k], apply, &cost, res.data(), want ? jp.data() : nullptr)
                                : a.p->EvaluateResidualBlock(a.ids[k], apply, &cost, res.data(), want ? jp.data() : nullptr);
      c.count(unchanged ? "residual-blocks-unchanged" : "residual-blocks");
      c.sig(Fmt("rb/%d/%d/%d", unchanged, want, any));
      if (!c.expect(mon.prepares == before + 1 && mon.calls == calls + 1, "prepare-count", "EvaluateResidualBlock: %d callbacks, %d calls", mon.prepares - before, mon.calls - calls)) return;
      if (!c.expect((mon.olds - olds) == unchanged, "new-flag", "EvaluateResidualBlock%s", unchanged ? "AssumingParametersUnchanged" : "")) return;
      if (!c.expect(mon.jac == want, "jacobian-flag", "EvaluateResidualBlock: flag %d, requested %d", mon.jac, want)) return;
      if (compare) {
        const bool ok2 = b.p->EvaluateResidualBlock(b.ids[k], apply, &cost2, res2.data(), want ? jp2.data() : nullptr);
        if (!c.expect(ok == ok2 && Bits(cost, cost2) && res == res2 && js == js2, "evaluate-differs", "residual block with a callback %.17g, without %.17g", cost, cost2)) return;
      }
      moved = false;
    } else if (op == 5) {
      // the user moves
      for (size_t i = 0; i < m.pbs.size(); ++i)
        if (r.chance(0.5) && (m.pbs[i].kind == kNone || m.pbs[i].kind == kSubset) && !m.pbs[i].Bounded())
          for (int k = 0; k < m.pbs[i].size; ++k) m.pbs[i].x[k] = twin.pbs[i].x[k] = r.uni(-2, 2);
      moved = true;
      c.count("user-moves");
    } else if (op == 6) {
      // covariance of some block
      ceres::Covariance::Options co;
      co.algorithm_type = r.chance(0.5) ? ceres::DENSE_SVD : ceres::SPARSE_QR;
      co.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
      co.null_space_rank = -1;
      if (co.algorithm_type == ceres::SPARSE_QR) co.null_space_rank = 0;
      co.num_threads = 1;
      co.apply_loss_function = r.chance(0.5);
      ceres::Covariance cov(co), cov2(co);
      const int k = r.range(0, (int)m.pbs.size() - 1);
      mon.Begin("Covariance::Compute", false, true);
      const int before = mon.prepares;
      const bool ok = cov.Compute(Pairs{{m.pbs[k].x.get(), m.pbs[k].x.get()}}, a.p.get());
      mon.CheckRequested();
      c.count("covariances");
      if (compare) {
        const bool ok2 = cov2.Compute(Pairs{{twin.pbs[k].x.get(), twin.pbs[k].x.get()}}, b.p.get());
        if (ok != ok2) c.count("covariance-undecided");  // deficient up to rounding
        int columns = 0;
        for (auto& p : m.pbs) columns += p.tangent;
        // from 16 columns on Eigen 3.4's BDCSVD is wrong for some matrices
        if (ok && ok2 && m.pbs[k].tangent && (columns < 16 || co.algorithm_type == ceres::SPARSE_QR)) {
          const int n = m.pbs[k].tangent;
          std::vector<double> v(n * n), w(n * n);
          if (!m.pbs[k].Fixed()) {
            cov.GetCovarianceBlockInTangentSpace(m.pbs[k].x.get(), m.pbs[k].x.get(), v.data());
            cov2.GetCovarianceBlockInTangentSpace(twin.pbs[k].x.get(), twin.pbs[k].x.get(), w.data());
            // columns are ordered by address, so rounding differs
            bool eq = true;
            double scale = 0;
            for (double z : w) scale = std::max(scale, std::fabs(z));
            if (scale < 1e4)
              for (size_t z = 0; z < v.size(); ++z) eq = eq && Near(v[z], w[z], 1e-6 * scale);
            if (!c.expect(eq, "covariance-differs", "block %d: %s and %s", k, Str(v).c_str(), Str(w).c_str())) return;
          }
        }
      }
      if (mon.prepares > before) moved = false;
    } else {
      OptionRules rules;
      rules.inner = false;
      rules.trust_region = true;
      for (size_t i = 0; i < m.rbs.size(); ++i) m.rbs[i].id = a.ids[i];
      Solver::Options so = RandomOptions(r, m, rules);
      so.max_num_iterations = r.of({0, 2, 10, 30});
      so.max_solver_time_in_seconds = 1e6;
      so.use_inner_iterations = false;
      so.check_gradients = so.minimizer_type == ceres::TRUST_REGION && r.chance(0.1) && so.preconditioner_type != ceres::SUBSET;
      bool bounded = false;
      for (auto& p : m.pbs) bounded = bounded || p.Bounded();
      if (bounded && so.minimizer_type == ceres::LINE_SEARCH) so.minimizer_type = ceres::TRUST_REGION;
      if (so.minimizer_type == ceres::TRUST_REGION && r.chance(0.06)) so.use_inner_iterations = true;
      so.update_state_every_iteration = r.chance(0.3);
      UserCallback stop;
      if (r.chance(0.2)) stop.stop = r.range(0, 3), so.callbacks.push_back(&stop);
      // the twin's options
      Solver::Options to = so;
      if (so.linear_solver_ordering) {
        to.linear_solver_ordering = std::make_shared<ceres::ParameterBlockOrdering>();
        for (auto& e : so.linear_solver_ordering->element_to_group())
          for (size_t i = 0; i < m.pbs.size(); ++i)
            if (m.pbs[i].x.get() == e.first) to.linear_solver_ordering->AddElementToGroup(twin.pbs[i].x.get(), e.second);
      }
      to.residual_blocks_for_subset_preconditioner.clear();
      for (size_t i = 0; i < m.rbs.size(); ++i)
        if (so.residual_blocks_for_subset_preconditioner.count(a.ids[i])) to.residual_blocks_for_subset_preconditioner.insert(b.ids[i]);
      mon.checking = so.check_gradients;
      c.note("step %d %s check %d", step, DescribeOptions(so).c_str(), so.check_gradients);
      const bool tr = so.minimizer_type == ceres::TRUST_REGION;
      mon.Begin("Solve", tr && !bounded);
      const int before = mon.prepares, calls = mon.calls, olds = mon.olds;
      const Model::State start = m.Get();
      Solver::Summary s, t;
      Solve(so, a.p.get(), &s);
      mon.CheckRequested();
      c.count("solves");
      c.count(tr ? "trust-region-solves" : "line-search-solves");
      if (so.check_gradients) c.count("checked-solves");
      c.sig(Fmt("%s/%d/%d/%d/%d", DescribeOptions(so).c_str(), so.check_gradients, faulty, bounded, (int)s.termination_type));
      c.count("announced-old", mon.olds - olds);
      bool varies = false;
      for (auto& rb : m.rbs)
        for (int k : rb.pbs) varies = varies || !m.pbs[k].Fixed();
      if (so.use_inner_iterations && varies && s.message.find("EvaluationCallback") != std::string::npos) {
        c.count("inner-refused");
        c.expect(s.termination_type == ceres::FAILURE && m.Get() == start, "inner-refused", "%s", s.message.c_str());
        mon.checking = false;
        continue;
      }
      if (so.use_inner_iterations && varies && !c.expect(!s.IsSolutionUsable(), "inner-accepted", "inner iterations with an evaluation callback: %s", s.message.c_str())) return;
      if (mon.calls > calls && !c.expect(mon.prepares > before, "unprepared", "Solve evaluated cost functions without the callback")) return;
      // visibility clusters follow the order of a hash table
      const bool hashed = so.linear_solver_type == ceres::ITERATIVE_SCHUR && (so.preconditioner_type == ceres::CLUSTER_JACOBI || so.preconditioner_type == ceres::CLUSTER_TRIDIAGONAL);
      if (compare && so.num_threads == 1 && !so.use_inner_iterations && !hashed) {
        Solve(to, b.p.get(), &t);
        c.count("twins");
        if (!c.expect(s.termination_type == t.termination_type && s.iterations.size() == t.iterations.size(), "solve-differs", "%s: with a callback '%s' after %zu records, without '%s' after %zu", DescribeOptions(so).c_str(), s.message.c_str(), s.iterations.size(), t.message.c_str(), t.iterations.size())) return;
        for (size_t i = 0; i < s.iterations.size(); ++i)
          if (!c.expect(Bits(s.iterations[i].cost, t.iterations[i].cost) && Bits(s.iterations[i].gradient_max_norm, t.iterations[i].gradient_max_norm), "solve-differs", "%s: iteration %zu cost %.17g with, %.17g without a callback", DescribeOptions(so).c_str(), i, s.iterations[i].cost, t.iterations[i].cost)) return;
        if (!c.expect(m.Get() == twin.Get(), "solve-differs", "%s: the results differ", DescribeOptions(so).c_str())) return;
      } else {
        twin.Set(m.Get());
      }
      mon.checking = false;
      if (!s.IsSolutionUsable() && !c.expect(m.Get() == start, "failure-moved", "%s: the parameters changed although the solve failed", s.message.c_str())) return;
      moved = true;
    }
    if (!faulty) mon.faults = 0;
  }
  c.count("callbacks", mon.prepares);
  c.count("with-jacobians", mon.jacs);
  c.count("reused-points", mon.reused);
  c.count("needless-news", mon.needless);
  c.count("calls", mon.calls);
  c.count("faulted-calls", mon.faults);
}

}  // namespace

VH_MAIN({"protocol", Protocol, 2500})
