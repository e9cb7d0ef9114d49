// Several threads against one: the same results, no races, no surplus user calls.
#include <atomic>
#include <memory>
#include <thread>

#include "ceres/context.h"
#include "ceres/covariance.h"
#include "ceres/crs_matrix.h"
#include "ceres/evaluation_callback.h"
#include "ceres/iteration_callback.h"
#include "ceres/problem.h"
#include "ceres/solver.h"
#include "options.h"
#include "vh.h"

using namespace vh;

namespace {

constexpr auto Rx = std::memory_order_relaxed;

// Counts the calls in flight, all monitors relaxed.
struct Monitor {
  std::atomic<int> active{0}, peak{0};
  std::atomic<uint64_t> calls{0};
  int jitter = 0;
};

struct Watched : SmoothCost {
  Monitor* mon;
  mutable std::atomic<int> inside{0}, overlap{0};
  Watched(const Smooth& f, Monitor* m) : SmoothCost(f), mon(m) {}
  bool Evaluate(double const* const* x, double* r, double** j) const override {
    const int a = mon->active.fetch_add(1, Rx) + 1;
    if (inside.fetch_add(1, Rx) > 0) overlap.fetch_add(1, Rx);
    for (int p = mon->peak.load(Rx); p < a && !mon->peak.compare_exchange_weak(p, a, Rx);) {}
    const uint64_t k = Mix(mon->calls.fetch_add(1, Rx));
    if (mon->jitter && k % 8 < static_cast<uint64_t>(mon->jitter)) std::this_thread::yield();
    const bool ok = SmoothCost::Evaluate(x, r, j);
    inside.fetch_sub(1, Rx);
    mon->active.fetch_sub(1, Rx);
    return ok;
  }
};

void Watch(Model* m, Monitor* mon) {
  for (auto& b : m->rbs) {
    auto* w = new Watched(b.smooth->f, mon);
    b.cost.reset(w);
    b.smooth = w;
  }
}

int Overlaps(const Model& m) {
  int n = 0;
  for (auto& b : m.rbs) n += static_cast<Watched*>(b.smooth)->overlap.load(Rx);
  return n;
}

ModelOptions Shape(Rng& r) {
  ModelOptions mo;
  mo.schur = r.chance(0.6);
  mo.regular = true;
  if (r.chance(0.4)) { mo.max_pb = 40; mo.max_rb = 120; mo.exact_pb = r.range(10, 40); }
  mo.p_bound = r.chance(0.3) ? 0.2 : 0;
  return mo;
}

double Diff(const Model::State& a, const Model::State& b) {
  double d = 0;
  for (size_t i = 0; i < a.size(); ++i)
    for (size_t k = 0; k < a[i].size(); ++k) {
      if (!std::isfinite(a[i][k]) || !std::isfinite(b[i][k])) { if (!SameOrNaN(a[i][k], b[i][k])) return INFINITY; continue; }
      d = std::max(d, std::fabs(a[i][k] - b[i][k]) / (1 + std::fabs(a[i][k])));
    }
  return d;
}
bool SameBits(const Model::State& a, const Model::State& b) {
  for (size_t i = 0; i < a.size(); ++i)
    for (size_t k = 0; k < a[i].size(); ++k)
      if (!Bits(a[i][k], b[i][k])) return false;
  return true;
}

bool SameBits(const std::vector<double>& a, const std::vector<double>& b) {
  return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), 8 * a.size()) == 0);
}

// ---- Problem::Evaluate ----

void Evaluate(Case& c) {
  Rng& r = c.rng;
  Model m;
  m.Init(r, Shape(r));
  Monitor mon;
  mon.jitter = r.range(0, 3);
  Watch(&m, &mon);
  ceres::Problem problem(Model::NoOwn());
  m.AddTo(&problem);
  c.note("%s", m.Describe().c_str());
  ceres::Problem::EvaluateOptions o;
  o.apply_loss_function = r.chance(0.7);
  std::vector<bool> in(m.rbs.size(), true);
  if (r.chance(0.3)) {
    for (size_t i = 0; i < m.rbs.size(); ++i) {
      in[i] = r.chance(0.6);
      if (in[i]) o.residual_blocks.push_back(m.rbs[i].id);
    }
    if (o.residual_blocks.empty()) { o.residual_blocks.push_back(m.rbs[0].id); in[0] = true; }
  }
  struct Out { double cost = 0; std::vector<double> res, grad; ceres::CRSMatrix jac; };
  auto Run = [&](int threads, Out* out) {
    o.num_threads = threads;
    mon.peak = 0;
    std::vector<int> before;
    for (auto& b : m.rbs) before.push_back(b.smooth->calls.load(Rx));
    const bool ok = problem.Evaluate(o, &out->cost, &out->res, &out->grad, &out->jac);
    c.expect(ok, "evaluate:failed", "%d threads", threads);
    for (size_t i = 0; i < m.rbs.size(); ++i)
      if (!c.expect(m.rbs[i].smooth->calls.load(Rx) - before[i] == in[i], "evaluate:calls", "block %zu was called %d times with %d threads", i, m.rbs[i].smooth->calls.load(Rx) - before[i], threads)) return;
    c.expect(mon.peak.load(Rx) <= threads, "evaluate:concurrency", "%d calls at once with %d threads", mon.peak.load(Rx), threads);
    if (mon.peak.load(Rx) > 1) c.count("concurrent-calls");
  };
  Out one;
  Run(1, &one);
  double gs = 0;
  for (double v : one.grad) gs = std::max(gs, std::fabs(v));
  double mag = 0;
  for (double v : one.res) mag += v * v;
  for (double v : one.jac.values) gs = std::max(gs, std::fabs(v) * std::sqrt(mag));
  for (int k = r.range(1, 3); k > 0; --k) {
    const int t = r.range(2, 10);
    Out out;
    Run(t, &out);
    c.count("evaluations");
    c.sig(Fmt("%zu %zu %d", m.pbs.size(), m.rbs.size(), t));
    c.expect(SameBits(out.res, one.res), "evaluate:residuals", "differ with %d threads", t);
    c.expect(out.jac.rows == one.jac.rows && out.jac.cols == one.jac.cols && SameBits(out.jac.values, one.jac.values), "evaluate:jacobian", "differs with %d threads", t);
    c.expect(Near(out.cost, one.cost, 1e-13 * (mag + std::fabs(one.cost)) + 1e-300), "evaluate:cost", "%.17g with %d threads, %.17g with one", out.cost, t, one.cost);
    c.expect(out.grad.size() == one.grad.size(), "evaluate:gradient-size", "differs");
    for (size_t i = 0; i < one.grad.size(); ++i)
      if (!c.expect(Near(out.grad[i], one.grad[i], 1e-12 * gs + 1e-300), "evaluate:gradient", "entry %zu: %.17g with %d threads, %.17g with one", i, out.grad[i], t, one.grad[i])) break;
  }
}

// ---- Solve ----

struct Result { Model::State x; ceres::Solver::Summary s; };

// Options whose result does not hinge on a rounding-sized quantity.
ceres::Solver::Options Tame(Rng& r, const Model& m) {
  OptionRules rules;
  rules.extremes = false;
  rules.mixed = false;
  ceres::Solver::Options o = RandomOptions(r, m, rules);
  o.max_num_iterations = r.range(1, 4);
  o.eta = 1e-13;
  o.min_linear_solver_iterations = 0;
  o.max_linear_solver_iterations = 500;
  o.function_tolerance = o.parameter_tolerance = o.gradient_tolerance = 0;
  return o;
}

Result SolveWith(Model* m, ceres::Problem* p, ceres::Solver::Options o, const Model::State& x0, int threads) {
  m->Set(x0);
  o.num_threads = threads;
  if (o.linear_solver_ordering) o.linear_solver_ordering = std::make_shared<ceres::ParameterBlockOrdering>(*o.linear_solver_ordering);
  if (o.inner_iteration_ordering) o.inner_iteration_ordering = std::make_shared<ceres::ParameterBlockOrdering>(*o.inner_iteration_ordering);
  Result res;
  ceres::Solve(o, p, &res.s);
  res.x = m->Get();
  return res;
}

double Sensitivity(Rng& r, Model* m, ceres::Problem* p, const ceres::Solver::Options& o, const Model::State& x0, const Result& one) {
  double d = 0;
  for (int k = 0; k < 6; ++k) {
    Model::State x = x0;
    for (size_t i = 0; i < x.size(); ++i)
      if (m->pbs[i].kind == kNone && !m->pbs[i].Bounded() && !m->pbs[i].Fixed())
        for (double& v : x[i]) v += (k < 3 ? 1e-14 : 1e-12) * r.sign() * (1 + std::fabs(v));
    const Result q = SolveWith(m, p, o, x, 1);
    d = std::max(d, Diff(one.x, q.x));
  }
  return d;
}

// The clustering of views iterates over hash tables whose order varies from run to run.
bool Clustered(const ceres::Solver::Options& o) {
  return o.linear_solver_type == ceres::ITERATIVE_SCHUR && (o.preconditioner_type == ceres::CLUSTER_JACOBI || o.preconditioner_type == ceres::CLUSTER_TRIDIAGONAL);
}

void CompareSolves(Case& c, Model* m, ceres::Problem* p, const ceres::Solver::Options& o, const Model::State& x0, const Result& one, const Result& q, int t, const char* what) {
  const double d = Diff(one.x, q.x);
  const bool counts = one.s.num_successful_steps == q.s.num_successful_steps && one.s.termination_type == q.s.termination_type;
  if (d <= 1e-7 && counts) { c.count("agreed"); return; }
  const double sens = Sensitivity(c.rng, m, p, o, x0, one);
  if (d <= 1e-7 + 1e3 * sens || sens > 1e-8) { c.count("sensitive"); return; }
  c.expect(d <= 1e-7 + 1e3 * sens, std::string(what) + ":result", "parameters differ by %.3g with %d threads (sensitivity %.3g): costs %.17g -> %.17g and %.17g -> %.17g, steps %d and %d; %s | %s", d, t, sens, one.s.initial_cost, one.s.final_cost, q.s.initial_cost, q.s.final_cost, one.s.num_successful_steps, q.s.num_successful_steps, one.s.message.c_str(), q.s.message.c_str());
}

void Solve(Case& c) {
  Rng& r = c.rng;
  Model m;
  m.Init(r, Shape(r));
  Monitor mon;
  mon.jitter = r.range(0, 3);
  Watch(&m, &mon);
  ceres::Problem problem(Model::NoOwn());
  m.AddTo(&problem);
  ceres::Solver::Options o = Tame(r, m);
  c.note("%s; %s", DescribeOptions(o).c_str(), m.Describe().c_str());
  std::string why;
  if (!o.IsValid(&why)) return;
  const auto x0 = m.Get();
  const Result one = SolveWith(&m, &problem, o, x0, 1);
  c.expect(mon.peak.load(Rx) <= 1, "solve:concurrency", "%d calls at once with one thread", mon.peak.load(Rx));
  if (r.chance(0.3) && !Clustered(o)) {
    const Result again = SolveWith(&m, &problem, o, x0, 1);
    c.expect(SameBits(one.x, again.x), "solve:not-repeatable", "two single-threaded solves differ by %.3g", Diff(one.x, again.x));
    c.count("repeated");
  }
  const int t = r.range(2, 8);
  mon.peak = 0;
  std::vector<int> before;
  for (auto& b : m.rbs) before.push_back(b.smooth->calls.load(Rx));
  const Result q = SolveWith(&m, &problem, o, x0, t);
  c.count("solves");
  c.sig(DescribeOptions(o) + Fmt(" %d", t));
  if (mon.peak.load(Rx) > 1) c.count("concurrent-calls");
  c.expect(mon.peak.load(Rx) <= t, "solve:concurrency", "%d calls at once with %d threads", mon.peak.load(Rx), t);
  if (!o.use_inner_iterations) {
    c.expect(Overlaps(m) == 0, "solve:overlap", "a block was evaluated twice at once");
    // Each evaluation calls every block that has a free parameter once.
    int calls = -1;
    for (size_t i = 0; i < m.rbs.size(); ++i) {
      bool fixed = true;
      for (int k : m.rbs[i].pbs) fixed &= m.pbs[k].Fixed();
      const int n = m.rbs[i].smooth->calls.load(Rx) - before[i];
      if (fixed) { c.expect(n <= 1, "solve:fixed-calls", "a fixed block was called %d times", n); continue; }
      if (calls < 0) calls = n;
      if (!c.expect(n == calls, "solve:uneven-calls", "block %zu was called %d times, others %d", i, n, calls)) break;
    }
  }
  CompareSolves(c, &m, &problem, o, x0, one, q, t, "solve");
}

// ---- several solves at once ----

void Concurrent(Case& c) {
  Rng& r = c.rng;
  const int n = r.range(2, 3);
  const bool share_context = r.chance(0.6), share_functions = r.chance(0.4);
  std::unique_ptr<ceres::Context> context(ceres::Context::Create());
  struct Job { Model m; Monitor mon; std::unique_ptr<ceres::Problem> p; ceres::Solver::Options o; Model::State x0; Result alone, together; int threads = 1; };
  std::vector<std::unique_ptr<Job>> jobs;
  for (int i = 0; i < n; ++i) {
    auto j = std::make_unique<Job>();
    const bool clone = i > 0 && share_functions;
    if (clone) {
      // the functions of job 0 on parameters of its own
      for (auto& b : jobs[0]->m.pbs) {
        Model::PB q;
        q.size = b.size; q.tangent = b.tangent; q.kind = b.kind; q.constant = b.constant; q.held = b.held; q.lo = b.lo; q.hi = b.hi;
        q.x.reset(new double[q.size]);
        std::copy_n(b.x.get(), q.size, q.x.get());
        j->m.pbs.push_back(std::move(q));
      }
      j->m.num_e = jobs[0]->m.num_e;
    } else {
      j->m.Init(r, Shape(r));
      j->mon.jitter = r.range(0, 3);
      Watch(&j->m, &j->mon);
    }
    ceres::Problem::Options po = Model::NoOwn();
    if (share_context) po.context = context.get();
    j->p = std::make_unique<ceres::Problem>(po);
    if (clone) {
      auto& src = jobs[0]->m;
      for (size_t k = 0; k < src.pbs.size(); ++k) {
        auto& q = j->m.pbs[k];
        j->p->AddParameterBlock(q.x.get(), q.size, src.pbs[k].man.get());
        if (q.constant) j->p->SetParameterBlockConstant(q.x.get());
        for (size_t z = 0; z < q.lo.size(); ++z) { j->p->SetParameterLowerBound(q.x.get(), z, q.lo[z]); j->p->SetParameterUpperBound(q.x.get(), z, q.hi[z]); }
      }
      for (auto& b : src.rbs) {
        std::vector<double*> x;
        for (int k : b.pbs) x.push_back(j->m.pbs[k].x.get());
        Model::RB nb;
        nb.pbs = b.pbs;
        nb.id = j->p->AddResidualBlock(b.cost.get(), b.loss.get(), x);
        j->m.rbs.push_back(std::move(nb));
      }
    } else {
      j->m.AddTo(j->p.get());
    }
    j->o = Tame(r, j->m);
    std::string why;
    if (!j->o.IsValid(&why)) return;
    j->threads = r.chance(0.5) ? 1 : r.range(2, 4);
    j->x0 = j->m.Get();
    c.note("%s x%d", DescribeOptions(j->o).c_str(), j->threads);
    jobs.push_back(std::move(j));
  }
  std::vector<std::thread> ts;
  for (auto& j : jobs) ts.emplace_back([&j] { j->together = SolveWith(&j->m, j->p.get(), j->o, j->x0, j->threads); });
  for (auto& t : ts) t.join();
  c.count("together", n);
  if (share_context) c.count("shared-context");
  if (share_functions) c.count("shared-functions");
  for (auto& j : jobs) {
    j->alone = SolveWith(&j->m, j->p.get(), j->o, j->x0, 1);
    if (j->threads == 1 && !Clustered(j->o)) c.expect(SameBits(j->alone.x, j->together.x), "concurrent:result", "a single-threaded solve next to others differs by %.3g from one alone", Diff(j->alone.x, j->together.x));
    else CompareSolves(c, &j->m, j->p.get(), j->o, j->x0, j->alone, j->together, j->threads, "concurrent");
    c.sig(DescribeOptions(j->o));
  }
}

// ---- covariance ----

void Covariance(Case& c) {
  Rng& r = c.rng;
  Model m;
  ModelOptions mo = Shape(r);
  mo.exact_pb = std::min(mo.exact_pb, 12);
  m.Init(r, mo);
  Monitor mon;
  Watch(&m, &mon);
  ceres::Problem problem(Model::NoOwn());
  m.AddTo(&problem);
  c.note("%s", m.Describe().c_str());
  ceres::Covariance::Options o;
  o.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
  o.algorithm_type = r.chance(0.7) ? ceres::SPARSE_QR : ceres::DENSE_SVD;
  o.null_space_rank = -1;
  std::vector<const double*> v;
  int N = 0;
  for (auto& p : m.pbs) { v.push_back(p.x.get()); N += p.size; }
  if (N == 0) return;
  const bool partial = r.chance(0.3);
  std::vector<std::pair<const double*, const double*>> pairs;
  if (partial)
    for (auto* x : v) pairs.push_back({x, x});
  std::vector<double> ref;
  bool ref_ok = false, ref_got = false;
  for (int round = 0; round < 3; ++round) {
    o.num_threads = round == 0 ? 1 : r.range(2, 8);
    mon.peak = 0;
    ceres::Covariance cov(o);
    const bool ok = partial ? cov.Compute(pairs, &problem) : cov.Compute(v, &problem);
    c.expect(mon.peak.load(Rx) <= o.num_threads, "covariance:concurrency", "%d calls at once with %d threads", mon.peak.load(Rx), o.num_threads);
    std::vector<double> M(N * N, 0.0);
    bool got = false;
    if (ok) got = cov.GetCovarianceMatrix(v, M.data());
    c.count("covariances");
    if (ok && !got) c.count("matrix-refused");
    if (round == 0) { ref = M; ref_ok = ok; ref_got = got; continue; }
    if (!c.expect(ok == ref_ok && got == ref_got, "covariance:outcome", "%d/%d with %d threads, %d/%d with one", ok, got, o.num_threads, ref_ok, ref_got)) return;
    if (got) c.expect(SameBits(M, ref), "covariance:value", "differs with %d threads", o.num_threads);
  }
  c.sig(Fmt("%d %zu %zu %d", o.algorithm_type, m.pbs.size(), m.rbs.size(), partial));
}

}  // namespace

VH_MAIN({"evaluate", Evaluate, 60}, {"solve", Solve, 120}, {"concurrent", Concurrent, 40}, {"covariance", Covariance, 30})
