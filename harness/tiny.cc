// C24: TinySolver judged from a log of the function calls it makes and, where the linear
// solver is a spy, of the systems it solves.
#include "ceres/tiny_solver.h"
#include "ceres/tiny_solver_autodiff_function.h"
#include "ceres/tiny_solver_cost_function_adapter.h"
#include "smooth_cost.h"

namespace {
using namespace vh;
constexpr int D = Eigen::Dynamic;

template <typename S>
struct Call {
  bool jac;
  std::vector<S> x, f, J;  // J column major
};
template <typename S>
struct Log {
  std::vector<Call<S>> calls;
  int systems = 0, bad_systems = 0;
  Eigen::Matrix<S, D, D> A;
  Eigen::Matrix<S, D, 1> g, h;
  int fault_every = 0;  // every so many calls without Jacobian give NaN
  int trials = 0;
};
template <typename S>
Log<S>*& Current() {
  thread_local Log<S>* l = nullptr;
  return l;
}

// the user's function, logged
template <typename F, int R, int P, int MR, int MP>
struct Logged {
  using Scalar = typename F::Scalar;
  enum { NUM_RESIDUALS = R, NUM_PARAMETERS = P, MAX_NUM_RESIDUALS = MR, MAX_NUM_PARAMETERS = MP };
  const F& f;
  int m, n;
  Logged(const F& f, int m, int n) : f(f), m(m), n(n) {}
  int NumResiduals() const { return m; }
  int NumParameters() const { return n; }
  bool operator()(const Scalar* x, Scalar* r, Scalar* J) const {
    const bool ok = f(x, r, J);
    auto& l = *Current<Scalar>();
    if (!J && l.fault_every && ++l.trials % l.fault_every == 0) r[l.trials % m] = std::numeric_limits<Scalar>::quiet_NaN();
    Call<Scalar> c;
    c.jac = J != nullptr;
    c.x.assign(x, x + n);
    c.f.assign(r, r + m);
    if (J) c.J.assign(J, J + m * n);
    l.calls.push_back(std::move(c));
    return ok;
  }
};

// three ways to write the function
template <typename S, int R, int P>
struct Direct {
  using Scalar = S;
  const SmoothCost& c;
  bool operator()(const S* x, S* r, S* J) const {
    const int m = c.f.m, n = c.f.n;
    std::vector<double> xd(x, x + n), rd(m), jd(m * n);
    const double* xp = xd.data();
    double* jp = jd.data();
    c.Evaluate(&xp, rd.data(), J ? &jp : nullptr);
    for (int i = 0; i < m; ++i) r[i] = static_cast<S>(rd[i]);
    if (J)
      for (int i = 0; i < m; ++i)
        for (int k = 0; k < n; ++k) J[k * m + i] = static_cast<S>(jd[i * n + k]);
    return true;
  }
};
struct Functor {
  const Smooth* s;
  int NumResiduals() const { return s->m; }
  template <typename T>
  bool operator()(const T* x, T* r) const {
    if constexpr (std::is_same_v<T, float> || std::is_same_v<T, ceres::Jet<float, 2>>) {
      using std::sin;
      for (int i = 0; i < s->m; ++i) {
        T u = T(float(s->rows[i].p)), v = T(0.f);
        for (int k = 0; k < s->n; ++k) u += x[k] * float(s->rows[i].w[k]), v += x[k] * float(s->rows[i].a[k]);
        r[i] = float(s->rows[i].c) + v + float(s->rows[i].s) * sin(u) + float(s->rows[i].q) * (u * v);
      }
    } else {
      s->Eval(&x, r);
    }
    return true;
  }
};

template <typename H>
struct Spy {
  Eigen::LDLT<H> ldlt;
  template <typename M>
  void compute(const M& a) {
    auto& l = *Current<typename H::Scalar>();
    l.A = a;
    ++l.systems;
    ldlt.compute(a);
  }
  template <typename V>
  typename V::PlainObject solve(const V& b) {
    typename V::PlainObject x = ldlt.solve(b);
    auto& l = *Current<typename H::Scalar>();
    l.g = b;
    l.h = x;
    return x;
  }
};
template <typename H>
struct LltFix {
  Eigen::LLT<H> llt;
  template <typename M> void compute(const M& a) { llt.compute(a); }
  template <typename V> typename V::PlainObject solve(const V& b) { return llt.solve(b); }
};

template <typename S>
double Cost(const Call<S>& c) {
  long double t = 0;
  for (S v : c.f) t += static_cast<long double>(v) * v;
  return static_cast<double>(t / 2);
}
template <typename S>
bool Finite(const Call<S>& c) {
  for (S v : c.f)
    if (!std::isfinite(v)) return false;
  return true;
}
template <typename S>
std::vector<double> Gradient(const Call<S>& c) {
  const int m = c.f.size(), n = c.x.size();
  std::vector<double> g(n);
  for (int k = 0; k < n; ++k) {
    long double t = 0;
    for (int i = 0; i < m; ++i) t += static_cast<long double>(c.J[k * m + i]) * c.f[i];
    g[k] = static_cast<double>(t);
  }
  return g;
}
double MaxAbs(const std::vector<double>& v) {
  double t = 0;
  for (double x : v) t = std::max(t, std::fabs(x));
  return t;
}

// residuals with a unique well conditioned minimum, or anything
void RandomFunction(Rng& r, int m, int n, bool nice, double scale, Smooth* s) {
  s->Init(r, {n}, m);
  if (nice)
    for (int i = 0; i < m; ++i) {
      auto& row = s->rows[i];
      row.q = 0;
      row.s *= 0.15;
      if (i < n) {
        for (int k = 0; k < n; ++k) row.a[k] = 0.1 * row.a[k] + (k == i ? r.uni(0.7, 2) * r.sign() : 0);
      } else {
        for (int k = 0; k < n; ++k) row.a[k] *= 0.3;
      }
    }
  for (auto& row : s->rows) {
    row.c *= scale;
    row.s *= scale;
    row.q *= scale;
    for (auto& a : row.a) a *= scale;
  }
}

template <typename Solver>
void RandomTinyOptions(Rng& r, bool strict, typename Solver::Options* o) {
  using S = typename Solver::Scalar;
  *o = typename Solver::Options();
  const bool single = sizeof(S) == 4;
  if (strict) {
    o->max_num_iterations = 300;
    o->function_tolerance = 0;
    o->cost_threshold = 0;
    o->gradient_tolerance = single ? 1e-4 : 1e-9;
    o->parameter_tolerance = single ? 1e-7 : 1e-13;
    return;
  }
  if (r.chance(0.3)) o->max_num_iterations = r.of({1, 2, 3, 5, 10, 200});
  if (r.chance(0.4)) o->gradient_tolerance = static_cast<S>(std::pow(10, r.uni(-10, 0)));
  if (r.chance(0.4)) o->parameter_tolerance = static_cast<S>(std::pow(10, r.uni(-12, -1)));
  if (r.chance(0.4)) o->function_tolerance = static_cast<S>(std::pow(10, r.uni(-10, -0.5)));
  if (r.chance(0.4)) o->cost_threshold = static_cast<S>(std::pow(10, r.uni(-12, 0)));
  if (r.chance(0.4)) o->initial_trust_region_radius = static_cast<S>(std::pow(10, r.uni(-4, 8)));
}

const char* kStatus[] = {"gradient", "step", "cost", "limit", "change"};

// Judges one solve from its log.
template <typename Solver, typename S>
void Judge(Case& c, const Solver& solver, const Log<S>& l, const Eigen::Matrix<S, D, 1>& x0, const Eigen::Matrix<S, D, 1>& x, int m, bool spy, bool well) {
  const auto& o = solver.options;
  const auto& s = solver.summary;
  const int n = x0.size();
  const double eps = sizeof(S) == 4 ? 1e-5 : 1e-13;
  const auto& calls = l.calls;
  if (!c.expect(!calls.empty() && calls[0].jac, "no-initial-evaluation", "%zu calls", calls.size())) return;
  for (int k = 0; k < n; ++k)
    if (!c.expect(std::memcmp(&calls[0].x[k], &x0[k], sizeof(S)) == 0, "initial-point", "evaluated at %g, started at %g", (double)calls[0].x[k], (double)x0[k])) return;
  const int status = static_cast<int>(s.status);
  const Call<S>* cur = &calls[0];
  const double initial = Cost(*cur);
  const double rel = eps * (m + 4);
  auto near = [&](double a, double b) { return std::fabs(a - b) <= rel * (std::fabs(a) + std::fabs(b)); };
  if (!c.expect(near(s.initial_cost, initial), "initial-cost", "reported %.9g, was %.9g", (double)s.initial_cost, initial)) return;
  int trials = 0, accepted = 0, rejected = 0;
  double last_change = 0, last_old = 0;
  bool last_accepted = false;
  double prev_decrease = -1;  // predicted linear decrease of the last rejected step from the same point
  for (size_t i = 1; i < calls.size(); ++i) {
    const auto& t = calls[i];
    if (!c.expect(!t.jac, "unexpected-jacobian", "call %zu", i)) return;
    ++trials;
    // the criteria that would have stopped it at the point it steps from
    const double gm = MaxAbs(Gradient(*cur));
    double jm = 0, rm = 0;
    for (S v : cur->J) jm = std::max(jm, std::fabs(static_cast<double>(v)));
    for (S v : cur->f) rm = std::max(rm, std::fabs(static_cast<double>(v)));
    const double gnoise = eps * 10 * m * (1 + jm) * rm;
    if (!c.expect(!(gm < o.gradient_tolerance * (1 - 1e-3) - gnoise), "went-on", "although the gradient is %.3g < %.3g", gm, (double)o.gradient_tolerance)) return;
    if (!c.expect(!(Cost(*cur) < o.cost_threshold * (1 - 1e-3)), "went-on", "although the cost is %.3g < %.3g", Cost(*cur), (double)o.cost_threshold)) return;
    if (trials > 1 && !c.expect(!(std::fabs(last_change) < o.function_tolerance * last_old * (1 - 1e-3) - rel * last_old), "went-on", "although the cost changed by %.3g of %.9g", last_change, last_old)) return;
    // a descent step, shorter than the last one rejected here
    const auto g = Gradient(*cur);
    double slope = 0, gn = 0, dn = 0;
    for (int k = 0; k < n; ++k) {
      const double d = static_cast<double>(t.x[k]) - cur->x[k];
      slope -= g[k] * d;
      gn += g[k] * g[k];
      dn += d * d;
    }
    const double noise = eps * 1e3 * std::sqrt(gn * dn);
    double xn = 0;
    for (S v : cur->x) xn += static_cast<double>(v) * v;
    const bool clear = std::sqrt(dn) > 1e4 * eps * std::sqrt(xn);  // not lost in the rounding of x + dx
    if (well && clear && !c.expect(slope > -noise, "ascent-step", "the step has slope %.3g", slope)) return;
    if (well && clear && prev_decrease >= 0 && !c.expect(slope <= prev_decrease * (1 + 1e-6) + noise, "longer-step", "after a rejection the linear decrease grew from %.6g to %.6g", prev_decrease, slope)) return;
    const double old = Cost(*cur), now = Cost(t);
    last_old = old;
    last_change = old - now;
    const bool follows = i + 1 < calls.size() && calls[i + 1].jac;
    last_accepted = follows;
    if (follows) {
      for (int k = 0; k < n; ++k)
        if (!c.expect(std::memcmp(&calls[i + 1].x[k], &t.x[k], sizeof(S)) == 0, "accepted-other", "parameter %d", k)) return;
      if (!c.expect(Finite(t) && now <= old * (1 + rel), "accepted-worse", "cost %.17g after %.17g", now, old)) return;
      cur = &calls[i + 1];
      ++accepted;
      ++i;
      prev_decrease = -1;
    } else {
      if (well && Finite(t) && !c.expect(!(now < old * (1 - 10 * rel)), "rejected-better", "cost %.17g after %.17g", now, old)) return;
      ++rejected;
      prev_decrease = slope;
    }
  }
  c.count("trials", trials);
  c.count("accepted", accepted);
  c.count("rejected", rejected);
  c.count(std::string("status-") + kStatus[status]);
  const double cost = Cost(*cur);
  // the point and what is said about it
  for (int k = 0; k < n; ++k)
    if (!c.expect(std::memcmp(&cur->x[k], &x[k], sizeof(S)) == 0, "returned-other", "parameter %d is %.9g, the last accepted %.9g", k, (double)x[k], (double)cur->x[k])) return;
  if (!c.expect(cost <= initial * (1 + rel), "worse", "%.17g from %.17g", cost, initial)) return;
  if (!c.expect(near(s.final_cost, cost), "final-cost", "reported %.9g, is %.9g", (double)s.final_cost, cost)) return;
  const auto g = Gradient(*cur);
  double mag = 0;
  for (S v : cur->J) mag = std::max(mag, std::fabs(static_cast<double>(v)));
  double fm = 0;
  for (S v : cur->f) fm = std::max(fm, std::fabs(static_cast<double>(v)));
  const double gtol = eps * 10 * m * (1 + mag) * (fm + 1e-30) + 1e-300;
  if (!c.expect(std::fabs(s.gradient_max_norm - MaxAbs(g)) <= gtol + eps * 10 * MaxAbs(g), "gradient-norm", "reported %.9g, is %.9g", (double)s.gradient_max_norm, MaxAbs(g))) return;
  const auto res = solver.Residuals();
  const auto J = solver.Jacobian();
  if (!c.expect(res.size() == m && J.rows() == m && J.cols() == n, "sizes", "residuals %d", (int)res.size())) return;
  for (int i = 0; i < m; ++i)
    if (!c.expect(res[i] == cur->f[i], "residuals", "residual %d: %.9g, is %.9g", i, (double)res[i], (double)cur->f[i])) return;
  for (int i = 0; i < m; ++i)
    for (int k = 0; k < n; ++k)
      if (!c.expect(std::fabs(J(i, k) - cur->J[k * m + i]) <= 10 * eps * (1e-30 + std::fabs(cur->J[k * m + i])), "jacobian", "entry %d %d: %.9g, is %.9g", i, k, (double)J(i, k), (double)cur->J[k * m + i])) return;
  // iterations and the reason
  if (!c.expect(s.iterations <= std::max(1, o.max_num_iterations), "limit", "%d iterations of at most %d", s.iterations, o.max_num_iterations)) return;
  if (!c.expect(trials <= o.max_num_iterations, "limit", "%d trials of at most %d", trials, o.max_num_iterations)) return;
  switch (s.status) {
    case Solver::GRADIENT_TOO_SMALL:
      if (!c.expect(MaxAbs(g) <= o.gradient_tolerance * (1 + 1e-3) + gtol, "reason", "gradient %.6g, tolerance %.6g", MaxAbs(g), (double)o.gradient_tolerance)) return;
      c.expect(s.iterations == trials, "iterations", "%d reported, %d made", s.iterations, trials);
      break;
    case Solver::COST_TOO_SMALL:
      if (!c.expect(cost <= o.cost_threshold * (1 + 1e-3), "reason", "cost %.6g, threshold %.6g", cost, (double)o.cost_threshold)) return;
      c.expect(s.iterations == trials, "iterations", "%d reported, %d made", s.iterations, trials);
      break;
    case Solver::COST_CHANGE_TOO_SMALL:
      if (!c.expect(trials > 0 && std::fabs(last_change) <= o.function_tolerance * last_old * (1 + 1e-3) + 10 * rel * last_old, "reason", "cost changed by %.6g of %.6g, tolerance %.6g", last_change, last_old, (double)o.function_tolerance)) return;
      c.expect(s.iterations == trials, "iterations", "%d reported, %d made", s.iterations, trials);
      break;
    case Solver::HIT_MAX_ITERATIONS:
      c.expect(s.iterations == o.max_num_iterations && trials == o.max_num_iterations - 1, "iterations", "%d reported, %d made, limit %d", s.iterations, trials, o.max_num_iterations);
      break;
    case Solver::RELATIVE_STEP_SIZE_TOO_SMALL: {
      // the step that was not tried
      if (!c.expect(s.iterations == trials + 1, "iterations", "%d reported, %d made", s.iterations, trials)) return;
      if (spy) {
        double d = 0, xn = 0;
        for (int k = 0; k < n; ++k) {
          double jn = 0;
          for (int i = 0; i < m; ++i) jn += std::pow(static_cast<double>(calls[0].J[k * m + i]), 2);
          d += std::pow(l.h[k] / (1 + std::sqrt(jn)), 2);
          xn += std::pow(static_cast<double>(x[k]), 2);
        }
        const double tol = o.parameter_tolerance * (std::sqrt(xn) + o.parameter_tolerance);
        c.count("steps-too-small");
        c.expect(std::sqrt(d) <= tol * (1 + 1e-3), "reason", "step %.6g, tolerance %.6g", std::sqrt(d), tol);
      }
      break;
    }
    default: c.fail("status", "%d", status);
  }
  c.sig(Fmt("%d/%d/%d/%s/%d/%d", m, n, (int)sizeof(S), kStatus[status], std::min(trials, 12), std::min(rejected, 6)));
}

template <typename S, int R, int P, int MR, int MP, template <typename> class LS, typename MakeF>
void Run(Case& c, const char* how, MakeF make) {
  auto& r = c.rng;
  constexpr bool spy = std::is_same_v<LS<Eigen::Matrix<S, D, D>>, Spy<Eigen::Matrix<S, D, D>>>;
  using L = LS<Eigen::Matrix<S, P, P, 0, MP, MP>>;
  using FF = std::remove_pointer_t<decltype(make(std::declval<const SmoothCost&>()))>;
  using Fn = Logged<FF, R, P, MR, MP>;
  using Solver = ceres::TinySolver<Fn, MR, MP, L>;
  auto solver = std::make_unique<Solver>();
  const int rounds = r.range(1, 3);
  for (int round = 0; round < rounds && !c.bad; ++round) {
    const int m = R == D ? r.range(1, MR == D ? 9 : MR) : R;
    const int n = P == D ? r.range(1, MP == D ? 6 : MP) : P;
    const bool nice = m >= n && r.chance(0.5);
    const double scale = r.chance(0.7) ? 1 : std::pow(10, r.uni(-4, 3));
    Smooth sm;
    RandomFunction(r, m, n, nice, scale, &sm);
    const bool degenerate = !nice && r.chance(0.15);
    if (degenerate)
      for (auto& row : sm.rows) row.a[0] = row.w[0] = 0;  // a parameter without influence
    SmoothCost cost(sm);
    auto* inner = make(cost);
    std::unique_ptr<std::remove_pointer_t<decltype(inner)>> own(inner);
    Fn f(*inner, m, n);
    typename Solver::ParameterVector x(n), start(n);
    for (int k = 0; k < n; ++k) x[k] = static_cast<S>(r.chance(0.1) ? 0 : r.uni(-2, 2) * (r.chance(0.1) ? 20 : 1));
    start = x;
    const bool strict = nice && r.chance(0.5) && scale == 1;
    RandomTinyOptions<Solver>(r, strict, &solver->options);
    Log<S> log;
    if (!strict && r.chance(0.1)) log.fault_every = r.range(1, 4);
    c.note("%s %s %dx%d (%d,%d) nice %d scale %.2g faults %d", how, sizeof(S) == 4 ? "float" : "double", m, n, R, P, nice, scale, log.fault_every);
    Current<S>() = &log;
    const auto& summary = solver->Solve(f, &x);
    if (!c.expect(&summary == &solver->summary, "summary", "another object")) return;
    c.count("solves");
    c.count(how);
    if (log.fault_every) c.count("nan-trials");
    if (sizeof(S) == 4) c.count("float");
    if (R == D && P == D) c.count("dynamic");
    if (R != D && P != D) c.count("fixed");
    if ((R == D) != (P == D)) c.count("half-dynamic");
    Judge(c, *solver, log, Eigen::Matrix<S, D, 1>(start), Eigen::Matrix<S, D, 1>(x), m, spy, sizeof(S) == 8 || (nice && scale == 1));
    if (c.bad) return;
    if (strict) {
      c.count("converged");
      const double g = MaxAbs(Gradient([&] { Call<S> k; for (auto& q : log.calls) if (q.jac) k = q; return k; }()));
      if (!c.expect(solver->summary.status != Solver::HIT_MAX_ITERATIONS && g <= (sizeof(S) == 4 ? 3e-3 : 1e-7), "not-stationary", "%s after %d iterations, gradient %.3g", kStatus[(int)solver->summary.status], solver->summary.iterations, g)) return;
    }
    if (round > 0) {
      // a used solver does what a fresh one does
      auto fresh = std::make_unique<Solver>();
      fresh->options = solver->options;
      typename Solver::ParameterVector y = start;
      Log<S> log2;
      log2.fault_every = log.fault_every;
      Current<S>() = &log2;
      const auto s2 = fresh->Solve(f, &y);
      c.count("reused");
      const auto& s1 = solver->summary;
      if (!c.expect(x == y && s1.status == s2.status && s1.iterations == s2.iterations && s1.final_cost == s2.final_cost && s1.gradient_max_norm == s2.gradient_max_norm && log.calls.size() == log2.calls.size(), "reuse", "cost %.9g reused, %.9g fresh, %s and %s", (double)s1.final_cost, (double)s2.final_cost, kStatus[(int)s1.status], kStatus[(int)s2.status])) return;
    }
    Current<S>() = nullptr;
  }
}

template <typename H> using Ldlt = Eigen::LDLT<H>;
template <typename H> using Lu = Eigen::PartialPivLU<H>;
template <typename H> using Qr = Eigen::ColPivHouseholderQR<H>;

template <typename S, int R, int P, template <typename> class LS>
void RunDirect(Case& c) {
  Run<S, R, P, R, P, LS>(c, "direct", [](const SmoothCost& f) { return new Direct<S, R, P>{f}; });
}
template <typename S, int R, int P, int MR, template <typename> class LS>
void RunAuto(Case& c) {
  struct F : ceres::TinySolverAutoDiffFunction<Functor, R, P, S, MR> {
    std::unique_ptr<Functor> f;
    F(std::unique_ptr<Functor> g) : ceres::TinySolverAutoDiffFunction<Functor, R, P, S, MR>(*g), f(std::move(g)) {}
  };
  Run<S, R, P, MR, P, LS>(c, "autodiff", [](const SmoothCost& f) { return new F(std::unique_ptr<Functor>(new Functor{&f.f})); });
}
template <int R, int P, int MR, int MP, template <typename> class LS>
void RunAdapter(Case& c) {
  Run<double, R, P, MR, MP, LS>(c, "adapter", [](const SmoothCost& f) { return new ceres::TinySolverCostFunctionAdapter<R, P, MR, MP>(f); });
}

void Tiny(Case& c) {
  switch (c.rng.range(0, 22)) {
    case 0: return RunDirect<double, 1, 1, Spy>(c);
    case 1: return RunDirect<double, 3, 2, Spy>(c);
    case 2: return RunDirect<double, 2, 3, Ldlt>(c);
    case 3: return RunDirect<double, 6, 5, Ldlt>(c);
    case 4: return RunDirect<float, 4, 3, Spy>(c);
    case 5: return RunDirect<float, D, 2, Ldlt>(c);
    case 6: return RunDirect<double, D, 4, Spy>(c);
    case 7: return RunDirect<double, 5, D, Spy>(c);
    case 8: return RunDirect<double, D, D, Spy>(c);
    case 9: return Run<double, D, D, 7, 4, Ldlt>(c, "direct", [](const SmoothCost& f) { return new Direct<double, D, D>{f}; });
    case 10: return RunDirect<float, D, D, Ldlt>(c);
    case 11: return RunAuto<double, 3, 3, 3, Spy>(c);
    case 12: return RunAuto<double, D, 2, D, Spy>(c);
    case 13: return RunAuto<double, D, 5, 9, Ldlt>(c);
    case 14: return RunAuto<double, 1, 1, 1, Ldlt>(c);
    case 15: return RunAuto<float, 4, 2, 4, Spy>(c);
    case 16: return RunAdapter<3, 2, 3, 2, Spy>(c);
    case 17: return RunAdapter<D, 3, D, 3, Ldlt>(c);
    case 18: return RunAdapter<4, D, 4, D, Spy>(c);
    case 19: return RunAdapter<D, D, D, D, Spy>(c);
    case 20: return RunAdapter<D, D, 8, 5, Ldlt>(c);
    case 21: return RunDirect<double, 5, 3, Qr>(c);
    default: return RunDirect<double, D, D, LltFix>(c);
  }
}

}  // namespace

VH_MAIN({"tiny", Tiny, 20000})
