// Line searches, interpolation polynomials, search directions and gradient problem solves.
#include <complex>

#include "ceres/evaluator.h"
#include "ceres/execution_summary.h"
#include "ceres/first_order_function.h"
#include "ceres/function_sample.h"
#include "ceres/gradient_problem.h"
#include "ceres/gradient_problem_solver.h"
#include "ceres/iteration_callback.h"
#include "ceres/line_search.h"
#include "ceres/line_search_direction.h"
#include "ceres/line_search_minimizer.h"
#include "ceres/low_rank_inverse_hessian.h"
#include "ceres/manifold.h"
#include "ceres/polynomial.h"
#include "ceres/product_manifold.h"
#include "ceres/sparse_matrix.h"
#include "ceres/sphere_manifold.h"
#include "smooth.h"

using namespace vh;
using namespace ceres;
using namespace ceres::internal;
namespace ci = ceres::internal;
using LD = long double;
using LVec = Eigen::Matrix<LD, Eigen::Dynamic, 1>;
using LMat = Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic>;

// ------------------------------------------------------------------ polynomials
static LD EvalLD(const Vector& p, LD x) {
  LD v = 0;
  for (int i = 0; i < p.size(); ++i) v = v * x + p(i);
  return v;
}
static LD ScaleLD(const Vector& p, LD x) {
  LD v = 0;
  for (int i = 0; i < p.size(); ++i) v = v * fabsl(x) + fabsl(p(i));
  return v;
}

static void Roots(Case& c) {
  Rng& r = c.rng;
  // Build from known roots: real ones, multiple ones, zero ones and conjugate pairs.
  const int want = r.range(1, 6);
  std::vector<std::complex<LD>> roots;
  while (static_cast<int>(roots.size()) < want) {
    const int kind = r.range(0, 4);
    if (kind == 0) roots.push_back(0);
    else if (kind == 1 && !roots.empty() && roots.back().imag() == 0) roots.push_back(roots.back());
    else if (kind == 2 && static_cast<int>(roots.size()) + 2 <= want) {
      std::complex<LD> z(r.uni(-3, 3), r.uni(0.01, 3));
      roots.push_back(z);
      roots.push_back(std::conj(z));
    } else if (kind == 3) roots.push_back(r.range(-3, 3));
    else roots.push_back(want <= 2 ? r.mag(-6, 3) : r.uni(-3, 3));
  }
  std::vector<std::complex<LD>> coef{1};
  for (auto& z : roots) {
    std::vector<std::complex<LD>> n(coef.size() + 1, 0);
    for (size_t i = 0; i < coef.size(); ++i) { n[i] += coef[i]; n[i + 1] -= z * coef[i]; }
    coef = n;
  }
  const double lead = r.chance(0.3) ? 1.0 : r.mag(-2, 2);
  const int zeros = r.chance(0.3) ? r.range(1, 3) : 0;
  Vector p = Vector::Zero(zeros + want + 1);
  for (int i = 0; i <= want; ++i) p(zeros + i) = static_cast<double>(coef[i].real()) * lead;
  c.note("degree %d leading zeros %d polynomial %s", want, zeros, Str(p).c_str());
  c.sig(Fmt("roots %d %d %d", want, zeros, roots[0].imag() != 0));
  Vector re, im, re2;
  static int calls = 0, misses = 0;
  ++calls;
  if (!FindPolynomialRoots(p, &re, &im)) {
    // Eigen's iteration gives up on about one companion matrix in a million.
    ++misses;
    c.count("roots-not-found");
    c.expect(want > 2 && misses <= 2 + calls / 1000, "roots:failed", "FindPolynomialRoots returned false");
    return;
  }
  FindPolynomialRoots(p, &re2, nullptr);
  c.count("root-findings");
  if (!c.expect(re.size() == want && im.size() == want && re2 == re, "roots:count", "%d roots, degree %d", int(re.size()), want)) return;
  if (r.chance(0.2)) {
    Vector im2;
    FindPolynomialRoots(p, nullptr, &im2);
    c.expect(im2 == im, "roots:imaginary-alone", "%s vs %s", Str(im2).c_str(), Str(im).c_str());
  }
  // Backward error: the polynomial with these roots is the one given.
  std::vector<std::complex<LD>> back{lead};
  for (int i = 0; i < want; ++i) {
    std::complex<LD> z(re(i), im(i));
    std::vector<std::complex<LD>> n(back.size() + 1, 0);
    for (size_t k = 0; k < back.size(); ++k) { n[k] += back[k]; n[k + 1] -= z * back[k]; }
    back = n;
  }
  const Vector q = p.tail(want + 1);
  const double norm = q.cwiseAbs().maxCoeff() / std::fabs(q(0));
  for (int i = 0; i <= want; ++i) {
    const double tol = want <= 2 ? 1e-13 * std::fabs(q(0)) * norm : 1e-12 * std::fabs(q(0)) * norm * norm;
    if (!c.expect(std::abs(back[i] - std::complex<LD>(q(i))) <= tol, "roots:wrong", "coefficient %d of the polynomial with roots (%s, %s) is %.17Lg, given %.17g", i, Str(re).c_str(), Str(im).c_str(), back[i].real(), q(i))) return;
  }
  if (want <= 2)
    for (int i = 0; i < want; ++i)
      if (im(i) == 0) {
        const LD v = EvalLD(q, re(i)), s = ScaleLD(q, re(i));
        if (!c.expect(fabsl(v) <= 1e-13L * s, "roots:not-a-root", "p(%.17g) = %.17Lg, terms of size %.3Lg", re(i), v, s)) return;
      }
}

static void Polynomials(Case& c) {
  Rng& r = c.rng;
  switch (r.range(0, 3)) {
    case 0: Roots(c); return;
    case 1: {  // minimisation on an interval
      const int deg = r.range(0, 5);
      Vector p(deg + 1);
      for (int i = 0; i <= deg; ++i) p(i) = r.chance(0.2) ? 0 : r.chance(0.5) ? r.uni(-3, 3) : r.mag(-2, 2);
      double a = r.uni(-3, 3), b = a + (r.chance(0.1) ? 0 : r.uni(0, 5));
      c.note("minimise %s on [%.17g, %.17g]", Str(p).c_str(), a, b);
      double x, v;
      MinimizePolynomial(p, a, b, &x, &v);
      c.count("minimisations");
      c.sig(Fmt("min %d %d", deg, x == a ? 0 : x == b ? 2 : 1));
      if (!c.expect(x >= a && x <= b, "minimize:outside", "x = %.17g", x)) return;
      const double X = std::max({std::fabs(a), std::fabs(b), 1.0});
      const LD s = ScaleLD(p, X);
      if (!c.expect(fabsl(EvalLD(p, x) - v) <= 1e-14L * s, "minimize:value", "p(%.17g) reported %.17g, is %.17Lg", x, v, EvalLD(p, x))) return;
      for (int i = 0; i <= 400; ++i) {
        const double t = i == 400 ? b : a + (b - a) * i / 400;
        if (!c.expect(EvalLD(p, t) >= v - 1e-9L * s, "minimize:not-minimal", "p(%.17g) = %.17Lg < reported minimum %.17g at %.17g", t, EvalLD(p, t), v, x)) return;
      }
      const Vector d = DifferentiatePolynomial(p);
      c.expect(d.size() == std::max(deg, 1), "differentiate:size", "%d", int(d.size()));
      const LD t = r.uni(-2, 2);
      LD want = 0;
      for (int i = 0; i < deg; ++i) want += (deg - i) * LD(p(i)) * powl(t, deg - i - 1);
      c.expect(fabsl(EvalLD(d, t) - want) <= 1e-14L * ScaleLD(d, t) + 1e-300L, "differentiate:value", "%.17Lg vs %.17Lg", EvalLD(d, t), want);
      c.expect(fabsl(EvaluatePolynomial(p, t) - EvalLD(p, t)) <= 1e-14L * ScaleLD(p, t), "evaluate", "at %.17Lg", t);
      return;
    }
    default: break;
  }
  // Interpolation and minimisation of the interpolant.
  const int ns = r.range(1, 3);
  std::vector<FunctionSample> s;
  double x = r.uni(-1, 1);
  int constraints = 0;
  for (int i = 0; i < ns; ++i) {
    const double v = r.uni(-3, 3), g = r.uni(-3, 3);
    FunctionSample f = r.chance(0.6) ? FunctionSample(x, v, g) : FunctionSample(x, v);
    constraints += f.value_is_valid + f.gradient_is_valid;
    s.push_back(f);
    x += r.uni(0.2, 2);
  }
  if (ns > 1 && r.chance(0.2)) {  // an invalid sample contributes nothing
    FunctionSample f;
    f.x = x;
    s.push_back(f);
  }
  r.shuffle(s);
  const Vector p = FindInterpolatingPolynomial(s);
  c.count("interpolations");
  c.note("%d samples, %d constraints", ns, constraints);
  c.sig(Fmt("interp %d %d", ns, constraints));
  if (!c.expect(p.size() == constraints, "interpolate:degree", "%d coefficients", int(p.size()))) return;
  for (auto& f : s) {
    const LD sc = ScaleLD(p, std::max(1.0, std::fabs(f.x))) * 10;
    if (f.value_is_valid && !c.expect(fabsl(EvalLD(p, f.x) - f.value) <= 1e-11L * sc, "interpolate:value", "p(%.17g) = %.17Lg, sample %.17g", f.x, EvalLD(p, f.x), f.value)) return;
    if (f.gradient_is_valid) {
      LD d = 0;
      for (int i = 0; i + 1 < p.size(); ++i) d = d * f.x + LD(p(i)) * int(p.size() - 1 - i);
      if (!c.expect(fabsl(d - f.gradient) <= 1e-11L * sc * 6, "interpolate:gradient", "p'(%.17g) = %.17Lg, sample %.17g", f.x, d, f.gradient)) return;
    }
  }
  double lo = s[0].x + r.uni(-2, 1), hi = lo + r.uni(0.01, 4), ox, ov;
  MinimizeInterpolatingPolynomial(s, lo, hi, &ox, &ov);
  const LD sc = ScaleLD(p, std::max({1.0, std::fabs(lo), std::fabs(hi)}));
  if (!c.expect(ox >= lo && ox <= hi && fabsl(EvalLD(p, ox) - ov) <= 1e-13L * sc, "minimize-interpolant:point", "x %.17g value %.17g, p %.17Lg, interval [%.17g, %.17g]", ox, ov, EvalLD(p, ox), lo, hi)) return;
  for (int i = 0; i <= 200; ++i) {
    const LD t = lo + LD(hi - lo) * i / 200;
    if (!c.expect(EvalLD(p, t) >= ov - 1e-9L * sc, "minimize-interpolant:not-minimal", "p(%.17Lg) = %.17Lg < %.17g at %.17g", t, EvalLD(p, t), ov, ox)) return;
  }
  // The step size chooser.
  ci::LineSearch::Options lo_opt;
  std::string err;
  auto ls = ci::LineSearch::Create(r.chance(0.5) ? ARMIJO : WOLFE, lo_opt, &err);
  if (!c.expect(ls != nullptr, "create", "%s", err.c_str())) return;
  const auto type = r.of({BISECTION, QUADRATIC, CUBIC});
  const double cx = r.uni(0.5, 3);
  FunctionSample low(0, r.uni(-1, 1), r.uni(-2, 0)), cur(cx, r.uni(-2, 2), r.uni(-2, 2)), prev;
  if (r.chance(0.5)) prev = FunctionSample(cx * r.uni(1.1, 3), r.uni(-2, 2), r.uni(-2, 2));
  const bool expand = r.chance(0.4);
  const double mn = expand ? cx : cx * r.uni(1e-3, 0.3), mx = expand ? cx * r.uni(1.5, 10) : cx * r.uni(0.5, 1.0);
  if (r.chance(0.25)) { cur.value_is_valid = false; cur.gradient_is_valid = false; cur.value = r.of({0.0, std::nan(""), 1e308}); }
  else if (r.chance(0.2)) cur.gradient_is_valid = false;
  const double st = ls->InterpolatingPolynomialMinimizingStepSize(type, low, prev, cur, mn, mx);
  c.count("step-choices");
  if (!c.expect(st >= mn && st <= mx, "step-choice:outside", "%.17g not in [%.17g, %.17g]", st, mn, mx)) return;
  if (!cur.value_is_valid || (type == BISECTION && mx <= cur.x)) {
    c.expect(st == std::min(std::max(cx * 0.5, mn), mx), "step-choice:bisection", "%.17g, current %.17g in [%.17g, %.17g]", st, cx, mn, mx);
  } else if (type == BISECTION) {
    c.expect(st == mx, "step-choice:expansion", "%.17g, max %.17g", st, mx);
  } else {
    std::vector<FunctionSample> u{low};
    if (type == QUADRATIC) {
      u.push_back(FunctionSample(cur.x, cur.value));
      if (prev.value_is_valid) u.push_back(FunctionSample(prev.x, prev.value));
    } else {
      u.push_back(cur);
      if (prev.value_is_valid) u.push_back(prev);
    }
    const Vector q = FindInterpolatingPolynomial(u);
    const LD sq = ScaleLD(q, std::max(1.0, mx)), v = EvalLD(q, st);
    for (int i = 0; i <= 200; ++i) {
      const LD t = mn + LD(mx - mn) * i / 200;
      if (!c.expect(EvalLD(q, t) >= v - 1e-9L * sq, "step-choice:not-minimal", "type %d: q(%.17Lg) = %.17Lg < q(%.17g) = %.17Lg", type, t, EvalLD(q, t), st, v)) return;
    }
  }
}

// ------------------------------------------------------------------ line searches
struct Event {
  Vector x;
  bool grad, ok, plus_failed = false;
  double cost = 0;
  Vector g;
};

// F(x) = 1/2 |f(x)|^2 with regions where things go wrong.
struct MockEvaluator : ci::Evaluator {
  Smooth f;
  int n;
  int noise = 0;        // 0 smooth, 1 value noise, 2 arbitrary gradient
  double quad = 0;      // + quad/2 |x|^2
  std::vector<double> dir;  // region direction
  struct Region { double lo, hi; int kind; };
  std::vector<Region> regions;
  uint64_t salt = 0;
  mutable std::vector<Event> log;
  mutable std::vector<std::pair<Vector, bool>> plus;

  int KindAt(const double* x) const {
    double v = 0;
    for (int i = 0; i < n; ++i) v += dir[i] * x[i];
    for (auto& q : regions)
      if (v >= q.lo && v < q.hi) return q.kind;
    return 0;
  }
  static double Noise(uint64_t salt, const double* x, int n) {
    uint64_t h = salt;
    for (int i = 0; i < n; ++i) { uint64_t b; std::memcpy(&b, x + i, 8); h = Combine(h, b); }
    return Rng(h).uni(-1, 1);
  }
  void True(const double* x, double* cost, Vector* g) const {
    std::vector<double> xv(x, x + n), J, r;
    f.Jac(xv, &J, &r);
    *cost = 0;
    g->setZero(n);
    for (int k = 0; k < f.m; ++k) {
      *cost += 0.5 * r[k] * r[k];
      for (int i = 0; i < n; ++i) (*g)(i) += J[k * n + i] * r[k];
    }
    for (int i = 0; i < n; ++i) { *cost += 0.5 * quad * x[i] * x[i]; (*g)(i) += quad * x[i]; }
    if (noise == 1) *cost += 0.3 * Noise(salt, x, n);
    if (noise == 2)
      for (int i = 0; i < n; ++i) (*g)(i) = 2 * Noise(salt + i, x, n);
  }
  bool Evaluate(const EvaluateOptions&, const double* x, double* cost, double* residuals, double* gradient, SparseMatrix* jacobian) override {
    Event e;
    e.x = ConstVectorRef(x, n);
    e.grad = gradient != nullptr;
    Vector g;
    double v;
    True(x, &v, &g);
    e.ok = true;
    switch (KindAt(x)) {
      case 1: e.ok = false; v = 1e30; break;
      case 2: v = std::nan(""); break;
      case 3: v = std::numeric_limits<double>::infinity(); break;
      case 4: g(0) = std::nan(""); break;
      case 5: g(n - 1) = -std::numeric_limits<double>::infinity(); break;
      case 6: v = -std::numeric_limits<double>::infinity(); break;
    }
    *cost = v;
    if (gradient) VectorRef(gradient, n) = g;
    e.cost = v;
    e.g = g;
    log.push_back(e);
    return e.ok;
  }
  bool Plus(const double* x, const double* d, double* y) const override {
    for (int i = 0; i < n; ++i) y[i] = x[i] + d[i];
    if (KindAt(y) == 7) {
      Event e;
      e.x = ConstVectorRef(y, n);
      e.grad = false;
      e.ok = false;
      e.plus_failed = true;
      log.push_back(e);
      return false;
    }
    return true;
  }
  std::unique_ptr<SparseMatrix> CreateJacobian() const override { return nullptr; }
  int NumParameters() const override { return n; }
  int NumEffectiveParameters() const override { return n; }
  int NumResiduals() const override { return 1; }
};

static void Search(Case& c) {
  Rng& r = c.rng;
  MockEvaluator ev;
  ev.n = r.range(1, 4);
  ev.f.Init(r, {ev.n}, r.range(1, 5));
  ev.quad = r.chance(0.3) ? 0 : r.uni(0.01, 2);
  ev.noise = r.chance(0.7) ? 0 : r.range(1, 2);
  ev.salt = r.u64();
  Vector x0(ev.n), d(ev.n), g0;
  for (int i = 0; i < ev.n; ++i) x0(i) = r.uni(-2, 2);
  double f0;
  ev.True(x0.data(), &f0, &g0);
  const bool steepest = r.chance(0.5);
  for (int i = 0; i < ev.n; ++i) d(i) = steepest ? -g0(i) : r.normal();
  if (d.dot(g0) > 0) d = -d;
  d *= std::pow(10.0, r.uni(-2, 2));
  double dd = d.dot(g0);
  if (!(dd < -1e-10)) { c.count("skipped"); return; }
  ev.dir.resize(ev.n);
  for (int i = 0; i < ev.n; ++i) ev.dir[i] = d(i) / d.norm();
  const double v0 = ConstVectorRef(ev.dir.data(), ev.n).dot(x0);
  double kinds = 0;
  const double estimate = r.chance(0.4) ? 1.0 : std::pow(10.0, r.uni(-3, 2));
  if (r.chance(0.5)) {
    const int k = r.range(1, 3);
    for (int i = 0; i < k; ++i) {
      const double lo = v0 + d.norm() * estimate * std::pow(10.0, r.uni(-1.5, 1));
      const int kind = r.range(1, 7);
      kinds = kinds * 8 + kind;
      ev.regions.push_back({lo, r.chance(0.4) ? 1e300 : lo + d.norm() * estimate * std::pow(10.0, r.uni(-1.5, 1)), kind});
    }
  }
  ci::LineSearch::Options o;
  o.is_silent = true;
  o.interpolation_type = r.of({BISECTION, QUADRATIC, CUBIC});
  o.sufficient_decrease = r.chance(0.5) ? 1e-4 : std::pow(10.0, r.uni(-5, -0.4));
  o.sufficient_curvature_decrease = r.chance(0.4) ? 0.9 : o.sufficient_decrease + (0.999 - o.sufficient_decrease) * std::pow(10.0, r.uni(-3, 0));
  o.max_step_contraction = r.chance(0.5) ? 1e-3 : std::pow(10.0, r.uni(-3, -0.4));
  o.min_step_contraction = r.chance(0.4) ? 0.9 : o.max_step_contraction + (0.99 - o.max_step_contraction) * r.uni(0.05, 1);
  o.max_step_expansion = r.chance(0.5) ? 10 : r.uni(1.2, 20);
  o.max_num_iterations = r.chance(0.4) ? 20 : r.range(1, 30);
  o.min_step_size = r.chance(0.5) ? 1e-9 : std::pow(10.0, r.uni(-12, -2));
  const bool wolfe = r.chance(0.6);
  LineSearchFunction fn(&ev);
  fn.Init(x0, d);
  o.function = &fn;
  std::string err;
  auto ls = ci::LineSearch::Create(wolfe ? WOLFE : ARMIJO, o, &err);
  ci::LineSearch::Summary s;
  s.success = r.chance(0.5);
  s.error = "stale";
  s.num_iterations = 77;
  c.note("%s interpolation %d n %d noise %d regions %.0f estimate %.3g f0 %.6g slope %.6g c1 %.3g c2 %.3g contraction [%.3g, %.3g] expansion %.3g iterations %d min step %.3g", wolfe ? "Wolfe" : "Armijo",
         o.interpolation_type, ev.n, ev.noise, kinds, estimate, f0, dd, o.sufficient_decrease, o.sufficient_curvature_decrease, o.max_step_contraction, o.min_step_contraction, o.max_step_expansion, o.max_num_iterations, o.min_step_size);
  ls->Search(estimate, f0, dd, &s);
  c.count("searches");
  const std::string K = wolfe ? "wolfe" : "armijo";
  // Step sizes of the trials, recovered along the direction.
  struct Trial { double x, cost, slope; bool ok, gok; const Event* e; };
  std::vector<Trial> t;
  int ng = 0, ne = 0;
  const double dnorm2 = d.squaredNorm(), dmax = d.lpNorm<Eigen::Infinity>();
  for (auto& e : ev.log) {
    Trial u;
    u.x = d.dot(e.x - x0) / dnorm2;
    u.cost = e.cost;
    u.ok = e.ok && std::isfinite(e.cost);
    u.slope = e.plus_failed ? 0 : d.dot(e.g);
    u.gok = u.ok && e.grad && std::isfinite(u.slope);
    u.e = &e;
    t.push_back(u);
    ++ne;
    ng += e.grad || (e.plus_failed && (wolfe || o.interpolation_type == CUBIC));
    if (c.verbose()) std::fprintf(stderr, "  trial x %.17g cost %.17g slope %.17g ok %d grad %d\n", u.x, u.cost, u.slope, u.ok, u.gok);
  }
  const double xe = 1e-9 * (x0.norm() + 1) / d.norm();  // accuracy of recovered step sizes
  auto Xtol = [&](double x) { return 1e-9 * std::fabs(x) + 1e-4 * xe; };
  c.count("trials", t.size());
  c.sig(Fmt("%s i%d t%zu s%d it%d noise%d k%.0f", K.c_str(), o.interpolation_type, std::min<size_t>(t.size(), 8), s.success, std::min(s.num_iterations, 8), ev.noise, kinds));
  if (!c.expect(s.num_function_evaluations == ne && s.num_gradient_evaluations == ng, K + ":counters", "reported %d/%d evaluations, made %d/%d", s.num_function_evaluations, s.num_gradient_evaluations, ne, ng)) return;
  if (!c.expect(s.num_iterations <= o.max_num_iterations && ne <= o.max_num_iterations + 1, K + ":iterations", "%d iterations, %d evaluations, limit %d", s.num_iterations, ne, o.max_num_iterations)) return;
  if (!c.expect(std::fabs(t[0].x - estimate) <= Xtol(estimate), K + ":first-trial", "%.17g, estimate %.17g", t[0].x, estimate)) return;
  auto Armijo = [&](const Trial& u) { return u.ok && u.cost <= f0 + o.sufficient_decrease * dd * u.x + 1e-12 * std::fabs(dd * u.x); };
  // Trial step sizes move as the type of search says.
  for (size_t i = 1; i < t.size(); ++i) {
    const double p = t[i - 1].x, x = t[i].x, tol = Xtol(std::max(p, x));
    if (!wolfe) {
      if (!c.expect(x >= o.max_step_contraction * p - tol && x <= o.min_step_contraction * p + tol, "armijo:contraction", "trial %zu: %.17g after %.17g", i, x, p)) return;
      if (!c.expect(!Armijo(t[i - 1]) || o.interpolation_type == CUBIC, "armijo:continued", "trial %zu at %.17g satisfied the condition but the search went on", i - 1, p)) return;
    } else {
      double cap = 0;
      for (size_t k = 0; k < i; ++k) cap = std::max(cap, t[k].x);
      if (!c.expect(x >= -tol && x <= o.max_step_expansion * cap + tol, "wolfe:expansion", "trial %zu: %.17g after at most %.17g", i, x, cap)) return;
      for (size_t k = 0; k < i; ++k) {
        const bool bad = t[k].ok && (t[k].gok || !t[k].e->grad) && t[k].cost > f0 + o.sufficient_decrease * dd * t[k].x + 1e-12 * std::fabs(dd * t[k].x);
        if (bad && !c.expect(x <= cap + tol, "wolfe:bracket", "trial %zu: %.17g beyond %.17g after the unacceptable %.17g", i, x, cap, t[k].x)) return;
      }
    }
  }
  if (!s.success) {
    if (!c.expect(!s.error.empty() && s.error != "stale", K + ":no-error", "failed without an explanation")) return;
    c.count(K + "-failures");
    double lastvalid = 0;
    for (auto& u : t) if (u.ok && (u.gok || !u.e->grad)) lastvalid = u.x;
    if (!wolfe) {
      for (auto& u : t) if (!c.expect(!Armijo(u) || u.cost > f0 + o.sufficient_decrease * dd * u.x || (u.e->grad && !u.gok), "armijo:missed", "failed (%s) though the trial at %.17g satisfies the condition", s.error.c_str(), u.x)) return;
      const bool exhausted = s.num_iterations >= o.max_num_iterations;
      const bool small = t.back().x * o.max_step_contraction * dmax < o.min_step_size * (1 + 1e-9);
      c.expect(exhausted || small, "armijo:gave-up", "%s: last step %.17g, direction %.3g, %d iterations", s.error.c_str(), t.back().x, dmax, s.num_iterations);
    } else {
      const bool invalid = !t.back().gok;
      const bool small = lastvalid * dmax < o.min_step_size * (1 + 1e-9);
      c.expect(invalid || small, "wolfe:gave-up", "%s", s.error.c_str());
    }
    return;
  }
  c.count(K + "-successes");
  const FunctionSample& p = s.optimal_point;
  if (wolfe && p.x == 0) {
    c.count("wolfe-zero-step");
    // Nothing tested may have been acceptable then.
    for (auto& u : t)
      if (!c.expect(!(u.gok && Armijo(u) && u.cost < f0), "wolfe:missed", "returned the starting point though the trial at %.17g (cost %.17g) satisfies sufficient decrease", u.x, u.cost)) return;
    bool narrow = false;
    for (auto& u : t) narrow |= u.x * dmax < o.min_step_size * (1 + 1e-6) + 1e-5 * xe * dmax;
    for (auto& u : t) for (auto& w : t) narrow |= &u != &w && std::fabs(u.x - w.x) * dmax < o.min_step_size * (1 + 1e-6) + 1e-5 * xe * dmax;
    if (!c.expect(narrow || s.num_iterations >= o.max_num_iterations, "wolfe:zero-step-unforced", "step size 0 after %d of %d iterations", s.num_iterations, o.max_num_iterations)) return;
    c.fail("wolfe:zero-step-success", "success with step size 0 when the search had to stop without an acceptable point");
    return;
  }
  const Trial* best = nullptr;
  for (auto& u : t)
    if (u.e->x.size() == p.vector_x.size() && u.e->x == p.vector_x) best = &u;
  if (!c.expect(p.vector_x_is_valid && best != nullptr, K + ":never-evaluated", "the returned point was never evaluated")) return;
  if (!c.expect(p.value_is_valid && best->ok && Bits(p.value, best->cost), K + ":value", "value %.17g, evaluated %.17g", p.value, best->cost)) return;
  if (!c.expect(std::fabs(p.x - best->x) <= Xtol(p.x), K + ":step", "step %.17g, point at %.17g", p.x, best->x)) return;
  if (!c.expect(p.value <= f0 + o.sufficient_decrease * dd * p.x + 1e-15 * std::fabs(f0), K + ":sufficient-decrease", "f(%.17g) = %.17g > %.17g", p.x, p.value, f0 + o.sufficient_decrease * dd * p.x)) return;
  if (p.vector_gradient_is_valid || wolfe) {
    if (!c.expect(best->e->grad && best->gok && p.gradient_is_valid && p.vector_gradient_is_valid && p.vector_gradient == best->e->g && Near(p.gradient, best->slope, 1e-13 * (d.cwiseAbs().dot(best->e->g.cwiseAbs()) + 1e-300)), K + ":gradient",
                  "gradient %.17g (valid %d/%d), evaluated %.17g", p.gradient, p.gradient_is_valid, p.vector_gradient_is_valid, best->slope)) return;
  }
  if (wolfe) {
    for (auto& u : t)
      if (u.gok && Armijo(u) && !c.expect(p.value <= u.cost + 1e-15 * std::fabs(f0) || s.error.empty() == false || std::fabs(p.gradient) <= -o.sufficient_curvature_decrease * dd, "wolfe:not-best", "f(%.17g) = %.17g returned, f(%.17g) = %.17g also acceptable", p.x, p.value, u.x, u.cost)) return;
    for (auto& u : t)
      if (u.gok && Armijo(u) && !c.expect(p.value <= u.cost + 1e-15 * std::fabs(f0), "wolfe:not-lowest", "f(%.17g) = %.17g returned, f(%.17g) = %.17g also acceptable", p.x, p.value, u.x, u.cost)) return;
    if (std::fabs(p.gradient) <= -o.sufficient_curvature_decrease * dd) {
      c.count("strong-wolfe-points");
    } else {
      bool narrow = false;
      for (size_t i = 0; i < t.size(); ++i) {
        if (t[i].x * dmax < o.min_step_size * (1 + 1e-6) + 1e-9 * xe * dmax) narrow = true;
        for (size_t k = 0; k < i; ++k) narrow |= std::fabs(t[i].x - t[k].x) * dmax < o.min_step_size * (1 + 1e-6) + 1e-5 * xe * dmax;
      }
      c.count("armijo-only-points");
      c.expect(narrow || s.num_iterations >= o.max_num_iterations, "wolfe:curvature", "slope %.17g at %.17g, initial %.17g, %d of %d iterations, error '%s'", p.gradient, p.x, dd, s.num_iterations, o.max_num_iterations, s.error.c_str());
    }
  }
}

// ------------------------------------------------------------------ directions
static void Directions(Case& c) {
  Rng& r = c.rng;
  const int n = r.range(1, 7), steps = r.range(1, 14);
  LineSearchDirection::Options o;
  o.num_parameters = n;
  o.type = r.of({STEEPEST_DESCENT, NONLINEAR_CONJUGATE_GRADIENT, LBFGS, LBFGS, BFGS, BFGS});
  o.nonlinear_conjugate_gradient_type = r.of({FLETCHER_REEVES, POLAK_RIBIERE, HESTENES_STIEFEL});
  o.max_lbfgs_rank = r.range(1, 6);
  o.use_approximate_eigenvalue_bfgs_scaling = r.chance(0.5);
  auto dir = LineSearchDirection::Create(o);
  if (!c.expect(dir != nullptr, "direction:create", "type %d", o.type)) return;
  // Curvature from a quadratic with some noise, or free gradients.
  Matrix A = Matrix::Zero(n, n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = r.normal();
  A = (A * A.transpose()).eval() + 0.1 * Matrix::Identity(n, n);
  const bool quadratic = r.chance(0.6);
  LineSearchMinimizer::State prev(n, n), cur(n, n);
  auto norms = [](LineSearchMinimizer::State& s) { s.gradient_squared_norm = s.gradient.squaredNorm(); s.gradient_max_norm = s.gradient.lpNorm<Eigen::Infinity>(); };
  Vector x(n);
  for (int i = 0; i < n; ++i) x(i) = r.uni(-2, 2);
  auto grad = [&](const Vector& x) {
    Vector g = A * x;
    if (!quadratic) for (int i = 0; i < n; ++i) g(i) += r.chance(0.5) ? 0 : r.normal();
    return g;
  };
  cur.gradient = grad(x);
  norms(cur);
  cur.search_direction = -cur.gradient;
  std::vector<std::pair<Vector, Vector>> pairs;
  c.note("type %d ncg %d n %d rank %d scaling %d steps %d quadratic %d", o.type, o.nonlinear_conjugate_gradient_type, n, o.max_lbfgs_rank, o.use_approximate_eigenvalue_bfgs_scaling, steps, quadratic);
  for (int k = 0; k < steps; ++k) {
    cur.step_size = r.chance(0.1) ? 0.0 : r.uni(0.01, 1.0);
    prev = cur;
    x += prev.step_size * prev.search_direction;
    if (r.chance(0.1)) x = Vector::Zero(n);
    if (quadratic || r.chance(0.9)) cur.gradient = grad(x);
    norms(cur);
    if (cur.gradient_max_norm < 1e-6 || !(cur.gradient_max_norm < 1e6)) return;
    const Vector s = prev.search_direction * prev.step_size, y = cur.gradient - prev.gradient;
    const double sy = s.dot(y);
    if (std::fabs(sy - 1e-14) < 1e-15 * s.norm() * y.norm() + 1e-16 && sy != 0) return;  // either decision is right
    const Vector before = cur.gradient;
    Vector out = cur.search_direction;
    for (int i = 0; i < n; ++i) out(i) = r.uni(-1, 1);
    const bool ok = dir->NextDirection(prev, cur, &out);
    c.count("directions");
    const LVec g = cur.gradient.cast<LD>(), pd = prev.search_direction.cast<LD>(), ly = cur.gradient.cast<LD>() - prev.gradient.cast<LD>();
    LVec want, wantd;
    double tol = 1e-12;
    bool check = true;
    if (o.type == STEEPEST_DESCENT) {
      want = -g;
      if (!c.expect(ok && out == -cur.gradient, "direction:steepest", "%s for gradient %s", Str(out).c_str(), Str(cur.gradient).c_str())) return;
    } else if (o.type == NONLINEAR_CONJUGATE_GRADIENT) {
      LD beta = 0;
      LD num, den;
      if (o.nonlinear_conjugate_gradient_type == FLETCHER_REEVES) num = g.squaredNorm(), den = prev.gradient.cast<LD>().squaredNorm();
      else if (o.nonlinear_conjugate_gradient_type == POLAK_RIBIERE) num = g.dot(ly), den = prev.gradient.cast<LD>().squaredNorm();
      else num = g.dot(ly), den = pd.dot(ly);
      beta = num / den;
      want = -g + beta * pd;
      const LD dd = want.dot(g);
      const bool undefined = !std::isfinite(static_cast<double>(beta));
      // Rounding of the gradient change limits what can be decided or compared.
      const LD cancel = o.nonlinear_conjugate_gradient_type == HESTENES_STIEFEL ? pd.norm() * ly.norm() / std::max<LD>(fabsl(den), 1e-300L) : 1;
      tol = 1e-13 * (1 + static_cast<double>(cancel)) * (1 + static_cast<double>(fabsl(beta)));
      if (undefined) tol = 0;
      const LD fuzz = undefined ? 0 : tol * (g.norm() * (g.norm() + fabsl(beta) * pd.norm()));
      if (undefined || dd > -o.function_tolerance + fuzz) { want = -g; c.count("restarts"); }
      else if (dd > -o.function_tolerance - fuzz) check = false;
      c.expect(ok, "direction:failed", "conjugate gradients reported failure");
      for (int i = 0; i < n && check; ++i)
        if (!c.expect(Near(out(i), static_cast<double>(want(i)), undefined ? 0 : tol * static_cast<double>(g.norm() + fabsl(beta) * pd.norm())), undefined ? "direction:undefined-beta" : "direction:conjugate-gradient", "step %d component %d: %.17g, formula %.17Lg (beta %.6Lg)", k, i, out(i), want(i), beta)) return;
    } else {
      if (sy > 1e-14) pairs.push_back({s, y});
      std::vector<std::pair<Vector, Vector>> use = pairs;
      if (o.type == LBFGS && static_cast<int>(use.size()) > o.max_lbfgs_rank) use.erase(use.begin(), use.end() - o.max_lbfgs_rank);
      auto Dense = [&](auto one) {
        using S = decltype(one);
        using M = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
        using V = Eigen::Matrix<S, Eigen::Dynamic, 1>;
        M H = M::Identity(n, n);
        if (!use.empty() && o.use_approximate_eigenvalue_bfgs_scaling) {
          auto& q = o.type == LBFGS ? use.back() : use.front();
          const V a = q.first.template cast<S>(), b = q.second.template cast<S>();
          H *= a.dot(b) / b.squaredNorm();
        }
        S hmax = H.norm();
        for (auto& q : use) {
          const V a = q.first.template cast<S>(), b = q.second.template cast<S>();
          const S rho = S(1) / a.dot(b);
          const M W = M::Identity(n, n) - rho * b * a.transpose();
          H = (W.transpose() * H * W + rho * a * a.transpose()).eval();
          hmax = std::max(hmax, S(H.norm()));
        }
        return std::make_pair(V(-(H * cur.gradient.template cast<S>())), static_cast<double>(hmax));
      };
      auto ld = Dense(LD(1));
      auto db = Dense(double(1));
      want = ld.first;
      const double diff = (ld.first - db.first.template cast<LD>()).norm();
      double amp = 1;
      for (auto& q : use) amp = std::max(amp, q.first.norm() * q.second.norm() / q.first.dot(q.second));
      tol = 100 * diff + 1e-13 * amp * amp * ld.second * cur.gradient.norm();
      if (!(tol < 1e-3 * ld.first.norm())) { c.count("ill-conditioned"); return; }
      for (int i = 0; i < n; ++i)
        if (!c.expect(Near(out(i), static_cast<double>(want(i)), tol), o.type == LBFGS ? "direction:lbfgs" : "direction:bfgs", "step %d component %d: %.17g, dense reference %.17Lg (%zu pairs)", k, i, out(i), want(i), use.size())) return;
      if (ok != (out.dot(cur.gradient) < 0)) { c.fail("direction:status", "returned %d, slope %.17g", ok, out.dot(cur.gradient)); return; }
      if (!c.expect(ok, "direction:not-descent", "quasi-Newton direction failed, slope %.17g", out.dot(cur.gradient))) return;
    }
    if (!c.expect(out.dot(cur.gradient) < 0, "direction:ascent", "slope %.17g", out.dot(cur.gradient))) return;
    if (!c.expect(cur.gradient == before, "direction:state-changed", "the gradient was changed")) return;
    cur.search_direction = out;
    const double nn = out.norm();
    if (nn > 10) cur.search_direction *= 10 / nn;  // keep the iterates in range; any direction is a valid history
  }
  c.sig(Fmt("dir %d %d %d %d %d", o.type, o.nonlinear_conjugate_gradient_type, n, std::min(o.max_lbfgs_rank, steps), o.use_approximate_eigenvalue_bfgs_scaling));
}

// ------------------------------------------------------------------ gradient problems
struct Fn : FirstOrderFunction {
  MockEvaluator* m;
  explicit Fn(MockEvaluator* m) : m(m) {}
  bool Evaluate(const double* x, double* cost, double* gradient) const override { return m->Evaluate(ci::Evaluator::EvaluateOptions(), x, cost, nullptr, gradient, nullptr); }
  int NumParameters() const override { return m->n; }
};
struct Watch : IterationCallback {
  std::vector<IterationSummary> seen;
  std::vector<double>* user = nullptr;
  std::vector<std::vector<double>> at;
  int stop_at = -1;
  CallbackReturnType how = SOLVER_CONTINUE;
  CallbackReturnType operator()(const IterationSummary& s) override {
    seen.push_back(s);
    at.push_back(*user);
    return static_cast<int>(seen.size()) - 1 == stop_at ? how : SOLVER_CONTINUE;
  }
};

static void GradientSolve(Case& c) {
  Rng& r = c.rng;
  MockEvaluator ev;
  std::unique_ptr<Manifold> man;
  int kind = r.range(0, 5);
  switch (kind) {
    case 1: ev.n = 3; man = std::make_unique<SphereManifold<3>>(); break;
    case 2: ev.n = 4; man = std::make_unique<QuaternionManifold>(); break;
    case 3: ev.n = r.range(2, 5); man = std::make_unique<SubsetManifold>(ev.n, std::vector<int>{r.range(0, ev.n - 1)}); break;
    case 4: ev.n = 6; man = std::make_unique<ProductManifold<SphereManifold<3>, EuclideanManifold<3>>>(); break;
    default: ev.n = r.range(1, 6); kind = 0;
  }
  const bool convex = kind == 0 && r.chance(0.5);
  ev.f.Init(r, {ev.n}, r.range(ev.n, ev.n + 4));
  ev.quad = convex ? r.uni(0.5, 2) : r.uni(0.05, 1);
  ev.dir.assign(ev.n, 0);
  if (convex) for (auto& row : ev.f.rows) row.s = row.q = 0;
  std::vector<double> x(ev.n);
  for (double& v : x) v = r.uni(-2, 2);
  if (man) {  // the starting point lies on the manifold
    double nn = 0;
    if (kind == 1 || kind == 4) { for (int i = 0; i < 3; ++i) nn += x[i] * x[i]; for (int i = 0; i < 3; ++i) x[i] /= std::sqrt(nn); }
    if (kind == 2) { for (double v : x) nn += v * v; for (double& v : x) v /= std::sqrt(nn); }
  }
  Manifold* mp = man.get();
  auto fn = std::make_unique<Fn>(&ev);
  GradientProblem prob = man ? GradientProblem(std::move(fn), std::move(man)) : GradientProblem(std::move(fn));
  const int nt = mp ? mp->TangentSize() : ev.n;
  if (!c.expect(prob.NumParameters() == ev.n && prob.NumTangentParameters() == nt, "problem:sizes", "%d %d", prob.NumParameters(), prob.NumTangentParameters())) return;
  {  // Evaluate and Plus of the problem itself
    double cost, cost2, tc;
    Vector g(nt), tg, want;
    ev.True(x.data(), &tc, &tg);
    const bool e1 = prob.Evaluate(x.data(), &cost, g.data()), e2 = prob.Evaluate(x.data(), &cost2, nullptr);
    if (mp) { Matrix J(ev.n, nt); mp->PlusJacobian(x.data(), J.data()); want = J.transpose() * tg; } else want = tg;
    if (!c.expect(e1 && e2 && Bits(cost, tc) && Bits(cost2, tc) && (g - want).norm() <= 1e-12 * (1 + tg.norm()), "problem:evaluate", "cost %.17g %.17g true %.17g gradient %s true %s", cost, cost2, tc, Str(g).c_str(), Str(want).c_str())) return;
  }
  ev.log.clear();
  GradientProblemSolver::Options o;
  o.logging_type = SILENT;
  o.line_search_direction_type = r.of({STEEPEST_DESCENT, NONLINEAR_CONJUGATE_GRADIENT, LBFGS, BFGS});
  o.nonlinear_conjugate_gradient_type = r.of({FLETCHER_REEVES, POLAK_RIBIERE, HESTENES_STIEFEL});
  o.line_search_type = (o.line_search_direction_type == LBFGS || o.line_search_direction_type == BFGS) || r.chance(0.5) ? WOLFE : ARMIJO;
  o.line_search_interpolation_type = o.line_search_type == ARMIJO || r.chance(0.8) ? r.of({BISECTION, QUADRATIC, CUBIC}) : CUBIC;
  o.max_lbfgs_rank = r.range(1, 10);
  o.use_approximate_eigenvalue_bfgs_scaling = r.chance(0.3);
  o.max_num_iterations = r.chance(0.2) ? r.range(0, 5) : r.range(20, 300);
  o.gradient_tolerance = r.chance(0.5) ? 1e-8 : std::pow(10.0, r.uni(-12, -2));
  o.function_tolerance = r.chance(0.5) ? 0 : std::pow(10.0, r.uni(-16, -4));
  o.parameter_tolerance = r.chance(0.5) ? 0 : std::pow(10.0, r.uni(-16, -6));
  if (r.chance(0.3)) o.max_num_line_search_step_size_iterations = r.range(1, 30);
  if (r.chance(0.3)) o.line_search_sufficient_curvature_decrease = r.uni(0.1, 0.95);
  std::string bad;
  if (!o.IsValid(&bad)) { c.count("invalid-options"); return; }
  const bool faulty = !convex && r.chance(0.25);
  if (faulty) {
    ev.dir.assign(ev.n, 0);
    ev.dir[r.range(0, ev.n - 1)] = r.sign();
    double v = 0;
    for (int i = 0; i < ev.n; ++i) v += ev.dir[i] * x[i];
    ev.regions.push_back({v + r.uni(0.05, 1), 1e300, r.of({1, 2, 3})});
  } else {
    ev.dir.assign(ev.n, 0);
  }
  o.update_state_every_iteration = r.chance(0.3);
  Watch w;
  w.user = &x;
  const bool stopping = r.chance(0.2);
  if (stopping) { w.stop_at = r.range(0, 4); w.how = r.of({SOLVER_ABORT, SOLVER_TERMINATE_SUCCESSFULLY}); }
  o.callbacks.push_back(&w);
  const std::vector<double> start = x;
  double c0;
  Vector g0;
  ev.True(x.data(), &c0, &g0);
  GradientProblemSolver::Summary s;
  c.note("gradient problem kind %d n %d convex %d direction %d ncg %d search %d interpolation %d tolerances g %.3g f %.3g p %.3g iterations %d faulty %d update %d stop %d", kind, ev.n, convex, o.line_search_direction_type, o.nonlinear_conjugate_gradient_type, o.line_search_type,
         o.line_search_interpolation_type, o.gradient_tolerance, o.function_tolerance, o.parameter_tolerance, o.max_num_iterations, faulty, o.update_state_every_iteration, w.stop_at);
  ceres::Solve(o, prob, x.data(), &s);
  c.count("gradient-solves");
  c.count("solver-evaluations", ev.log.size());
  c.sig(Fmt("gp %d d%d n%d s%d i%d t%d f%d", kind, o.line_search_direction_type, o.line_search_direction_type == NONLINEAR_CONJUGATE_GRADIENT ? o.nonlinear_conjugate_gradient_type : 0, o.line_search_type, o.line_search_interpolation_type, s.termination_type, faulty));
  c.note("-> %s: %s", TerminationTypeToString(s.termination_type), s.message.c_str());
  int nc = 0, ngr = 0;
  for (auto& e : ev.log) (e.grad ? ngr : nc)++;
  if (!c.expect(s.num_cost_evaluations == nc && s.num_gradient_evaluations == ngr, "solve:counters", "reported %d/%d, made %d/%d", s.num_cost_evaluations, s.num_gradient_evaluations, nc, ngr)) return;
  if (!c.expect(s.num_parameters == ev.n && s.num_tangent_parameters == nt && s.line_search_type == o.line_search_type && s.line_search_direction_type == o.line_search_direction_type && s.line_search_interpolation_type == o.line_search_interpolation_type && s.max_lbfgs_rank == o.max_lbfgs_rank, "solve:echo", "sizes or options in the summary are wrong")) return;
  if (!c.expect(Bits(s.initial_cost, c0), "solve:initial-cost", "%.17g, is %.17g", s.initial_cost, c0)) return;
  const bool usable = s.termination_type != FAILURE && s.termination_type != USER_FAILURE;
  c.expect(usable == s.IsSolutionUsable(), "solve:usable", "type %d", s.termination_type);
  double cf;
  Vector gf;
  ev.True(x.data(), &cf, &gf);
  if (usable) {
    if (!c.expect(Bits(s.final_cost, s.iterations.empty() ? s.initial_cost : s.final_cost) && Near(s.final_cost, cf, 1e-15 * (1 + std::fabs(cf))), "solve:final-cost", "reported %.17g, cost at the returned point %.17g", s.final_cost, cf)) return;
    if (!c.expect(cf <= c0, "solve:worse", "%.17g > %.17g", cf, c0)) return;
  } else if (!o.update_state_every_iteration) {
    if (!c.expect(x == start, "solve:failed-but-changed", "%s: parameters changed", s.message.c_str())) return;
  }
  if (!c.expect(cf <= c0, "solve:worse", "%.17g > %.17g", cf, c0)) return;
  if (mp) {
    double nn = 0;
    if (kind == 1 || kind == 4) { for (int i = 0; i < 3; ++i) nn += x[i] * x[i]; c.expect(std::fabs(nn - 1) < 1e-9, "solve:off-manifold", "norm^2 %.17g", nn); }
    if (kind == 2) { for (double v : x) nn += v * v; c.expect(std::fabs(nn - 1) < 1e-9, "solve:off-manifold", "norm^2 %.17g", nn); }
    if (kind == 3) { int same = 0; for (int i = 0; i < ev.n; ++i) same += x[i] == start[i]; c.expect(same >= 1, "solve:held-coordinate", "the held coordinate moved"); }
  }
  // Iteration records
  for (size_t i = 0; i < s.iterations.size(); ++i) {
    const auto& it = s.iterations[i];
    if (!c.expect(it.iteration == static_cast<int>(i), "iterations:number", "%zu: %d", i, it.iteration)) return;
    if (i == 0) {
      if (!c.expect(Bits(it.cost, c0), "iterations:first-cost", "%.17g", it.cost)) return;
      continue;
    }
    const auto& q = s.iterations[i - 1];
    if (!c.expect(it.cost <= q.cost, "iterations:cost-increased", "iteration %zu: %.17g after %.17g", i, it.cost, q.cost)) return;
    if (!c.expect(it.cost_change == q.cost - it.cost, "iterations:cost-change", "iteration %zu: %.17g, costs %.17g %.17g", i, it.cost_change, q.cost, it.cost)) return;
    if (!c.expect(it.step_size >= 0 && it.line_search_function_evaluations >= it.line_search_gradient_evaluations && it.line_search_function_evaluations >= 1 && it.step_is_successful && it.step_is_valid, "iterations:fields", "iteration %zu", i)) return;
    // The cost must be that of an evaluated point.
    bool found = false;
    for (auto& e : ev.log) found |= e.ok && Bits(e.cost, it.cost);
    if (!c.expect(found, "iterations:invented-cost", "no evaluation gave %.17g", it.cost)) return;
  }
  if (!s.iterations.empty() && !c.expect(static_cast<int>(s.iterations.size()) - 1 <= o.max_num_iterations, "iterations:limit", "%zu", s.iterations.size())) return;
  if (!c.expect(w.seen.size() <= s.iterations.size(), "callbacks:count", "%zu calls, %zu iterations", w.seen.size(), s.iterations.size())) return;
  for (size_t i = 0; i < w.seen.size(); ++i) {
    if (!c.expect(w.seen[i].iteration == s.iterations[i].iteration && Bits(w.seen[i].cost, s.iterations[i].cost), "callbacks:record", "call %zu", i)) return;
    if (!o.update_state_every_iteration) {
      if (!c.expect(w.at[i] == start, "callbacks:state", "parameters changed during the solve")) return;
    } else {
      double cc; Vector gg;
      ev.True(w.at[i].data(), &cc, &gg);
      if (!c.expect(Near(cc, w.seen[i].cost, 1e-14 * (1 + std::fabs(cc))), "callbacks:state-cost", "call %zu: cost %.17g, state has %.17g", i, w.seen[i].cost, cc)) return;
    }
  }
  const bool stopped = stopping && static_cast<int>(w.seen.size()) == w.stop_at + 1 && !w.seen.empty();
  if (stopped) c.expect(s.termination_type == (w.how == SOLVER_ABORT ? USER_FAILURE : USER_SUCCESS), "callbacks:type", "%s", TerminationTypeToString(s.termination_type));
  else c.expect(s.termination_type == CONVERGENCE || s.termination_type == NO_CONVERGENCE || s.termination_type == FAILURE, "callbacks:type", "%s", TerminationTypeToString(s.termination_type));
  // Projected gradient at the returned point
  double pg = 0;
  {
    Vector g(nt), y(ev.n);
    Vector full = gf;
    if (mp) { Matrix J(ev.n, nt); mp->PlusJacobian(x.data(), J.data()); g = J.transpose() * full; } else g = full;
    Vector neg = -g;
    prob.Plus(x.data(), neg.data(), y.data());
    pg = (y - ConstVectorRef(x.data(), ev.n)).lpNorm<Eigen::Infinity>();
  }
  if (usable && !s.iterations.empty()) {
    if (!c.expect(Near(s.iterations.back().gradient_max_norm, pg, 1e-12 * (1 + gf.norm()) + 1e-9 * pg), "iterations:gradient", "last record %.17g, at the point %.17g", s.iterations.back().gradient_max_norm, pg)) return;
  }
  if (s.termination_type == CONVERGENCE) {
    c.count("converged");
    const bool byg = s.message.find("Gradient tolerance") != std::string::npos, byf = s.message.find("Function tolerance") != std::string::npos, byp = s.message.find("Parameter tolerance") != std::string::npos;
    if (!c.expect(byg + byf + byp == 1, "convergence:reason", "%s", s.message.c_str())) return;
    if (byg) c.expect(pg <= o.gradient_tolerance + 1e-13 * (1 + gf.norm()), "convergence:gradient", "%.17g > %.17g", pg, o.gradient_tolerance);
    if (byf) c.expect(std::fabs(s.iterations.back().cost_change) <= o.function_tolerance * std::fabs(s.iterations[s.iterations.size() - 2].cost), "convergence:function", "%.17g", s.iterations.back().cost_change);
    if (byp) c.expect(s.iterations.back().step_norm <= o.parameter_tolerance * 100, "convergence:parameter", "%.17g", s.iterations.back().step_norm);
  }
  if (s.termination_type == NO_CONVERGENCE) c.expect(static_cast<int>(s.iterations.size()) - 1 == o.max_num_iterations, "no-convergence:reason", "%s after %zu iterations of %d", s.message.c_str(), s.iterations.size() - 1, o.max_num_iterations);
  // On a well conditioned convex problem the solver has to get there.
  if (convex && !stopped && o.max_num_iterations >= 100 && o.max_num_line_search_step_size_iterations >= 20 && o.line_search_interpolation_type != BISECTION && o.line_search_direction_type != STEEPEST_DESCENT &&
      (o.line_search_direction_type != NONLINEAR_CONJUGATE_GRADIENT || (o.line_search_type == WOLFE && o.nonlinear_conjugate_gradient_type != HESTENES_STIEFEL && o.function_tolerance == 0 && o.parameter_tolerance == 0))) {
    // Conjugate gradients may crawl, so only the tolerance on the gradient may stop them here.
    double best = pg;
    for (auto& it : s.iterations) best = std::min(best, it.gradient_max_norm);
    const double need = std::max({o.gradient_tolerance, s.iterations.empty() ? 0.0 : (o.line_search_direction_type == NONLINEAR_CONJUGATE_GRADIENT ? 1e-3 : 1e-5) * s.iterations[0].gradient_max_norm, std::sqrt(o.function_tolerance * c0) * 30, o.parameter_tolerance * 1e3});
    c.count("convex-solves");
    c.expect(best <= need + 1e-6, "convex:not-solved", "gradient %.3g after %zu iterations, needed %.3g", best, s.iterations.size(), need);
  }
}

VH_MAIN({"polynomial", Polynomials, 6000}, {"search", Search, 6000}, {"direction", Directions, 3000}, {"gradient", GradientSolve, 2000})
