// C05: loss functions and robustification.
#include <functional>
#include <memory>

#include "Eigen/Dense"
#include "ceres/corrector.h"
#include "ceres/loss_function.h"
#include "ceres/problem.h"
#include "smooth_cost.h"

using vh::Case;
using vh::Fmt;
using LD = long double;

// A user loss with growing slope, so that the second order correction is active.
struct Grow final : ceres::LossFunction {
  double k;
  int* dead;
  explicit Grow(double k, int* dead = nullptr) : k(k), dead(dead) {}
  ~Grow() override { if (dead) ++*dead; }
  void Evaluate(double s, double out[3]) const override { out[0] = s + s * s / (2 * k); out[1] = 1 + s / k; out[2] = 1 / k; }
};
// Counts its destruction, forwards to a shipped loss.
struct Counted final : ceres::LossFunction {
  const ceres::LossFunction* f;
  int* dead;
  Counted(const ceres::LossFunction* f, int* dead) : f(f), dead(dead) {}
  ~Counted() override { ++*dead; delete f; }
  void Evaluate(double s, double out[3]) const override { f->Evaluate(s, out); }
};

// err scales the rounding of v; e1 and e2 bound what rounding inside a composition may
// do to the derivatives.
struct Val { LD v, d1, d2; bool edge; LD err; LD e1 = 0, e2 = 0; };
struct Node {
  std::unique_ptr<ceres::LossFunction> loss;
  std::function<Val(LD)> ref;
  std::string name;
  bool zero_at_zero = true;
};

static Node Leaf(Case& c, int kind) {
  Node n;
  const double a = c.rng.chance(0.2) ? c.rng.of({1.0, 0.1, 10.0}) : std::pow(10, c.rng.uni(-1.5, 1.5));
  switch (kind) {
    case 0:
      n.loss.reset(new ceres::TrivialLoss);
      n.ref = [](LD s) { return Val{s, 1, 0, false, 0}; };
      n.name = "trivial";
      break;
    case 1:
      n.loss.reset(new ceres::HuberLoss(a));
      n.ref = [a](LD s) {
        const LD b = (LD)a * a;
        const bool e = fabsl(s - b) < 1e-9L * b;
        if (s <= b) return Val{s, 1, 0, e, s};
        const LD r = sqrtl(s);
        return Val{2 * a * r - b, a / r, -a / (2 * s * r), e, 2 * a * r};
      };
      n.name = Fmt("huber(%g)", a);
      break;
    case 2:
      n.loss.reset(new ceres::SoftLOneLoss(a));
      n.ref = [a](LD s) {
        const LD b = (LD)a * a, t = sqrtl(1 + s / b);
        return Val{2 * b * (t - 1), 1 / t, -1 / (2 * b * t * t * t), false, b * t};
      };
      n.name = Fmt("softl1(%g)", a);
      break;
    case 3:
      n.loss.reset(new ceres::CauchyLoss(a));
      n.ref = [a](LD s) {
        const LD b = (LD)a * a, u = 1 + s / b;
        return Val{b * logl(u), 1 / u, -1 / (b * u * u), false, b * (1 + logl(u))};
      };
      n.name = Fmt("cauchy(%g)", a);
      break;
    case 4:
      n.loss.reset(new ceres::ArctanLoss(a));
      n.ref = [a](LD s) {
        const LD u = 1 + s * s / ((LD)a * a);
        return Val{a * atan2l(s, a), 1 / u, -2 * s / ((LD)a * a * u * u), false, a};
      };
      n.name = Fmt("arctan(%g)", a);
      break;
    case 5: {
      const double b = std::pow(10, c.rng.uni(-1, 1)), A = c.rng.chance(0.2) ? 0.0 : a;
      n.loss.reset(new ceres::TolerantLoss(A, b));
      n.ref = [A, b](LD s) {
        auto sp = [](LD x) { return x > 60 ? x : log1pl(expl(x)); };
        const LD x = (s - A) / b, e = x > 60 ? 1 : expl(x) / (1 + expl(x)), x0 = -(LD)A / b;
        const LD c2 = x > 60 ? 0 : expl(x) / ((1 + expl(x)) * (1 + expl(x))) / b;
        return Val{b * (sp(x) - sp(x0)), e, c2, fabsl(x - 36.7L) < 1e-6L, b + A + s};
      };
      n.name = Fmt("tolerant(%g,%g)", A, b);
      break;
    }
    case 6:
      n.loss.reset(new ceres::TukeyLoss(a));
      n.ref = [a](LD s) {
        const LD b = (LD)a * a, v = 1 - s / b;
        const bool e = fabsl(v) < 1e-9L;
        if (s > b) return Val{b / 3, 0, 0, e, b};
        return Val{b / 3 * (1 - v * v * v), v * v, -2 / b * v, e, b};
      };
      n.name = Fmt("tukey(%g)", a);
      break;
    default: {
      const double k = a + 0.1;
      n.loss.reset(new Grow(k));
      n.ref = [k](LD s) { return Val{s + s * s / (2 * (LD)k), 1 + s / k, 1 / (LD)k, false, s + s * s / k}; };
      n.name = Fmt("grow(%g)", k);
    }
  }
  return n;
}

struct Tracker {
  std::vector<std::unique_ptr<int>> dead;
  std::vector<int> expect;  // 1: destroyed with the root, 0: ours to destroy
  std::vector<std::unique_ptr<ceres::LossFunction>> kept;
};

static Node Tree(Case& c, Tracker& t, int depth) {
  const int kind = depth == 0 ? c.rng.range(0, 7) : c.rng.range(0, 10);
  if (kind <= 7) return Leaf(c, kind);
  auto sub = [&](ceres::Ownership* own, Node* out) -> const ceres::LossFunction* {
    *out = Tree(c, t, depth - 1);
    t.dead.emplace_back(new int(0));
    auto* counted = new Counted(out->loss.release(), t.dead.back().get());
    const bool take = c.rng.chance(0.6);
    *own = take ? ceres::TAKE_OWNERSHIP : ceres::DO_NOT_TAKE_OWNERSHIP;
    t.expect.push_back(take);
    if (!take) t.kept.emplace_back(counted);
    return counted;
  };
  Node n;
  if (kind == 8) {
    Node f, g;
    ceres::Ownership of, og;
    auto* pf = sub(&of, &f);
    auto* pg = sub(&og, &g);
    n.loss.reset(new ceres::ComposedLoss(pf, of, pg, og));
    auto rf = f.ref, rg = g.ref;
    n.ref = [rf, rg](LD s) {
      Val a = rg(s);
      Val b = rf(a.v);
      Val r{b.v, b.d1 * a.d1, b.d2 * a.d1 * a.d1 + b.d1 * a.d2, a.edge || b.edge, b.err + b.d1 * a.err + a.err};
      LD d1e = b.e1, d2e = b.e2;
      for (LD k : {-4e-15L, 4e-15L}) {
        const LD at = a.v + k * (a.err + fabsl(a.v));
        if (at < 0) continue;
        const Val p = rf(at);
        d1e = std::max(d1e, b.e1 + fabsl(p.d1 - b.d1));
        d2e = std::max(d2e, b.e2 + fabsl(p.d2 - b.d2));
        r.edge |= p.edge;
      }
      r.e1 = d1e * a.d1 + b.d1 * a.e1;
      r.e2 = d2e * a.d1 * a.d1 + fabsl(b.d2) * 2 * a.d1 * a.e1 + d1e * fabsl(a.d2) + b.d1 * a.e2 + 1e-15L * (fabsl(b.d2) * a.d1 * a.d1 + fabsl(b.d1 * a.d2));
      return r;
    };
    n.name = f.name + "o" + g.name;
  } else if (kind == 9) {
    const double a = c.rng.uni(0.1, 5);
    if (c.rng.chance(0.2)) {
      n.loss.reset(new ceres::ScaledLoss(nullptr, a, ceres::TAKE_OWNERSHIP));
      n.ref = [a](LD s) { return Val{a * s, a, 0, false, a * s}; };
      n.name = Fmt("%g*null", a);
    } else {
      Node f;
      ceres::Ownership of;
      auto* pf = sub(&of, &f);
      n.loss.reset(new ceres::ScaledLoss(pf, a, of));
      auto rf = f.ref;
      n.ref = [rf, a](LD s) { Val v = rf(s); return Val{a * v.v, a * v.d1, a * v.d2, v.edge, a * v.err, a * v.e1, a * v.e2}; };
      n.name = Fmt("%g*", a) + f.name;
    }
  } else {
    Node f;
    ceres::Ownership of;
    auto* pf = sub(&of, &f);
    auto* w = new ceres::LossFunctionWrapper(const_cast<ceres::LossFunction*>(pf), of);
    n.loss.reset(w);
    n.ref = f.ref;
    n.name = "wrap(" + f.name + ")";
    if (c.rng.chance(0.5)) {
      const size_t mine = t.expect.size() - 1;  // unreliable below nesting; use the last created
      (void)mine;
      Node g;
      ceres::Ownership og;
      auto* pg = sub(&og, &g);
      w->Reset(const_cast<ceres::LossFunction*>(pg), og);
      n.ref = g.ref;
      n.name = "rewrap(" + g.name + ")";
    }
  }
  return n;
}

static bool CheckAt(Case& c, const Node& n, double s, const std::string& key) {
  double rho[3] = {NAN, NAN, NAN};
  n.loss->Evaluate(s, rho);
  const Val v = n.ref(s);
  c.count("evaluate");
  bool ok = c.expect(fabsl(rho[0] - v.v) <= 1e-12L * (fabsl(v.v) + v.err) + 1e-300L, key + ":value", "%s(%.17g) = %.17g, reference %.17Lg", n.name.c_str(), s, rho[0], v.v);
  ok &= c.expect(fabsl(rho[1] - v.d1) <= 1e-9L * (fabsl(v.d1)) + 1e-14L + 2 * v.e1, key + ":first-derivative", "%s(%.17g): %.17g, reference %.17Lg", n.name.c_str(), s, rho[1], v.d1);
  if (!v.edge)
    ok &= c.expect(fabsl(rho[2] - v.d2) <= 1e-8L * fabsl(v.d2) + 1e-12L * (1 + v.d1 * v.d1) + 2 * v.e2, key + ":second-derivative", "%s(%.17g): %.17g, reference %.17Lg", n.name.c_str(), s, rho[2], v.d2);
  ok &= c.expect(rho[1] >= 0, key + ":decreasing", "%s(%.17g) has derivative %g", n.name.c_str(), s, rho[1]);
  return ok;
}

static void FamLoss(Case& c) {
  Tracker t;
  {
    Node n = Tree(c, t, c.index % 3 == 0 ? 0 : c.rng.range(1, 4));
    std::string shape = n.name.substr(0, 60);
    for (char& ch : shape) if (isdigit(ch) || ch == '.' || ch == '-') ch = '#';
    c.note("%s", n.name.c_str());
    c.sig(shape);
    std::vector<double> ss{0.0};
    for (int i = 0; i < 12; ++i) ss.push_back(std::pow(10, c.rng.uni(-8, 6)));
    for (int i = 0; i < 6; ++i) ss.push_back(c.rng.uni(0, 5));
    for (double s : ss) if (!CheckAt(c, n, s, "loss")) break;
    double at0[3];
    n.loss->Evaluate(0.0, at0);
    c.expect(std::fabs(at0[0]) <= 1e-12 * (1 + (double)n.ref(0).err), "loss:nonzero-at-zero", "%s(0) = %g", n.name.c_str(), at0[0]);
    // monotone over a sorted sweep
    std::sort(ss.begin(), ss.end());
    double prev = -1;
    for (double s : ss) {
      double rho[3];
      n.loss->Evaluate(s, rho);
      c.expect(rho[0] >= prev - 1e-12 * (std::fabs(prev) + (double)n.ref(s).err), "loss:not-monotone", "%s(%g)=%.17g after %.17g", n.name.c_str(), s, rho[0], prev);
      prev = rho[0];
    }
    // boundary points of the leaves are approached from both sides in 'edges'
    for (size_t i = 0; i < t.dead.size(); ++i) (void)i;
  }
  // whatever was owned is gone exactly once; what was not is still there
  size_t kept = t.kept.size();
  t.kept.clear();
  for (size_t i = 0; i < t.dead.size(); ++i) c.expect(*t.dead[i] == 1, "loss:ownership", "a wrapped loss was destroyed %d times", *t.dead[i]);
  c.count("ownership", t.dead.size());
  (void)kept;
}

// Owned sub-losses die with their owner, others survive it.
static void FamOwnership(Case& c) {
  const bool a = c.index & 1, b = c.index & 2;
  int d1 = 0, d2 = 0, d3 = 0, d4 = 0;
  auto own = [](bool t) { return t ? ceres::TAKE_OWNERSHIP : ceres::DO_NOT_TAKE_OWNERSHIP; };
  auto* l1 = new Grow(1, &d1);
  auto* l2 = new Grow(2, &d2);
  { ceres::ComposedLoss l(l1, own(a), l2, own(b)); }
  c.expect(d1 == a && d2 == b, "loss:ownership:composed", "owned %d %d destroyed %d %d", a, b, d1, d2);
  auto* l3 = new Grow(3, &d3);
  { ceres::ScaledLoss l(l3, 2, own(a)); }
  c.expect(d3 == a, "loss:ownership:scaled", "owned %d destroyed %d", a, d3);
  auto* l4 = new Grow(4, &d4);
  int d5 = 0;
  auto* l5 = new Grow(5, &d5);
  {
    ceres::LossFunctionWrapper w(l4, own(a));
    double r[3];
    w.Evaluate(2, r);
    c.expect(r[0] == 2 + 4 / 8.0, "loss:wrapper", "%g", r[0]);
    w.Reset(l5, own(b));
    c.expect(d4 == a && d5 == 0, "loss:ownership:wrapper-reset", "owned %d destroyed %d, new one destroyed %d", a, d4, d5);
    w.Evaluate(2, r);
    c.expect(r[0] == 2 + 4 / 10.0, "loss:wrapper", "%g after reset", r[0]);
    if (c.index & 4) {
      w.Reset(nullptr, ceres::TAKE_OWNERSHIP);
      w.Evaluate(2, r);
      c.expect(r[0] == 2 && r[1] == 1 && r[2] == 0, "loss:wrapper:null", "%g %g %g", r[0], r[1], r[2]);
    }
  }
  c.expect(d5 == b, "loss:ownership:wrapper", "owned %d destroyed %d", b, d5);
  if (!d1) delete l1;
  if (!d2) delete l2;
  if (!d3) delete l3;
  if (!d4) delete l4;
  if (!d5) delete l5;
  c.count("ownership", 5);
  c.sig(Fmt("own%d", (int)(c.index & 7)));
}

// Extremes: huge and boundary arguments.
static void FamEdges(Case& c) {
  for (int kind = 0; kind <= 6; ++kind) {
    Node n = Leaf(c, kind);
    for (double s : {1e12, 1e50, 1e150, 1e280, 0.0, 1e-300, 1e-20}) {
      double rho[3] = {NAN, NAN, NAN};
      n.loss->Evaluate(s, rho);
      c.count("evaluate");
      c.expect(std::isfinite(rho[0]) && std::isfinite(rho[1]) && std::isfinite(rho[2]) && rho[0] >= 0, "loss:extreme:not-finite", "%s(%g) = %g %g %g", n.name.c_str(), s, rho[0], rho[1], rho[2]);
      if (kind != 6) c.expect(rho[1] > 0, "loss:extreme:zero-slope", "%s(%g) has slope %g", n.name.c_str(), s, rho[1]);
      c.expect(rho[0] <= s * (1 + 1e-12) || kind > 6, "loss:extreme:above-identity", "%s(%g) = %g", n.name.c_str(), s, rho[0]);
    }
    // continuity of value and slope across branch points
    if (kind == 1 || kind == 6 || kind == 5) {
      double lo = 0, hi = 1e6;
      // values on a fine geometric grid must not jump
      (void)lo; (void)hi;
      double prev[3];
      n.loss->Evaluate(1e-4, prev);
      double ps = 1e-4;
      for (double s = 1e-4 * 1.002; s < 1e4; s *= 1.002) {
        double rho[3];
        n.loss->Evaluate(s, rho);
        const double bound = std::max(prev[1], rho[1]) * (s - ps) * 1.0001 + 1e-10 * (1 + s);
        if (!c.expect(rho[0] - prev[0] <= bound && rho[0] >= prev[0] - 1e-10 * (1 + s), "loss:jump", "%s from %g at %g to %g at %g", n.name.c_str(), prev[0], ps, rho[0], s)) break;
        std::memcpy(prev, rho, sizeof rho);
        ps = s;
      }
    }
    c.sig(Fmt("edge %d", kind));
  }
  c.note("extreme arguments");
}

// Robustified residuals and Jacobians.
static void Robust(Case& c, const std::string& key, const Eigen::VectorXd& r, const Eigen::MatrixXd& J, const Eigen::VectorXd& rt, const Eigen::MatrixXd& Jt, const double rho[3]) {
  const double s = r.squaredNorm();
  const Eigen::VectorXd g = Jt.transpose() * rt, gw = rho[1] * J.transpose() * r;
  const double gs = rho[1] * J.norm() * r.norm() + 1e-300;
  c.expect((g - gw).norm() <= 1e-11 * gs * (1 + std::sqrt(std::fabs(s * rho[2] / std::max(rho[1], 1e-300)))), key + ":gradient", "gradient %s, want %s", vh::Str(g).c_str(), vh::Str(gw).c_str());
  Eigen::MatrixXd H = Jt.transpose() * Jt, W = rho[1] * J.transpose() * J;
  double ws = W.norm();
  if (rho[2] > 0 && s > 0) {
    const Eigen::MatrixXd E = 2 * rho[2] * (J.transpose() * r) * (J.transpose() * r).transpose();
    W += E;
    ws += E.norm() + rho[1] * J.squaredNorm();
  }
  c.expect((H - W).norm() <= 1e-10 * (ws + 1e-300), key + ":gauss-newton", "difference %g of %g", (H - W).norm(), ws);
  if (rho[2] <= 0 || s == 0)
    c.expect((rt - std::sqrt(rho[1]) * r).norm() <= 1e-12 * (1 + r.norm() * std::sqrt(rho[1])), key + ":residual-scale", "%s", vh::Str(rt).c_str());
}
static void FamCorrector(Case& c) {
  const int n = c.rng.range(1, 7), m = c.rng.range(1, 6);
  Eigen::VectorXd r = Eigen::VectorXd::NullaryExpr(n, [&] { return c.rng.any(); });
  if (c.rng.chance(0.1)) r.setZero();
  Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> J = Eigen::MatrixXd::NullaryExpr(n, m, [&] { return c.rng.any(); });
  double rho[3] = {c.rng.uni(0, 5), c.rng.chance(0.1) ? 1e-8 : c.rng.uni(0.01, 3), c.rng.chance(0.2) ? 0.0 : c.rng.uni(-1, 1)};
  if (rho[2] <= 0 && c.rng.chance(0.1)) rho[1] = 0;
  c.note("corrector n=%d m=%d rho' %g rho'' %g", n, m, rho[1], rho[2]);
  c.sig(Fmt("corr %d %d %d %d", n, m, rho[2] > 0, r.norm() > 0));
  vh::Blocks rb(std::vector<int>{n}), jb(std::vector<int>{n * m});
  std::copy_n(r.data(), n, rb.ptr[0]);
  std::copy_n(J.data(), n * m, jb.ptr[0]);
  ceres::internal::Corrector corr(r.squaredNorm(), rho);
  corr.CorrectJacobian(n, m, rb.ptr[0], jb.ptr[0]);
  for (int i = 0; i < n; ++i) c.expect(rb.ptr[0][i] == r[i], "corrector:residual-changed-early", "CorrectJacobian changed the residuals");
  corr.CorrectResiduals(n, rb.ptr[0]);
  c.count("corrector");
  Robust(c, "corrector", r, J, Eigen::Map<Eigen::VectorXd>(rb.ptr[0], n), Eigen::Map<decltype(J)>(jb.ptr[0], n, m), rho);
}

// The same, end to end, for one residual block.
static void FamBlock(Case& c) {
  std::vector<int> blocks(c.rng.range(1, 3));
  for (int& b : blocks) b = c.rng.range(1, 4);
  vh::Smooth s;
  s.Init(c.rng, blocks, c.rng.range(1, 5));
  Tracker t;
  Node n = Tree(c, t, c.rng.range(0, 2));
  ceres::LossFunction* loss = n.loss.release();
  ceres::Problem problem;
  vh::Blocks x(blocks);
  for (size_t b = 0; b < blocks.size(); ++b)
    for (int i = 0; i < blocks[b]; ++i) x.ptr[b][i] = c.rng.uni(-2, 2);
  auto* cost = new vh::SmoothCost(s);
  auto id = problem.AddResidualBlock(cost, loss, x.ptr);
  std::vector<double> f, Jf;
  s.Jac(x.Flat(), &Jf, &f);
  Eigen::VectorXd r = Eigen::Map<Eigen::VectorXd>(f.data(), s.m);
  Eigen::MatrixXd J = Eigen::Map<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>>(Jf.data(), s.m, s.n);
  const Val v = n.ref(r.squaredNorm());
  if (v.edge) return;
  c.note("block with %s, squared norm %g", n.name.c_str(), r.squaredNorm());
  for (int apply = 0; apply < 2; ++apply) {
    vh::Blocks res(std::vector<int>{s.m}), jb;
    std::vector<double*> jp;
    for (int b : blocks) jp.push_back(jb.Add(b * s.m));
    double cost_value = NAN;
    const bool ok = problem.EvaluateResidualBlock(id, apply, &cost_value, res.ptr[0], jp.data());
    c.count("block");
    c.expect(ok, "robust-block:failed", "EvaluateResidualBlock failed");
    if (!ok) return;
    Eigen::MatrixXd Jt(s.m, s.n);
    int off = 0;
    for (size_t b = 0; b < blocks.size(); ++b) {
      for (int i = 0; i < s.m; ++i)
        for (int k = 0; k < blocks[b]; ++k) Jt(i, off + k) = jp[b][i * blocks[b] + k];
      off += blocks[b];
    }
    const double sn = r.squaredNorm();
    const double want = apply ? 0.5 * (double)v.v : 0.5 * sn;
    c.expect(std::fabs(cost_value - want) <= 1e-10 * (std::fabs(want) + (double)v.err + sn), "robust-block:cost", "cost %.17g want %.17g", cost_value, want);
    const double rho[3] = {(double)v.v, apply ? (double)v.d1 : 1, apply ? (double)v.d2 : 0};
    if (apply && v.d2 > 0 && v.d1 < 1e-6L) continue;
    if (apply && fabsl(v.d2) < 1e-12L + 10 * v.e2 && v.d2 != 0) continue;
    if (apply && (v.e1 > 1e-12L * v.d1 || v.e2 > 1e-11L * fabsl(v.d2) + 1e-13L)) continue;
    Robust(c, apply ? "robust-block" : "plain-block", r, J, Eigen::Map<Eigen::VectorXd>(res.ptr[0], s.m), Jt, rho);
    double only_cost = NAN;
    problem.EvaluateResidualBlock(id, apply, &only_cost, nullptr, nullptr);
    c.expect(only_cost == cost_value, "robust-block:cost-alone", "%.17g with outputs, %.17g without", cost_value, only_cost);
  }
  std::string shape = n.name.substr(0, 40);
  for (char& ch : shape) if (isdigit(ch) || ch == '.' || ch == '-') ch = '#';
  c.sig("block " + shape);
}

VH_MAIN({"loss", FamLoss, 6000}, {"ownership", FamOwnership, 80}, {"edges", FamEdges, 40}, {"corrector", FamCorrector, 6000}, {"block", FamBlock, 2500})
