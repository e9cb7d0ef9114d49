// C06: manifold laws.
#include <functional>
#include <memory>

#include "Eigen/Dense"
#include "ceres/autodiff_manifold.h"
#include "ceres/line_manifold.h"
#include "ceres/manifold.h"
#include "ceres/product_manifold.h"
#include "ceres/sphere_manifold.h"
#include "smooth.h"

using vh::Case;
using vh::Fmt;
using vh::Rng;
using Vec = Eigen::VectorXd;
using Mat = Eigen::MatrixXd;
using RowMat = Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
using LD = long double;

// A part of a manifold: knows which points lie on it, how far tangents may reach, and
// (where a closed form is documented) what Plus gives.
struct Part {
  int a = 0, t = 0;
  std::function<Vec(Rng&)> point;
  std::function<Vec(Rng&, const Vec& x)> other;             // another point on it
  std::function<double()> radius;                           // Plus is injective for |delta| below
  std::function<bool(const Vec& x, const Vec& y)> same;     // same point
  std::function<double(const Vec& x)> off;                  // distance of y from the manifold
  std::function<Vec(const Vec& x, const Vec& d)> plus;      // documented closed form, may be empty
  std::vector<int> fixed;                                   // ambient coordinates that never change
  std::string name;
  double tol = 1e-9;
};
struct M {
  std::shared_ptr<ceres::Manifold> man;
  std::vector<Part> parts;
  std::string name;
};

static double RelTol(const Vec& x) { return 1 + x.norm(); }
static bool Eq(const Vec& x, const Vec& y, double tol) { return (x - y).norm() <= tol * RelTol(x); }

static Part Euclid(int n) {
  Part p;
  p.a = p.t = n;
  p.point = [n](Rng& r) { return Vec(Vec::NullaryExpr(n, [&] { return r.any(); })); };
  p.other = [=](Rng& r, const Vec&) { return p.point(r); };
  p.radius = [] { return 1e3; };
  p.same = [](const Vec& x, const Vec& y) { return Eq(x, y, 1e-13); };
  p.off = [](const Vec&) { return 0.0; };
  p.plus = [](const Vec& x, const Vec& d) { return Vec(x + d); };
  p.name = Fmt("E%d", n);
  return p;
}
static Part Subset(int n, std::vector<int> fixed) {
  Part p = Euclid(n);
  std::sort(fixed.begin(), fixed.end());
  p.t = n - (int)fixed.size();
  p.fixed = fixed;
  p.other = [=](Rng& r, const Vec& x) {
    Vec y = Vec::NullaryExpr(n, [&] { return r.any(); });
    for (int f : fixed) y[f] = x[f];
    return y;
  };
  p.plus = [=](const Vec& x, const Vec& d) {
    Vec y = x;
    for (int i = 0, j = 0; i < n; ++i)
      if (!std::binary_search(fixed.begin(), fixed.end(), i)) y[i] += d[j++];
    return y;
  };
  p.name = Fmt("S%d", n);
  for (int f : fixed) p.name += Fmt("-%d", f);
  return p;
}
// w first or last
static Part Quat(bool eigen) {
  Part p;
  p.a = 4;
  p.t = 3;
  p.point = [](Rng& r) {
    Vec q = Vec::NullaryExpr(4, [&] { return r.chance(0.25) ? 0.0 : r.normal(); });
    if (q.norm() < 1e-3) q = Vec::Unit(4, r.range(0, 3)) * r.sign();
    return Vec(q / q.norm());
  };
  p.other = [=](Rng& r, const Vec& x) {
    if (r.chance(0.15)) return x;
    if (r.chance(0.1)) return Vec(-x);
    if (r.chance(0.2)) { Vec y = x + Vec::NullaryExpr(4, [&] { return r.mag(-12, -4); }); return Vec(y / y.norm()); }
    return p.point(r);
  };
  p.radius = [] { return 3.14159; };
  p.same = [](const Vec& x, const Vec& y) { return std::min((x - y).norm(), (x + y).norm()) <= 1e-12; };
  p.off = [](const Vec& x) { return std::fabs(x.norm() - 1); };
  p.plus = [eigen](const Vec& x, const Vec& d) {
    const int W = eigen ? 3 : 0, X = eigen ? 0 : 1, Y = X + 1, Z = X + 2;
    const LD n = sqrtl((LD)d[0] * d[0] + (LD)d[1] * d[1] + (LD)d[2] * d[2]);
    const LD s = n == 0 ? 1 : sinl(n) / n;
    const LD w = cosl(n), a = s * d[0], b = s * d[1], c = s * d[2];
    const LD e = x[W], f = x[X], g = x[Y], h = x[Z];
    Vec o(4);
    o[W] = w * e - a * f - b * g - c * h;
    o[X] = w * f + a * e + b * h - c * g;
    o[Y] = w * g - a * h + b * e + c * f;
    o[Z] = w * h + a * g - b * f + c * e;
    return o;
  };
  p.name = eigen ? "QE" : "Q";
  return p;
}
static Vec RandDir(Rng& r, int n) {
  Vec v = Vec::NullaryExpr(n, [&] { return r.chance(0.2) ? 0.0 : r.normal(); });
  if (r.chance(0.15)) v = Vec::Unit(n, n - 1) * r.sign();
  if (r.chance(0.1)) { v = Vec::Unit(n, n - 1) * r.sign(); v[r.range(0, n - 1)] += r.mag(-12, -2); }
  if (v.norm() < 1e-3) v = Vec::Unit(n, r.range(0, n - 1)) * r.sign();
  return v / v.norm();
}
static double RandNorm(Rng& r) { return r.chance(0.3) ? 1.0 : std::pow(10, r.uni(-9, 3)); }
static Part Sphere(int n) {
  Part p;
  p.a = n;
  p.t = n - 1;
  // The norm is part of the point: Plus must keep it.
  p.point = [n](Rng& r) { return Vec(RandDir(r, n) * RandNorm(r)); };
  p.other = [n](Rng& r, const Vec& x) {
    if (r.chance(0.1)) return x;
    if (r.chance(0.1)) return Vec(-x);
    return Vec(RandDir(r, n) * x.norm());
  };
  p.radius = [] { return 3.1; };
  p.same = [](const Vec& x, const Vec& y) { return (x - y).norm() <= 1e-7 * x.norm(); };
  p.off = [](const Vec&) { return 0.0; };
  p.name = Fmt("P%d", n);
  p.tol = 1e-6;
  return p;
}
static Part Line(int n) {
  Part p;
  p.a = 2 * n;
  p.t = 2 * (n - 1);
  p.point = [n](Rng& r) {
    Vec v(2 * n);
    v.head(n) = Vec::NullaryExpr(n, [&] { return r.any(); });
    v.tail(n) = RandDir(r, n) * (r.chance(0.5) ? 1.0 : std::pow(10, r.uni(-3, 2)));
    return v;
  };
  p.other = {};  // Minus is only inverted on the points Plus reaches
  p.radius = [] { return 3.1; };
  p.same = [n](const Vec& x, const Vec& y) {
    return (x.head(n) - y.head(n)).norm() <= 1e-9 * RelTol(x.head(n)) && (x.tail(n) - y.tail(n)).norm() <= 1e-7 * x.tail(n).norm();
  };
  p.off = [](const Vec&) { return 0.0; };
  p.name = Fmt("L%d", n);
  p.tol = 1e-6;
  return p;
}

// ---- a user manifold, plain and automatically differentiated ----
struct Scaled {  // Plus(x,d) = x + k*d on 3 coordinates, 4th is constant 1/k
  template <typename T> bool Plus(const T* x, const T* d, T* y) const {
    for (int i = 0; i < 3; ++i) y[i] = x[i] + 2.5 * d[i];
    y[3] = x[3];
    return true;
  }
  template <typename T> bool Minus(const T* y, const T* x, T* d) const {
    for (int i = 0; i < 3; ++i) d[i] = (y[i] - x[i]) / 2.5;
    return true;
  }
};
static Part ScaledPart() {
  Part p = Subset(4, {3});
  p.plus = [](const Vec& x, const Vec& d) { Vec y = x; y.head(3) += 2.5 * d; return y; };
  p.name = "A";
  return p;
}
struct Failing final : ceres::Manifold {
  int which;
  explicit Failing(int which) : which(which) {}
  int AmbientSize() const override { return 2; }
  int TangentSize() const override { return 2; }
  bool Plus(const double* x, const double* d, double* y) const override { y[0] = x[0] + d[0]; y[1] = x[1] + d[1]; return which != 0; }
  bool PlusJacobian(const double*, double* j) const override { j[0] = j[3] = 1; j[1] = j[2] = 0; return which != 1; }
  bool Minus(const double* y, const double* x, double* d) const override { d[0] = y[0] - x[0]; d[1] = y[1] - x[1]; return which != 2; }
  bool MinusJacobian(const double*, double* j) const override { j[0] = j[3] = 1; j[1] = j[2] = 0; return which != 3; }
};

template <typename T> static M One(std::shared_ptr<T> m, Part p) { return M{m, {p}, p.name}; }
static M MakeSphere(Rng& r) {
  const int n = r.range(2, 7);
  Part p = Sphere(n);
  switch (r.chance(0.4) ? 0 : n) {
    case 2: return One(std::make_shared<ceres::SphereManifold<2>>(), p);
    case 3: return One(std::make_shared<ceres::SphereManifold<3>>(), p);
    case 4: return One(std::make_shared<ceres::SphereManifold<4>>(), p);
    case 5: return One(std::make_shared<ceres::SphereManifold<5>>(), p);
    default: p.name += "d"; return One(std::make_shared<ceres::SphereManifold<ceres::DYNAMIC>>(n), p);
  }
}
static M MakeLine(Rng& r) {
  const int n = r.range(2, 6);
  Part p = Line(n);
  switch (r.chance(0.4) ? 0 : n) {
    case 2: return One(std::make_shared<ceres::LineManifold<2>>(), p);
    case 3: return One(std::make_shared<ceres::LineManifold<3>>(), p);
    case 4: return One(std::make_shared<ceres::LineManifold<4>>(), p);
    default: p.name += "d"; return One(std::make_shared<ceres::LineManifold<ceres::DYNAMIC>>(n), p);
  }
}
static M MakeSubset(Rng& r) {
  const int n = r.range(1, 8);
  std::vector<int> f;
  for (int i = 0; i < n; ++i) if (r.chance(0.4)) f.push_back(i);
  r.shuffle(f);
  return One(std::make_shared<ceres::SubsetManifold>(n, f), Subset(n, f));
}
static M MakeEuclid(Rng& r) {
  switch (r.range(0, 3)) {
    case 0: return One(std::make_shared<ceres::EuclideanManifold<1>>(), Euclid(1));
    case 1: return One(std::make_shared<ceres::EuclideanManifold<4>>(), Euclid(4));
    default: { const int n = r.range(1, 9); return One(std::make_shared<ceres::EuclideanManifold<ceres::DYNAMIC>>(n), Euclid(n)); }
  }
}
static M MakeSimple(Rng& r) {
  switch (r.range(0, 6)) {
    case 0: return MakeEuclid(r);
    case 1: return MakeSubset(r);
    case 2: return One(std::make_shared<ceres::QuaternionManifold>(), Quat(false));
    case 3: return One(std::make_shared<ceres::EigenQuaternionManifold>(), Quat(true));
    case 4: return MakeSphere(r);
    case 5: return MakeLine(r);
    default: return One(std::make_shared<ceres::AutoDiffManifold<Scaled, 4, 3>>(), ScaledPart());
  }
}
using P = std::shared_ptr<ceres::Manifold>;
static M Join(P man, std::initializer_list<M> ms) {
  M r;
  r.man = man;
  r.name = "(";
  for (auto& m : ms) { r.name += m.name + " "; r.parts.insert(r.parts.end(), m.parts.begin(), m.parts.end()); }
  r.name.back() = ')';
  return r;
}
static M Make(Rng& r, int depth) {
  if (depth == 0 || r.chance(0.3)) return MakeSimple(r);
  switch (r.range(0, 4)) {
    case 0: {
      M a = Make(r, depth - 1), b = Make(r, depth - 1);
      return Join(std::make_shared<ceres::ProductManifold<P, P>>(a.man, b.man), {a, b});
    }
    case 1: {
      M a = Make(r, depth - 1), b = MakeSimple(r), c = MakeSimple(r);
      return Join(std::make_shared<ceres::ProductManifold<P, P, P>>(a.man, b.man, c.man), {a, b, c});
    }
    case 2: {
      M b = MakeSimple(r);
      M q = One(P(), Quat(false)), e = One(P(), Euclid(3));
      return Join(std::make_shared<ceres::ProductManifold<ceres::QuaternionManifold, ceres::EuclideanManifold<3>, P>>(ceres::QuaternionManifold(), ceres::EuclideanManifold<3>(), b.man), {q, e, b});
    }
    case 3: {
      M s = One(P(), Sphere(3)), u = One(P(), Subset(5, {1, 3})), q = One(P(), Quat(true)), l = One(P(), Line(3));
      using SP = ceres::ProductManifold<ceres::SphereManifold<3>, ceres::SubsetManifold>;
      SP sp(ceres::SphereManifold<3>(), ceres::SubsetManifold(5, {1, 3}));
      return Join(std::make_shared<ceres::ProductManifold<SP, ceres::EigenQuaternionManifold, ceres::LineManifold<3>>>(sp, ceres::EigenQuaternionManifold(), ceres::LineManifold<3>()), {s, u, q, l});
    }
    default: {
      M a = MakeSimple(r), b = MakeSimple(r), c = MakeSimple(r), d = Make(r, depth - 1);
      return Join(std::make_shared<ceres::ProductManifold<P, P, P, P>>(a.man, b.man, c.man, d.man), {a, b, c, d});
    }
  }
}

static Vec Call(const std::function<bool(double*)>& f, int n, bool* ok) {
  std::unique_ptr<double[]> out(new double[n]);
  std::fill_n(out.get(), n, vh::Blocks::kFill);
  *ok = f(out.get());
  return Eigen::Map<Vec>(out.get(), n);
}
// Runs an operation on exactly sized heap buffers.
struct Ops {
  const ceres::Manifold& m;
  Case& c;
  std::string key;
  int A, T;
  Vec Plus(const Vec& x, const Vec& d) {
    vh::Blocks in(std::vector<int>{A, T});
    std::copy_n(x.data(), A, in.ptr[0]);
    std::copy_n(d.data(), T, in.ptr[1]);
    bool ok;
    Vec y = Call([&](double* o) { return m.Plus(in.ptr[0], in.ptr[1], o); }, A, &ok);
    c.count("plus");
    c.expect(ok, key + ":plus-failed", "Plus returned false");
    return y;
  }
  Vec Minus(const Vec& y, const Vec& x) {
    vh::Blocks in(std::vector<int>{A, A});
    std::copy_n(y.data(), A, in.ptr[0]);
    std::copy_n(x.data(), A, in.ptr[1]);
    bool ok;
    Vec d = Call([&](double* o) { return m.Minus(in.ptr[0], in.ptr[1], o); }, T, &ok);
    c.count("minus");
    c.expect(ok, key + ":minus-failed", "Minus returned false");
    return d;
  }
  RowMat Jac(const Vec& x, bool plus) {
    vh::Blocks in(std::vector<int>{A});
    std::copy_n(x.data(), A, in.ptr[0]);
    bool ok;
    Vec j = Call([&](double* o) { return plus ? m.PlusJacobian(in.ptr[0], o) : m.MinusJacobian(in.ptr[0], o); }, A * T, &ok);
    c.count("jacobian");
    c.expect(ok, key + ":jacobian-failed", "%s Jacobian returned false", plus ? "Plus" : "Minus");
    return plus ? RowMat(Eigen::Map<RowMat>(j.data(), A, T)) : RowMat(Eigen::Map<RowMat>(j.data(), T, A));
  }
};

static void FamLaws(Case& c) {
  M m = Make(c.rng, c.index % 4 == 0 ? 0 : c.rng.range(1, 3));
  int A = 0, T = 0;
  std::string kinds;
  for (auto& p : m.parts) { A += p.a; T += p.t; kinds += p.name[0]; }
  c.sig(m.name);
  c.note("%s", m.name.c_str());
  const std::string key = m.parts.size() == 1 ? "manifold:" + kinds : "manifold:product";
  if (!c.expect(m.man->AmbientSize() == A && m.man->TangentSize() == T, key + ":sizes", "sizes %d %d, want %d %d", m.man->AmbientSize(), m.man->TangentSize(), A, T)) return;
  Ops o{*m.man, c, key, A, T};
  Vec x(A), d(T), y(A);
  bool has_other = true;
  double dscale = c.rng.chance(0.2) ? std::pow(10, c.rng.uni(-12, -2)) : 1;
  int ao = 0, to = 0;
  std::vector<Vec> xs;
  for (auto& p : m.parts) {
    Vec px = p.point(c.rng);
    xs.push_back(px);
    x.segment(ao, p.a) = px;
    if (p.other) y.segment(ao, p.a) = p.other(c.rng, px);
    else { has_other = has_other && false; y.segment(ao, p.a) = px; }
    Vec pd = Vec::NullaryExpr(p.t, [&] { return c.rng.chance(0.2) ? 0.0 : c.rng.normal(); });
    if (p.name[0] == 'E' || p.name[0] == 'S' || p.name[0] == 'A') pd *= 3;
    else if (p.name[0] == 'L') {
      const int h = p.t / 2;
      Vec dd = pd.tail(h);
      if (dd.norm() > 0) pd.tail(h) *= c.rng.uni(0, p.radius()) / dd.norm();
    } else if (pd.norm() > 0) pd *= c.rng.uni(0, p.radius()) / pd.norm();
    pd *= dscale;
    d.segment(to, p.t) = pd;
    ao += p.a;
    to += p.t;
  }
  // 1: zero does nothing
  const Vec x0 = o.Plus(x, Vec::Zero(T));
  c.expect((x0 - x).norm() <= 1e-14 * x.norm(), key + ":plus-zero", "x %s became %s", vh::Str(x).c_str(), vh::Str(x0).c_str());
  // Minus of itself
  const Vec z = o.Minus(x, x);
  c.expect(z.norm() <= 5e-8, key + ":minus-self", "x - x = %s", vh::Str(z).c_str());
  // 3: Minus inverts Plus; Plus by parts
  const Vec xp = o.Plus(x, d);
  const Vec dd = o.Minus(xp, x);
  // 2: Plus inverts Minus
  const Vec yx = o.Minus(y, x);
  const Vec yy = o.Plus(x, yx);
  // and Minus inverts Plus from what Plus reached
  const Vec back = o.Minus(x, xp);
  const Vec xx = o.Plus(xp, back);
  ao = to = 0;
  for (size_t i = 0; i < m.parts.size(); ++i) {
    auto& p = m.parts[i];
    const Vec pxp = xp.segment(ao, p.a), pd = d.segment(to, p.t), px = x.segment(ao, p.a);
    const std::string k = key + ":" + p.name[0];
    const double big = p.name[0] == 'E' || p.name[0] == 'S' || p.name[0] == 'A' ? 1e-15 * px.norm() : 0;
    double lbig = p.name[0] == 'L' ? 1e-14 * px.head(p.a / 2).norm() : 0;
    c.expect((dd.segment(to, p.t) - pd).norm() <= p.tol * pd.norm() + 5e-8 * (p.tol > 1e-8) + 1e-13 + big + lbig, k + ":minus-of-plus", "x %s delta %s came back %s", vh::Str(px).c_str(), vh::Str(pd).c_str(), vh::Str(Vec(dd.segment(to, p.t))).c_str());
    c.expect(p.off(pxp) <= 1e-13, k + ":off-manifold", "%s", vh::Str(pxp).c_str());
    if (p.name[0] == 'P') {
      c.expect(std::fabs(pxp.norm() - px.norm()) <= 1e-13 * px.norm(), k + ":norm", "norm %.17g became %.17g", px.norm(), pxp.norm());
      const double ang = 2 * std::atan2((pxp / pxp.norm() - px / px.norm()).norm(), (pxp / pxp.norm() + px / px.norm()).norm());
      c.expect(std::fabs(ang - pd.norm()) <= 1e-7, k + ":angle", "moved by %g for a tangent of %g", ang, pd.norm());
    }
    if (p.name[0] == 'L') {
      const int h = p.a / 2;
      c.expect(std::fabs(pxp.tail(h).norm() - px.tail(h).norm()) <= 1e-13 * px.tail(h).norm(), k + ":norm", "direction norm %.17g became %.17g", px.tail(h).norm(), pxp.tail(h).norm());
      const Vec mv = pxp.head(h) - px.head(h);
      c.expect(std::fabs(mv.norm() - pd.head(h - 1).norm()) <= 1e-9 * (1 + px.head(h).norm()), k + ":origin-length", "origin moved by %g, tangent %g", mv.norm(), pd.head(h - 1).norm());
      c.expect(std::fabs(mv.dot(px.tail(h))) <= 3e-8 * (mv.norm() + 1e-7 * px.head(h).norm()) * px.tail(h).norm() + 1e-300, k + ":origin-along-line", "%g", mv.dot(px.tail(h)));
    }
    if (p.plus) {
      const Vec want = p.plus(px, pd);
      c.expect((pxp - want).norm() <= 1e-13 * (1 + want.norm()), k + ":plus-value", "Plus(%s, %s) = %s, want %s", vh::Str(px).c_str(), vh::Str(pd).c_str(), vh::Str(pxp).c_str(), vh::Str(want).c_str());
    }
    for (int f : p.fixed) c.expect(vh::Bits(pxp[f], px[f]), k + ":constant-moved", "coordinate %d moved from %.17g to %.17g", f, px[f], pxp[f]);
    if (p.other) c.expect(p.same(y.segment(ao, p.a), yy.segment(ao, p.a)) || (y.segment(ao, p.a) - yy.segment(ao, p.a)).norm() <= big, k + ":plus-of-minus", "x %s y %s reached %s", vh::Str(px).c_str(), vh::Str(Vec(y.segment(ao, p.a))).c_str(), vh::Str(Vec(yy.segment(ao, p.a))).c_str());
    if (p.name[0] != 'L') c.expect(p.same(px, xx.segment(ao, p.a)), k + ":return", "from %s back to %s, x %s", vh::Str(pxp).c_str(), vh::Str(Vec(xx.segment(ao, p.a))).c_str(), vh::Str(px).c_str());
    if (p.name[0] != 'P' && p.name[0] != 'L') c.expect(back.segment(to, p.t).norm() <= pd.norm() + 1e-9 * (1 + px.norm()), k + ":return-longer", "%g for %g", back.segment(to, p.t).norm(), pd.norm());
    ao += p.a;
    to += p.t;
  }
  // Once around, or the long way round, is where the short way leads.
  {
    Vec near = d, far = d;
    to = 0;
    bool turned = false;
    for (auto& p : m.parts) {
      const int h = p.name[0] == 'L' ? p.t / 2 : p.name[0] == 'P' || p.name[0] == 'Q' ? p.t : 0;
      const int at = to + p.t - h;
      const double n = h ? Vec(d.segment(at, h)).norm() : 0;
      if (n > 1e-3) {
        far.segment(at, h) *= (n + c.rng.of({-1, -1, 1, 2}) * 6.283185307179586) / n;
        turned = true;
      }
      to += p.t;
    }
    if (turned) {
      const Vec a = o.Plus(x, near), b = o.Plus(x, far);
      ao = 0;
      for (auto& p : m.parts) {
        const Vec u = a.segment(ao, p.a), v = b.segment(ao, p.a);
        const int half = p.name[0] == 'L' ? p.a / 2 : 0;
        c.expect((u.head(half) - v.head(half)).norm() <= 1e-13 * u.head(half).norm() && (u.tail(p.a - half) - v.tail(p.a - half)).norm() <= 1e-12 * u.tail(p.a - half).norm(), key + ":" + p.name[0] + ":around", "Plus of %s is %s, of %s it is %s", vh::Str(near).c_str(), vh::Str(u).c_str(), vh::Str(far).c_str(), vh::Str(v).c_str());
        ao += p.a;
      }
      c.count("around");
    }
  }
  // Jacobians: block structure plus derivatives by differences
  const RowMat JP = o.Jac(x, true), JM = o.Jac(x, false);
  ao = to = 0;
  for (size_t i = 0; i < m.parts.size(); ++i) {
    auto& p = m.parts[i];
    const Vec px = x.segment(ao, p.a);
    const std::string k = key + ":" + p.name[0];
    const int half = p.name[0] == 'L' ? p.a / 2 : 0;
    const double rel = p.name[0] == 'P' ? px.norm() : 1;
    for (int j = 0; j < p.t; ++j) {
      const double h = 1e-5;
      Vec dp = Vec::Zero(T);
      dp[to + j] = h;
      const Vec f1 = o.Plus(x, dp);
      dp[to + j] = -h;
      const Vec f2 = o.Plus(x, dp);
      for (int a = 0; a < A; ++a) {
        const double num = (f1[a] - f2[a]) / (2 * h);
        double s = rel;
        if (half) s = a - ao < half ? 1 : px.tail(half).norm();
        if (a < ao || a >= ao + p.a) {
          if (!c.expect(JP(a, to + j) == 0, k + ":plus-jacobian-off-block", "entry (%d,%d) is %g", a, to + j, JP(a, to + j))) goto next;
        } else if (!c.expect(std::fabs(JP(a, to + j) - num) <= 5e-8 * s + 1e-10 * std::fabs(x[a]), k + ":plus-jacobian", "entry (%d,%d) is %.12g, differences give %.12g at %s", a - ao, j, JP(a, to + j), num, vh::Str(px).c_str()))
          goto next;
      }
    }
    for (int a = 0; a < p.a; ++a) {
      double s = rel;
      if (half) s = a < half ? 1 : px.tail(half).norm();
      const double h = 1e-5 * s;
      Vec yp = x;
      yp[ao + a] += h;
      const double hp = yp[ao + a] - x[ao + a];
      const Vec f1 = o.Minus(yp, x);
      yp[ao + a] = x[ao + a] - h;
      const double hm = x[ao + a] - yp[ao + a];
      const Vec f2 = o.Minus(yp, x);
      for (int t = 0; t < T; ++t) {
        if (t < to || t >= to + p.t) {
          if (!c.expect(JM(t, ao + a) == 0, k + ":minus-jacobian-off-block", "entry (%d,%d) is %g", t, ao + a, JM(t, ao + a))) goto next;
          continue;
        }
        const double num = (f1[t] - f2[t]) / (hp + hm);
        // Minus jacobian of a quaternion is only meant along the manifold: checked through the product below
        if (p.name[0] == 'Q') continue;
        if (!c.expect(std::fabs(JM(t, ao + a) - num) <= (1e-7 + 1e-10 * px.norm() / s) / s, k + ":minus-jacobian", "entry (%d,%d) is %.12g, differences give %.12g at %s", t - to, a, JM(t, ao + a), num, vh::Str(px).c_str())) goto next;
      }
    }
    if (p.name[0] == 'Q') {
      // along tangent directions, with second order projection
      for (int j = 0; j < 3; ++j) {
        Vec e = Vec::Zero(T);
        e[to + j] = 1e-5;
        const Vec f1 = o.Minus(o.Plus(x, e), x);
        e[to + j] = -1e-5;
        const Vec f2 = o.Minus(o.Plus(x, e), x);
        const Vec num = (f1 - f2) / 2e-5;
        const Vec got = JM * JP.col(to + j);
        c.expect((num - got).norm() <= 1e-8, k + ":minus-jacobian-tangent", "column %d: %s, differences %s", j, vh::Str(got).c_str(), vh::Str(num).c_str());
      }
      // and it is the documented linear form: conj product, zero along x itself
      const Vec along = JM.block(to, ao, 3, 4) * px;
      c.expect(along.norm() <= 1e-14, k + ":minus-jacobian-radial", "%s", vh::Str(along).c_str());
    }
    ao += p.a;
    to += p.t;
  }
next:
  if (T > 0) {
    const Mat id = JM * JP;
    double s = 1e-7;
    c.expect((id - Mat::Identity(T, T)).norm() <= s * T, key + ":jacobian-product", "MinusJacobian*PlusJacobian is off by %g", (id - Mat::Identity(T, T)).norm());
  }
  // RightMultiplyByPlusJacobian
  const int rows = c.rng.range(1, 5);
  RowMat am = RowMat::NullaryExpr(rows, A, [&] { return c.rng.any(); });
  vh::Blocks buf(std::vector<int>{rows * A, rows * T, A});
  std::copy_n(am.data(), rows * A, buf.ptr[0]);
  std::copy_n(x.data(), A, buf.ptr[2]);
  const bool ok = m.man->RightMultiplyByPlusJacobian(buf.ptr[2], rows, buf.ptr[0], buf.ptr[1]);
  c.count("right-multiply");
  c.expect(ok, key + ":right-multiply-failed", "returned false");
  if (ok && T > 0) {
    const RowMat got = Eigen::Map<RowMat>(buf.ptr[1], rows, T);
    const RowMat want = am * JP;
    c.expect((got - want).norm() <= 1e-13 * (am.norm() * JP.norm() + 1e-300), key + ":right-multiply", "%s want %s", vh::Str(got).c_str(), vh::Str(want).c_str());
  }
}

// A failing component makes the product fail.
static void FamFail(Case& c) {
  const int which = c.index % 4, at = (c.index / 4) % 3;
  P f = std::make_shared<Failing>(which), e = std::make_shared<ceres::EuclideanManifold<2>>(), q = std::make_shared<ceres::QuaternionManifold>();
  P a = at == 0 ? f : e, b = at == 1 ? f : q, d = at == 2 ? f : e;
  ceres::ProductManifold<P, P, P> m(a, b, d);
  const int A = m.AmbientSize(), T = m.TangentSize();
  vh::Blocks v(std::vector<int>{A, A, A, T, A * T});
  for (int i = 0; i < A; ++i) v.ptr[0][i] = v.ptr[1][i] = 0.5;
  for (int i = 0; i < T; ++i) v.ptr[3][i] = 0.1;
  c.expect(m.Plus(v.ptr[0], v.ptr[3], v.ptr[2]) == (which != 0), "manifold:product:failure", "Plus, component %d fails %d", at, which);
  c.expect(m.PlusJacobian(v.ptr[0], v.ptr[4]) == (which != 1), "manifold:product:failure", "PlusJacobian, component %d fails %d", at, which);
  c.expect(m.Minus(v.ptr[0], v.ptr[1], v.ptr[3]) == (which != 2), "manifold:product:failure", "Minus, component %d fails %d", at, which);
  c.expect(m.MinusJacobian(v.ptr[0], v.ptr[4]) == (which != 3), "manifold:product:failure", "MinusJacobian, component %d fails %d", at, which);
  std::vector<double> amb(A * 2, 1.0), tan(T * 2);
  c.expect(m.RightMultiplyByPlusJacobian(v.ptr[0], 2, amb.data(), tan.data()) == (which != 1), "manifold:product:failure", "RightMultiply, component %d fails %d", at, which);
  c.count("failure", 5);
  c.sig(Fmt("fail %d %d", which, at));
}

VH_MAIN({"laws", FamLaws, 2500}, {"fail", FamFail, 12})
