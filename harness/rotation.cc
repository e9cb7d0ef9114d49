// C07: rotation conversions.
#include <functional>
#include <memory>

#include "Eigen/Dense"
#include "ceres/jet.h"
#include "ceres/rotation.h"
#include "vh.h"

using vh::Case;
using vh::Fmt;
using vh::Rng;
using LD = long double;
using M3 = Eigen::Matrix<LD, 3, 3>;
using V3 = Eigen::Matrix<LD, 3, 1>;
using V4 = Eigen::Matrix<LD, 4, 1>;
using Ceres = ceres::CeresQuaternionOrder;
using Eig = ceres::EigenQuaternionOrder;

// ---- reference, in long double ----
static LD Sinc(LD t) { return fabsl(t) < 1e-5L ? 1 - t * t / 6 + t * t * t * t / 120 : sinl(t) / t; }
static M3 Hat(const V3& w) {
  M3 m;
  m << 0, -w[2], w[1], w[2], 0, -w[0], -w[1], w[0], 0;
  return m;
}
static M3 RefR(const V3& a) {
  const LD t = a.norm(), h = Sinc(t / 2);
  return M3::Identity() + Sinc(t) * Hat(a) + h * h / 2 * Hat(a) * Hat(a);
}
static V4 RefQ(const V3& a) {
  const LD t = a.norm();
  V4 q;
  q << cosl(t / 2), a * (Sinc(t / 2) / 2);
  return q;
}
static M3 RefRq(const V4& q) {  // scaled
  const LD a = q[0], b = q[1], c = q[2], d = q[3];
  M3 m;
  m << a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (a * c + b * d),  //
      2 * (a * d + b * c), a * a - b * b + c * c - d * d, 2 * (c * d - a * b),   //
      2 * (b * d - a * c), 2 * (a * b + c * d), a * a - b * b - c * c + d * d;
  return m;
}
static M3 Elem(int axis, LD t) {
  const LD c = cosl(t), s = sinl(t);
  const int j = (axis + 1) % 3, k = (axis + 2) % 3;
  M3 m = M3::Identity();
  m(j, j) = c; m(k, k) = c; m(j, k) = -s; m(k, j) = s;
  return m;
}

static double RandAngle(Rng& r) {
  const double pi = M_PI;
  switch (r.range(0, 11)) {
    case 0: return 0;
    case 1: return std::pow(10, r.uni(-300, -20));
    case 2: return std::pow(10, r.uni(-20, -7));
    case 3: return std::pow(10, r.uni(-7, -1));
    case 4: return pi - std::pow(10, r.uni(-16, -2));
    case 5: return pi;
    case 6: return pi + std::pow(10, r.uni(-16, -2));
    case 7: return 2 * pi + r.sign() * std::pow(10, r.uni(-16, -1));
    case 8: return r.uni(pi, 20);
    case 9: return r.of({pi / 2, pi / 3, 2 * pi / 3, pi / 4});
    default: return r.uni(0, pi);
  }
}
static Eigen::Vector3d RandAxis(Rng& r) {
  Eigen::Vector3d v;
  switch (r.range(0, 6)) {
    case 0: v = Eigen::Vector3d::Unit(r.range(0, 2)) * r.sign(); break;
    case 1: v = Eigen::Vector3d(r.sign(), r.sign(), r.sign()); break;
    case 2: v = Eigen::Vector3d(r.sign(), r.sign(), 0); r.shuffle(v); break;
    case 3: v = Eigen::Vector3d::Unit(r.range(0, 2)) * r.sign(); v[r.range(0, 2)] += r.mag(-14, -2); break;
    case 4: v = Eigen::Vector3d(r.normal(), r.normal(), 0); r.shuffle(v); break;
    default: v = Eigen::Vector3d(r.normal(), r.normal(), r.normal());
  }
  if (!(v.norm() > 1e-6)) v = Eigen::Vector3d(0, 0, 1);
  return v.normalized();
}
static double Dist(const M3& a, const M3& b) { return (double)(a - b).norm(); }
static M3 FromCol(const double* R) { M3 m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m(i, j) = R[i + 3 * j]; return m; }
static M3 FromRow(const double* R) { return FromCol(R).transpose(); }
template <typename O> static V4 ToV(const double* q) { return V4(q[O::kW], q[O::kX], q[O::kY], q[O::kZ]); }
template <typename O> static void Put(const V4& v, double* q) { q[O::kW] = v[0]; q[O::kX] = v[1]; q[O::kY] = v[2]; q[O::kZ] = v[3]; }
struct B {  // exactly sized guarded buffer
  std::unique_ptr<double[]> p;
  explicit B(int n) : p(new double[n]) { std::fill_n(p.get(), n, -7.654321e77); }
  operator double*() { return p.get(); }
};

template <typename O>
static void Conversions(Case& c, const std::string& on, const Eigen::Vector3d& aa, const M3& R, double scale) {
  const V3 a = aa.cast<LD>();
  // how far the rotation can be off because the angle is only a double
  const double tol = 4e-15 * (1 + aa.norm());
  B in(3), q(4), aa2(3);
  std::copy_n(aa.data(), 3, (double*)in);
  ceres::AngleAxisToQuaternion<O>((double*)in, (double*)q);
  c.count("conversions");
  const V4 qv = ToV<O>(q);
  c.expect((qv - RefQ(a)).norm() <= tol, "rotation:aa-to-q" + on, "got %s want %s", vh::Str(qv).c_str(), vh::Str(RefQ(a)).c_str());
  c.expect(std::fabs((double)qv.norm() - 1) <= 1e-15 * 8, "rotation:aa-to-q-unit" + on, "norm %.17g", (double)qv.norm());
  // quaternion to angle axis, both signs
  for (int s = 0; s < 2; ++s) {
    B qq(4);
    Put<O>(s ? V4(-qv) : qv, qq);
    ceres::QuaternionToAngleAxis<O>((double*)qq, (double*)aa2);
    const V3 b(aa2[0], aa2[1], aa2[2]);
    c.expect(Dist(RefR(b), R) <= tol * 2, "rotation:q-to-aa" + on, "q %s gives %s, R off by %g", vh::Str(qv).c_str(), vh::Str(b).c_str(), Dist(RefR(b), R));
    c.expect((double)b.norm() <= M_PI * (1 + 1e-15), "rotation:q-to-aa-range" + on, "norm %.17g", (double)b.norm());
    if (aa.norm() < 3 && aa.norm() > 0) c.expect((double)(b - a).norm() <= 1e-14 * aa.norm() + 1e-320, "rotation:q-to-aa-value" + on, "%s back to %s", vh::Str(aa).c_str(), vh::Str(b).c_str());
  }
  // quaternion to matrix, unit and not
  for (int s = 0; s < 2; ++s) {
    const double k = s ? scale : 1;
    B qq(4), Rr(9), Rc(9), pt(3), out(3);
    Put<O>(qv * k, qq);
    ceres::QuaternionToRotation<O>((double*)qq, (double*)Rr);
    c.expect(Dist(FromRow(Rr), R) <= tol * 2, "rotation:q-to-r" + on, "off by %g", Dist(FromRow(Rr), R));
    ceres::QuaternionToRotation<O>((double*)qq, ceres::ColumnMajorAdapter3x3((double*)Rc));
    c.expect(Dist(FromCol(Rc), R) <= tol * 2, "rotation:q-to-r-column" + on, "off by %g", Dist(FromCol(Rc), R));
    ceres::QuaternionToScaledRotation<O>((double*)qq, (double*)Rr);
    c.expect(Dist(FromRow(Rr) / (k * k), R) <= tol * 2, "rotation:q-to-scaled-r" + on, "off by %g", Dist(FromRow(Rr) / (k * k), R));
    for (int i = 0; i < 3; ++i) pt[i] = c.rng.any();
    const V3 pv(pt[0], pt[1], pt[2]), want = R * pv;
    ceres::QuaternionRotatePoint<O>((double*)qq, (double*)pt, (double*)out);
    c.expect((double)(V3(out[0], out[1], out[2]) - want).norm() <= tol * 2 * (double)pv.norm() + 1e-300, "rotation:q-rotate" + on, "got %s want %s", vh::Str(V3(out[0], out[1], out[2])).c_str(), vh::Str(want).c_str());
    if (!s) {
      ceres::UnitQuaternionRotatePoint<O>((double*)qq, (double*)pt, (double*)out);
      c.expect((double)(V3(out[0], out[1], out[2]) - want).norm() <= tol * 2 * (double)pv.norm() + 1e-300, "rotation:unit-q-rotate" + on, "got %s want %s", vh::Str(V3(out[0], out[1], out[2])).c_str(), vh::Str(want).c_str());
    }
  }
  // matrix to quaternion, in several layouts
  for (int layout = 0; layout < 3; ++layout) {
    double qq[4];
    if (layout == 0) {
      B Rc(9);
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) Rc[i + 3 * j] = (double)R(i, j);
      ceres::RotationMatrixToQuaternion<O>((double*)Rc, qq);
    } else if (layout == 1) {
      B Rr(9);
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) Rr[3 * i + j] = (double)R(i, j);
      ceres::RotationMatrixToQuaternion<O>(ceres::RowMajorAdapter3x3((const double*)Rr), qq);
    } else {
      B P(12);
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) P[4 * i + j] = (double)R(i, j);
      ceres::RotationMatrixToQuaternion<O>(ceres::MatrixAdapter<const double, 4, 1>(P), qq);
    }
    const V4 v = ToV<O>(qq);
    c.expect(std::fabs((double)v.norm() - 1) <= 1e-14, "rotation:r-to-q-unit" + on, "norm %.17g, R %s", (double)v.norm(), vh::Str(R).c_str());
    c.expect(Dist(RefRq(v), R) <= 1e-14, "rotation:r-to-q" + on, "q %s, R off by %g, trace %g", vh::Str(v).c_str(), Dist(RefRq(v), R), (double)R.trace());
  }
  // products and conjugates
  {
    B z(4), w(4), zw(4), cj(4);
    Eigen::Vector3d bb = RandAxis(c.rng) * RandAngle(c.rng);
    const V4 wq = RefQ(bb.cast<LD>());
    Put<O>(qv, z);
    Put<O>(wq, w);
    ceres::QuaternionProduct<O>((double*)z, (double*)w, (double*)zw);
    c.expect(Dist(RefRq(ToV<O>(zw)), RefRq(qv) * RefRq(wq)) <= 1e-14, "rotation:product" + on, "off by %g", Dist(RefRq(ToV<O>(zw)), RefRq(qv) * RefRq(wq)));
    ceres::QuaternionConjugate<O>((double*)z, (double*)cj);
    c.expect(Dist(RefRq(ToV<O>(cj)), RefRq(qv).transpose()) <= 1e-14, "rotation:conjugate" + on, "off");
    ceres::QuaternionConjugate<O>((double*)z, (double*)z);
    c.expect(ToV<O>(z) == ToV<O>(cj), "rotation:conjugate-in-place" + on, "off");
  }
}

static void FamConvert(Case& c) {
  const Eigen::Vector3d axis = RandAxis(c.rng);
  const double angle = RandAngle(c.rng);
  const Eigen::Vector3d aa = axis * angle;
  const V3 a = aa.cast<LD>();
  const M3 R = RefR(a);
  c.note("angle axis [%.17g %.17g %.17g]", aa[0], aa[1], aa[2]);
  const double tol = 4e-15 * (1 + aa.norm());
  int big = 0;
  for (int i = 1; i < 3; ++i) if (R(i, i) > R(big, big)) big = i;
  c.sig(Fmt("tr%d big%d mag%d s%d%d%d", R.trace() >= 0, big, angle == 0 ? -99 : (int)std::floor(std::log10(angle)), aa[0] > 0, aa[1] > 0, aa[2] > 0) + Fmt("z%d%d%d p%d", aa[0] == 0, aa[1] == 0, aa[2] == 0, angle > M_PI));
  const double scale = c.rng.sign() * std::pow(10, c.rng.uni(-3, 3));
  Conversions<Ceres>(c, "", aa, R, scale);
  Conversions<Eig>(c, ":eigen-order", aa, R, scale);
  // angle axis to matrix
  B in(3), Rc(9), Rr(9), P(12);
  std::copy_n(aa.data(), 3, (double*)in);
  ceres::AngleAxisToRotationMatrix((double*)in, (double*)Rc);
  c.expect(Dist(FromCol(Rc), R) <= tol * 2, "rotation:aa-to-r", "off by %g", Dist(FromCol(Rc), R));
  const M3 G = FromCol(Rc);
  c.expect(Dist(G * G.transpose(), M3::Identity()) <= 2e-15 * 8 && std::fabs((double)G.determinant() - 1) < 2e-14, "rotation:aa-to-r-orthonormal", "off by %g", Dist(G * G.transpose(), M3::Identity()));
  ceres::AngleAxisToRotationMatrix((double*)in, ceres::RowMajorAdapter3x3((double*)Rr));
  c.expect(FromRow(Rr) == FromCol(Rc), "rotation:aa-to-r-row", "layouts differ");
  ceres::AngleAxisToRotationMatrix((double*)in, ceres::MatrixAdapter<double, 4, 1>(P));
  bool same = true;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) same &= P[4 * i + j] == Rc[i + 3 * j];
  c.expect(same && P[3] == -7.654321e77 && P[7] == -7.654321e77 && P[11] == -7.654321e77, "rotation:adapter", "embedded matrix wrong");
  // any strides
  {
    B big(64);
    auto Strided = [&](auto adapter, int rs, int cs) {
      ceres::AngleAxisToRotationMatrix((double*)in, adapter((double*)big));
      int wrong = 0;
      for (int k = 0; k < 64; ++k) {
        bool used = false;
        for (int i = 0; i < 3; ++i)
          for (int j = 0; j < 3; ++j)
            if (i * rs + j * cs == k) {
              used = true;
              wrong += !(big[k] == Rc[i + 3 * j]);
              wrong += !(&adapter((double*)big)(i, j) == &big[k]);
            }
        if (!used) wrong += big[k] != -7.654321e77;
        big[k] = -7.654321e77;
      }
      c.expect(wrong == 0, "rotation:adapter-strides", "%d wrong cells with strides %d and %d", wrong, rs, cs);
    };
    Strided([](double* p) { return ceres::MatrixAdapter<double, 1, 4>(p); }, 1, 4);
    Strided([](double* p) { return ceres::MatrixAdapter<double, 4, 1>(p); }, 4, 1);
    Strided([](double* p) { return ceres::MatrixAdapter<double, 3, 11>(p); }, 3, 11);
    Strided([](double* p) { return ceres::MatrixAdapter<double, 20, 5>(p); }, 20, 5);
    Strided([](double* p) { return ceres::ColumnMajorAdapter3x3(p); }, 1, 3);
    Strided([](double* p) { return ceres::RowMajorAdapter3x3(p); }, 3, 1);
  }
  // matrix to angle axis
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { Rc[i + 3 * j] = (double)R(i, j); Rr[3 * i + j] = (double)R(i, j); }
  for (int layout = 0; layout < 2; ++layout) {
    B out(3);
    if (layout) ceres::RotationMatrixToAngleAxis(ceres::RowMajorAdapter3x3((const double*)Rr), (double*)out);
    else ceres::RotationMatrixToAngleAxis((double*)Rc, (double*)out);
    const V3 b(out[0], out[1], out[2]);
    c.expect(Dist(RefR(b), R) <= 4e-14 && (double)b.norm() <= M_PI * (1 + 1e-15), "rotation:r-to-aa", "gives %s, off by %g", vh::Str(b).c_str(), Dist(RefR(b), R));
  }
  // rotate a point, also in place
  B pt(3), out(3);
  for (int i = 0; i < 3; ++i) pt[i] = c.rng.any();
  const V3 pv(pt[0], pt[1], pt[2]), want = R * pv;
  ceres::AngleAxisRotatePoint((double*)in, (double*)pt, (double*)out);
  c.expect((double)(V3(out[0], out[1], out[2]) - want).norm() <= tol * 2 * (double)pv.norm() + 1e-300, "rotation:aa-rotate", "got %s want %s", vh::Str(V3(out[0], out[1], out[2])).c_str(), vh::Str(want).c_str());
  ceres::AngleAxisRotatePoint((double*)in, (double*)pt, (double*)pt);
  c.expect(pt[0] == out[0] && pt[1] == out[1] && pt[2] == out[2], "rotation:aa-rotate-in-place", "differs");
  // cross and dot
  const double x[3] = {c.rng.any(), c.rng.any(), c.rng.any()}, y[3] = {c.rng.any(), c.rng.any(), c.rng.any()};
  double xy[3];
  ceres::CrossProduct(x, y, xy);
  const V3 X(x[0], x[1], x[2]), Y(y[0], y[1], y[2]), W = X.cross(Y);
  c.expect((double)(V3(xy[0], xy[1], xy[2]) - W).norm() <= 4e-16 * (double)(X.norm() * Y.norm()) + 1e-300, "rotation:cross", "%s", vh::Str(W).c_str());
  c.expect(fabsl(ceres::DotProduct(x, y) - X.dot(Y)) <= 4e-16L * X.norm() * Y.norm() + 1e-300L, "rotation:dot", "off");
  // order conversions
  const std::array<double, 4> q = ceres::MakeQuaternion<Ceres>(1.0, 2.0, 3.0, 4.0);
  const std::array<double, 4> e = ceres::ConvertQuaternion<Eig, Ceres>(q);
  c.expect(e[Eig::kW] == 1 && e[Eig::kX] == 2 && e[Eig::kY] == 3 && e[Eig::kZ] == 4 && e[3] == 1 && ceres::ConvertQuaternion<Ceres, Eig>(e) == q && ceres::ConvertQuaternion<Eig, Eig>(e) == e && ceres::MakeQuaternion<Eig>(1.0, 2.0, 3.0, 4.0) == e, "rotation:order", "wrong");
}

// ---- Euler angles ----
struct Sys {
  const char* name;
  std::function<void(const double*, double*, bool)> to;    // row-major or column-major
  std::function<void(const double*, double*, bool)> from;
  std::function<void(const ceres::Jet<double, 3>*, ceres::Jet<double, 3>*)> jto, jfrom;
};
template <typename S> static Sys MakeSys(const char* n) {
  return {n,
          [](const double* e, double* R, bool col) {
            if (col) ceres::EulerAnglesToRotation<S>(e, ceres::ColumnMajorAdapter3x3(R));
            else ceres::EulerAnglesToRotation<S>(e, R);
          },
          [](const double* R, double* e, bool col) {
            if (col) ceres::RotationMatrixToEulerAngles<S>(ceres::ColumnMajorAdapter3x3(R), e);
            else ceres::RotationMatrixToEulerAngles<S>(R, e);
          },
          [](const ceres::Jet<double, 3>* e, ceres::Jet<double, 3>* R) { ceres::EulerAnglesToRotation<S>(e, R); },
          [](const ceres::Jet<double, 3>* R, ceres::Jet<double, 3>* e) { ceres::RotationMatrixToEulerAngles<S>(R, e); }};
}
#define S_(n) MakeSys<ceres::n>(#n)
static const std::vector<Sys>& Systems() {
  static const std::vector<Sys>* s = new std::vector<Sys>{
      S_(ExtrinsicXYZ), S_(ExtrinsicXYX), S_(ExtrinsicXZY), S_(ExtrinsicXZX), S_(ExtrinsicYZX), S_(ExtrinsicYZY), S_(ExtrinsicYXZ), S_(ExtrinsicYXY),
      S_(ExtrinsicZXY), S_(ExtrinsicZXZ), S_(ExtrinsicZYX), S_(ExtrinsicZYZ), S_(IntrinsicZYX), S_(IntrinsicXYX), S_(IntrinsicYZX), S_(IntrinsicXZX),
      S_(IntrinsicXZY), S_(IntrinsicYZY), S_(IntrinsicZXY), S_(IntrinsicYXY), S_(IntrinsicYXZ), S_(IntrinsicZXZ), S_(IntrinsicXYZ), S_(IntrinsicZYZ)};
  return *s;
}
static M3 RefEuler(const std::string& name, const V3& e) {
  const bool intrinsic = name[0] == 'I';
  const std::string ax = name.substr(9);
  const M3 A = Elem(ax[0] - 'X', e[0]), Bm = Elem(ax[1] - 'X', e[1]), C = Elem(ax[2] - 'X', e[2]);
  return intrinsic ? M3(A * Bm * C) : M3(C * Bm * A);
}
static void FamEuler(Case& c) {
  const Sys& s = Systems()[c.index % 24];
  const std::string name = s.name;
  const bool proper = name[9] == name[11];
  auto ang = [&] {
    switch (c.rng.range(0, 4)) {
      case 0: return c.rng.of({0.0, M_PI / 2, -M_PI / 2, M_PI, -M_PI, M_PI / 4});
      case 1: return c.rng.of({0.0, M_PI / 2, -M_PI / 2, M_PI}) + c.rng.mag(-18, -3);
      default: return c.rng.uni(-7, 7);
    }
  };
  B e(3), R(9), Rc(9), e2(3);
  for (int i = 0; i < 3; ++i) e[i] = ang();
  const int mode = c.rng.range(0, 2);
  if (mode == 1) e[1] = c.rng.of({0.0, M_PI / 2, -M_PI / 2, M_PI, -M_PI}) + (c.rng.chance(0.3) ? 0 : c.rng.mag(-18, -2));
  const V3 ev(e[0], e[1], e[2]);
  c.note("%s [%.17g %.17g %.17g]", s.name, e[0], e[1], e[2]);
  const LD lock = proper ? fabsl(sinl(ev[1])) : fabsl(cosl(ev[1]));
  c.sig(Fmt("%s %d %d %d lock%d", s.name, (int)std::floor(e[0]), (int)std::floor(e[1]), (int)std::floor(e[2]), lock < 1e-17 ? -99 : (int)std::floor(std::log10((double)lock))));
  const M3 want = RefEuler(name, ev);
  s.to(e, R, false);
  s.to(e, Rc, true);
  c.count("euler");
  c.expect(Dist(FromRow(R), want) <= 4e-15 * (1 + (double)ev.norm()), "rotation:euler-to-r", "off by %g", Dist(FromRow(R), want));
  c.expect(FromCol(Rc) == FromRow(R), "rotation:euler-layout", "layouts differ");
  // back, from the library's own matrix, from a rounded exact one, and from one built in
  // another representation
  for (int k = 0; k < 3; ++k) {
    B src(9);
    M3 r = k == 0 ? FromRow(R) : want;
    if (k == 2) {
      const Eigen::Matrix3d m = Eigen::Quaterniond(Eigen::Matrix3d(want.cast<double>())).normalized().toRotationMatrix();
      r = m.cast<LD>();
    }
    const bool col = c.rng.chance(0.5);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) src[col ? i + 3 * j : 3 * i + j] = (double)r(i, j);
    s.from(src, e2, col);
    const V3 b(e2[0], e2[1], e2[2]);
    c.count("euler-back");
    c.expect(Dist(RefEuler(name, b), r) <= 2e-7, "rotation:r-to-euler", "source %d: got %s, rotation off by %g, distance from lock %g", k, vh::Str(b).c_str(), Dist(RefEuler(name, b), r), (double)lock);
    const LD pi = M_PI * (1 + 1e-15L);
    c.expect(fabsl(b[0]) <= pi && fabsl(b[2]) <= pi && (proper ? b[1] >= 0 && b[1] <= pi : fabsl(b[1]) <= pi / 2), "rotation:r-to-euler-range", "%s", vh::Str(b).c_str());
  }
  // legacy degrees: roll about y, pitch about x, yaw about z
  B d(3), Rd(9), Rd2(9);
  for (int i = 0; i < 3; ++i) d[i] = e[i] * 180 / M_PI;
  ceres::EulerAnglesToRotationMatrix((double*)d, 3, (double*)Rd);
  const M3 dw = Elem(2, d[2] * M_PIl / 180) * Elem(1, d[1] * M_PIl / 180) * Elem(0, d[0] * M_PIl / 180);
  c.expect(Dist(FromRow(Rd), dw) <= 1e-14 * (1 + (double)ev.norm()), "rotation:euler-degrees", "off by %g", Dist(FromRow(Rd), dw));
  ceres::EulerAnglesToRotationMatrix((double*)d, ceres::ColumnMajorAdapter3x3((double*)Rd2));
  c.expect(FromCol(Rd2) == FromRow(Rd), "rotation:euler-degrees-layout", "layouts differ");
  // derivatives
  using J = ceres::Jet<double, 3>;
  J je[3], jR[9], jb[3];
  for (int i = 0; i < 3; ++i) je[i] = J(e[i], i);
  s.jto(je, jR);
  for (int p = 0; p < 3; ++p) {
    V3 u = ev, v = ev;
    const LD h = 1e-5L;
    u[p] += h;
    v[p] -= h;
    const M3 num = (RefEuler(name, u) - RefEuler(name, v)) / (2 * h);
    for (int i = 0; i < 9; ++i) c.expect(fabsl(jR[i].v[p] - num(i / 3, i % 3)) <= 1e-9L, "rotation:euler-jet", "entry %d wrt %d: %g want %Lg", i, p, jR[i].v[p], num(i / 3, i % 3));
  }
  if (lock > 1e-3) {
    s.jfrom(jR, jb);
    c.count("euler-jets");
    // jb are angles of the same rotation: R(jb(t)) = R(e(t)), so dR/db * db/de = dR/de
    const V3 b(jb[0].a, jb[1].a, jb[2].a);
    for (int p = 0; p < 3; ++p) {
      const LD h = 1e-5L;
      V3 db(jb[0].v[p], jb[1].v[p], jb[2].v[p]);
      const M3 num = (RefEuler(name, b + h * db) - RefEuler(name, b - h * db)) / (2 * h);
      for (int i = 0; i < 9; ++i) c.expect(fabsl(jR[i].v[p] - num(i / 3, i % 3)) <= 1e-6L, "rotation:r-to-euler-jet", "entry %d wrt %d: %g from %Lg", i, p, jR[i].v[p], num(i / 3, i % 3));
    }
  }
}

// ---- derivatives ----
template <int N> using J = ceres::Jet<double, N>;
template <typename F> static Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic> Num(const F& f, const Eigen::Matrix<LD, Eigen::Dynamic, 1>& x, LD h) {
  Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic> j;
  for (int p = 0; p < x.size(); ++p) {
    auto at = [&](LD k) { auto y = x; y[p] += k * h; return Eigen::Matrix<LD, Eigen::Dynamic, 1>(f(y)); };
    const Eigen::Matrix<LD, Eigen::Dynamic, 1> d = (8 * (at(1) - at(-1)) - (at(2) - at(-2))) / (12 * h);
    if (!p) j.resize(d.size(), x.size());
    j.col(p) = d;
  }
  return j;
}
template <typename O> static void JetsQ(Case& c, const std::string& on, const Eigen::Vector3d& aa, double tol) {
  using VX = Eigen::Matrix<LD, Eigen::Dynamic, 1>;
  J<3> a[3], q[4], R[9], b[3];
  for (int i = 0; i < 3; ++i) a[i] = J<3>(aa[i], i);
  ceres::AngleAxisToQuaternion<O>(a, q);
  const VX x = aa.cast<LD>();
  auto nq = Num([](const VX& y) { V4 v = RefQ(y); VX r = v; return r; }, x, 1e-4L);
  const int at[4] = {O::kW, O::kX, O::kY, O::kZ};
  for (int i = 0; i < 4; ++i)
    for (int p = 0; p < 3; ++p) c.expect(fabsl(q[at[i]].v[p] - nq(i, p)) <= tol, "rotation:jet-aa-to-q" + on, "entry %d wrt %d: %g want %Lg", i, p, q[at[i]].v[p], nq(i, p));
  ceres::QuaternionToRotation<O>(q, R);
  auto nR = Num([](const VX& y) { M3 m = RefR(y); VX r(9); for (int i = 0; i < 9; ++i) r[i] = m(i / 3, i % 3); return r; }, x, 1e-4L);
  for (int i = 0; i < 9; ++i)
    for (int p = 0; p < 3; ++p) c.expect(fabsl(R[i].v[p] - nR(i, p)) <= tol, "rotation:jet-q-to-r" + on, "entry %d wrt %d: %g want %Lg", i, p, R[i].v[p], nR(i, p));
  // both quaternions of the rotation lead back to the angle axis; the derivative along the
  // rotation must agree with R's
  for (int s = 0; s < 2; ++s) {
    J<3> qq[4];
    for (int i = 0; i < 4; ++i) qq[i] = s ? -q[i] : q[i];
    ceres::QuaternionToAngleAxis<O>(qq, b);
    const V3 bv(b[0].a, b[1].a, b[2].a);
    for (int p = 0; p < 3; ++p) {
      const V3 db(b[0].v[p], b[1].v[p], b[2].v[p]);
      if (!c.expect(std::isfinite((double)db.sum()), "rotation:jet-q-to-aa-finite" + on, "derivative %s", vh::Str(db).c_str())) continue;
      const LD h = 1e-5L;
      const M3 num = (RefR(bv + h * db) - RefR(bv - h * db)) / (2 * h);
      for (int i = 0; i < 9; ++i)
        if (!c.expect(fabsl(num(i / 3, i % 3) - nR(i, p)) <= tol * 10 + 1e-7, "rotation:jet-q-to-aa" + on, "sign %d entry %d wrt %d: %Lg want %Lg", s, i, p, num(i / 3, i % 3), nR(i, p))) break;
    }
  }
  // matrix to quaternion, through the rotation
  J<3> Rm[9], q2[4];
  for (int i = 0; i < 9; ++i) {
    const M3 r = RefR(aa.cast<LD>());
    Rm[i].a = (double)r(i / 3, i % 3);
    for (int p = 0; p < 3; ++p) Rm[i].v[p] = (double)nR(i, p);
  }
  ceres::RotationMatrixToQuaternion<O>(ceres::MatrixAdapter<const J<3>, 3, 1>(Rm), q2);
  LD sgn = 0;
  const V4 q0 = RefQ(aa.cast<LD>());
  for (int i = 0; i < 4; ++i) sgn += q2[at[i]].a * q0[i];
  sgn = sgn > 0 ? 1 : -1;
  for (int i = 0; i < 4; ++i)
    for (int p = 0; p < 3; ++p) c.expect(fabsl(q2[at[i]].v[p] - sgn * nq(i, p)) <= tol * 10 + 1e-8, "rotation:jet-r-to-q" + on, "entry %d wrt %d: %g want %Lg, trace %g", i, p, q2[at[i]].v[p], sgn * nq(i, p), Rm[0].a + Rm[4].a + Rm[8].a);
  c.count("jets", 5);
}
static void FamJets(Case& c) {
  using VX = Eigen::Matrix<LD, Eigen::Dynamic, 1>;
  const Eigen::Vector3d axis = RandAxis(c.rng);
  double angle = RandAngle(c.rng);
  const Eigen::Vector3d aa = axis * angle;
  c.note("angle axis [%.17g %.17g %.17g]", aa[0], aa[1], aa[2]);
  c.sig(Fmt("jet mag%d %d%d%d", angle == 0 ? -99 : (int)std::floor(std::log10(angle)), aa[0] == 0, aa[1] == 0, aa[2] == 0));
  const double tol = 1e-10 * (1 + angle);
  JetsQ<Ceres>(c, "", aa, tol);
  JetsQ<Eig>(c, ":eigen-order", aa, tol);
  const VX x = aa.cast<LD>();
  J<3> a[3], R[9], b[3];
  for (int i = 0; i < 3; ++i) a[i] = J<3>(aa[i], i);
  ceres::AngleAxisToRotationMatrix(a, ceres::RowMajorAdapter3x3(R));
  auto nR = Num([](const VX& y) { M3 m = RefR(y); VX r(9); for (int i = 0; i < 9; ++i) r[i] = m(i / 3, i % 3); return r; }, x, 1e-4L);
  for (int i = 0; i < 9; ++i)
    for (int p = 0; p < 3; ++p) c.expect(fabsl(R[i].v[p] - nR(i, p)) <= tol + 5e-8, "rotation:jet-aa-to-r", "entry %d wrt %d: %g want %Lg", i, p, R[i].v[p], nR(i, p));
  if (angle < 3.1 && angle > 0) {
    for (int i = 0; i < 9; ++i) for (int p = 0; p < 3; ++p) R[i].v[p] = (double)nR(i, p);
    ceres::RotationMatrixToAngleAxis(ceres::MatrixAdapter<const J<3>, 3, 1>(R), b);
    for (int i = 0; i < 3; ++i)
      for (int p = 0; p < 3; ++p) c.expect(std::fabs(b[i].v[p] - (i == p)) <= 1e-6, "rotation:jet-r-to-aa", "d%d/d%d = %.12g", i, p, b[i].v[p]);
  }
  J<6> w[3], pt[3], out[3];
  VX y(6);
  for (int i = 0; i < 3; ++i) {
    w[i] = J<6>(aa[i], i);
    pt[i] = J<6>(c.rng.uni(-3, 3), 3 + i);
    y[i] = aa[i];
    y[3 + i] = pt[i].a;
  }
  ceres::AngleAxisRotatePoint(w, pt, out);
  auto nP = Num([](const VX& z) { VX r = RefR(z.head(3)) * z.tail(3); return r; }, y, 1e-4L);
  for (int i = 0; i < 3; ++i)
    for (int p = 0; p < 6; ++p) c.expect(fabsl(out[i].v[p] - nP(i, p)) <= tol * 10 + 5e-7, "rotation:jet-aa-rotate", "entry %d wrt %d: %g want %Lg", i, p, out[i].v[p], nP(i, p));
  // rotating by a non-unit quaternion, all seven inputs
  J<7> q[4], p7[3], o7[3];
  VX z(7);
  for (int i = 0; i < 4; ++i) { z[i] = c.rng.normal(); q[i] = J<7>((double)z[i], i); z[i] = q[i].a; }
  for (int i = 0; i < 3; ++i) { p7[i] = J<7>(c.rng.uni(-3, 3), 4 + i); z[4 + i] = p7[i].a; }
  if (z.head(4).norm() > 0.1) {
    ceres::QuaternionRotatePoint(q, p7, o7);
    auto nq = Num([](const VX& u) { V4 v = u.head(4); VX r = RefRq(v) / v.squaredNorm() * u.tail(3); return r; }, z, 1e-5L);
    for (int i = 0; i < 3; ++i)
      for (int p = 0; p < 7; ++p) c.expect(fabsl(o7[i].v[p] - nq(i, p)) <= 1e-8L * (1 + fabsl(nq(i, p))), "rotation:jet-q-rotate", "entry %d wrt %d: %g want %Lg", i, p, o7[i].v[p], nq(i, p));
  }
}

// Single precision takes the same paths.
static void FamFloat(Case& c) {
  const Eigen::Vector3d axis = RandAxis(c.rng);
  const double angle = c.rng.chance(0.2) ? c.rng.of({0.0, M_PI, 1e-10, 1e-4}) : c.rng.uni(0, M_PI);
  const Eigen::Vector3f aa = (axis * angle).cast<float>();
  const M3 R = RefR(aa.cast<LD>());
  float q[4], Rf[9], b[3], pt[3] = {1, -2, 3}, out[3];
  auto dist = [&](const float* m) { LD s = 0; for (int i = 0; i < 9; ++i) s += fabsl(m[i] - R(i % 3, i / 3)); return (double)s; };
  ceres::AngleAxisToRotationMatrix(aa.data(), Rf);
  c.expect(dist(Rf) < 1e-5, "rotation:float:aa-to-r", "off by %g", dist(Rf));
  ceres::RotationMatrixToQuaternion(Rf, q);
  c.expect(Dist(RefRq(V4(q[0], q[1], q[2], q[3])), R) < 1e-5, "rotation:float:r-to-q", "off");
  ceres::RotationMatrixToAngleAxis(Rf, b);
  c.expect(Dist(RefR(V3(b[0], b[1], b[2])), R) < 1e-5, "rotation:float:r-to-aa", "off");
  ceres::AngleAxisRotatePoint(aa.data(), pt, out);
  c.expect((double)(R * V3(1, -2, 3) - V3(out[0], out[1], out[2])).norm() < 1e-5, "rotation:float:rotate", "off");
  c.count("float");
  c.sig(Fmt("float %d%d%d %d", aa[0] == 0, aa[1] == 0, aa[2] == 0, (int)(angle * 4)));
}

VH_MAIN({"convert", FamConvert, 20000}, {"euler", FamEuler, 12000}, {"jets", FamJets, 6000}, {"float", FamFloat, 1000})
