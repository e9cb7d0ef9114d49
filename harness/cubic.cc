// C08: cubic and bicubic interpolation against an independent Catmull-Rom reference.
#include <memory>

#include "ceres/cubic_interpolation.h"
#include "ceres/jet.h"
#include "vh.h"

using vh::Case;
using vh::Fmt;
using ld = long double;

namespace {

// A grid of integers clamped to [b, e), by logical coordinate; the reference.
template <typename T>
T RandomValue(vh::Rng& r) {
  if constexpr (std::is_same_v<T, unsigned char>) return static_cast<T>(r.range(0, 255));
  else if constexpr (std::is_same_v<T, int>) return static_cast<T>(r.range(-100000, 100000));
  else if constexpr (std::is_same_v<T, short>) return static_cast<T>(r.range(-30000, 30000));
  else return static_cast<T>(r.chance(0.1) ? r.mag(-6, 6) : r.uni(-3, 3));
}

// Hermite basis with Catmull-Rom tangents, derivative order d (0..2).
ld Spline(ld p0, ld p1, ld p2, ld p3, ld t, int d) {
  const ld m1 = (p2 - p0) / 2, m2 = (p3 - p1) / 2;
  ld h00, h10, h01, h11;
  if (d == 0) {
    h00 = 2 * t * t * t - 3 * t * t + 1; h10 = t * t * t - 2 * t * t + t;
    h01 = -2 * t * t * t + 3 * t * t;    h11 = t * t * t - t * t;
  } else {
    h00 = 6 * t * t - 6 * t; h10 = 3 * t * t - 4 * t + 1;
    h01 = -6 * t * t + 6 * t; h11 = 3 * t * t - 2 * t;
  }
  return h00 * p1 + h10 * m1 + h01 * p2 + h11 * m2;
}
int Clamp(long long v, int b, int e) { return static_cast<int>(v < b ? b : v >= e ? e - 1 : v); }

double RandomX(vh::Rng& r, int b, int e, int* cls) {
  *cls = r.range(0, 9);
  switch (*cls) {
    case 0: return r.range(b, e - 1);
    case 1: return b - r.uni(0, 3);
    case 2: return e - 1 + r.uni(0, 3);
    case 3: { const double k = r.range(b - 2, e + 2); return std::nextafter(k, r.chance(0.5) ? 1e9 : -1e9); }
    case 4: return r.chance(0.5) ? b - r.uni(3, 1e5) : e + r.uni(3, 1e5);
    case 5: return r.range(b - 4, e + 3);
    case 6: return r.range(b - 1, e) + r.mag(-12, -6);
    case 7: return r.range(b - 1, e) + 0.5;
    default: return r.uni(b, e - 1);
  }
}

template <typename T, int D, bool I>
void Run1(Case& c) {
  auto& r = c.rng;
  const int n = r.chance(0.3) ? r.range(1, 3) : r.range(1, 20);
  const int b = r.chance(0.4) ? 0 : r.chance(0.1) ? r.range(-1000000, 1000000) : r.range(-30, 30), e = b + n;
  std::unique_ptr<T[]> data(new T[static_cast<size_t>(n) * D]);
  std::vector<T> logical(static_cast<size_t>(n) * D);  // [i*D+d]
  const int degree = r.chance(0.5) ? -1 : r.range(0, 2);
  ld coef[4][3];
  for (int d = 0; d < D; ++d)
    for (int k = 0; k < 3; ++k) coef[d][k] = r.range(-4, 4);
  const bool poly = degree >= 0 && n >= 4 && !std::is_same_v<T, unsigned char> && std::abs(b) < 100 && !std::is_same_v<T, short>;
  auto P = [&](int d, ld x) { ld s = 0; for (int k = degree; k >= 0; --k) s = s * x + coef[d][k]; return s; };
  auto DP = [&](int d, ld x) { ld s = 0; for (int k = degree; k >= 1; --k) s = s * x + k * coef[d][k]; return s; };
  ld scale = 1;
  for (int i = 0; i < n; ++i)
    for (int d = 0; d < D; ++d) {
      const T v = poly ? static_cast<T>(P(d, i + b)) : RandomValue<T>(r);
      logical[i * D + d] = v;
      data[I ? i * D + d : d * n + i] = v;
      scale = std::max<ld>(scale, fabsl(static_cast<ld>(v)));
    }
  c.note("1d dim %d %s n %d begin %d T%zu%s poly %d", D, I ? "interleaved" : "stacked", n, b, sizeof(T), std::is_floating_point_v<T> ? "f" : "i", poly ? degree : -1);
  ceres::Grid1D<T, D, I> grid(data.get(), b, e);
  ceres::CubicInterpolator<ceres::Grid1D<T, D, I>> interp(grid);
  using G = ceres::Grid1D<T, D, I>;
  static_assert(G::DATA_DIMENSION == D);
  auto at = [&](long long i, int d) { return static_cast<ld>(logical[static_cast<size_t>(Clamp(i, b, e) - b) * D + d]); };
  const ld tol = 64 * scale * 2.3e-16L;
  for (int rep = 0; rep < 6; ++rep) {
    int cls;
    const double x = RandomX(r, b, e, &cls);
    const long long k = static_cast<long long>(std::floor(x));
    const ld t = static_cast<ld>(x) - k;
    // the library forms x - n in double, which is exact
    std::unique_ptr<double[]> f(new double[D]), df(new double[D]), f1(new double[D]), df1(new double[D]), f2(new double[D]);
    interp.Evaluate(x, f.get(), df.get());
    interp.Evaluate(x, f1.get(), static_cast<double*>(nullptr));
    interp.Evaluate(x, static_cast<double*>(nullptr), df1.get());
    interp.Evaluate(x, f2.get());
    c.count("evaluate-1d");
    const int where = x < b ? 0 : x > e - 1 ? 2 : 1;
    c.sig(Fmt("1/%d/%d/%zu/%d/%d/%d/%d", D, I, sizeof(T), std::min(n, 5), cls, where, t == 0));
    for (int d = 0; d < D; ++d) {
      const ld rf = Spline(at(k - 1, d), at(k, d), at(k + 1, d), at(k + 2, d), t, 0);
      const ld rd = Spline(at(k - 1, d), at(k, d), at(k + 1, d), at(k + 2, d), t, 1);
      if (!c.expect(fabsl(f[d] - rf) <= tol, "value-1d", "x %.17g component %d: %.17g, reference %.17Lg", x, d, f[d], rf)) return;
      if (!c.expect(fabsl(df[d] - rd) <= 4 * tol, "derivative-1d", "x %.17g component %d: %.17g, reference %.17Lg", x, d, df[d], rd)) return;
      if (!c.expect(f1[d] == f[d] && f2[d] == f[d] && df1[d] == df[d], "request-1d", "x %.17g component %d: value %.17g/%.17g/%.17g derivative %.17g/%.17g depend on the request", x, d, f[d], f1[d], f2[d], df[d], df1[d])) return;
      if (t == 0) {
        c.count("grid-point");
        if (!c.expect(f[d] == static_cast<double>(at(k, d)), "grid-value-1d", "x %.17g component %d: %.17g, sample %.17Lg", x, d, f[d], at(k, d))) return;
      }
      if (x <= b - 2 || x >= e + 1) {
        c.count("clamped");
        if (!c.expect(fabsl(f[d] - at(k, d)) <= tol && fabsl(df[d]) <= tol, "outside-1d", "x %.17g component %d: %.17g slope %.17g, edge %.17Lg", x, d, f[d], df[d], at(k, d))) return;
      }
      if (poly && x >= b + 1 && x <= e - 2) {
        c.count("polynomial");
        if (!c.expect(fabsl(f[d] - P(d, x)) <= 4 * tol && fabsl(df[d] - DP(d, x)) <= 16 * tol, "polynomial-1d", "x %.17g component %d: %.17g slope %.17g, polynomial of degree %d %.17Lg %.17Lg", x, d, f[d], df[d], degree, P(d, x), DP(d, x))) return;
      }
    }
    // continuity of value and slope across the nearest knot
    {
      const double knot = std::nearbyint(x);
      const double lo = std::nextafter(knot, -1e300), hi = std::nextafter(knot, 1e300);
      std::unique_ptr<double[]> a(new double[D]), da(new double[D]), q(new double[D]), dq(new double[D]);
      interp.Evaluate(lo, a.get(), da.get());
      interp.Evaluate(hi, q.get(), dq.get());
      c.count("knot-crossing");
      const ld w = static_cast<ld>(hi) - lo;
      for (int d = 0; d < D; ++d)
        if (!c.expect(fabsl((ld)a[d] - q[d]) <= 4 * tol + 16 * scale * w && fabsl((ld)da[d] - dq[d]) <= 8 * tol + 64 * scale * w, "smooth-1d", "around %.17g component %d: %.17g|%.17g slope %.17g|%.17g", knot, d, a[d], q[d], da[d], dq[d])) return;
    }
    // Jets
    {
      using J = ceres::Jet<double, 3>;
      J jx;
      jx.a = x;
      for (int k2 = 0; k2 < 3; ++k2) jx.v[k2] = r.uni(-2, 2);
      std::unique_ptr<J[]> jf(new J[D]);
      interp.Evaluate(jx, jf.get());
      c.count("jet");
      for (int d = 0; d < D; ++d) {
        bool ok = jf[d].a == f[d];
        for (int k2 = 0; k2 < 3; ++k2) ok &= fabsl(jf[d].v[k2] - static_cast<ld>(df[d]) * jx.v[k2]) <= 8 * tol;
        if (!c.expect(ok, "jet-1d", "x %.17g component %d: %.17g, plain %.17g; dv %.17g, slope %.17g times %.17g", x, d, jf[d].a, f[d], jf[d].v[0], df[d], jx.v[0])) return;
      }
    }
    // GetValue itself, also far outside
    {
      const int q = r.chance(0.2) ? r.of({std::numeric_limits<int>::min(), std::numeric_limits<int>::max()}) : static_cast<int>(k);
      std::unique_ptr<double[]> v(new double[D]);
      grid.GetValue(q, v.get());
      for (int d = 0; d < D; ++d)
        if (!c.expect(v[d] == static_cast<double>(at(q, d)), "getvalue-1d", "index %d component %d: %.17g, sample %.17Lg", q, d, v[d], at(q, d))) return;
    }
  }
  for (int i = 0; i < n; ++i)
    for (int d = 0; d < D; ++d)
      if (!c.expect(data[I ? i * D + d : d * n + i] == logical[i * D + d], "data-changed", "sample %d", i)) return;
}

template <typename T, int D, bool RM, bool I>
void Run2(Case& c) {
  auto& r = c.rng;
  const int nr = r.chance(0.3) ? r.range(1, 3) : r.range(1, 9), nc = r.chance(0.3) ? r.range(1, 3) : r.range(1, 9);
  const int rb = r.chance(0.4) ? 0 : r.range(-30, 30), cb = r.chance(0.4) ? 0 : r.range(-30, 30), re = rb + nr, ce = cb + nc;
  const size_t N = static_cast<size_t>(nr) * nc;
  std::unique_ptr<T[]> data(new T[N * D]);
  std::vector<T> logical(N * D);
  const bool poly = r.chance(0.4) && nr >= 4 && nc >= 4 && (std::is_floating_point_v<T> || sizeof(T) == 4);
  // products of degree <= 2 in each variable
  const int deg_r = r.range(0, 2), deg_c = r.range(0, 2);
  ld cr[4][3], cc[4][3];
  for (int d = 0; d < D; ++d)
    for (int k = 0; k < 3; ++k) cr[d][k] = r.range(-2, 2), cc[d][k] = r.range(-2, 2);
  auto P = [](const ld* q, int deg, ld x) { ld s = 0; for (int k = deg; k >= 0; --k) s = s * x + q[k]; return s; };
  auto DP = [](const ld* q, int deg, ld x) { ld s = 0; for (int k = deg; k >= 1; --k) s = s * x + k * q[k]; return s; };
  // the polynomial is in coordinates relative to the corner, to keep it exact in T
  ld scale = 1;
  auto slot = [&](int i, int j, int d) { const size_t n = RM ? static_cast<size_t>(i) * nc + j : static_cast<size_t>(j) * nr + i; return I ? n * D + d : d * N + n; };
  for (int i = 0; i < nr; ++i)
    for (int j = 0; j < nc; ++j)
      for (int d = 0; d < D; ++d) {
        const T v = poly ? static_cast<T>(P(cr[d], deg_r, i) * P(cc[d], deg_c, j)) : RandomValue<T>(r);
        logical[(static_cast<size_t>(i) * nc + j) * D + d] = v;
        data[slot(i, j, d)] = v;
        scale = std::max<ld>(scale, fabsl(static_cast<ld>(v)));
      }
  c.note("2d dim %d %s %s %dx%d begin %d,%d T%zu poly %d", D, RM ? "row" : "col", I ? "interleaved" : "stacked", nr, nc, rb, cb, sizeof(T), poly);
  using G = ceres::Grid2D<T, D, RM, I>;
  static_assert(G::DATA_DIMENSION == D);
  G grid(data.get(), rb, re, cb, ce);
  ceres::BiCubicInterpolator<G> interp(grid);
  auto at = [&](long long i, long long j, int d) {
    return static_cast<ld>(logical[(static_cast<size_t>(Clamp(i, rb, re) - rb) * nc + (Clamp(j, cb, ce) - cb)) * D + d]);
  };
  const ld tol = 256 * scale * 2.3e-16L;
  auto ref = [&](double x, double y, int d, int dx, int dy) {
    const long long i = static_cast<long long>(std::floor(x)), j = static_cast<long long>(std::floor(y));
    ld row[4];
    // the other order from the library's: columns first
    for (int q = 0; q < 4; ++q) row[q] = Spline(at(i - 1, j - 1 + q, d), at(i, j - 1 + q, d), at(i + 1, j - 1 + q, d), at(i + 2, j - 1 + q, d), (ld)x - i, dx);
    return Spline(row[0], row[1], row[2], row[3], (ld)y - j, dy);
  };
  for (int rep = 0; rep < 5; ++rep) {
    int c1, c2;
    const double x = RandomX(r, rb, re, &c1), y = RandomX(r, cb, ce, &c2);
    std::unique_ptr<double[]> f(new double[D]), fr(new double[D]), fc(new double[D]);
    interp.Evaluate(x, y, f.get(), fr.get(), fc.get());
    c.count("evaluate-2d");
    c.sig(Fmt("2/%d/%d/%d/%zu/%d/%d/%d/%d", D, RM, I, sizeof(T), std::min(nr, 4), std::min(nc, 4), c1, c2));
    for (int d = 0; d < D; ++d) {
      const ld a = ref(x, y, d, 0, 0), ar = ref(x, y, d, 1, 0), ac = ref(x, y, d, 0, 1);
      if (!c.expect(fabsl(f[d] - a) <= tol, "value-2d", "(%.17g,%.17g) component %d: %.17g, reference %.17Lg", x, y, d, f[d], a)) return;
      if (!c.expect(fabsl(fr[d] - ar) <= 4 * tol, "derivative-row", "(%.17g,%.17g) component %d: %.17g, reference %.17Lg", x, y, d, fr[d], ar)) return;
      if (!c.expect(fabsl(fc[d] - ac) <= 4 * tol, "derivative-column", "(%.17g,%.17g) component %d: %.17g, reference %.17Lg", x, y, d, fc[d], ac)) return;
      if (x == std::floor(x) && y == std::floor(y)) {
        c.count("grid-point");
        if (!c.expect(f[d] == static_cast<double>(at((long long)x, (long long)y, d)), "grid-value-2d", "(%.17g,%.17g) component %d: %.17g, sample %.17Lg", x, y, d, f[d], at((long long)x, (long long)y, d))) return;
      }
      if (poly && x >= rb + 1 && x <= re - 2 && y >= cb + 1 && y <= ce - 2) {
        c.count("polynomial");
        const ld u = (ld)x - rb, v = (ld)y - cb;
        if (!c.expect(fabsl(f[d] - P(cr[d], deg_r, u) * P(cc[d], deg_c, v)) <= 4 * tol && fabsl(fr[d] - DP(cr[d], deg_r, u) * P(cc[d], deg_c, v)) <= 16 * tol &&
                          fabsl(fc[d] - P(cr[d], deg_r, u) * DP(cc[d], deg_c, v)) <= 16 * tol,
                      "polynomial-2d", "(%.17g,%.17g) component %d", x, y, d))
          return;
      }
      // beyond the influence of the grid nothing varies
      if (x <= rb - 2 || x >= re + 1) {
        c.count("clamped");
        if (!c.expect(fabsl(fr[d]) <= tol, "outside-2d", "row slope %.17g at row %.17g", fr[d], x)) return;
      }
    }
    for (int mask = 0; mask < 8; ++mask) {
      std::unique_ptr<double[]> q(new double[D]), qr(new double[D]), qc(new double[D]);
      interp.Evaluate(x, y, mask & 1 ? q.get() : nullptr, mask & 2 ? qr.get() : nullptr, mask & 4 ? qc.get() : nullptr);
      for (int d = 0; d < D; ++d)
        if (!c.expect((!(mask & 1) || q[d] == f[d]) && (!(mask & 2) || qr[d] == fr[d]) && (!(mask & 4) || qc[d] == fc[d]), "request-2d", "outputs depend on the request %d", mask)) return;
    }
    {
      // smoothness across the nearest corner, along both axes
      const double kx = std::nearbyint(x), ky = std::nearbyint(y);
      for (int axis = 0; axis < 2; ++axis) {
        const double lo = std::nextafter(axis ? ky : kx, -1e300), hi = std::nextafter(axis ? ky : kx, 1e300);
        double A[3][4], B[3][4];
        axis ? interp.Evaluate(x, lo, A[0], A[1], A[2]) : interp.Evaluate(lo, y, A[0], A[1], A[2]);
        axis ? interp.Evaluate(x, hi, B[0], B[1], B[2]) : interp.Evaluate(hi, y, B[0], B[1], B[2]);
        c.count("knot-crossing");
        for (int d = 0; d < D; ++d)
          for (int k = 0; k < 3; ++k)
            if (!c.expect(fabsl((ld)A[k][d] - B[k][d]) <= 16 * tol + 256 * scale * ((ld)hi - lo), "smooth-2d", "axis %d around (%.17g,%.17g) output %d: %.17g|%.17g", axis, kx, ky, k, A[k][d], B[k][d])) return;
      }
    }
    {
      using J = ceres::Jet<double, 2>;
      J jx(x, 0), jy(y, 1);
      if (r.chance(0.5)) for (int k = 0; k < 2; ++k) jx.v[k] = r.uni(-2, 2), jy.v[k] = r.uni(-2, 2);
      std::unique_ptr<J[]> jf(new J[D]);
      interp.Evaluate(jx, jy, jf.get());
      c.count("jet");
      for (int d = 0; d < D; ++d) {
        bool ok = jf[d].a == f[d];
        for (int k = 0; k < 2; ++k) ok &= fabsl(jf[d].v[k] - ((ld)fr[d] * jx.v[k] + (ld)fc[d] * jy.v[k])) <= 16 * tol;
        if (!c.expect(ok, "jet-2d", "(%.17g,%.17g) component %d", x, y, d)) return;
      }
      double plain[4];
      interp.Evaluate(x, y, plain);
      for (int d = 0; d < D; ++d)
        if (!c.expect(plain[d] == f[d], "request-2d", "two-argument form %.17g, %.17g", plain[d], f[d])) return;
    }
    {
      const int i = r.range(rb - 5, re + 5), j = r.range(cb - 5, ce + 5);
      std::unique_ptr<double[]> v(new double[D]);
      grid.GetValue(i, j, v.get());
      for (int d = 0; d < D; ++d)
        if (!c.expect(v[d] == static_cast<double>(at(i, j, d)), "getvalue-2d", "(%d,%d) component %d: %.17g, sample %.17Lg", i, j, d, v[d], at(i, j, d))) return;
    }
  }
}

template <typename T, int D>
void Any1(Case& c) { c.rng.chance(0.5) ? Run1<T, D, true>(c) : Run1<T, D, false>(c); }
template <typename T, int D>
void Any2(Case& c) {
  switch (c.rng.range(0, 3)) {
    case 0: return Run2<T, D, true, true>(c);
    case 1: return Run2<T, D, true, false>(c);
    case 2: return Run2<T, D, false, true>(c);
    default: return Run2<T, D, false, false>(c);
  }
}

void OneD(Case& c) {
  switch (c.rng.range(0, 8)) {
    case 0: return Any1<double, 1>(c);
    case 1: return Any1<double, 2>(c);
    case 2: return Any1<double, 3>(c);
    case 3: return Any1<double, 4>(c);
    case 4: return Any1<float, 1>(c);
    case 5: return Any1<int, 2>(c);
    case 6: return Any1<unsigned char, 3>(c);
    case 7: return Any1<short, 1>(c);
    default: return Any1<double, 1>(c);
  }
}
void TwoD(Case& c) {
  switch (c.rng.range(0, 6)) {
    case 0: return Any2<double, 1>(c);
    case 1: return Any2<double, 2>(c);
    case 2: return Any2<double, 3>(c);
    case 3: return Any2<double, 4>(c);
    case 4: return Any2<float, 2>(c);
    case 5: return Any2<unsigned char, 3>(c);
    default: return Any2<int, 1>(c);
  }
}

}  // namespace

VH_MAIN({"one-d", OneD, 6000}, {"two-d", TwoD, 6000})
