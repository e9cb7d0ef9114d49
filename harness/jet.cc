// C01: Jet arithmetic.  Reference: a long-double dual number D written here from
// the calculus definitions, which also carries a running bound on the error a
// double (or float) evaluation may have.
#include "vh.h"

#include <functional>

#include "Eigen/Dense"
#include "ceres/jet.h"

using ceres::Jet;
using LD = long double;
using vh::Case;
using vh::Fmt;

static constexpr int kMaxN = 8;

struct D {
  LD a = 0;
  LD v[kMaxN] = {0};
  LD ea = 0;          // error bound on a, in absolute terms
  LD ev[kMaxN] = {0}; // error bounds on v
};

static int gN = 1;
static LD gEps = std::numeric_limits<double>::epsilon();

static D Const(LD x) { D d; d.a = x; return d; }

struct U {
  const char* name;
  LD (*f)(LD);
  LD (*df)(LD);
  // is x comfortably inside the domain?
  bool (*ok)(LD);
  // relative error a library evaluation may have, in eps
  LD slack;
};
static bool All(LD x) { return fabsl(x) < 1e6L; }
static bool Small(LD x) { return fabsl(x) < 30; }
static bool Pos(LD x) { return x > 1e-12L && x < 1e9L; }
static const LD kPiL = 3.14159265358979323846264338327950288L;

static LD J(int n, LD x) { return jnl(n, x); }
static const U kUnary[] = {
    {"neg", [](LD x) { return -x; }, [](LD) { return -1.0L; }, All, 1},
    {"plus", [](LD x) { return x; }, [](LD) { return 1.0L; }, All, 1},
    {"abs", [](LD x) { return fabsl(x); }, [](LD x) { return x > 0 ? 1.0L : -1.0L; }, [](LD x) { return fabsl(x) > 1e-9L && fabsl(x) < 1e9L; }, 1},
    {"log", [](LD x) { return logl(x); }, [](LD x) { return 1 / x; }, Pos, 4},
    {"log10", [](LD x) { return log10l(x); }, [](LD x) { return 1 / (x * logl(10)); }, Pos, 4},
    {"log2", [](LD x) { return log2l(x); }, [](LD x) { return 1 / (x * logl(2)); }, Pos, 4},
    {"log1p", [](LD x) { return log1pl(x); }, [](LD x) { return 1 / (1 + x); }, [](LD x) { return x > -0.999L && x < 1e9L; }, 4},
    {"exp", [](LD x) { return expl(x); }, [](LD x) { return expl(x); }, Small, 4},
    {"exp2", [](LD x) { return exp2l(x); }, [](LD x) { return exp2l(x) * logl(2); }, Small, 4},
    {"expm1", [](LD x) { return expm1l(x); }, [](LD x) { return expl(x); }, [](LD x) { return x > -5 && x < 30; }, 300},
    {"sqrt", [](LD x) { return sqrtl(x); }, [](LD x) { return 1 / (2 * sqrtl(x)); }, Pos, 4},
    {"cbrt", [](LD x) { return cbrtl(x); }, [](LD x) { return 1 / (3 * cbrtl(x) * cbrtl(x)); }, [](LD x) { return fabsl(x) > 1e-6L && fabsl(x) < 1e9L; }, 6},
    {"cos", [](LD x) { return cosl(x); }, [](LD x) { return -sinl(x); }, [](LD x) { return fabsl(x) < 1e4L; }, 4},
    {"sin", [](LD x) { return sinl(x); }, [](LD x) { return cosl(x); }, [](LD x) { return fabsl(x) < 1e4L; }, 4},
    {"tan", [](LD x) { return tanl(x); }, [](LD x) { return 1 / (cosl(x) * cosl(x)); }, [](LD x) { return fabsl(x) < 1e3L && fabsl(cosl(x)) > 1e-2L; }, 8},
    {"acos", [](LD x) { return acosl(x); }, [](LD x) { return -1 / sqrtl(1 - x * x); }, [](LD x) { return fabsl(x) < 0.999L; }, 4000},
    {"asin", [](LD x) { return asinl(x); }, [](LD x) { return 1 / sqrtl(1 - x * x); }, [](LD x) { return fabsl(x) < 0.999L; }, 4000},
    {"atan", [](LD x) { return atanl(x); }, [](LD x) { return 1 / (1 + x * x); }, All, 6},
    {"sinh", [](LD x) { return sinhl(x); }, [](LD x) { return coshl(x); }, Small, 6},
    {"cosh", [](LD x) { return coshl(x); }, [](LD x) { return sinhl(x); }, Small, 6},
    {"tanh", [](LD x) { return tanhl(x); }, [](LD x) { return 1 / (coshl(x) * coshl(x)); }, [](LD x) { return fabsl(x) < 3; }, 500},
    {"floor", [](LD x) { return floorl(x); }, [](LD) { return 0.0L; }, [](LD x) { return fabsl(x - roundl(x)) > 1e-3L && fabsl(x) < 1e6L; }, 1},
    {"ceil", [](LD x) { return ceill(x); }, [](LD) { return 0.0L; }, [](LD x) { return fabsl(x - roundl(x)) > 1e-3L && fabsl(x) < 1e6L; }, 1},
    {"erf", [](LD x) { return erfl(x); }, [](LD x) { return 2 / sqrtl(kPiL) * expl(-x * x); }, [](LD x) { return fabsl(x) < 4; }, 40},
    {"erfc", [](LD x) { return erfcl(x); }, [](LD x) { return -2 / sqrtl(kPiL) * expl(-x * x); }, [](LD x) { return fabsl(x) < 4; }, 40},
    {"norm", [](LD x) { return x * x; }, [](LD x) { return 2 * x; }, All, 4},
    {"BesselJ0", [](LD x) { return J(0, x); }, [](LD x) { return -J(1, x); }, [](LD x) { return x > 0.05L && x < 30; }, 1e5L},
    {"BesselJ1", [](LD x) { return J(1, x); }, [](LD x) { return (J(0, x) - J(2, x)) / 2; }, [](LD x) { return x > 0.05L && x < 30; }, 1e5L},
    {"BesselJ3", [](LD x) { return J(3, x); }, [](LD x) { return (J(2, x) - J(4, x)) / 2; }, [](LD x) { return x > 0.05L && x < 30; }, 1e5L},
};
static constexpr int kNumUnary = sizeof(kUnary) / sizeof(kUnary[0]);

template <typename T>
T Unary(int op, const T& x) {
  using namespace ceres;
  switch (op) {
    case 0: return -x;
    case 1: return +x;
    case 2: return abs(x);
    case 3: return log(x);
    case 4: return log10(x);
    case 5: return log2(x);
    case 6: return log1p(x);
    case 7: return exp(x);
    case 8: return exp2(x);
    case 9: return expm1(x);
    case 10: return sqrt(x);
    case 11: return cbrt(x);
    case 12: return cos(x);
    case 13: return sin(x);
    case 14: return tan(x);
    case 15: return acos(x);
    case 16: return asin(x);
    case 17: return atan(x);
    case 18: return sinh(x);
    case 19: return cosh(x);
    case 20: return tanh(x);
    case 21: return floor(x);
    case 22: return ceil(x);
    case 23: return erf(x);
    case 24: return erfc(x);
    case 25: return norm(x);
    case 26: return BesselJ0(x);
    case 27: return BesselJ1(x);
    case 28: return BesselJn(3, x);
  }
  std::abort();
}

// Binary functions with partial derivatives.
struct Bi {
  const char* name;
  LD (*f)(LD, LD);
  LD (*fx)(LD, LD);
  LD (*fy)(LD, LD);
  bool (*ok)(LD, LD);
  LD slack;
};
static bool All2(LD x, LD y) { return fabsl(x) < 1e6L && fabsl(y) < 1e6L; }
static const Bi kBinary[] = {
    {"add", [](LD x, LD y) { return x + y; }, [](LD, LD) { return 1.0L; }, [](LD, LD) { return 1.0L; }, All2, 2},
    {"sub", [](LD x, LD y) { return x - y; }, [](LD, LD) { return 1.0L; }, [](LD, LD) { return -1.0L; }, All2, 2},
    {"mul", [](LD x, LD y) { return x * y; }, [](LD, LD y) { return y; }, [](LD x, LD) { return x; }, All2, 2},
    {"div", [](LD x, LD y) { return x / y; }, [](LD, LD y) { return 1 / y; }, [](LD x, LD y) { return -x / (y * y); }, [](LD x, LD y) { return fabsl(x) < 1e6L && fabsl(y) > 1e-5L && fabsl(y) < 1e6L; }, 6},
    {"atan2", [](LD x, LD y) { return atan2l(x, y); }, [](LD x, LD y) { return y / (x * x + y * y); }, [](LD x, LD y) { return -x / (x * x + y * y); },
     [](LD x, LD y) { return All2(x, y) && x * x + y * y > 1e-8L && !(y < 0 && fabsl(x) < 1e-6L * fabsl(y)); }, 8},
    {"hypot", [](LD x, LD y) { return hypotl(x, y); }, [](LD x, LD y) { return x / hypotl(x, y); }, [](LD x, LD y) { return y / hypotl(x, y); },
     [](LD x, LD y) { return All2(x, y) && hypotl(x, y) > 1e-6L; }, 8},
    {"pow", [](LD x, LD y) { return powl(x, y); }, [](LD x, LD y) { return y * powl(x, y - 1); }, [](LD x, LD y) { return powl(x, y) * logl(x); },
     [](LD x, LD y) { return x > 1e-3L && x < 1e3L && fabsl(y) < 5; }, 200},
    {"copysign", [](LD x, LD y) { return copysignl(x, y); }, [](LD x, LD y) { return copysignl(1, x) * copysignl(1, y); }, [](LD, LD) { return 0.0L; },
     [](LD x, LD y) { return All2(x, y) && fabsl(y) > 1e-9L && fabsl(x) > 1e-9L; }, 2},
    {"fmax", [](LD x, LD y) { return fmaxl(x, y); }, [](LD x, LD y) { return x > y ? 1.0L : 0.0L; }, [](LD x, LD y) { return y > x ? 1.0L : 0.0L; },
     [](LD x, LD y) { return All2(x, y) && fabsl(x - y) > 1e-6L * (1 + fabsl(x)); }, 1},
    {"fmin", [](LD x, LD y) { return fminl(x, y); }, [](LD x, LD y) { return x < y ? 1.0L : 0.0L; }, [](LD x, LD y) { return y < x ? 1.0L : 0.0L; },
     [](LD x, LD y) { return All2(x, y) && fabsl(x - y) > 1e-6L * (1 + fabsl(x)); }, 1},
    {"fdim", [](LD x, LD y) { return fdiml(x, y); }, [](LD x, LD y) { return x > y ? 1.0L : 0.0L; }, [](LD x, LD y) { return x > y ? -1.0L : 0.0L; },
     [](LD x, LD y) { return All2(x, y) && fabsl(x - y) > 1e-6L * (1 + fabsl(x)); }, 2},
};
static constexpr int kNumBinary = sizeof(kBinary) / sizeof(kBinary[0]);
// A and B are Jet or scalar, at least one a Jet.
template <typename A, typename B>
auto Binary(int op, const A& x, const B& y) -> decltype(x + y) {
  using namespace ceres;
  using R = decltype(x + y);
  switch (op) {
    case 0: return x + y;
    case 1: return x - y;
    case 2: return x * y;
    case 3: return x / y;
    case 8: return fmax(x, y);
    case 9: return fmin(x, y);
    case 10: return fdim(x, y);
  }
  if constexpr (std::is_same_v<A, B>) {
    switch (op) {
      case 4: return atan2(x, y);
      case 5: return hypot(x, y);
      case 7: return copysign(x, y);
    }
  }
  if (op == 6) return pow(x, y);
  return R(x + y);
}

static D ApplyU(const U& u, const D& x) {
  D r;
  const LD f = u.f(x.a), d = u.df(x.a);
  const LD h = 1e-7L * fmaxl(fabsl(x.a), 1e-4L);
  const LD d2 = (u.df(x.a + h) - u.df(x.a - h)) / (2 * h);
  r.a = f;
  r.ea = fabsl(d) * x.ea + fabsl(d2) * x.ea * x.ea + gEps * u.slack * (fabsl(f) + 1e-30L);
  if (u.slack >= 1000) r.ea += gEps * u.slack;
  for (int i = 0; i < gN; ++i) {
    r.v[i] = d * x.v[i];
    r.ev[i] = fabsl(d) * x.ev[i] + (fabsl(d2) * x.ea + gEps * u.slack * (fabsl(d) + (u.slack >= 1000 ? 1 : 0)) + gEps * fabsl(d2) * fabsl(x.a)) * (fabsl(x.v[i]) + x.ev[i]);
  }
  return r;
}
static D ApplyB(const Bi& b, const D& x, const D& y) {
  D r;
  const LD f = b.f(x.a, y.a), fx = b.fx(x.a, y.a), fy = b.fy(x.a, y.a);
  const LD hx = 1e-7L * fmaxl(fabsl(x.a), 1e-4L), hy = 1e-7L * fmaxl(fabsl(y.a), 1e-4L);
  const LD fxx = fabsl(b.fx(x.a + hx, y.a) - b.fx(x.a - hx, y.a)) / (2 * hx);
  const LD fxy = fabsl(b.fx(x.a, y.a + hy) - b.fx(x.a, y.a - hy)) / (2 * hy);
  const LD fyy = fabsl(b.fy(x.a, y.a + hy) - b.fy(x.a, y.a - hy)) / (2 * hy);
  r.a = f;
  r.ea = fabsl(fx) * x.ea + fabsl(fy) * y.ea + gEps * b.slack * fabsl(f) + fxx * x.ea * x.ea + fyy * y.ea * y.ea + 2 * fxy * x.ea * y.ea;
  for (int i = 0; i < gN; ++i) {
    r.v[i] = fx * x.v[i] + fy * y.v[i];
    const LD ax = fabsl(x.v[i]) + x.ev[i], ay = fabsl(y.v[i]) + y.ev[i];
    r.ev[i] = fabsl(fx) * x.ev[i] + fabsl(fy) * y.ev[i] +
              (fxx * x.ea + fxy * y.ea + gEps * b.slack * fabsl(fx) + gEps * fxx * fabsl(x.a)) * ax +
              (fxy * x.ea + fyy * y.ea + gEps * b.slack * fabsl(fy) + gEps * fyy * fabsl(y.a)) * ay;
  }
  return r;
}

template <typename T, int N>
bool Same(Case& c, const std::string& key, const Jet<T, N>& j, const D& d, const std::string& what) {
  const LD K = 8;
  bool ok = true;
  if (!(fabsl((LD)j.a - d.a) <= K * d.ea + 1e-300L)) {
    c.fail(key + ":value", "%s: value %.17g, reference %.17Lg, bound %.3Lg", what.c_str(), (double)j.a, d.a, K * d.ea);
    ok = false;
  }
  for (int i = 0; i < N; ++i) {
    if (!(fabsl((LD)j.v[i] - d.v[i]) <= K * d.ev[i] + 1e-300L)) {
      c.fail(key + ":derivative", "%s: d/dx%d %.17g, reference %.17Lg, bound %.3Lg", what.c_str(), i, (double)j.v[i], d.v[i], K * d.ev[i]);
      ok = false;
      break;
    }
  }
  return ok;
}

template <typename T, int N>
void RandomJet(vh::Rng& r, T a, Jet<T, N>* j, D* d) {
  j->a = a;
  *d = D();
  d->a = a;
  for (int i = 0; i < N; ++i) {
    T v = r.chance(0.15) ? T(0) : static_cast<T>(r.uni(-2, 2));
    j->v[i] = v;
    d->v[i] = v;
  }
}

template <typename T>
T Point(vh::Rng& r) {
  return static_cast<T>(r.any());
}

template <typename T, int N>
void UnaryT(Case& c) {
  gN = N;
  gEps = std::numeric_limits<T>::epsilon();
  for (int op = 0; op < kNumUnary; ++op) {
    for (int k = 0; k < 4; ++k) {
      T a = Point<T>(c.rng);
      if (!kUnary[op].ok(a)) a = static_cast<T>(fabs(c.rng.uni(0.01, 0.99)));
      if (!kUnary[op].ok(a)) continue;
      if (sizeof(T) == 4 && op >= 26) continue;
      Jet<T, N> x;
      D d;
      RandomJet(c.rng, a, &x, &d);
      Jet<T, N> y = Unary(op, x);
      D e = ApplyU(kUnary[op], d);
      c.count("unary");
      c.sig(Fmt("%s/%d/%d/%d", kUnary[op].name, (int)sizeof(T), N, (a > 0) - (a < 0)));
      Same(c, Fmt("jet:%s", kUnary[op].name), y, e, Fmt("%s(%.17g) N=%d", kUnary[op].name, (double)a, N));
      // the scalar part never depends on the derivative part
      Jet<T, N> x0(a);
      Jet<T, N> y0 = Unary(op, x0);
      c.expect(y0.a == y.a, Fmt("jet:%s:value-depends-on-derivative", kUnary[op].name), "%g vs %g", (double)y0.a, (double)y.a);
      c.expect((y0.v.array() == T(0)).all(), Fmt("jet:%s:constant-has-derivative", kUnary[op].name), "at %g", (double)a);
    }
  }
}

template <typename T, int N>
void BinaryT(Case& c) {
  gN = N;
  gEps = std::numeric_limits<T>::epsilon();
  for (int op = 0; op < kNumBinary; ++op) {
    for (int k = 0; k < 4; ++k) {
      T a = Point<T>(c.rng), b = Point<T>(c.rng);
      if (!kBinary[op].ok(a, b)) a = static_cast<T>(c.rng.uni(0.1, 2)), b = static_cast<T>(c.rng.uni(-2, 2));
      if (!kBinary[op].ok(a, b)) continue;
      Jet<T, N> x, y;
      D dx, dy;
      RandomJet(c.rng, a, &x, &dx);
      RandomJet(c.rng, b, &y, &dy);
      const std::string key = Fmt("jet:%s", kBinary[op].name);
      const std::string what = Fmt("%s(%.17g, %.17g) N=%d", kBinary[op].name, (double)a, (double)b, N);
      D e = ApplyB(kBinary[op], dx, dy);
      c.count("binary");
      c.sig(Fmt("%s/%d/%d/%d/%d", kBinary[op].name, (int)sizeof(T), N, (a > 0) - (a < 0), (b > 0) - (b < 0)));
      Same(c, key, Binary(op, x, y), e, what);
      // a scalar operand is a constant
      const bool mixed = op <= 3 || op == 6 || (op >= 8 && op <= 10);
      if (mixed) {
        if constexpr (std::is_same_v<T, double>) {
          Same(c, key + ":jet-scalar", Binary(op, x, b), ApplyB(kBinary[op], dx, Const(b)), what + " scalar rhs");
        }
        Same(c, key + ":scalar-jet", Binary(op, a, y), ApplyB(kBinary[op], Const(a), dy), what + " scalar lhs");
      }
      if (op <= 3) {
        Jet<T, N> z = x;
        if (op == 0) z += y; else if (op == 1) z -= y; else if (op == 2) z *= y; else z /= y;
        Same(c, key + ":compound", z, e, what);
        z = x;
        if (op == 0) z += b; else if (op == 1) z -= b; else if (op == 2) z *= b; else z /= b;
        Same(c, key + ":compound-scalar", z, ApplyB(kBinary[op], dx, Const(b)), what);
        // aliased operands
        if (kBinary[op].ok(a, a)) {
          z = x;
          if (op == 0) z += z; else if (op == 1) z -= z; else if (op == 2) z *= z; else z /= z;
          D s = ApplyB(kBinary[op], dx, dx);
          // x-x and x/x cancel
          for (int i = 0; i < N; ++i) s.ev[i] += gEps * 8 * fabsl(dx.v[i]) * (op == 3 ? fabsl(1 / dx.a) : 1);
          Same(c, key + ":aliased", z, s, what);
        }
      }
    }
    // ternary forms
    T a = static_cast<T>(c.rng.uni(-3, 3)), b = static_cast<T>(c.rng.uni(-3, 3)), g = static_cast<T>(c.rng.uni(0.1, 3));
    Jet<T, N> x, y, z;
    D dx, dy, dz;
    RandomJet(c.rng, a, &x, &dx);
    RandomJet(c.rng, b, &y, &dy);
    RandomJet(c.rng, g, &z, &dz);
    D h;
    h.a = sqrtl(dx.a * dx.a + dy.a * dy.a + dz.a * dz.a);
    D m;
    m.a = dx.a * dy.a + dz.a;
    h.ea = 16 * gEps * h.a;
    m.ea = 4 * gEps * (fabsl(dx.a * dy.a) + fabsl(dz.a));
    for (int i = 0; i < N; ++i) {
      h.v[i] = (dx.a * dx.v[i] + dy.a * dy.v[i] + dz.a * dz.v[i]) / h.a;
      h.ev[i] = 16 * gEps * (fabsl(dx.a * dx.v[i]) + fabsl(dy.a * dy.v[i]) + fabsl(dz.a * dz.v[i])) / h.a;
      m.v[i] = dy.a * dx.v[i] + dx.a * dy.v[i] + dz.v[i];
      m.ev[i] = 8 * gEps * (fabsl(dy.a * dx.v[i]) + fabsl(dx.a * dy.v[i]) + fabsl(dz.v[i]));
    }
    Same(c, "jet:hypot3", ceres::hypot(x, y, z), h, Fmt("hypot(%g,%g,%g)", (double)a, (double)b, (double)g));
    Same(c, "jet:fma", ceres::fma(x, y, z), m, Fmt("fma(%g,%g,%g)", (double)a, (double)b, (double)g));
    c.count("ternary", 2);
  }
}

template <template <typename, int> class F>
void ByN(Case& c);

static void FamUnary(Case& c) {
  switch (c.rng.range(0, 7)) {
    case 0: return UnaryT<double, 1>(c);
    case 1: return UnaryT<double, 2>(c);
    case 2: return UnaryT<double, 3>(c);
    case 3: return UnaryT<double, 5>(c);
    case 4: return UnaryT<double, 8>(c);
    case 5: return UnaryT<float, 4>(c);
    case 6: return UnaryT<double, 4>(c);
    default: return UnaryT<double, 7>(c);
  }
}
static void FamBinary(Case& c) {
  switch (c.rng.range(0, 6)) {
    case 0: return BinaryT<double, 1>(c);
    case 1: return BinaryT<double, 2>(c);
    case 2: return BinaryT<double, 3>(c);
    case 3: return BinaryT<double, 5>(c);
    case 4: return BinaryT<double, 8>(c);
    case 5: return BinaryT<float, 3>(c);
    default: return BinaryT<double, 4>(c);
  }
}

// Random expression trees.
template <int N>
void TreeT(Case& c) {
  gN = N;
  gEps = std::numeric_limits<double>::epsilon();
  using JT = Jet<double, N>;
  std::vector<JT> js;
  std::vector<D> ds;
  uint64_t shape = 0;
  for (int i = 0; i < N; ++i) {
    double a = c.rng.uni(-2, 2);
    js.push_back(JT(a, i));
    D d = Const(a);
    d.v[i] = 1;
    ds.push_back(d);
  }
  js.push_back(JT(c.rng.uni(-2, 2)));
  ds.push_back(Const(js.back().a));
  std::string expr;
  const int steps = c.rng.range(3, 25);
  for (int s = 0; s < steps; ++s) {
    const int n = js.size();
    int i = c.rng.range(std::max(0, n - 6), n - 1), j = c.rng.range(0, n - 1);
    if (c.rng.chance(0.5)) {
      int op = c.rng.range(0, kNumUnary - 1);
      if (!kUnary[op].ok(ds[i].a)) continue;
      D d = ApplyU(kUnary[op], ds[i]);
      if (!(fabsl(d.a) < 1e4L) || d.ea > 1e-9L) continue;
      js.push_back(Unary(op, js[i]));
      ds.push_back(d);
      shape = vh::Combine(shape, op * 64 + i);
      expr += Fmt("%s(%d) ", kUnary[op].name, i);
    } else {
      int op = c.rng.range(0, kNumBinary - 1);
      if (!kBinary[op].ok(ds[i].a, ds[j].a)) continue;
      D d = ApplyB(kBinary[op], ds[i], ds[j]);
      if (!(fabsl(d.a) < 1e4L) || d.ea > 1e-9L) continue;
      if (c.rng.chance(0.2) && op <= 3) {
        JT t = js[i];
        if (op == 0) t += js[j]; else if (op == 1) t -= js[j]; else if (op == 2) t *= js[j]; else t /= js[j];
        js.push_back(t);
      } else {
        js.push_back(Binary(op, js[i], js[j]));
      }
      ds.push_back(d);
      shape = vh::Combine(shape, 4096 + op * 4096 + i * 64 + j);
      expr += Fmt("%s(%d,%d) ", kBinary[op].name, i, j);
    }
    LD worst = ds.back().ea;
    for (int k = 0; k < N; ++k) worst += ds.back().ev[k];
    if (!(worst < 1e-6L)) { js.pop_back(); ds.pop_back(); continue; }
    if (!Same(c, "jet:tree", js.back(), ds.back(), Fmt("N=%d step %d of %s", N, s, expr.c_str()))) return;
    c.count("tree");
  }
  c.note("tree N=%d: %s", N, expr.c_str());
  c.sig(shape);
}
static void FamTree(Case& c) {
  switch (c.rng.range(0, 4)) {
    case 0: return TreeT<1>(c);
    case 1: return TreeT<2>(c);
    case 2: return TreeT<3>(c);
    case 3: return TreeT<6>(c);
    default: return TreeT<8>(c);
  }
}

// Jets of Jets: second derivatives.
static void FamNested(Case& c) {
  using J1 = Jet<double, 2>;
  using J2 = Jet<J1, 2>;
  auto lift = [](double x, int k) {
    J2 r;
    r.a = J1(x, k);
    r.v[0] = J1(k == 0 ? 1.0 : 0.0);
    r.v[1] = J1(k == 1 ? 1.0 : 0.0);
    return r;
  };
  auto d2 = [](LD (*g)(LD), LD x) {
    const LD h = 1e-4L * fmaxl(fabsl(x), 1e-2L);
    auto cd = [&](LD s) { return (g(x + s) - g(x - s)) / (2 * s); };
    return (4 * cd(h / 2) - cd(h)) / 3;
  };
  // The functions that accept nested Jets (those using only arithmetic on T).
  static const int ops[] = {0, 3, 7, 10, 12, 13, 14, 15, 16, 17, 18, 19, 20};
  for (int op : ops) {
    double a = c.rng.uni(0.1, 0.9);
    J2 y;
    switch (op) {
      case 0: y = -lift(a, 0); break;
      case 3: y = log(lift(a, 0)); break;
      case 7: y = exp(lift(a, 0)); break;
      case 10: y = sqrt(lift(a, 0)); break;
      case 12: y = cos(lift(a, 0)); break;
      case 13: y = sin(lift(a, 0)); break;
      case 14: y = tan(lift(a, 0)); break;
      case 15: y = acos(lift(a, 0)); break;
      case 16: y = asin(lift(a, 0)); break;
      case 17: y = atan(lift(a, 0)); break;
      case 18: y = sinh(lift(a, 0)); break;
      case 19: y = cosh(lift(a, 0)); break;
      default: y = tanh(lift(a, 0)); break;
    }
    const LD f = kUnary[op].f(a), f1 = kUnary[op].df(a), f2 = d2(kUnary[op].df, a);
    const double tol = 1e-9 * (1 + std::fabs((double)f2) + std::fabs((double)f1) + std::fabs((double)f));
    const bool ok = std::fabs(y.a.a - (double)f) < tol && std::fabs(y.a.v[0] - (double)f1) < tol && std::fabs(y.v[0].a - (double)f1) < tol && std::fabs(y.v[0].v[0] - (double)f2) < tol * 100 && y.v[1].a == 0 && y.v[0].v[1] == 0;
    c.expect(ok, Fmt("jet:nested:%s", kUnary[op].name), "at %.17g: %g %g %g %g, reference %Lg %Lg %Lg", a, y.a.a, y.a.v[0], y.v[0].a, y.v[0].v[0], f, f1, f2);
    c.count("nested");
    c.sig(Fmt("nested-%d", op));
  }
  double a = c.rng.uni(0.3, 2), b = c.rng.uni(0.3, 2);
  J2 x = lift(a, 0), y = lift(b, 1);
  // x*y/(x+y): hessian known
  J2 z = x * y / (x + y);
  const double s = a + b;
  const double fx = b * b / (s * s), fy = a * a / (s * s);
  const double fxx = -2 * b * b / (s * s * s), fyy = -2 * a * a / (s * s * s), fxy = 2 * a * b / (s * s * s);
  c.expect(vh::Near(z.a.a, a * b / s, 1e-13) && vh::Near(z.v[0].a, fx, 1e-12) && vh::Near(z.v[1].a, fy, 1e-12) && vh::Near(z.v[0].v[0], fxx, 1e-11) &&
               vh::Near(z.v[1].v[1], fyy, 1e-11) && vh::Near(z.v[0].v[1], fxy, 1e-11) && vh::Near(z.v[1].v[0], fxy, 1e-11),
           "jet:nested:arithmetic", "x*y/(x+y) at %g %g", a, b);
  J2 w = x - y;
  w = w * w + x;
  c.expect(vh::Near(w.v[0].a, 2 * (a - b) + 1, 1e-12) && vh::Near(w.v[0].v[0], 2, 1e-12) && vh::Near(w.v[0].v[1], -2, 1e-12) && vh::Near(w.v[1].v[1], 2, 1e-12),
           "jet:nested:arithmetic", "(x-y)^2+x at %g %g", a, b);
  c.note("nested at %g %g", a, b);
}

// Comparison, classification, and order-independent min/max.
static void FamCompare(Case& c) {
  using JT = Jet<double, 3>;
  static const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
  static const double pts[] = {0.0, -0.0, 1, -1, 2, 2.5, -3, 1e-310, inf, -inf, nan, 1e300};
  auto any = [&](double a) {
    JT j(a);
    for (int i = 0; i < 3; ++i) j.v[i] = c.rng.uni(-3, 3);
    return j;
  };
  for (int k = 0; k < 40; ++k) {
    const double a = c.rng.chance(0.7) ? pts[c.rng.range(0, 11)] : c.rng.any(), b = c.rng.chance(0.3) ? a : pts[c.rng.range(0, 11)];
    const JT x = any(a), y = any(b);
    c.count("compare");
    c.sig(Fmt("%d%d%d%d%d", std::fpclassify(a), std::fpclassify(b), a < b, a == b, std::signbit(a)));
    const std::string w = Fmt("a=%g b=%g", a, b);
#define CMP(op)                                                                                       \
  c.expect((x op y) == (a op b) && (x op b) == (a op b) && (a op y) == (a op b), "jet:compare" #op, "%s", w.c_str())
    CMP(<); CMP(<=); CMP(>); CMP(>=); CMP(==); CMP(!=);
#undef CMP
    const int ib = c.rng.range(-2, 2);
    c.expect((x < ib) == (a < ib) && (ib < x) == (ib < a) && (x == ib) == (a == ib) && (x >= static_cast<float>(ib)) == (a >= ib), "jet:compare:mixed-type", "%s ib=%d", w.c_str(), ib);
    c.expect(isfinite(x) == std::isfinite(a) && isinf(x) == std::isinf(a) && isnan(x) == std::isnan(a) && isnormal(x) == std::isnormal(a) && fpclassify(x) == std::fpclassify(a) &&
                 signbit(x) == std::signbit(a),
             "jet:classify", "%s", w.c_str());
    c.expect(isless(x, y) == std::isless(a, b) && isgreater(x, y) == std::isgreater(a, b) && islessequal(x, y) == std::islessequal(a, b) &&
                 isgreaterequal(x, y) == std::isgreaterequal(a, b) && islessgreater(x, y) == std::islessgreater(a, b) && isunordered(x, y) == std::isunordered(a, b) &&
                 isless(x, b) == std::isless(a, b) && isgreaterequal(a, y) == std::isgreaterequal(a, b) && isunordered(a, y) == std::isunordered(a, b),
             "jet:quiet-compare", "%s", w.c_str());
    // min and max
    for (int mx = 0; mx < 2; ++mx) {
      const char* nm = mx ? "fmax" : "fmin";
      const JT m1 = mx ? fmax(x, y) : fmin(x, y), m2 = mx ? fmax(y, x) : fmin(y, x);
      JT want = std::isnan(a) ? y : std::isnan(b) ? x : a == b ? (x + y) * 0.5 : ((a < b) == (mx == 1)) ? y : x;
      const bool both = std::isnan(a) && std::isnan(b);
      c.expect(vh::SameOrNaN(m1.a, want.a) && (both || (m1.v - want.v).norm() <= 1e-12), Fmt("jet:%s", nm), "%s got %g", w.c_str(), m1.a);
      if (!(std::isnan(a) && std::isnan(b)))
        c.expect(vh::SameOrNaN(m1.a, m2.a) && (m1.v - m2.v).norm() <= 1e-12, Fmt("jet:%s:order-dependent", nm), "%s", w.c_str());
      const JT s1 = mx ? fmax(x, b) : fmin(x, b);
      const JT s2 = mx ? fmax(b, x) : fmin(b, x);
      const JT yb(b);
      JT wants = std::isnan(a) ? yb : std::isnan(b) ? x : a == b ? (x + yb) * 0.5 : ((a < b) == (mx == 1)) ? yb : x;
      c.expect(vh::SameOrNaN(s1.a, wants.a) && vh::SameOrNaN(s2.a, wants.a) && (both || ((s1.v - wants.v).norm() <= 1e-12 && (s2.v - wants.v).norm() <= 1e-12)), Fmt("jet:%s:scalar", nm), "%s", w.c_str());
    }
    const JT fd = fdim(x, y);
    if (std::isnan(a) || std::isnan(b)) c.expect(std::isnan(fd.a), "jet:fdim:nan", "%s got %g", w.c_str(), fd.a);
    else if (a <= b) c.expect(fd.a == 0 && fd.v.norm() == 0, "jet:fdim:zero", "%s got %g", w.c_str(), fd.a);
    // abs
    const JT ab = abs(x);
    c.expect(vh::SameOrNaN(ab.a, std::fabs(a)) && (std::isnan(a) || (ab.v - (std::signbit(a) ? -1.0 : 1.0) * x.v).norm() == 0), "jet:abs:sign", "%s", w.c_str());
    // copysign: value everywhere, derivative infinite or NaN where the sign jumps
    const JT cs = copysign(x, y);
    c.expect(vh::SameOrNaN(cs.a, std::copysign(a, b)), "jet:copysign:value", "%s", w.c_str());
    if (b == 0 && std::isfinite(a) && a != 0) c.expect(!std::isfinite(cs.v[0]), "jet:copysign:jump", "%s got %g", w.c_str(), cs.v[0]);
  }
}

// The documented special cases of pow.
static void FamPow(Case& c) {
  using JT = Jet<double, 2>;
  for (int k = 0; k < 40; ++k) {
    const double f = c.rng.chance(0.35) ? c.rng.of({0.0, -0.0}) : c.rng.chance(0.5) ? -c.rng.uni(0.1, 4) : c.rng.uni(0.05, 4);
    const double g = c.rng.chance(0.6) ? c.rng.range(-3, 4) : c.rng.uni(-3, 4);
    JT x(f), y(g);
    x.v << c.rng.uni(-2, 2), c.rng.uni(-2, 2);
    const bool dg = c.rng.chance(0.5);
    if (dg) y.v << c.rng.uni(0.1, 2), c.rng.chance(0.5) ? 0.0 : c.rng.uni(0.1, 2);
    const std::string w = Fmt("pow(%g + [%g %g], %g + [%g %g])", f, x.v[0], x.v[1], g, y.v[0], y.v[1]);
    const bool isint = g == std::floor(g);
    c.count("special");
    c.sig(Fmt("pow%d%d%d%d", (f > 0) - (f < 0), (g > 1) + (g >= 1) + (g > 0) + (g >= 0), isint, dg));
    const JT p = pow(x, y);
    const LD val = powl(f, g);
    auto near = [](double u, LD v) { return fabsl(u - v) <= 1e-12L * (1 + fabsl(v)); };
    if (f > 0) {
      bool ok = near(p.a, val);
      for (int i = 0; i < 2; ++i) ok = ok && near(p.v[i], powl(f, g - 1) * g * x.v[i] + val * logl(f) * y.v[i]);
      c.expect(ok, "jet:pow:positive-base", "%s = %g [%g %g]", w.c_str(), p.a, p.v[0], p.v[1]);
    } else if (f == 0 && g > 1) {
      c.expect(p.a == 0 && p.v[0] == 0 && p.v[1] == 0, "jet:pow:zero-base-g>1", "%s = %g [%g %g]", w.c_str(), p.a, p.v[0], p.v[1]);
    } else if (f == 0 && g == 1) {
      c.expect(p.a == 0 && p.v[0] == x.v[0] && p.v[1] == x.v[1], "jet:pow:zero-base-g=1", "%s = %g [%g %g]", w.c_str(), p.a, p.v[0], p.v[1]);
    } else if (f == 0) {
      c.expect(vh::SameOrNaN(p.a, std::pow(f, g)), "jet:pow:zero-base-value", "%s = %g", w.c_str(), p.a);
      c.expect(!std::isfinite(p.v[0]), "jet:pow:zero-base-derivative", "%s = %g [%g %g]", w.c_str(), p.a, p.v[0], p.v[1]);
    } else if (isint) {
      c.expect(near(p.a, val), "jet:pow:negative-base-value", "%s = %g", w.c_str(), p.a);
      for (int i = 0; i < 2; ++i) {
        if (y.v[i] == 0) c.expect(near(p.v[i], g * powl(f, g - 1) * x.v[i]), "jet:pow:negative-base-derivative", "%s = %g [%g %g]", w.c_str(), p.a, p.v[0], p.v[1]);
        else c.expect(!std::isfinite(p.v[i]), "jet:pow:negative-base-dg", "%s = %g [%g %g]", w.c_str(), p.a, p.v[0], p.v[1]);
      }
    } else {
      c.expect(!std::isfinite(p.a) && !std::isfinite(p.v[0]), "jet:pow:negative-base-noninteger", "%s = %g [%g %g]", w.c_str(), p.a, p.v[0], p.v[1]);
    }
    // constant exponent
    if (f > 0 || (f < 0 && isint)) {
      const JT q = pow(x, g);
      c.expect(near(q.a, val) && near(q.v[0], g * powl(f, g - 1) * x.v[0]) && near(q.v[1], g * powl(f, g - 1) * x.v[1]), "jet:pow:constant-exponent", "pow(%g,%g)", f, g);
    }
    // constant base
    const JT b = pow(f, y);
    if (f > 0) {
      c.expect(near(b.a, val) && near(b.v[0], val * logl(f) * y.v[0]) && near(b.v[1], val * logl(f) * y.v[1]), "jet:pow:constant-base", "pow(%g,%g)", f, g);
    } else if (f == 0 && g > 0) {
      c.expect(b.a == 0 && b.v[0] == 0 && b.v[1] == 0, "jet:pow:constant-zero-base", "pow(%g,%g) = %g [%g %g]", f, g, b.a, b.v[0], b.v[1]);
    } else if (f < 0 && isint) {
      c.expect(near(b.a, val), "jet:pow:constant-negative-base", "pow(%g,%g) = %g", f, g, b.a);
      for (int i = 0; i < 2; ++i)
        c.expect(y.v[i] == 0 ? b.v[i] == 0 : !std::isfinite(b.v[i]), "jet:pow:constant-negative-base-dg", "pow(%g,%g) d%d = %g", f, g, i, b.v[i]);
    }
  }
  // other special points
  JT z(0.0);
  z.v << 1, -2;
  const JT e = expm1(JT(1e-12, 0));
  c.expect(vh::Near(e.a, 1e-12, 1e-23) && vh::Near(e.v[0], 1, 1e-11), "jet:expm1:small", "%g", e.a);
  const JT l = log1p(JT(1e-12, 0));
  c.expect(vh::Near(l.a, 1e-12, 1e-23) && vh::Near(l.v[0], 1, 1e-11), "jet:log1p:small", "%g", l.a);
  const JT big = hypot(JT(1e200, 0), JT(1e200, 1));
  c.expect(std::isfinite(big.a) && vh::Near(big.v[0], std::sqrt(0.5), 1e-12), "jet:hypot:overflow", "%g %g", big.a, big.v[0]);
  const JT tiny = hypot(JT(1e-200, 0), JT(1e-200, 1));
  c.expect(tiny.a > 0 && vh::Near(tiny.v[0], std::sqrt(0.5), 1e-12), "jet:hypot:underflow", "%g %g", tiny.a, tiny.v[0]);
  for (double q : {0.0, -0.0}) {
    JT s = norm(JT(q, 0));
    c.expect(s.a == 0 && s.v[0] == 0, "jet:norm:zero", "%g", s.v[0]);
  }
  const double th = c.rng.uni(-3.1, 3.1);
  const JT at = atan2(JT(std::sin(th), 0), JT(std::cos(th), 1));
  c.expect(vh::Near(at.a, th, 1e-12) && vh::Near(at.v[0], std::cos(th), 1e-12) && vh::Near(at.v[1], -std::sin(th), 1e-12), "jet:atan2:quadrant", "theta=%g: %g %g %g", th, at.a, at.v[0], at.v[1]);
}

// Jets as Eigen scalars, and their numeric_limits.
// Numbers far from one: nothing overflows or underflows on the way to a result that does not.
static void FamScale(Case& c) {
  using JT = Jet<double, 3>;
  auto& r = c.rng;
  const double scale = std::pow(10.0, r.uni(-290, 290));
  auto Rand = [&](double s) {
    JT x(r.chance(0.15) ? 0.0 : s * r.uni(-3, 3) * (r.chance(0.2) ? std::pow(10.0, -r.uni(0, 12)) : 1));
    for (int i = 0; i < 3; ++i) x.v[i] = r.normal();
    return x;
  };
  auto Check = [&](const char* name, const JT& got, LD a, const std::array<LD, 3>& v, const std::array<LD, 3>& mag, const std::string& args) {
    c.count(name);
    if (!c.expect(fabsl(got.a - a) <= 2e-15L * fabsl(a) + 1e-307L, Fmt("jet:far:%s", name), "%s is %.17g, not %.17Lg", args.c_str(), got.a, a)) return;
    for (int i = 0; i < 3; ++i)
      if (!c.expect(fabsl(got.v[i] - v[i]) <= 1e-14L * mag[i] + 1e-307L, Fmt("jet:far:%s:derivative", name), "%s derivative %d is %.17g, not %.17Lg", args.c_str(), i, got.v[i], v[i])) return;
  };
  const JT x = Rand(scale), y = Rand(scale), z = Rand(scale);
  const LD a = x.a, b = y.a, g = z.a;
  c.sig(Fmt("%d %d%d%d", static_cast<int>(std::log10(scale) / 20), x.a == 0, y.a == 0, z.a == 0));
  c.note("%g %g %g", x.a, y.a, z.a);
  std::array<LD, 3> v, m;
  if (LD h = sqrtl(a * a + b * b + g * g); h > 0) {
    for (int i = 0; i < 3; ++i) v[i] = (a * x.v[i] + b * y.v[i] + g * z.v[i]) / h, m[i] = (fabsl(a * x.v[i]) + fabsl(b * y.v[i]) + fabsl(g * z.v[i])) / h;
    Check("hypot3", hypot(x, y, z), h, v, m, Fmt("hypot(%g,%g,%g)", x.a, y.a, z.a));
  }
  if (LD h = sqrtl(a * a + b * b); h > 0) {
    for (int i = 0; i < 3; ++i) v[i] = (a * x.v[i] + b * y.v[i]) / h, m[i] = (fabsl(a * x.v[i]) + fabsl(b * y.v[i])) / h;
    Check("hypot2", hypot(x, y), h, v, m, Fmt("hypot(%g,%g)", x.a, y.a));
  }
  auto Unary = [&](const char* name, const JT& arg, const JT& got, LD value, LD slope) {
    for (int i = 0; i < 3; ++i) v[i] = slope * arg.v[i], m[i] = fabsl(v[i]);
    Check(name, got, value, v, m, Fmt("%s(%g)", name, arg.a));
  };
  JT p = x;
  p.a = std::fabs(p.a);
  if (p.a > 0) {
    const LD q = p.a;
    Unary("sqrt", p, sqrt(p), sqrtl(q), 1 / (2 * sqrtl(q)));
    if (std::fabs(p.a - 1) > 0.1) {
      Unary("log", p, log(p), logl(q), 1 / q);
      Unary("log2", p, log2(p), log2l(q), 1 / (q * logl(2)));
      Unary("log10", p, log10(p), log10l(q), 1 / (q * logl(10)));
    }
    Unary("log1p", p, log1p(p), log1pl(q), 1 / (1 + q));
  }
  if (x.a != 0) Unary("cbrt", x, cbrt(x), cbrtl(a), 1 / (3 * cbrtl(a) * cbrtl(a)));
  Unary("abs", x, abs(x), fabsl(a), std::signbit(x.a) ? -1 : 1);
  // half the range for what multiplies
  const JT s = Rand(std::sqrt(scale)), t = Rand(std::sqrt(scale));
  const LD e = s.a, f = t.a;
  for (int i = 0; i < 3; ++i) v[i] = e * t.v[i] + f * s.v[i], m[i] = fabsl(e * t.v[i]) + fabsl(f * s.v[i]);
  Check("times", s * t, e * f, v, m, Fmt("%g*%g", s.a, t.a));
  if (t.a != 0) {
    for (int i = 0; i < 3; ++i) v[i] = s.v[i] / f - e / f * t.v[i] / f, m[i] = fabsl(s.v[i] / f) + fabsl(e / f * t.v[i] / f);
    Check("divide", s / t, e / f, v, m, Fmt("%g/%g", s.a, t.a));
  }
}

static void FamEigen(Case& c) {
  using JT = Jet<double, 4>;
  using M = Eigen::Matrix<JT, 2, 2>;
  double x[4];
  for (double& v : x) v = c.rng.uni(-2, 2);
  M m;
  m << JT(x[0], 0), JT(x[1], 1), JT(x[2], 2), JT(x[3], 3);
  const JT det = m.determinant();
  const double want[4] = {x[3], -x[2], -x[1], x[0]};
  c.expect(vh::Near(det.a, x[0] * x[3] - x[1] * x[2], 1e-13), "jet:eigen:determinant", "%g", det.a);
  for (int i = 0; i < 4; ++i) c.expect(vh::Near(det.v[i], want[i], 1e-12), "jet:eigen:determinant", "d%d %g want %g", i, det.v[i], want[i]);
  M p = m * m.transpose();
  c.expect(vh::Near(p(0, 1).a, x[0] * x[2] + x[1] * x[3], 1e-13) && vh::Near(p(0, 1).v[0], x[2], 1e-13) && vh::Near(p(0, 1).v[3], x[1], 1e-13), "jet:eigen:product", "%g", p(0, 1).a);
  Eigen::Matrix<JT, 2, 1> b(JT(1.0), JT(2.0));
  Eigen::Matrix<JT, 2, 1> sol = m.inverse() * b;
  Eigen::Matrix<JT, 2, 1> back = m * sol;
  const double dd = std::fabs(det.a);
  if (dd > 1e-2) {
    for (int i = 0; i < 2; ++i) c.expect(vh::Near(back(i).a, b(i).a, 1e-11 / dd) && back(i).v.norm() < 1e-10 / (dd * dd * dd), "jet:eigen:inverse", "residual %g |d|=%g det=%g", back(i).a, back(i).v.norm(), dd);
  }
  // Jet matrix with double matrix
  Eigen::Matrix2d d = Eigen::Matrix2d::Identity() * 2.5;
  M s = (m.array() * d.array()).matrix();
  c.expect(vh::Near(s(0, 0).a, 2.5 * x[0], 1e-14) && vh::Near(s(0, 0).v[0], 2.5, 1e-14) && s(0, 1).a == 0, "jet:eigen:mixed", "%g", s(0, 0).a);
  const JT nrm = m.norm();
  double n2 = 0;
  for (double v : x) n2 += v * v;
  for (int i = 0; i < 4; ++i) c.expect(vh::Near(nrm.v[i], x[i] / std::sqrt(n2), 1e-12), "jet:eigen:norm", "d%d", i);
  c.count("eigen");
  c.sig("eigen");
  using L = std::numeric_limits<JT>;
  using B = std::numeric_limits<double>;
  c.expect(L::is_specialized && L::digits == B::digits && L::digits10 == B::digits10 && L::max_digits10 == B::max_digits10 && L::radix == B::radix && L::min_exponent == B::min_exponent &&
               L::max_exponent == B::max_exponent && L::max_exponent10 == B::max_exponent10 && L::is_signed == B::is_signed && L::is_integer == B::is_integer &&
               L::has_infinity && L::is_iec559 == B::is_iec559 && L::round_style == B::round_style,
           "jet:numeric_limits", "constants");
  c.expect(L::min_exponent10 == B::min_exponent10, "jet:numeric_limits:min_exponent10", "%d, double has %d", L::min_exponent10, B::min_exponent10);
  c.expect(L::max().a == B::max() && L::min().a == B::min() && L::lowest().a == B::lowest() && L::epsilon().a == B::epsilon() && L::infinity().a == B::infinity() && std::isnan(L::quiet_NaN().a) &&
               L::denorm_min().a == B::denorm_min() && L::max().v.norm() == 0,
           "jet:numeric_limits:values", "values");
}

VH_MAIN({"unary", FamUnary, 400}, {"binary", FamBinary, 400}, {"tree", FamTree, 20000}, {"nested", FamNested, 800}, {"compare", FamCompare, 800}, {"pow", FamPow, 800}, {"scale", FamScale, 4000}, {"eigen", FamEigen, 400})
