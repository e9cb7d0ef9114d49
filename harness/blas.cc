// C14: the small dense kernels against long double arithmetic, with guarded outputs.
#include <Eigen/Dense>
#include <functional>

#include "ceres/small_blas.h"
#include "vh.h"

using namespace vh;
namespace ci = ceres::internal;

namespace {

std::vector<double> RandomVec(Rng& r, int n) {
  std::vector<double> v(n);
  // zeros: a kernel that treats one specially must still write its output
  const double zeros = r.chance(0.7) ? 0.0 : r.chance(0.8) ? 0.5 : 1.0;
  for (auto& x : v) x = zeros > 0 && r.chance(zeros) ? 0.0 : r.normal();
  v.shrink_to_fit();
  return v;
}

constexpr int kDyn = Eigen::Dynamic;

struct Kernel {
  Case& c;
  int ra, ca, cb, op;
  bool transposed;
  const char* name;
  std::string dims;
  // f(A, B, C, start row, start col, row stride, col stride)
  void Run(const std::function<void(const double*, const double*, double*, int, int, int, int)>& f) {
    Rng& r = c.rng;
    const int rc = transposed ? ca : ra, rb = transposed ? ra : ca, cc = cb;
    const int sr = r.chance(0.5) ? 0 : r.range(0, 4), sc = r.chance(0.5) ? 0 : r.range(0, 4);
    const int rs = rc + sr + r.range(0, 3), cs = cc + sc + r.range(0, 3);
    // one-past-the-end of each buffer is the end of the allocation; the start may be unaligned
    const int off = r.range(0, 1);
    auto A = RandomVec(r, off + ra * ca), B = RandomVec(r, off + rb * cb), C = RandomVec(r, off + rs * cs);
    auto A0 = A, B0 = B;
    const double poison = std::nan("");
    if (op == 0)
      for (int i = 0; i < rc; ++i)
        for (int j = 0; j < cc; ++j) C[off + (sr + i) * cs + sc + j] = poison;
    const auto C0 = C;
    f(A.data() + off, B.data() + off, C.data() + off, sr, sc, rs, cs);
    c.expect(A == A0 && B == B0, std::string(name) + "-inputs", "%s %s changed its inputs", name, dims.c_str());
    for (int i = 0; i < rs; ++i)
      for (int j = 0; j < cs; ++j) {
        const double got = C[off + i * cs + j], was = C0[off + i * cs + j];
        if (i < sr || j < sc || i >= sr + rc || j >= sc + cc) {
          c.expect(Bits(got, was), std::string(name) + "-outside", "%s %s op %d wrote (%d,%d) outside its block at %d,%d of %dx%d", name, dims.c_str(), op, i, j, sr, sc, rs, cs);
          continue;
        }
        long double s = 0, a = 0;
        for (int k = 0; k < rb; ++k) {
          const double x = transposed ? A[off + k * ca + (i - sr)] : A[off + (i - sr) * ca + k], y = B[off + k * cb + (j - sc)];
          s += static_cast<long double>(x) * y;
          a += std::fabs(x * y);
        }
        long double want = op == 0 ? s : op > 0 ? was + s : was - s;
        if (op != 0) a += std::fabs(was);
        c.expect(std::fabs(got - static_cast<double>(want)) <= 4e-16 * (rb + 3) * static_cast<double>(a), std::string(name) + "-value", "%s %s op %d at (%d,%d): %.17g for %.17g", name, dims.c_str(), op, i - sr, j - sc, got,
                 static_cast<double>(want));
      }
    c.count("kernels");
  }
};

template <int RA, int CA, int RB, int CB, int OP>
void MM(Case& c, int ra, int ca, int cb) {
  const std::string dims = Fmt("<%d,%d,%d,%d> %dx%d*%dx%d", RA, CA, RB, CB, ra, ca, ca, cb);
  Kernel{c, ra, ca, cb, OP, false, "mmm", dims}.Run([&](const double* A, const double* B, double* C, int sr, int sc, int rs, int cs) {
    ci::MatrixMatrixMultiply<RA, CA, RB, CB, OP>(A, ra, ca, B, ca, cb, C, sr, sc, rs, cs);
  });
  Kernel{c, ra, ca, cb, OP, false, "mmm-naive", dims}.Run([&](const double* A, const double* B, double* C, int sr, int sc, int rs, int cs) {
    ci::MatrixMatrixMultiplyNaive<RA, CA, RB, CB, OP>(A, ra, ca, B, ca, cb, C, sr, sc, rs, cs);
  });
  if constexpr (RA == RB || RA == kDyn) Kernel{c, ra, ca, cb, OP, false, "mmm-eigen", dims}.Run([&](const double* A, const double* B, double* C, int sr, int sc, int rs, int cs) {
    ci::MatrixMatrixMultiplyEigen<RA, CA, RB, CB, OP>(A, ra, ca, B, ca, cb, C, sr, sc, rs, cs);
  });
}
template <int RA, int CA, int RB, int CB, int OP>
void MTM(Case& c, int ra, int ca, int cb) {
  const std::string dims = Fmt("<%d,%d,%d,%d> (%dx%d)'*%dx%d", RA, CA, RB, CB, ra, ca, ra, cb);
  Kernel{c, ra, ca, cb, OP, true, "mtm", dims}.Run([&](const double* A, const double* B, double* C, int sr, int sc, int rs, int cs) {
    ci::MatrixTransposeMatrixMultiply<RA, CA, RB, CB, OP>(A, ra, ca, B, ra, cb, C, sr, sc, rs, cs);
  });
  Kernel{c, ra, ca, cb, OP, true, "mtm-naive", dims}.Run([&](const double* A, const double* B, double* C, int sr, int sc, int rs, int cs) {
    ci::MatrixTransposeMatrixMultiplyNaive<RA, CA, RB, CB, OP>(A, ra, ca, B, ra, cb, C, sr, sc, rs, cs);
  });
  if constexpr (CA == CB || CA == kDyn) Kernel{c, ra, ca, cb, OP, true, "mtm-eigen", dims}.Run([&](const double* A, const double* B, double* C, int sr, int sc, int rs, int cs) {
    ci::MatrixTransposeMatrixMultiplyEigen<RA, CA, RB, CB, OP>(A, ra, ca, B, ra, cb, C, sr, sc, rs, cs);
  });
}
void CheckMV(Case& c, bool tr, const char* dims, int ra, int ca, int op, void (*f)(const double*, int, int, const double*, double*)) {
  Rng& r = c.rng;
  const int out = tr ? ca : ra, in = tr ? ra : ca, off = r.range(0, 1);
  auto A = RandomVec(r, off + ra * ca), b = RandomVec(r, off + in), y = RandomVec(r, off + out);
  if (op == 0)
    for (int i = 0; i < out; ++i) y[off + i] = std::nan("");
  const auto y0 = y, A0 = A, b0 = b;
  f(A.data() + off, ra, ca, b.data() + off, y.data() + off);
  const std::string name = tr ? "mtv" : "mv";
  c.expect(A == A0 && b == b0 && (!off || y[0] == y0[0]), name + "-inputs", "%s %s %dx%d changed its inputs", name.c_str(), dims, ra, ca);
  for (int i = 0; i < out; ++i) {
    long double s = 0, a = 0;
    for (int k = 0; k < in; ++k) {
      const double x = tr ? A[off + k * ca + i] : A[off + i * ca + k];
      s += static_cast<long double>(x) * b[off + k];
      a += std::fabs(x * b[off + k]);
    }
    const long double want = op == 0 ? s : op > 0 ? y0[off + i] + s : y0[off + i] - s;
    if (op != 0) a += std::fabs(y0[off + i]);
    c.expect(std::fabs(y[off + i] - static_cast<double>(want)) <= 4e-16 * (in + 3) * static_cast<double>(a), name + "-value", "%s %s %dx%d op %d entry %d: %.17g for %.17g", name.c_str(), dims, ra, ca, op, i, y[off + i],
             static_cast<double>(want));
  }
  c.count("kernels");
}
template <int RA, int CA, int OP>
void MV(Case& c, int ra, int ca) {
  const std::string dims = Fmt("<%d,%d>", RA, CA);
  CheckMV(c, false, dims.c_str(), ra, ca, OP, ci::MatrixVectorMultiply<RA, CA, OP>);
  CheckMV(c, true, dims.c_str(), ra, ca, OP, ci::MatrixTransposeVectorMultiply<RA, CA, OP>);
}

template <int R, int C, int K, int OP>
void FixedMM(Case& c) {
  MM<R, C, C, K, OP>(c, R, C, K);
  MTM<R, C, R, K, OP>(c, R, C, K);
}
template <int R, int C, int K>
void FixedOps(Case& c) {
  FixedMM<R, C, K, 0>(c);
  FixedMM<R, C, K, 1>(c);
  FixedMM<R, C, K, -1>(c);
}
template <int N, int OP>
void PartlyFixed(Case& c, int a, int b) {
  // the eliminator's instantiations fix some of the four
  MM<N, kDyn, kDyn, kDyn, OP>(c, N, a, b);
  MM<kDyn, N, N, kDyn, OP>(c, a, N, b);
  MM<kDyn, kDyn, kDyn, N, OP>(c, a, b, N);
  MTM<N, kDyn, N, kDyn, OP>(c, N, a, b);
  MTM<kDyn, N, kDyn, kDyn, OP>(c, a, N, b);
  MTM<kDyn, kDyn, kDyn, N, OP>(c, a, b, N);
  MV<N, kDyn, OP>(c, N, a);
  MV<kDyn, N, OP>(c, a, N);
  MV<N, N, OP>(c, N, N);
}
template <int N>
void Partly(Case& c, int a, int b) {
  PartlyFixed<N, 0>(c, a, b);
  PartlyFixed<N, 1>(c, a, b);
  PartlyFixed<N, -1>(c, a, b);
}
template <int OP>
void AllDynamic(Case& c, int ra, int ca, int cb) {
  MM<kDyn, kDyn, kDyn, kDyn, OP>(c, ra, ca, cb);
  MTM<kDyn, kDyn, kDyn, kDyn, OP>(c, ra, ca, cb);
  MV<kDyn, kDyn, OP>(c, ra, ca);
}

void BlasCase(Case& c) {
  Rng& r = c.rng;
  const int hi = r.chance(0.2) ? 24 : 10;
  const int a = r.range(1, hi), b = r.range(1, hi), d = r.range(1, hi);
  c.note("kernels %dx%d %d", a, b, d);
  c.sig(Fmt("k %d %d %d", a, b, d));
  AllDynamic<0>(c, a, b, d);
  AllDynamic<1>(c, a, b, d);
  AllDynamic<-1>(c, a, b, d);
  switch (r.range(0, 10)) {
    case 0: Partly<1>(c, a, b); break;
    case 1: Partly<2>(c, a, b); break;
    case 2: Partly<3>(c, a, b); break;
    case 3: Partly<4>(c, a, b); break;
    case 4: Partly<6>(c, a, b); break;
    case 5: Partly<9>(c, a, b); break;
    case 6: FixedOps<2, 2, 3>(c); FixedOps<2, 3, 3>(c); break;
    case 7: FixedOps<2, 4, 8>(c); FixedOps<4, 4, 4>(c); break;
    case 8: FixedOps<3, 3, 6>(c); FixedOps<2, 3, 9>(c); break;
    case 9: FixedOps<1, 1, 1>(c); FixedOps<1, 5, 7>(c); break;
    default: FixedOps<6, 2, 1>(c); FixedOps<9, 3, 2>(c);
  }
}

}  // namespace

VH_MAIN({"blas", BlasCase, 400})
