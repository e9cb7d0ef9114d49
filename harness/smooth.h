// Random smooth vector functions with known derivatives, evaluable in any scalar type.
#ifndef SMOOTH_H_
#define SMOOTH_H_
#include <memory>
#include <vector>

#include "vh.h"

namespace vh {

// f_r(x) = c + v + s*sin(u) + q*u*v,  u = w.x + p,  v = a.x
struct Smooth {
  std::vector<int> blocks, off;
  int n = 0, m = 0;
  struct Row { double c, s, q, p; std::vector<double> a, w; };
  std::vector<Row> rows;

  void Init(Rng& r, const std::vector<int>& b, int nres) {
    blocks = b;
    off.clear();
    n = 0;
    for (int k : b) { off.push_back(n); n += k; }
    m = nres;
    rows.resize(m);
    for (auto& row : rows) {
      row.c = r.uni(-1, 1);
      row.s = r.chance(0.2) ? 0 : r.uni(-1, 1);
      row.q = r.chance(0.4) ? 0 : r.uni(-0.5, 0.5);
      row.p = r.uni(-2, 2);
      row.a.resize(n);
      row.w.resize(n);
      for (int i = 0; i < n; ++i) {
        row.a[i] = r.chance(0.1) ? 0 : r.uni(-1, 1);
        row.w[i] = r.chance(0.1) ? 0 : r.uni(-1, 1);
      }
    }
  }
  // x by blocks
  template <typename T>
  void Eval(T const* const* x, T* out) const {
    using std::sin;
    for (int r = 0; r < m; ++r) {
      const Row& row = rows[r];
      T u = T(row.p), v = T(0.0);
      for (size_t b = 0; b < blocks.size(); ++b)
        for (int i = 0; i < blocks[b]; ++i) {
          u += x[b][i] * row.w[off[b] + i];
          v += x[b][i] * row.a[off[b] + i];
        }
      out[r] = row.c + v + row.s * sin(u) + row.q * (u * v);
    }
  }
  // full m x n Jacobian at flat x, long double
  void Jac(const std::vector<double>& x, std::vector<double>* J, std::vector<double>* f = nullptr) const {
    J->assign(static_cast<size_t>(m) * n, 0);
    if (f) f->assign(m, 0);
    for (int r = 0; r < m; ++r) {
      const Row& row = rows[r];
      long double u = row.p, v = 0;
      for (int i = 0; i < n; ++i) {
        u += static_cast<long double>(x[i]) * row.w[i];
        v += static_cast<long double>(x[i]) * row.a[i];
      }
      if (f) (*f)[r] = static_cast<double>(row.c + v + row.s * sinl(u) + row.q * u * v);
      for (int i = 0; i < n; ++i)
        (*J)[r * n + i] = static_cast<double>(row.a[i] + row.s * cosl(u) * row.w[i] + row.q * (row.w[i] * v + u * row.a[i]));
    }
  }
  double Scale(const std::vector<double>& x) const {
    double s = 1;
    for (double v : x) s += std::fabs(v);
    return s * s;
  }
};

// Buffers of exactly the given sizes on the heap (so that ASan guards their ends),
// with a fill that is recognisably untouched.
struct Blocks {
  std::vector<std::unique_ptr<double[]>> own;
  std::vector<double*> ptr;
  std::vector<int> size;
  static constexpr double kFill = -7.654321e77;
  Blocks() = default;
  explicit Blocks(const std::vector<int>& sizes) {
    for (int s : sizes) Add(s);
  }
  double* Add(int s) {
    own.emplace_back(new double[s]);
    std::fill_n(own.back().get(), s, kFill);
    ptr.push_back(own.back().get());
    size.push_back(s);
    return ptr.back();
  }
  std::vector<double> Flat() const {
    std::vector<double> f;
    for (size_t i = 0; i < own.size(); ++i) f.insert(f.end(), own[i].get(), own[i].get() + size[i]);
    return f;
  }
};

inline int Sum(const std::vector<int>& v) {
  int s = 0;
  for (int k : v) s += k;
  return s;
}

// Evaluates a cost function at x with a Jacobian request pattern and compares it with
// the reference (f, J row-major m x n). Tolerances absolute.
template <typename CF>
bool CheckEvaluate(Case& c, const std::string& key, const CF& cf, const std::vector<int>& blocks, int m, const std::vector<double>& x, const std::vector<double>& f,
                   const std::vector<double>& J, double ftol, double jtol, int mode /*0: no jacobians, 1: all, 2: random, 3: none asked in a list*/) {
  Blocks params(blocks);
  int n = 0;
  for (size_t b = 0; b < blocks.size(); ++b)
    for (int i = 0; i < blocks[b]; ++i) params.ptr[b][i] = x[n++];
  std::vector<int> rs{m};
  Blocks res(rs);
  Blocks jac;
  std::vector<double*> jp(blocks.size(), nullptr);
  std::string pattern;
  for (size_t b = 0; b < blocks.size(); ++b) {
    const bool ask = mode == 1 || (mode == 2 && c.rng.chance(0.5));
    pattern += ask ? '1' : '0';
    if (ask) jp[b] = jac.Add(m * blocks[b]);
  }
  std::unique_ptr<const double*[]> pp(new const double*[blocks.size()]);
  for (size_t b = 0; b < blocks.size(); ++b) pp[b] = params.ptr[b];
  std::unique_ptr<double*[]> jl(new double*[blocks.size()]);
  for (size_t b = 0; b < blocks.size(); ++b) jl[b] = jp[b];
  c.count("evaluate");
  if (mode) c.count("jacobian-blocks", jac.own.size());
  const bool ok = cf.Evaluate(pp.get(), res.ptr[0], mode ? jl.get() : nullptr);
  if (!c.expect(ok, key + ":failed", "Evaluate returned false, pattern %s", pattern.c_str())) return false;
  for (size_t b = 0; b < blocks.size(); ++b) {
    if (!c.expect(jl[b] == jp[b] && pp[b] == params.ptr[b], key + ":pointers-changed", "pattern %s", pattern.c_str())) return false;
  }
  if (!c.expect(params.Flat() == x, key + ":parameters-changed", "pattern %s", pattern.c_str())) return false;
  for (int r = 0; r < m; ++r)
    if (!c.expect(Near(res.ptr[0][r], f[r], ftol), key + ":residual", "residual %d of %d: %.17g, reference %.17g, pattern %s mode %d", r, m, res.ptr[0][r], f[r], pattern.c_str(), mode)) return false;
  const int N = Sum(blocks);
  int off = 0;
  for (size_t b = 0; b < blocks.size(); ++b) {
    if (jp[b])
      for (int r = 0; r < m; ++r)
        for (int i = 0; i < blocks[b]; ++i) {
          const double got = jp[b][r * blocks[b] + i], want = J[static_cast<size_t>(r) * N + off + i];
          if (!c.expect(Near(got, want, jtol), key + ":jacobian", "block %zu of %zu entry (%d,%d): %.17g, reference %.17g, tolerance %.3g, pattern %s", b, blocks.size(), r, i, got, want, jtol, pattern.c_str()))
            return false;
        }
    off += blocks[b];
  }
  return true;
}

inline std::vector<double> RandomPoint(Rng& r, int n, double span = 2) {
  std::vector<double> x(n);
  for (double& v : x) v = r.chance(0.1) ? 0.0 : r.uni(-span, span);
  return x;
}

}  // namespace vh
#endif
