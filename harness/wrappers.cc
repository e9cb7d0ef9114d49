// C04: cost function wrappers.
#include <memory>

#include "Eigen/Dense"
#include "ceres/autodiff_cost_function.h"
#include "ceres/conditioned_cost_function.h"
#include "ceres/cost_function_to_functor.h"
#include "ceres/dynamic_autodiff_cost_function.h"
#include "ceres/dynamic_cost_function_to_functor.h"
#include "ceres/normal_prior.h"
#include "ceres/tiny_solver_autodiff_function.h"
#include "ceres/tiny_solver_cost_function_adapter.h"
#include "smooth_cost.h"

using vh::Case;
using vh::Fmt;
using RowMat = Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;

static std::vector<int> RandomBlocks(Case& c, int maxb, int maxs) {
  std::vector<int> b(c.rng.range(1, maxb));
  for (int& k : b) k = c.rng.range(1, maxs);
  return b;
}

// post(g(pre(x))), with g an analytic cost function used through a functor wrapper.
struct Chain {
  vh::Smooth pre, g, post;
  void Init(Case& c, const std::vector<int>& x, const std::vector<int>& y, int z, int r) {
    pre.Init(c.rng, x, vh::Sum(y));
    g.Init(c.rng, y, z);
    post.Init(c.rng, {z}, r);
  }
  void Ref(const std::vector<double>& x, std::vector<double>* f, std::vector<double>* J) const {
    std::vector<double> y, z, j1, j2, j3;
    pre.Jac(x, &j1, &y);
    g.Jac(y, &j2, &z);
    post.Jac(z, &j3, f);
    RowMat m = Eigen::Map<RowMat>(j3.data(), post.m, post.n) * Eigen::Map<RowMat>(j2.data(), g.m, g.n) * Eigen::Map<RowMat>(j1.data(), pre.m, pre.n);
    J->assign(m.data(), m.data() + m.size());
  }
};

template <typename Fn, typename T>
bool RunChain(const Chain& ch, const Fn& call, T const* const* x, T* out) {
  std::vector<T> y(ch.pre.m), z(ch.g.m);
  ch.pre.Eval(x, y.data());
  std::vector<const T*> yp;
  for (size_t b = 0; b < ch.g.blocks.size(); ++b) yp.push_back(y.data() + ch.g.off[b]);
  if (!call(yp.data(), z.data())) return false;
  const T* zp[1] = {z.data()};
  ch.post.Eval(zp, out);
  return true;
}

struct DynFunctor {
  const Chain* ch;
  ceres::DynamicCostFunctionToFunctor* f;
  template <typename T>
  bool operator()(T const* const* x, T* out) const {
    return RunChain(*ch, [&](T const* const* y, T* z) { return (*f)(y, z); }, x, out);
  }
};

static void FamDynamic(Case& c) {
  Chain ch;
  ch.Init(c, RandomBlocks(c, 4, 3), RandomBlocks(c, 5, 4), c.rng.range(1, 5), c.rng.range(1, 5));
  int destroyed = 0;
  auto* inner = new vh::SmoothCost(ch.g, &destroyed);
  {
    ceres::DynamicCostFunctionToFunctor fn(inner);
    ceres::DynamicAutoDiffCostFunction<DynFunctor, 3> cf(new DynFunctor{&ch, &fn});
    for (int b : ch.pre.blocks) cf.AddParameterBlock(b);
    cf.SetNumResiduals(ch.post.m);
    c.note("dynamic functor: inner %zu blocks of %d, %d residuals", ch.g.blocks.size(), ch.g.n, ch.g.m);
    c.sig(Fmt("dyn %zu %d %d %d", ch.g.blocks.size(), ch.g.n, ch.g.m, ch.pre.n));
    for (int k = 0; k < 2; ++k) {
      const auto x = vh::RandomPoint(c.rng, ch.pre.n, 1);
      std::vector<double> f, J;
      ch.Ref(x, &f, &J);
      for (int mode = 0; mode < 4; ++mode)
        if (!vh::CheckEvaluate(c, "wrapper:dynamic-to-functor", cf, ch.pre.blocks, ch.post.m, x, f, J, 1e-9, 1e-9, mode)) return;
      // the plain double form, alone
      const auto y = vh::RandomPoint(c.rng, ch.g.n, 1);
      vh::Blocks yb(ch.g.blocks), z(std::vector<int>{ch.g.m});
      int n = 0;
      for (size_t b = 0; b < ch.g.blocks.size(); ++b)
        for (int i = 0; i < ch.g.blocks[b]; ++i) yb.ptr[b][i] = y[n++];
      std::vector<double> zr, jr;
      ch.g.Jac(y, &jr, &zr);
      const bool ok = fn(const_cast<double const* const*>(yb.ptr.data()), z.ptr[0]);
      for (int i = 0; i < ch.g.m; ++i) c.expect(ok && vh::Near(z.ptr[0][i], zr[i], 1e-12), "wrapper:dynamic-to-functor:double", "%g want %g", z.ptr[0][i], zr[i]);
    }
    for (int fail = 1; fail <= 3; ++fail) {
      inner->fail = fail;
      vh::Blocks p(ch.pre.blocks), r(std::vector<int>{ch.post.m}), j;
      for (size_t b = 0; b < p.ptr.size(); ++b) {
        for (int i = 0; i < p.size[b]; ++i) p.ptr[b][i] = c.rng.uni(-1, 1);
        j.Add(p.size[b] * ch.post.m);
      }
      const bool plain = cf.Evaluate(p.ptr.data(), r.ptr[0], nullptr), jets = cf.Evaluate(p.ptr.data(), r.ptr[0], j.ptr.data());
      c.expect(plain == (fail == 3) && jets == (fail == 2), "wrapper:dynamic-to-functor:failure-propagation", "inner fails %d: %d %d", fail, plain, jets);
      c.count("failure");
    }
    c.expect(destroyed == 0, "wrapper:dynamic-to-functor:ownership", "destroyed early");
  }
  c.expect(destroyed == 1, "wrapper:dynamic-to-functor:ownership", "inner cost function destroyed %d times", destroyed);
  c.count("ownership");
}

template <int R, int... Ns>
struct StaticFunctor {
  const Chain* ch;
  const ceres::CostFunctionToFunctor<R, Ns...>* f;
  template <typename T>
  bool Go(T const* const* x, T* out) const {
    return RunChain(*ch, [&](T const* const* y, T* z) { return Call(y, z, std::make_index_sequence<sizeof...(Ns)>()); }, x, out);
  }
  template <typename T, size_t... I>
  bool Call(T const* const* y, T* z, std::index_sequence<I...>) const { return (*f)(y[I]..., z); }
  template <typename T>
  bool operator()(const T* a, const T* b, T* out) const {
    const T* x[] = {a, b};
    return Go<T>(x, out);
  }
};
template <int R, int... Ns>
void Static(Case& c) {
  const int z = R == ceres::DYNAMIC ? c.rng.range(1, 6) : R;
  Chain ch;
  ch.Init(c, {3, 2}, {Ns...}, z, 4);
  int destroyed = 0;
  auto* inner = new vh::SmoothCost(ch.g, &destroyed);
  {
    ceres::CostFunctionToFunctor<R, Ns...> fn(inner);
    using F = StaticFunctor<R, Ns...>;
    ceres::AutoDiffCostFunction<F, 4, 3, 2> cf(new F{&ch, &fn});
    c.note("static functor: R=%d, %zu blocks", R, sizeof...(Ns));
    c.sig(Fmt("static %d %d %zu", R, z, sizeof...(Ns)));
    for (int k = 0; k < 2; ++k) {
      const auto x = vh::RandomPoint(c.rng, 5, 1);
      std::vector<double> f, J;
      ch.Ref(x, &f, &J);
      for (int mode = 0; mode < 4; ++mode)
        if (!vh::CheckEvaluate(c, "wrapper:to-functor", cf, {3, 2}, 4, x, f, J, 1e-9, 1e-9, mode)) return;
    }
    for (int fail = 1; fail <= 3; ++fail) {
      inner->fail = fail;
      double a[3] = {.1, .2, .3}, b[2] = {.4, .5}, r[4], ja[12], jb[8];
      const double* p[] = {a, b};
      double* j[] = {ja, jb};
      const bool plain = cf.Evaluate(p, r, nullptr), jets = cf.Evaluate(p, r, j);
      c.expect(plain == (fail == 3) && jets == (fail == 2), "wrapper:to-functor:failure-propagation", "inner fails %d: %d %d", fail, plain, jets);
      c.count("failure");
    }
  }
  c.expect(destroyed == 1, "wrapper:to-functor:ownership", "inner cost function destroyed %d times", destroyed);
  c.count("ownership");
}
static void FamStatic(Case& c) {
  switch (c.index % 10) {
    case 0: return Static<1, 1>(c);
    case 1: return Static<3, 2>(c);
    case 2: return Static<2, 1, 2>(c);
    case 3: return Static<2, 3, 1, 2>(c);
    case 4: return Static<4, 1, 1, 2, 1>(c);
    case 5: return Static<ceres::DYNAMIC, 3>(c);
    case 6: return Static<ceres::DYNAMIC, 2, 4>(c);
    case 7: return Static<1, 2, 1, 2, 1, 2>(c);
    case 8: return Static<3, 1, 1, 1, 1, 1, 1, 1>(c);
    default: return Static<2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 1>(c);
  }
}

static void FamConditioned(Case& c) {
  vh::Smooth s;
  s.Init(c.rng, RandomBlocks(c, 5, 4), c.rng.range(1, 7));
  int wd = 0;
  int cd[8] = {0};
  auto* wrapped = new vh::SmoothCost(s, &wd);
  std::vector<vh::SmoothCost*> pool;
  const int np = c.rng.range(1, 4);
  for (int i = 0; i < np; ++i) {
    vh::Smooth k;
    k.Init(c.rng, {1}, 1);
    pool.push_back(new vh::SmoothCost(k, &cd[i]));
  }
  std::vector<ceres::CostFunction*> cond(s.m);
  std::vector<int> which(s.m, -1);
  std::set<int> used;
  for (int r = 0; r < s.m; ++r) {
    if (c.rng.chance(0.3)) { cond[r] = nullptr; continue; }
    which[r] = c.rng.range(0, np - 1);
    used.insert(which[r]);
    cond[r] = pool[which[r]];
  }
  const bool own = c.rng.chance(0.5);
  std::string pat;
  for (int w : which) pat += Fmt("%d,", w);
  c.note("conditioned: %d residuals, conditioners %s own %d", s.m, pat.c_str(), own);
  c.sig(Fmt("cond %zu %d %s %d", s.blocks.size(), s.m, pat.c_str(), own));
  {
    ceres::ConditionedCostFunction cf(wrapped, cond, own ? ceres::TAKE_OWNERSHIP : ceres::DO_NOT_TAKE_OWNERSHIP);
    c.expect(cf.num_residuals() == s.m && cf.parameter_block_sizes() == s.blocks, "wrapper:conditioned:sizes", "%d", cf.num_residuals());
    for (int k = 0; k < 3; ++k) {
      const auto x = vh::RandomPoint(c.rng, s.n, 1);
      std::vector<double> f, J;
      s.Jac(x, &J, &f);
      for (int r = 0; r < s.m; ++r) {
        if (which[r] < 0) continue;
        std::vector<double> g, d;
        pool[which[r]]->f.Jac({f[r]}, &d, &g);
        f[r] = g[0];
        for (int i = 0; i < s.n; ++i) J[r * s.n + i] *= d[0];
      }
      const double tol = 1e-12 * s.Scale(x) * s.Scale(x);
      for (int mode = 0; mode < 4; ++mode)
        if (!vh::CheckEvaluate(c, "wrapper:conditioned", cf, s.blocks, s.m, x, f, J, tol, tol, mode)) break;
    }
    vh::Blocks p(s.blocks), r(std::vector<int>{s.m}), j;
    for (size_t b = 0; b < p.ptr.size(); ++b) {
      for (int i = 0; i < p.size[b]; ++i) p.ptr[b][i] = c.rng.uni(-1, 1);
      j.Add(p.size[b] * s.m);
    }
    for (int fail = 1; fail <= 3; ++fail) {
      wrapped->fail = fail;
      const bool plain = cf.Evaluate(p.ptr.data(), r.ptr[0], nullptr), jets = cf.Evaluate(p.ptr.data(), r.ptr[0], j.ptr.data());
      c.expect(plain == (fail == 3) && jets == (fail == 2), "wrapper:conditioned:failure-propagation", "wrapped fails %d: %d %d", fail, plain, jets);
      wrapped->fail = 0;
      for (int k : used) {
        pool[k]->fail = fail;
        const bool a = cf.Evaluate(p.ptr.data(), r.ptr[0], nullptr), b = cf.Evaluate(p.ptr.data(), r.ptr[0], j.ptr.data());
        c.expect(a == (fail == 3) && b == (fail == 2), "wrapper:conditioned:failure-propagation", "conditioner fails %d: %d %d", fail, a, b);
        pool[k]->fail = 0;
      }
      c.count("failure");
    }
  }
  c.expect(wd == (own ? 1 : 0), "wrapper:conditioned:ownership", "wrapped destroyed %d times, own %d", wd, own);
  for (int i = 0; i < np; ++i) c.expect(cd[i] == (own && used.count(i) ? 1 : 0), "wrapper:conditioned:ownership", "conditioner %d destroyed %d times, own %d used %d", i, cd[i], own, (int)used.count(i));
  if (!own) delete wrapped;
  for (int i = 0; i < np; ++i) if (!cd[i]) delete pool[i];
  c.count("ownership");
}

static void FamPrior(Case& c) {
  const int n = c.rng.range(1, 7), m = c.rng.range(1, 8);
  ceres::Matrix A(m, n);
  ceres::Vector b(n);
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) A(i, j) = c.rng.any();
  for (int j = 0; j < n; ++j) b(j) = c.rng.any();
  ceres::NormalPrior cf(A, b);
  c.note("normal prior %dx%d", m, n);
  c.sig(Fmt("prior %d %d", m, n));
  for (int k = 0; k < 3; ++k) {
    const auto x = vh::RandomPoint(c.rng, n, 3);
    std::vector<double> f(m), J(m * n);
    double sc = 1;
    for (int i = 0; i < m; ++i) {
      long double s = 0;
      for (int j = 0; j < n; ++j) {
        s += (long double)A(i, j) * ((long double)x[j] - b(j));
        sc += std::fabs(A(i, j)) * (std::fabs(x[j]) + std::fabs(b(j)));
        J[i * n + j] = A(i, j);
      }
      f[i] = s;
    }
    for (int mode = 0; mode < 4; ++mode) vh::CheckEvaluate(c, "wrapper:normal-prior", cf, {n}, m, x, f, J, 1e-14 * sc, 0, mode);
  }
}

template <typename Fn>
void CheckTiny(Case& c, const std::string& key, const Fn& fn, const vh::Smooth& s) {
  const auto x = vh::RandomPoint(c.rng, s.n, 1);
  std::vector<double> f, J;
  s.Jac(x, &J, &f);
  vh::Blocks p(std::vector<int>{s.n}), r(std::vector<int>{s.m}), j(std::vector<int>{s.n * s.m});
  std::copy(x.begin(), x.end(), p.ptr[0]);
  for (int with = 0; with < 2; ++with) {
    c.count("evaluate");
    const bool ok = fn(p.ptr[0], r.ptr[0], with ? j.ptr[0] : nullptr);
    c.expect(ok, key + ":failed", "false");
    for (int i = 0; i < s.m; ++i) c.expect(vh::Near(r.ptr[0][i], f[i], 1e-11), key + ":residual", "%d: %g want %g", i, r.ptr[0][i], f[i]);
    if (with)
      for (int i = 0; i < s.m; ++i)
        for (int k = 0; k < s.n; ++k) c.expect(vh::Near(j.ptr[0][k * s.m + i], J[i * s.n + k], 1e-11), key + ":jacobian", "(%d,%d): %g want %g", i, k, j.ptr[0][k * s.m + i], J[i * s.n + k]);
  }
}
struct TinyFunctor {
  vh::Smooth s;
  bool fail = false;
  int NumResiduals() const { return s.m; }
  template <typename T>
  bool operator()(const T* x, T* r) const {
    if (fail) return false;
    const T* p[] = {x};
    s.Eval(p, r);
    return true;
  }
};
template <int R, int N, int MaxR>
void Tiny(Case& c) {
  vh::Smooth s;
  const int m = R == Eigen::Dynamic ? c.rng.range(1, MaxR == Eigen::Dynamic ? 7 : MaxR) : R, n = N == Eigen::Dynamic ? c.rng.range(1, 6) : N;
  s.Init(c.rng, {n}, m);
  c.note("tiny adapters R=%d N=%d m=%d n=%d", R, N, m, n);
  c.sig(Fmt("tiny %d %d %d %d", R, N, m, n));
  vh::SmoothCost cost(s);
  {
    using A = ceres::TinySolverCostFunctionAdapter<R, N, MaxR>;
    A a(cost);
    c.expect(a.NumResiduals() == m && a.NumParameters() == n, "wrapper:tiny-adapter:sizes", "%d %d", a.NumResiduals(), a.NumParameters());
    for (int k = 0; k < 3; ++k) CheckTiny(c, "wrapper:tiny-adapter", a, s);
    for (int fail = 1; fail <= 3; ++fail) {
      cost.fail = fail;
      std::vector<double> x(n, .2), r(m), j(m * n);
      const bool plain = a(x.data(), r.data(), nullptr), jac = a(x.data(), r.data(), j.data());
      c.expect(plain == (fail == 3) && jac == (fail == 2), "wrapper:tiny-adapter:failure-propagation", "%d %d", plain, jac);
      c.count("failure");
    }
  }
  if constexpr (N != Eigen::Dynamic) {
    TinyFunctor tf{s};
    ceres::TinySolverAutoDiffFunction<TinyFunctor, R, N, double, MaxR> a(tf);
    c.expect(a.NumResiduals() == m, "wrapper:tiny-autodiff:sizes", "%d", a.NumResiduals());
    for (int k = 0; k < 3; ++k) CheckTiny(c, "wrapper:tiny-autodiff", a, s);
    tf.fail = true;
    std::vector<double> x(n, .2), r(m), j(m * n);
    c.expect(!a(x.data(), r.data(), nullptr) && !a(x.data(), r.data(), j.data()), "wrapper:tiny-autodiff:failure-propagation", "succeeded");
  }
}
static void FamTiny(Case& c) {
  constexpr int D = Eigen::Dynamic;
  switch (c.index % 8) {
    case 0: return Tiny<3, 2, 3>(c);
    case 1: return Tiny<5, 4, 5>(c);
    case 2: return Tiny<D, 3, D>(c);
    case 3: return Tiny<D, 2, 9>(c);
    case 4: return Tiny<D, D, D>(c);
    case 5: return Tiny<4, D, 4>(c);
    case 6: return Tiny<6, 6, 6>(c);
    default: return Tiny<2, 5, 2>(c);
  }
}

VH_MAIN({"to-functor", FamStatic, 1200}, {"dynamic-to-functor", FamDynamic, 1500}, {"conditioned", FamConditioned, 2500}, {"normal-prior", FamPrior, 600}, {"tiny", FamTiny, 1200})
