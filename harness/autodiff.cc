// C02: automatic differentiation.
#include <memory>
#include <utility>

#include "ceres/autodiff_cost_function.h"
#include "ceres/autodiff_first_order_function.h"
#include "ceres/autodiff_manifold.h"
#include "ceres/dynamic_autodiff_cost_function.h"
#include "smooth.h"

using vh::Case;
using vh::Fmt;

static int g_alive = 0, g_made = 0;

struct Functor {
  const vh::Smooth* f;
  int fail = 0;  // 1: always, 2: only for plain doubles, 3: only for Jets
  int leave = -1;  // an output never set
  explicit Functor(const vh::Smooth* f, int fail = 0) : f(f), fail(fail) { ++g_alive; ++g_made; }
  Functor(const Functor&) = delete;
  ~Functor() { --g_alive; }
  template <typename T>
  bool Go(T const* const* x, T* out) const {
    constexpr bool plain = std::is_same_v<T, double>;
    if (fail == 1 || (fail == 2 && plain) || (fail == 3 && !plain)) return false;
    if (leave < 0) {
      f->Eval(x, out);
    } else {
      const T was = out[leave];
      f->Eval(x, out);
      out[leave] = was;
    }
    return true;
  }
  // fixed-size form: pointers to the blocks, then the output
  template <typename T, typename... Rest, typename = std::enable_if_t<!std::is_pointer_v<T>>>
  bool operator()(const T* first, Rest*... rest) const {
    const T* all[] = {first, rest...};
    constexpr int k = sizeof...(Rest);
    return Go<T>(all, const_cast<T*>(all[k]));
  }
  // dynamic form
  template <typename T>
  bool operator()(T const* const* x, T* out) const { return Go<T>(x, out); }
};

static void Ref(Case& c, const vh::Smooth& s, const std::vector<double>& x, std::vector<double>* f, std::vector<double>* J) {
  s.Jac(x, J, f);
}

template <int R, int... Ns>
void Unset(Case& c, const vh::Smooth& s, const std::vector<int>& blocks, int m);

template <int R, int... Ns>
void Static(Case& c) {
  const std::vector<int> blocks{Ns...};
  const int m = R == ceres::DYNAMIC ? c.rng.range(1, 12) : R;
  vh::Smooth s;
  s.Init(c.rng, blocks, m);
  using CF = ceres::AutoDiffCostFunction<Functor, R, Ns...>;
  std::unique_ptr<CF> cf;
  std::unique_ptr<Functor> kept;
  const int before = g_alive;
  const int how = c.rng.range(0, 3);
  if constexpr (R == ceres::DYNAMIC) {
    if (how == 0) cf.reset(new CF(new Functor(&s), m));
    else if (how == 1) cf.reset(new CF(std::make_unique<Functor>(&s), m));
    else { kept.reset(new Functor(&s)); cf.reset(new CF(kept.get(), m, ceres::DO_NOT_TAKE_OWNERSHIP)); }
  } else {
    if (how == 0) cf.reset(new CF(new Functor(&s)));
    else if (how == 1) cf.reset(new CF(std::make_unique<Functor>(&s)));
    else if (how == 2) cf.reset(new CF(&s));
    else { kept.reset(new Functor(&s)); cf.reset(new CF(kept.get(), ceres::DO_NOT_TAKE_OWNERSHIP)); }
  }
  const std::string key = Fmt("autodiff:%s", R == ceres::DYNAMIC ? "dynamic-residuals" : "fixed");
  c.note("AutoDiff R=%d m=%d blocks=%zu n=%d how=%d", R, m, blocks.size(), s.n, how);
  c.expect(cf->num_residuals() == m && cf->parameter_block_sizes() == blocks, key + ":sizes", "num_residuals %d", cf->num_residuals());
  if (c.rng.chance(0.3)) {
    CF* moved = new CF(std::move(*cf));
    cf.reset(moved);
    c.count("moved");
  }
  for (int k = 0; k < 3; ++k) {
    const std::vector<double> x = vh::RandomPoint(c.rng, s.n, 1.5);
    std::vector<double> f, J;
    Ref(c, s, x, &f, &J);
    const double sc = s.Scale(x);
    for (int mode = 0; mode < 4; ++mode) {
      if (!vh::CheckEvaluate(c, key, *cf, blocks, m, x, f, J, 1e-14 * sc * 8, 1e-14 * sc * 16, mode)) return;
      c.sig(Fmt("%d/%d/%d/%d", R, m, s.n, mode));
    }
  }
  cf.reset();
  const int want = before + (kept ? 1 : 0);
  c.expect(g_alive == want, "autodiff:ownership", "%d functors alive after destruction, expected %d (constructor form %d)", g_alive, want, how);
  kept.reset();
  c.count("ownership");
  // failure
  for (int fail = 1; fail <= 3; ++fail) {
    std::unique_ptr<CF> bad;
    if constexpr (R == ceres::DYNAMIC) bad.reset(new CF(new Functor(&s, fail), m));
    else bad.reset(new CF(new Functor(&s, fail)));
    vh::Blocks p(blocks), r(std::vector<int>{m});
    std::vector<int> js;
    for (int b : blocks) js.push_back(b * m);
    vh::Blocks j(js);
    for (size_t b = 0; b < blocks.size(); ++b) for (int i = 0; i < blocks[b]; ++i) p.ptr[b][i] = c.rng.uni(-1, 1);
    const bool plain = bad->Evaluate(p.ptr.data(), r.ptr[0], nullptr);
    const bool jets = bad->Evaluate(p.ptr.data(), r.ptr[0], j.ptr.data());
    c.expect(plain == (fail == 3) && jets == (fail == 2), "autodiff:failure-propagation", "functor fails %d: plain %d jets %d", fail, plain, jets);
    c.count("failure");
  }
  Unset<R, Ns...>(c, s, blocks, m);
}

// An output the functor never sets must not pass for a value: it, and its row of
// derivatives, come out as numbers the solver refuses.
template <int R, int... Ns>
void Unset(Case& c, const vh::Smooth& s, const std::vector<int>& blocks, int m) {
  using CF = ceres::AutoDiffCostFunction<Functor, R, Ns...>;
  auto* functor = new Functor(&s);
  functor->leave = c.rng.range(0, m - 1);
  std::unique_ptr<CF> cf;
  if constexpr (R == ceres::DYNAMIC) cf.reset(new CF(functor, m));
  else cf.reset(new CF(functor));
  vh::Blocks p(blocks), r(std::vector<int>{m});
  std::vector<int> js;
  for (int b : blocks) js.push_back(b * m);
  vh::Blocks j(js);
  std::vector<double> x, f, J;
  for (size_t b = 0; b < blocks.size(); ++b) for (int i = 0; i < blocks[b]; ++i) x.push_back(p.ptr[b][i] = c.rng.uni(-1, 1));
  s.Jac(x, &J, &f);
  const double sc = s.Scale(x);
  if (!c.expect(cf->Evaluate(p.ptr.data(), r.ptr[0], j.ptr.data()), "autodiff:unset-evaluate", "evaluation failed")) return;
  auto usable = [](double v) { return std::isfinite(v) && std::fabs(v) < 1e300; };
  for (int i = 0; i < m; ++i) {
    const double v = r.ptr[0][i];
    if (i == functor->leave) c.expect(!usable(v), "autodiff:unset-residual", "residual %d of %d was never set and reads %.17g", i, m, v);
    else c.expect(std::fabs(v - f[i]) <= 1e-13 * sc, "autodiff:unset-others", "residual %d is %.17g, not %.17g, with %d never set", i, v, f[i], functor->leave);
  }
  int nth = 0;
  for (size_t b = 0; b < blocks.size(); ++b)
    for (int i = 0; i < blocks[b]; ++i, ++nth)
      c.expect(!usable(j.ptr[b][functor->leave * blocks[b] + i]), "autodiff:unset-derivative", "derivative %d of residual %d of %d, never set, reads %.17g", nth, functor->leave, m, j.ptr[b][functor->leave * blocks[b] + i]);
  c.count("unset");
}

static void FamStatic(Case& c) {
  switch (c.index % 32) {
    case 0: return Static<1, 1>(c);
    case 1: return Static<2, 3>(c);
    case 2: return Static<3, 1, 1>(c);
    case 3: return Static<1, 2, 3>(c);
    case 4: return Static<5, 4, 1>(c);
    case 5: return Static<2, 9, 3>(c);
    case 6: return Static<2, 1, 2, 3>(c);
    case 7: return Static<4, 3, 2, 1>(c);
    case 8: return Static<3, 1, 1, 1, 1>(c);
    case 9: return Static<2, 1, 2, 3, 4>(c);
    case 10: return Static<6, 2, 2, 2, 2, 2>(c);
    case 11: return Static<1, 1, 2, 3, 4, 5>(c);
    case 12: return Static<2, 3, 1, 2, 1, 3, 1>(c);
    case 13: return Static<3, 1, 1, 1, 1, 1, 1, 1>(c);
    case 14: return Static<2, 2, 1, 2, 1, 2, 1, 2, 1>(c);
    case 15: return Static<1, 1, 1, 1, 1, 1, 1, 1, 1, 1>(c);
    case 16: return Static<4, 2, 1, 1, 3, 1, 1, 2, 1, 1, 2>(c);
    case 17: return Static<19, 4>(c);
    case 18: return Static<21, 3, 2>(c);
    case 19: return Static<1, 21>(c);
    case 20: return Static<7, 13, 6>(c);
    case 21: return Static<ceres::DYNAMIC, 1>(c);
    case 22: return Static<ceres::DYNAMIC, 4, 2>(c);
    case 23: return Static<ceres::DYNAMIC, 1, 2, 3>(c);
    case 24: return Static<ceres::DYNAMIC, 7, 1, 5, 2>(c);
    case 25: return Static<60, 2, 5>(c);
    case 26: return Static<20, 1, 1>(c);
    case 27: return Static<2, 35>(c);
    case 28: return Static<8, 6, 6, 3>(c);
    case 29: return Static<ceres::DYNAMIC, 30>(c);
    case 30: return Static<3, 4, 4, 4>(c);
    default: return Static<1, 5, 5, 1>(c);
  }
}

template <int Stride>
void Dynamic(Case& c) {
  const int nb = c.rng.range(1, 7);
  std::vector<int> blocks;
  for (int i = 0; i < nb; ++i) blocks.push_back(c.rng.chance(0.1) ? c.rng.range(6, 14) : c.rng.range(1, 5));
  const int m = c.rng.chance(0.1) ? c.rng.range(20, 70) : c.rng.range(1, 9);
  vh::Smooth s;
  s.Init(c.rng, blocks, m);
  using CF = ceres::DynamicAutoDiffCostFunction<Functor, Stride>;
  const int before = g_alive;
  std::unique_ptr<CF> cf;
  std::unique_ptr<Functor> kept;
  const int how = c.rng.range(0, 3);
  if (how == 0) cf.reset(new CF(new Functor(&s)));
  else if (how == 1) cf.reset(new CF(std::make_unique<Functor>(&s)));
  else if (how == 2) cf.reset(new CF(&s));
  else { kept.reset(new Functor(&s)); cf.reset(new CF(kept.get(), ceres::DO_NOT_TAKE_OWNERSHIP)); }
  for (int b : blocks) cf->AddParameterBlock(b);
  cf->SetNumResiduals(m);
  std::string bs;
  for (int b : blocks) bs += Fmt("%d,", b);
  c.note("DynamicAutoDiff stride=%d m=%d blocks=%s", Stride, m, bs.c_str());
  const std::string key = "autodiff:dynamic";
  for (int k = 0; k < 2; ++k) {
    const std::vector<double> x = vh::RandomPoint(c.rng, s.n, 1.5);
    std::vector<double> f, J;
    Ref(c, s, x, &f, &J);
    const double sc = s.Scale(x);
    for (int t = 0; t < 9; ++t) {
      const int mode = t < 2 ? t : t == 2 ? 3 : 2;
      if (!vh::CheckEvaluate(c, key, *cf, blocks, m, x, f, J, 1e-13 * sc, 1e-13 * sc, mode)) return;
    }
  }
  c.sig(Fmt("%d/%s", Stride, bs.c_str()));
  cf.reset();
  const int want = before + (kept ? 1 : 0);
  c.expect(g_alive == want, "autodiff:dynamic:ownership", "%d functors alive after destruction, expected %d (constructor form %d)", g_alive, want, how);
  kept.reset();
  c.count("ownership");
  for (int fail = 1; fail <= 3; ++fail) {
    CF bad(new Functor(&s, fail));
    for (int b : blocks) bad.AddParameterBlock(b);
    bad.SetNumResiduals(m);
    vh::Blocks p(blocks), r(std::vector<int>{m});
    std::vector<int> js;
    for (int b : blocks) js.push_back(b * m);
    vh::Blocks j(js);
    for (size_t b = 0; b < blocks.size(); ++b) for (int i = 0; i < blocks[b]; ++i) p.ptr[b][i] = c.rng.uni(-1, 1);
    const bool plain = bad.Evaluate(p.ptr.data(), r.ptr[0], nullptr);
    const bool jets = bad.Evaluate(p.ptr.data(), r.ptr[0], j.ptr.data());
    c.expect(plain == (fail == 3) && jets == (fail == 2), "autodiff:dynamic:failure-propagation", "functor fails %d: plain %d jets %d", fail, plain, jets);
    std::vector<double*> none(blocks.size(), nullptr);
    const bool empty = bad.Evaluate(p.ptr.data(), r.ptr[0], none.data());
    c.expect(fail != 1 || !empty, "autodiff:dynamic:failure-propagation", "no Jacobian asked");
    c.count("failure");
  }
}
static void FamDynamic(Case& c) {
  switch (c.index % 6) {
    case 0: return Dynamic<1>(c);
    case 1: return Dynamic<2>(c);
    case 2: return Dynamic<3>(c);
    case 3: return Dynamic<4>(c);
    case 4: return Dynamic<5>(c);
    default: return Dynamic<11>(c);
  }
}

template <int N>
void First(Case& c) {
  vh::Smooth s;
  s.Init(c.rng, {N}, 1);
  using FO = ceres::AutoDiffFirstOrderFunction<Functor, N>;
  const int before = g_alive;
  std::unique_ptr<FO> fo;
  std::unique_ptr<Functor> kept;
  const int how = c.rng.range(0, 3);
  if (how == 0) fo.reset(new FO(new Functor(&s)));
  else if (how == 1) fo.reset(new FO(std::make_unique<Functor>(&s)));
  else if (how == 2) fo.reset(new FO(&s));
  else { kept.reset(new Functor(&s)); fo.reset(new FO(kept.get(), ceres::DO_NOT_TAKE_OWNERSHIP)); }
  c.note("AutoDiffFirstOrderFunction N=%d", N);
  c.expect(fo->NumParameters() == N, "autodiff:first-order:size", "%d", fo->NumParameters());
  for (int k = 0; k < 4; ++k) {
    const std::vector<double> x = vh::RandomPoint(c.rng, N, 1.5);
    std::vector<double> f, J;
    s.Jac(x, &J, &f);
    const double tol = 1e-13 * s.Scale(x);
    vh::Blocks p({N}), g({N}), v({1});
    std::copy(x.begin(), x.end(), p.ptr[0]);
    c.count("evaluate");
    bool ok = fo->Evaluate(p.ptr[0], v.ptr[0], nullptr);
    c.expect(ok && vh::Near(v.ptr[0][0], f[0], tol), "autodiff:first-order:value", "%.17g want %.17g", v.ptr[0][0], f[0]);
    v.ptr[0][0] = 1e99;
    ok = fo->Evaluate(p.ptr[0], v.ptr[0], g.ptr[0]);
    c.expect(ok && vh::Near(v.ptr[0][0], f[0], tol), "autodiff:first-order:value", "%.17g want %.17g (with gradient)", v.ptr[0][0], f[0]);
    for (int i = 0; i < N; ++i) c.expect(vh::Near(g.ptr[0][i], J[i], tol), "autodiff:first-order:gradient", "component %d: %.17g want %.17g", i, g.ptr[0][i], J[i]);
    c.expect(p.Flat() == x, "autodiff:first-order:parameters-changed", "x");
  }
  c.sig(Fmt("first %d %d", N, how));
  fo.reset();
  const int want = before + (kept ? 1 : 0);
  c.expect(g_alive == want, "autodiff:first-order:ownership", "%d alive, expected %d", g_alive, want);
  for (int fail = 1; fail <= 3; ++fail) {
    FO bad(new Functor(&s, fail));
    std::vector<double> x(N, 0.3), g(N);
    double v;
    const bool plain = bad.Evaluate(x.data(), &v, nullptr), jets = bad.Evaluate(x.data(), &v, g.data());
    c.expect(plain == (fail == 3) && jets == (fail == 2), "autodiff:first-order:failure-propagation", "functor fails %d: %d %d", fail, plain, jets);
    c.count("failure");
  }
}
static void FamFirst(Case& c) {
  switch (c.index % 5) {
    case 0: return First<1>(c);
    case 1: return First<2>(c);
    case 2: return First<5>(c);
    case 3: return First<16>(c);
    default: return First<40>(c);
  }
}

// A manifold with non-trivial, point dependent Plus and Minus whose derivatives at
// zero are known: x [+] d = x + B(x) d + q*|d|^2, B(x) = B0 + diag-ish function of x.
template <int A, int T>
struct MFunctor {
  double B[A][T], C[A][T], Q[A];
  int fail = 0;
  MFunctor() { ++g_alive; }
  MFunctor(const MFunctor& o) { std::memcpy(this, &o, sizeof o); ++g_alive; }
  ~MFunctor() { --g_alive; }
  template <typename S>
  bool Plus(const S* x, const S* d, S* out) const {
    if (fail == 1) return false;
    S n = S(0.0);
    for (int j = 0; j < T; ++j) n += d[j] * d[j];
    for (int i = 0; i < A; ++i) {
      out[i] = x[i] + Q[i] * n;
      for (int j = 0; j < T; ++j) out[i] += (B[i][j] + C[i][j] * x[i] * x[(i + 1) % A]) * d[j];
    }
    return true;
  }
  template <typename S>
  bool Minus(const S* y, const S* x, S* out) const {
    if (fail == 2) return false;
    for (int j = 0; j < T; ++j) {
      out[j] = S(0.0);
      for (int i = 0; i < A; ++i) out[j] += (B[i][j] + C[i][j] * x[i]) * (y[i] - x[i]) + Q[i] * (y[i] - x[i]) * (y[i] - x[i]);
    }
    return true;
  }
};
template <int A, int T>
void Mani(Case& c) {
  const int before = g_alive;
  {
    auto* fn = new MFunctor<A, T>;
    for (int i = 0; i < A; ++i) {
      fn->Q[i] = c.rng.uni(-1, 1);
      for (int j = 0; j < T; ++j) fn->B[i][j] = c.rng.uni(-1, 1), fn->C[i][j] = c.rng.uni(-1, 1);
    }
    ceres::AutoDiffManifold<MFunctor<A, T>, A, T> m(fn);
    c.note("AutoDiffManifold %d,%d", A, T);
    c.expect(m.AmbientSize() == A && m.TangentSize() == T, "autodiff:manifold:sizes", "%d %d", m.AmbientSize(), m.TangentSize());
    for (int k = 0; k < 4; ++k) {
      const std::vector<double> x = vh::RandomPoint(c.rng, A), d = vh::RandomPoint(c.rng, T), y = vh::RandomPoint(c.rng, A);
      std::unique_ptr<double[]> o(new double[A]), mo(new double[T]), pj(new double[A * T]), mj(new double[T * A]);
      std::vector<double> ro(A), rm(T);
      fn->Plus(x.data(), d.data(), ro.data());
      fn->Minus(y.data(), x.data(), rm.data());
      bool ok = m.Plus(x.data(), d.data(), o.get()) && m.Minus(y.data(), x.data(), mo.get()) && m.PlusJacobian(x.data(), pj.get()) && m.MinusJacobian(x.data(), mj.get());
      c.count("evaluate", 4);
      c.expect(ok, "autodiff:manifold:failed", "an operation failed");
      for (int i = 0; i < A; ++i) c.expect(vh::Near(o[i], ro[i], 1e-12), "autodiff:manifold:plus", "%g want %g", o[i], ro[i]);
      for (int j = 0; j < T; ++j) c.expect(vh::Near(mo[j], rm[j], 1e-12), "autodiff:manifold:minus", "%g want %g", mo[j], rm[j]);
      for (int i = 0; i < A; ++i)
        for (int j = 0; j < T; ++j) {
          const double pw = fn->B[i][j] + fn->C[i][j] * x[i] * x[(i + 1) % A], mw = fn->B[i][j] + fn->C[i][j] * x[i];
          c.expect(vh::Near(pj[i * T + j], pw, 1e-12), "autodiff:manifold:plus-jacobian", "(%d,%d) %g want %g", i, j, pj[i * T + j], pw);
          c.expect(vh::Near(mj[j * A + i], mw, 1e-12), "autodiff:manifold:minus-jacobian", "(%d,%d) %g want %g", j, i, mj[j * A + i], mw);
        }
    }
    fn->fail = 1;
    std::vector<double> x(A, 0.1), y(A, 0.2), o(A), J(A * T);
    c.expect(!m.Plus(x.data(), x.data(), o.data()) && !m.PlusJacobian(x.data(), J.data()) && m.MinusJacobian(x.data(), J.data()), "autodiff:manifold:failure-propagation", "Plus fails");
    fn->fail = 2;
    c.expect(!m.Minus(y.data(), x.data(), o.data()) && !m.MinusJacobian(x.data(), J.data()) && m.PlusJacobian(x.data(), J.data()), "autodiff:manifold:failure-propagation", "Minus fails");
    c.count("failure");
    c.sig(Fmt("manifold %d %d", A, T));
  }
  c.expect(g_alive == before, "autodiff:manifold:ownership", "%d alive, expected %d", g_alive, before);
}
static void FamManifold(Case& c) {
  switch (c.index % 6) {
    case 0: return Mani<2, 1>(c);
    case 1: return Mani<4, 3>(c);
    case 2: return Mani<3, 3>(c);
    case 3: return Mani<7, 6>(c);
    case 4: return Mani<5, 2>(c);
    default: return Mani<1, 1>(c);
  }
}

VH_MAIN({"fixed", FamStatic, 1600}, {"dynamic", FamDynamic, 2400}, {"first-order", FamFirst, 500}, {"manifold", FamManifold, 300})
