// C03: numeric differentiation.
#include <memory>

#include "ceres/dynamic_numeric_diff_cost_function.h"
#include "ceres/numeric_diff_cost_function.h"
#include "ceres/numeric_diff_first_order_function.h"
#include "smooth.h"

using vh::Case;
using vh::Fmt;
using ceres::NumericDiffMethodType;

static int g_alive = 0;

// What the functor was called with.
struct Log {
  std::vector<std::vector<double>> calls;
  int fail_at = -1;  // ordinal of the call that fails
  int n = 0;
};

struct Functor {
  const vh::Smooth* f;
  Log* log;
  Functor(const vh::Smooth* f, Log* log) : f(f), log(log) { ++g_alive; }
  Functor(const Functor&) = delete;
  ~Functor() { --g_alive; }
  bool Go(double const* const* x, double* out) const {
    std::vector<double> flat;
    for (size_t b = 0; b < f->blocks.size(); ++b) flat.insert(flat.end(), x[b], x[b] + f->blocks[b]);
    log->calls.push_back(flat);
    if (log->n++ == log->fail_at) return false;
    f->Eval(x, out);
    return true;
  }
  template <typename... Rest>
  bool operator()(const double* first, Rest*... rest) const {
    const double* all[] = {first, rest...};
    constexpr int k = sizeof...(Rest);
    return Go(all, const_cast<double*>(all[k]));
  }
  bool operator()(double const* const* x, double* out) const { return Go(x, out); }
};

// The same, as a cost function that has no Jacobians of its own.
struct AsCost : ceres::CostFunction {
  Functor fn;
  AsCost(const vh::Smooth* f, Log* log) : fn(f, log) {
    set_num_residuals(f->m);
    for (int b : f->blocks) mutable_parameter_block_sizes()->push_back(b);
  }
  bool Evaluate(double const* const* x, double* r, double** j) const override { return fn.Go(x, r); }
};

static ceres::NumericDiffOptions Options(Case& c, bool defaults) {
  ceres::NumericDiffOptions o;
  if (!defaults) {
    o.relative_step_size = c.rng.of({1e-4, 1e-5, 1e-6, 1e-7, 3e-6});
    o.ridders_relative_initial_step_size = c.rng.of({1e-1, 1e-2, 5e-3, 5e-2});
    o.max_num_ridders_extrapolations = c.rng.of({4, 6, 10, 13});
    o.ridders_step_shrink_factor = c.rng.of({1.5, 2.0, 3.0});
    // keep the largest trial step small against the functions' length scale
    while (o.ridders_relative_initial_step_size * std::pow(o.ridders_step_shrink_factor, o.max_num_ridders_extrapolations / 2) > 0.33) o.ridders_relative_initial_step_size /= 2;
    o.ridders_epsilon = c.rng.of({1e-12, 1e-10, 1e-14});
  }
  return o;
}

// The step the documentation promises for a coordinate.
static double Step(NumericDiffMethodType m, const ceres::NumericDiffOptions& o, double x) {
  const double floor = std::sqrt(std::numeric_limits<double>::epsilon());
  if (m == ceres::RIDDERS) return std::max(std::max(floor, o.ridders_relative_initial_step_size), std::fabs(x) * o.ridders_relative_initial_step_size);
  return std::max(floor, std::fabs(x) * o.relative_step_size);
}

static const char* Name(NumericDiffMethodType m) { return m == ceres::CENTRAL ? "central" : m == ceres::FORWARD ? "forward" : "ridders"; }

// Error bound of the method for coordinate i of row r at x.
static double Bound(NumericDiffMethodType m, const ceres::NumericDiffOptions& o, const vh::Smooth& s, int r, int i, const std::vector<double>& x) {
  const auto& row = s.rows[r];
  const double w = std::fabs(row.w[i]), a = std::fabs(row.a[i]);
  double mag = std::fabs(row.c) + std::fabs(row.s);
  double u = std::fabs(row.p), v = 0;
  for (int k = 0; k < s.n; ++k) u += std::fabs(x[k] * row.w[k]), v += std::fabs(x[k] * row.a[k]);
  mag += v + std::fabs(row.q) * u * v + u * std::fabs(row.s);
  const double eps = 2.3e-16 * (s.n + 4);
  const double h = Step(m, o, x[i]);
  if (m == ceres::FORWARD) return 1.5 * (h / 2 * (std::fabs(row.s) * w * w + 2 * std::fabs(row.q) * w * a) + 4 * eps * mag / h) + 1e-13;
  if (m == ceres::CENTRAL) return 1.5 * (h * h / 6 * std::fabs(row.s) * w * w * w + 4 * eps * mag / h) + 1e-13;
  return 1e-6 * (1 + std::fabs(row.s)) + 1e-11 * mag;
}

// Every call after the first moves at most one coordinate, one that was asked for,
// by the documented step.
static void CheckCalls(Case& c, const std::string& key, NumericDiffMethodType m, const ceres::NumericDiffOptions& o, const std::vector<double>& x, const std::vector<int>& blocks,
                       const std::vector<bool>& asked, const Log& log) {
  std::vector<int> plus(x.size(), 0), minus(x.size(), 0);
  for (size_t k = 0; k < log.calls.size(); ++k) {
    const auto& y = log.calls[k];
    int moved = -1, count = 0;
    for (size_t i = 0; i < x.size(); ++i)
      if (!vh::Bits(x[i], y[i]) && x[i] != y[i]) moved = static_cast<int>(i), ++count;
    if (!c.expect(count <= 1, key + ":several-coordinates-moved", "call %zu moved %d coordinates", k, count)) return;
    if (!count) continue;
    int b = 0, off = 0;
    while (moved >= off + blocks[b]) off += blocks[b++];
    if (!c.expect(asked[b], key + ":unrequested-block-moved", "call %zu moved block %d", k, b)) return;
    const double d = y[moved] - x[moved], h = Step(m, o, x[moved]);
    const double round = 4e-16 * (std::fabs(x[moved]) + h);
    if (m == ceres::RIDDERS) {
      const double top = h * std::pow(o.ridders_step_shrink_factor, o.max_num_ridders_extrapolations / 2);
      if (!c.expect(std::fabs(d) <= top * (1 + 1e-9) + round, key + ":step", "coordinate %d moved by %g, largest step %g", moved, d, top)) return;
    } else {
      if (!c.expect(std::fabs(std::fabs(d) - h) <= round + 1e-9 * h, key + ":step", "coordinate %d at %.17g moved by %g, documented %g", moved, x[moved], d, h)) return;
      if (m == ceres::FORWARD && !c.expect(d > 0, key + ":step-direction", "forward difference moved by %g", d)) return;
    }
    (d > 0 ? plus : minus)[moved]++;
    c.count("perturbed-calls");
  }
  int off = 0;
  for (size_t b = 0; b < blocks.size(); ++b)
    for (int i = 0; i < blocks[b]; ++i, ++off)
      if (asked[b]) {
        c.expect(plus[off] > 0 && (m == ceres::FORWARD || minus[off] == plus[off]), key + ":asymmetric", "coordinate %d: %d forward and %d backward evaluations", off, plus[off], minus[off]);
      }
}

template <typename CF>
void Check(Case& c, const std::string& key, NumericDiffMethodType method, const ceres::NumericDiffOptions& o, const CF& cf, const vh::Smooth& s, Log& log, const std::vector<double>& x, int mode) {
  std::vector<double> f, J;
  s.Jac(x, &J, &f);
  const auto& blocks = s.blocks;
  vh::Blocks p(blocks), r(std::vector<int>{s.m}), j;
  int n = 0;
  for (size_t b = 0; b < blocks.size(); ++b)
    for (int i = 0; i < blocks[b]; ++i) p.ptr[b][i] = x[n++];
  std::vector<double*> jp(blocks.size(), nullptr);
  std::vector<bool> asked(blocks.size());
  std::string pat;
  for (size_t b = 0; b < blocks.size(); ++b) {
    asked[b] = mode == 1 || (mode == 2 && c.rng.chance(0.5));
    pat += asked[b] ? '1' : '0';
    if (asked[b]) jp[b] = j.Add(s.m * blocks[b]);
  }
  log = Log();
  const bool ok = cf.Evaluate(p.ptr.data(), r.ptr[0], mode ? jp.data() : nullptr);
  c.count("evaluate");
  if (!c.expect(ok, key + ":failed", "Evaluate returned false")) return;
  c.expect(p.Flat() == x, key + ":parameters-changed", "pattern %s", pat.c_str());
  c.expect(!log.calls.empty() && log.calls[0] == x, key + ":value-call", "the functor was not called at the point");
  for (int k = 0; k < s.m; ++k)
    if (!c.expect(vh::Near(r.ptr[0][k], f[k], 1e-13 * s.Scale(x)), key + ":residual", "%d: %.17g want %.17g", k, r.ptr[0][k], f[k])) return;
  n = 0;
  for (size_t b = 0; b < blocks.size(); ++b) {
    if (jp[b])
      for (int k = 0; k < s.m; ++k)
        for (int i = 0; i < blocks[b]; ++i) {
          const double got = jp[b][k * blocks[b] + i], want = J[k * s.n + n + i], tol = Bound(method, o, s, k, n + i, x);
          if (!c.expect(vh::Near(got, want, tol), key + ":jacobian", "block %zu of %zu entry (%d,%d): %.17g, reference %.17g, bound %.3g, x=%g, pattern %s", b, blocks.size(), k, i, got, want, tol, x[n + i], pat.c_str()))
            return;
          c.count("entries");
        }
    n += blocks[b];
  }
  CheckCalls(c, key, method, o, x, blocks, asked, log);
}

template <typename CF>
void Failures(Case& c, const std::string& key, const CF& cf, const vh::Smooth& s, Log& log, const std::vector<double>& x) {
  std::vector<int> js;
  for (int b : s.blocks) js.push_back(b * s.m);
  vh::Blocks p(s.blocks), r(std::vector<int>{s.m}), j(js);
  int n = 0;
  for (size_t b = 0; b < s.blocks.size(); ++b)
    for (int i = 0; i < s.blocks[b]; ++i) p.ptr[b][i] = x[n++];
  log = Log();
  cf.Evaluate(p.ptr.data(), r.ptr[0], j.ptr.data());
  const int total = log.n;
  std::vector<int> ks{0, 1, total - 1};
  for (int i = 0; i < 4; ++i) ks.push_back(c.rng.range(0, total - 1));
  for (int k : ks) {
    if (k < 0 || k >= total) continue;
    log = Log();
    log.fail_at = k;
    const bool ok = cf.Evaluate(p.ptr.data(), r.ptr[0], j.ptr.data());
    c.expect(!ok, key + ":failure-propagation", "the functor failed at call %d of %d and the evaluation succeeded", k, total);
    c.expect(p.Flat() == x, key + ":parameters-changed", "after a failure");
    c.count("failure");
  }
  log = Log();
}

static std::vector<double> Point(Case& c, const vh::Smooth& s, bool large) {
  std::vector<double> x = vh::RandomPoint(c.rng, s.n, 2);
  if (large)
    for (double& v : x) if (c.rng.chance(0.5)) v *= std::pow(10, c.rng.uni(-6, 3));
  return x;
}

template <NumericDiffMethodType M, int R, int... Ns>
void Static(Case& c) {
  const std::vector<int> blocks{Ns...};
  const int m = R == ceres::DYNAMIC ? c.rng.range(1, 12) : R;
  vh::Smooth s;
  s.Init(c.rng, blocks, m);
  const bool large = M != ceres::RIDDERS && c.rng.chance(0.3);
  if (large) for (auto& row : s.rows) row.s = 0;
  Log log;
  const bool defaults = c.rng.chance(0.4);
  ceres::NumericDiffOptions o = Options(c, defaults);
  const int before = g_alive;
  const std::string key = Fmt("numdiff:%s", Name(M));
  constexpr bool few = sizeof...(Ns) <= 2;
  const int how = c.rng.range(0, few ? 3 : 1);
  c.note("NumericDiff %s R=%d m=%d blocks=%zu n=%d form %d", Name(M), R, m, blocks.size(), s.n, how);
  c.sig(Fmt("%d/%d/%zu/%d/%d", (int)M, R, blocks.size(), s.n, how));
  auto use = [&](auto& cf) {
    c.expect(cf.num_residuals() == m && cf.parameter_block_sizes() == blocks, key + ":sizes", "%d", cf.num_residuals());
    for (int k = 0; k < 2; ++k)
      for (int mode = 0; mode < 4; ++mode) Check(c, key, M, o, cf, s, log, Point(c, s, large), mode);
    Failures(c, key, cf, s, log, Point(c, s, false));
  };
  if (how == 3) if constexpr (few) {
    using CF = ceres::NumericDiffCostFunction<ceres::CostFunction, M, R, Ns...>;
    CF cf(new AsCost(&s, &log), ceres::TAKE_OWNERSHIP, m, o);
    use(cf);
  }
  if (how == 2) {
    using CF = ceres::NumericDiffCostFunction<Functor, M, R, Ns...>;
    Functor kept(&s, &log);
    {
      CF cf(&kept, ceres::DO_NOT_TAKE_OWNERSHIP, m, o);
      use(cf);
    }
    c.expect(g_alive == before + 1, "numdiff:ownership", "unowned functor destroyed");
  } else if (how == 1) {
    using CF = ceres::NumericDiffCostFunction<Functor, M, R, Ns...>;
    CF cf(std::make_unique<Functor>(&s, &log), m, o);
    CF moved(std::move(cf));
    use(moved);
  } else if (how == 0) {
    using CF = ceres::NumericDiffCostFunction<Functor, M, R, Ns...>;
    CF cf(new Functor(&s, &log), ceres::TAKE_OWNERSHIP, m, o);
    use(cf);
  }
  c.expect(g_alive == before, "numdiff:ownership", "%d functors alive, expected %d, form %d", g_alive, before, how);
  c.count("ownership");
}

template <NumericDiffMethodType M>
void StaticAll(Case& c) {
  switch ((c.index / 3) % 14) {
    case 0: return Static<M, 1, 1>(c);
    case 1: return Static<M, 3, 2>(c);
    case 2: return Static<M, 2, 1, 3>(c);
    case 3: return Static<M, 1, 2, 2>(c);
    case 4: return Static<M, 4, 3, 1, 2>(c);
    case 5: return Static<M, 2, 1, 1, 1, 1>(c);
    case 6: return Static<M, 3, 2, 1, 2, 1, 3>(c);
    case 7: return Static<M, 2, 1, 1, 2, 1, 1, 2>(c);
    case 8: return Static<M, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2>(c);
    case 9: return Static<M, ceres::DYNAMIC, 3>(c);
    case 10: return Static<M, ceres::DYNAMIC, 1, 2>(c);
    case 11: return Static<M, ceres::DYNAMIC, 2, 3, 1>(c);
    case 12: return Static<M, 9, 5>(c);
    default: return Static<M, 1, 12>(c);
  }
}
static void FamStatic(Case& c) {
  switch (c.index % 3) {
    case 0: return StaticAll<ceres::CENTRAL>(c);
    case 1: return StaticAll<ceres::FORWARD>(c);
    default: return StaticAll<ceres::RIDDERS>(c);
  }
}

template <NumericDiffMethodType M>
void Dynamic(Case& c) {
  const int nb = c.rng.range(1, 6);
  std::vector<int> blocks;
  for (int i = 0; i < nb; ++i) blocks.push_back(c.rng.range(1, 5));
  const int m = c.rng.range(1, 8);
  vh::Smooth s;
  s.Init(c.rng, blocks, m);
  const bool large = M != ceres::RIDDERS && c.rng.chance(0.3);
  if (large) for (auto& row : s.rows) row.s = 0;
  Log log;
  ceres::NumericDiffOptions o = Options(c, c.rng.chance(0.4));
  const int before = g_alive;
  const std::string key = Fmt("numdiff:dynamic-%s", Name(M));
  const int how = c.rng.range(0, 2);
  std::string bs;
  for (int b : blocks) bs += Fmt("%d,", b);
  c.note("DynamicNumericDiff %s m=%d blocks=%s", Name(M), m, bs.c_str());
  c.sig(Fmt("dyn/%d/%s/%d", (int)M, bs.c_str(), how));
  auto use = [&](auto& cf) {
    for (int b : blocks) cf.AddParameterBlock(b);
    cf.SetNumResiduals(m);
    for (int k = 0; k < 2; ++k)
      for (int mode = 0; mode < 4; ++mode) Check(c, key, M, o, cf, s, log, Point(c, s, large), mode);
    Failures(c, key, cf, s, log, Point(c, s, false));
  };
  if (how == 2) {
    ceres::DynamicNumericDiffCostFunction<ceres::CostFunction, M> cf(new AsCost(&s, &log), ceres::TAKE_OWNERSHIP, o);
    use(cf);
  } else if (how == 1) {
    Functor kept(&s, &log);
    {
      ceres::DynamicNumericDiffCostFunction<Functor, M> cf(&kept, ceres::DO_NOT_TAKE_OWNERSHIP, o);
      use(cf);
    }
    c.expect(g_alive == before + 1, "numdiff:dynamic:ownership", "unowned functor destroyed");
  } else {
    ceres::DynamicNumericDiffCostFunction<Functor, M> cf(std::make_unique<Functor>(&s, &log), o);
    use(cf);
  }
  c.expect(g_alive == before, "numdiff:dynamic:ownership", "%d functors alive, expected %d, form %d", g_alive, before, how);
  c.count("ownership");
}
static void FamDynamic(Case& c) {
  switch (c.index % 3) {
    case 0: return Dynamic<ceres::CENTRAL>(c);
    case 1: return Dynamic<ceres::FORWARD>(c);
    default: return Dynamic<ceres::RIDDERS>(c);
  }
}

// First-order functions as one-residual, one-block cost functions.
template <typename FO>
struct FoAdapter {
  const FO& fo;
  bool Evaluate(double const* const* x, double* r, double** j) const { return fo.Evaluate(x[0], r, j ? j[0] : nullptr); }
};
template <NumericDiffMethodType M, int N>
void First(Case& c) {
  const int n = N == ceres::DYNAMIC ? c.rng.range(1, 9) : N;
  vh::Smooth s;
  s.Init(c.rng, {n}, 1);
  Log log;
  ceres::NumericDiffOptions o = Options(c, c.rng.chance(0.4));
  const std::string key = Fmt("numdiff:first-order-%s", Name(M));
  const int before = g_alive;
  using FO = ceres::NumericDiffFirstOrderFunction<Functor, M, N>;
  c.note("NumericDiffFirstOrder %s N=%d n=%d", Name(M), N, n);
  c.sig(Fmt("first/%d/%d/%d", (int)M, N, n));
  auto use = [&](FO& fo, const ceres::NumericDiffOptions& o) {
    c.expect(fo.NumParameters() == n, key + ":size", "%d", fo.NumParameters());
    FoAdapter<FO> a{fo};
    for (int k = 0; k < 3; ++k) Check(c, key, M, o, a, s, log, Point(c, s, false), k % 2);
    Failures(c, key, a, s, log, Point(c, s, false));
  };
  {
    FO fo(std::make_unique<Functor>(&s, &log), n, ceres::TAKE_OWNERSHIP, o);
    use(fo, o);
  }
  c.expect(g_alive == before, "numdiff:first-order:ownership", "%d alive, expected %d", g_alive, before);
  {
    Functor kept(&s, &log);
    {
      FO fo(std::unique_ptr<Functor>(&kept), n, ceres::DO_NOT_TAKE_OWNERSHIP, o);
      use(fo, o);
    }
    c.expect(g_alive == before + 1, "numdiff:first-order:ownership", "unowned functor destroyed");
  }
  if constexpr (N != ceres::DYNAMIC) {
    FO fo(new Functor(&s, &log));
    use(fo, ceres::NumericDiffOptions());
    FO fo2(std::make_unique<Functor>(&s, &log), o);
    use(fo2, o);
  }
  c.expect(g_alive == before, "numdiff:first-order:ownership", "%d alive, expected %d", g_alive, before);
}
static void FamFirst(Case& c) {
  switch (c.index % 9) {
    case 0: return First<ceres::CENTRAL, 1>(c);
    case 1: return First<ceres::FORWARD, 1>(c);
    case 2: return First<ceres::RIDDERS, 1>(c);
    case 3: return First<ceres::CENTRAL, 5>(c);
    case 4: return First<ceres::FORWARD, 5>(c);
    case 5: return First<ceres::RIDDERS, 5>(c);
    case 6: return First<ceres::CENTRAL, ceres::DYNAMIC>(c);
    case 7: return First<ceres::FORWARD, ceres::DYNAMIC>(c);
    default: return First<ceres::RIDDERS, ceres::DYNAMIC>(c);
  }
}

VH_MAIN({"fixed", FamStatic, 2100}, {"dynamic", FamDynamic, 1500}, {"first-order", FamFirst, 900})
