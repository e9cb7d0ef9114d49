// C10: random edit histories of a Problem against an executable model, with
// destruction counters on every user object and tracking of what the library allocates.
#include <map>
#include <mutex>
#include <new>
#include <set>
#include <unordered_set>

#include "ceres/context.h"
#include "ceres/crs_matrix.h"
#include "ceres/solver.h"
#include "model.h"

using namespace vh;
using ceres::Problem;

namespace {
template <typename T>
struct MallocAlloc {
  using value_type = T;
  MallocAlloc() = default;
  template <typename U>
  MallocAlloc(const MallocAlloc<U>&) {}
  T* allocate(size_t n) { return static_cast<T*>(std::malloc(n * sizeof(T))); }
  void deallocate(T* p, size_t) { std::free(p); }
  template <typename U>
  bool operator==(const MallocAlloc<U>&) const { return true; }
  template <typename U>
  bool operator!=(const MallocAlloc<U>&) const { return false; }
};
using PtrSet = std::unordered_set<void*, std::hash<void*>, std::equal_to<void*>, MallocAlloc<void*>>;
PtrSet& Live() {
  static PtrSet* s = new (std::malloc(sizeof(PtrSet))) PtrSet;
  return *s;
}
std::mutex& Mu() {
  static std::mutex m;
  return m;
}
thread_local int tracking = 0;
struct Lib {
  Lib() { ++tracking; }
  ~Lib() { --tracking; }
};
struct Pause {
  int old = tracking;
  Pause() { tracking = 0; }
  ~Pause() { tracking = old; }
};
void* Alloc(size_t n) {
  void* p = std::malloc(n ? n : 1);
  if (!p) std::abort();
  if (tracking) {
    std::lock_guard<std::mutex> l(Mu());
    Live().insert(p);
  }
  return p;
}
void Free(void* p) {
  if (!p) return;
  {
    std::lock_guard<std::mutex> l(Mu());
    if (!Live().empty()) Live().erase(p);
  }
  std::free(p);
}
}  // namespace
void* operator new(size_t n) { return Alloc(n); }
void* operator new[](size_t n) { return Alloc(n); }
void operator delete(void* p) noexcept { Free(p); }
void operator delete[](void* p) noexcept { Free(p); }
void operator delete(void* p, size_t) noexcept { Free(p); }
void operator delete[](void* p, size_t) noexcept { Free(p); }

namespace {

// Objects report construction and destruction here.
struct Registry {
  std::map<int, int> destroyed;
  int next = 0;
};
Registry* g_reg;

struct Cost : ceres::CostFunction {
  int id;
  std::unique_ptr<int[]> guard;
  double w;
  Cost(int id, int m, const std::vector<int>& sizes) : id(id), guard(new int[1]), w(0.5 + id % 7) {
    guard[0] = id;
    set_num_residuals(m);
    for (int s : sizes) mutable_parameter_block_sizes()->push_back(s);
  }
  ~Cost() override {
    Pause p;
    ++g_reg->destroyed[id];
  }
  // r_i = w * sum(x) * (i+1) + id
  bool Evaluate(double const* const* x, double* r, double** j) const override {
    if (guard[0] != id) std::abort();
    double s = 0;
    for (size_t b = 0; b < parameter_block_sizes().size(); ++b)
      for (int k = 0; k < parameter_block_sizes()[b]; ++k) s += x[b][k];
    for (int i = 0; i < num_residuals(); ++i) {
      r[i] = w * s * (i + 1) + id % 5;
      if (j)
        for (size_t b = 0; b < parameter_block_sizes().size(); ++b)
          if (j[b])
            for (int k = 0; k < parameter_block_sizes()[b]; ++k) j[b][i * parameter_block_sizes()[b] + k] = w * (i + 1);
    }
    return true;
  }
};
struct Loss : ceres::LossFunction {
  int id;
  std::unique_ptr<int[]> guard;
  explicit Loss(int id) : id(id), guard(new int[1]) { guard[0] = id; }
  ~Loss() override {
    Pause p;
    ++g_reg->destroyed[id];
  }
  void Evaluate(double s, double rho[3]) const override {
    if (guard[0] != id) std::abort();
    const double k = 1 + id % 3;
    rho[0] = k * s;
    rho[1] = k;
    rho[2] = 0;
  }
};
// Holds the coordinates not in mask; destruction counted.
struct Man : ceres::Manifold {
  int id, n, t;
  std::unique_ptr<int[]> guard;
  Man(int id, int n, int t) : id(id), n(n), t(t), guard(new int[1]) { guard[0] = id; }
  ~Man() override {
    Pause p;
    ++g_reg->destroyed[id];
  }
  int AmbientSize() const override { return n; }
  int TangentSize() const override { return t; }
  bool Plus(const double* x, const double* d, double* y) const override {
    if (guard[0] != id) std::abort();
    for (int i = 0; i < n; ++i) y[i] = x[i] + (i < t ? d[i] : 0);
    return true;
  }
  bool PlusJacobian(const double*, double* J) const override {
    if (guard[0] != id) std::abort();
    for (int i = 0; i < n; ++i)
      for (int k = 0; k < t; ++k) J[i * t + k] = i == k;
    return true;
  }
  bool Minus(const double* y, const double* x, double* d) const override {
    for (int i = 0; i < t; ++i) d[i] = y[i] - x[i];
    return true;
  }
  bool MinusJacobian(const double*, double* J) const override {
    for (int i = 0; i < t; ++i)
      for (int k = 0; k < n; ++k) J[i * n + k] = i == k;
    return true;
  }
};

template <typename T>
struct Obj {
  T* p = nullptr;
  int id = -1, refs = 0;
  bool in_problem = false;  // ever handed over
};

struct Block {
  double* x;
  int size;
  int man = -1;  // index in mans
  bool constant = false;
  std::map<int, double> lo, hi;
};
struct Res {
  int cost, loss;
  std::vector<double*> x;
};

struct World {
  Case& c;
  Rng& r;
  Registry reg;
  bool own_cost, own_loss, own_man, fast, unsafe_;
  std::unique_ptr<ceres::Context> ctx;
  std::unique_ptr<Problem> prob;
  std::vector<Obj<Cost>> costs;
  std::vector<Obj<Loss>> losses;
  std::vector<Obj<Man>> mans;
  std::map<double*, Block> blocks;
  std::map<ceres::ResidualBlockId, Res> res;
  std::vector<ceres::ResidualBlockId> order;
  std::vector<double*> porder;
  bool removed_r = false, removed_p = false;
  std::vector<std::pair<double*, int>> memory;  // arrays not in the problem
  std::vector<double*> inner;                   // big array for adjacent blocks
  std::unique_ptr<double[]> slab;
  std::string log;

  World(Case& c) : c(c), r(c.rng) {
    g_reg = &reg;
    own_cost = r.chance(0.6);
    own_loss = r.chance(0.6);
    own_man = r.chance(0.6);
    fast = r.chance(0.5);
    unsafe_ = r.chance(0.2);
    Problem::Options o;
    o.cost_function_ownership = own_cost ? ceres::TAKE_OWNERSHIP : ceres::DO_NOT_TAKE_OWNERSHIP;
    o.loss_function_ownership = own_loss ? ceres::TAKE_OWNERSHIP : ceres::DO_NOT_TAKE_OWNERSHIP;
    o.manifold_ownership = own_man ? ceres::TAKE_OWNERSHIP : ceres::DO_NOT_TAKE_OWNERSHIP;
    o.enable_fast_removal = fast;
    o.disable_all_safety_checks = unsafe_;
    if (r.chance(0.3)) {
      ctx.reset(ceres::Context::Create());
      o.context = ctx.get();
    }
    Lib l;
    prob.reset(new Problem(o));
  }
  int NewId() { return reg.next++; }
  double* NewArray(int n) {
    double* x = new double[n];
    for (int i = 0; i < n; ++i) x[i] = r.uni(-1, 1);
    return x;
  }
  bool Dead(int id) { return reg.destroyed.count(id) > 0; }

  // An object usable now; -1 if a new one must be made.
  template <typename T, typename F>
  int Reuse(std::vector<Obj<T>>& v, F&& fits) {
    std::vector<int> ok;
    for (size_t i = 0; i < v.size(); ++i)
      if (v[i].p && (v[i].refs > 0 || !v[i].in_problem) && fits(*v[i].p)) ok.push_back(i);
    return ok.empty() ? -1 : r.pick(ok);
  }

  void Unref(Obj<Cost>& o, bool owned) {
    if (--o.refs) return;
    if (owned) { o.p = nullptr; return; }  // the problem may destroy it from now on
    if (r.chance(0.5)) { delete o.p; o.p = nullptr; reg.destroyed.erase(o.id); }
  }
  void Unref(Obj<Loss>& o, bool owned) {
    if (--o.refs) return;
    if (owned) { o.p = nullptr; return; }
    if (r.chance(0.5)) { delete o.p; o.p = nullptr; reg.destroyed.erase(o.id); }
  }
  void SetMan(Block& b, int m) {
    const int old = b.man;
    b.man = m;
    if (m >= 0) ++mans[m].refs, mans[m].in_problem = true;
    if (old >= 0 && --mans[old].refs == 0 && !own_man && r.chance(0.5)) {
      delete mans[old].p;
      mans[old].p = nullptr;
      reg.destroyed.erase(mans[old].id);
    }
  }
  int PickMan(int size) {
    if (r.chance(0.2)) return -1;
    int m = -1;
    // an owned manifold stays alive until the end of the problem
    if (r.chance(0.5)) {
      std::vector<int> ok;
      for (size_t i = 0; i < mans.size(); ++i)
        if (mans[i].p && mans[i].p->n == size) ok.push_back(i);
      if (!ok.empty()) m = r.pick(ok);
    }
    if (m < 0) {
      Obj<Man> o;
      o.id = NewId();
      o.p = new Man(o.id, size, r.chance(0.15) ? 0 : r.range(1, size));
      mans.push_back(o);
      m = mans.size() - 1;
    }
    return m;
  }
  double* PickBlock() {
    auto it = blocks.begin();
    std::advance(it, r.range(0, (int)blocks.size() - 1));
    return it->first;
  }
  double* FreshBlock(int* size) {
    if (!memory.empty() && r.chance(0.4)) {
      const int k = r.range(0, (int)memory.size() - 1);
      double* x = memory[k].first;
      *size = r.chance(0.7) ? memory[k].second : r.range(1, memory[k].second);
      if (blocks.count(x)) return nullptr;
      return x;
    }
    *size = r.range(1, 4);
    double* x = NewArray(*size);
    memory.push_back({x, *size});
    return x;
  }

  void RemoveRes(ceres::ResidualBlockId id) {
    Res rr = res[id];
    res.erase(id);
    order.erase(std::find(order.begin(), order.end(), id));
    removed_r = true;
    Unref(costs[rr.cost], own_cost);
    if (rr.loss >= 0) Unref(losses[rr.loss], own_loss);
  }

  bool Step() {
    switch (r.range(0, 15)) {
      case 0: case 1: {  // add a parameter block
        int size;
        double* x = FreshBlock(&size);
        if (!x) return true;
        Block b{x, size};
        log += Fmt("+p%d ", size);
        const int how = r.range(0, 2);
        int m = how == 2 ? PickMan(size) : -1;
        {
          Lib l;
          if (how == 0) prob->AddParameterBlock(x, size);
          else prob->AddParameterBlock(x, size, m >= 0 ? mans[m].p : nullptr);
        }
        blocks[x] = b;
        porder.push_back(x);
        if (m >= 0) SetMan(blocks[x], m);
        break;
      }
      case 2: {  // again
        if (blocks.empty()) return true;
        Block& b = blocks[PickBlock()];
        log += "=p ";
        if (r.chance(0.5)) {
          Lib l;
          prob->AddParameterBlock(b.x, b.size);
        } else {
          const int m = PickMan(b.size);
          { Lib l; prob->AddParameterBlock(b.x, b.size, m >= 0 ? mans[m].p : nullptr); }
          SetMan(b, m);
        }
        break;
      }
      case 3: case 4: case 5: case 6: {  // add a residual block
        std::vector<double*> x;
        std::vector<int> sizes;
        const int n = r.range(1, 4);
        std::set<double*> used;
        for (int i = 0; i < n; ++i) {
          if (!blocks.empty() && r.chance(0.7)) {
            double* p = PickBlock();
            if (!used.insert(p).second) continue;
            x.push_back(p);
            sizes.push_back(blocks[p].size);
          } else {
            int size;
            double* p = FreshBlock(&size);
            if (!p || !used.insert(p).second) continue;
            x.push_back(p);
            sizes.push_back(size);
          }
        }
        if (x.empty()) return true;
        int k = -1;
        if (r.chance(0.4)) {
          k = Reuse(costs, [&](const Cost& q) { return q.parameter_block_sizes() == std::vector<int32_t>(sizes.begin(), sizes.end()); });
        }
        if (k < 0) {
          Obj<Cost> o;
          o.id = NewId();
          o.p = new Cost(o.id, r.range(1, 3), sizes);
          costs.push_back(o);
          k = costs.size() - 1;
        }
        int q = -1;
        if (r.chance(0.6)) {
          if (r.chance(0.5)) q = Reuse(losses, [](const Loss&) { return true; });
          if (q < 0) {
            Obj<Loss> o;
            o.id = NewId();
            o.p = new Loss(o.id);
            losses.push_back(o);
            q = losses.size() - 1;
          }
        }
        ceres::LossFunction* lp = q >= 0 ? losses[q].p : nullptr;
        ceres::ResidualBlockId id;
        log += Fmt("+r%d%s ", (int)x.size(), q >= 0 ? "l" : "");
        {
          Lib l;
          const int how = r.range(0, 2);
          if (how == 0) id = prob->AddResidualBlock(costs[k].p, lp, x);
          else if (how == 1) id = prob->AddResidualBlock(costs[k].p, lp, x.data(), (int)x.size());
          else switch (x.size()) {
            case 1: id = prob->AddResidualBlock(costs[k].p, lp, x[0]); break;
            case 2: id = prob->AddResidualBlock(costs[k].p, lp, x[0], x[1]); break;
            case 3: id = prob->AddResidualBlock(costs[k].p, lp, x[0], x[1], x[2]); break;
            default: id = prob->AddResidualBlock(costs[k].p, lp, x[0], x[1], x[2], x[3]); break;
          }
        }
        if (!c.expect(id != nullptr && !res.count(id), "residual-id", "identifier null or already in use")) return false;
        costs[k].refs++;
        costs[k].in_problem = true;
        if (q >= 0) losses[q].refs++, losses[q].in_problem = true;
        for (size_t i = 0; i < x.size(); ++i)
          if (!blocks.count(x[i])) blocks[x[i]] = Block{x[i], sizes[i]}, porder.push_back(x[i]);
        res[id] = Res{k, q, x};
        order.push_back(id);
        break;
      }
      case 7: case 8: {  // remove a residual block
        if (order.empty()) return true;
        const auto id = r.chance(0.3) ? order.back() : r.chance(0.3) ? order.front() : r.pick(order);
        log += "-r ";
        { Lib l; prob->RemoveResidualBlock(id); }
        RemoveRes(id);
        break;
      }
      case 9: {  // remove a parameter block
        if (blocks.empty() || r.chance(0.5)) return true;
        double* x = PickBlock();
        log += "-p ";
        { Lib l; prob->RemoveParameterBlock(x); }
        std::vector<ceres::ResidualBlockId> dead;
        for (auto id : order)
          if (std::count(res[id].x.begin(), res[id].x.end(), x)) dead.push_back(id);
        for (auto id : dead) RemoveRes(id);
        SetMan(blocks[x], -1);
        blocks.erase(x);
        porder.erase(std::find(porder.begin(), porder.end(), x));
        removed_p = true;
        if (r.chance(0.5)) {
          for (size_t i = 0; i < memory.size(); ++i)
            if (memory[i].first == x) { memory.erase(memory.begin() + i); break; }
          delete[] x;
        }
        break;
      }
      case 10: {
        if (blocks.empty()) return true;
        Block& b = blocks[PickBlock()];
        b.constant = r.chance(0.5);
        log += b.constant ? "c " : "v ";
        Lib l;
        b.constant ? prob->SetParameterBlockConstant(b.x) : prob->SetParameterBlockVariable(b.x);
        break;
      }
      case 11: {
        if (blocks.empty()) return true;
        Block& b = blocks[PickBlock()];
        const int m = r.chance(0.1) ? b.man : PickMan(b.size);
        log += m >= 0 ? "m " : "m0 ";
        { Lib l; prob->SetManifold(b.x, m >= 0 ? mans[m].p : nullptr); }
        SetMan(b, m);
        break;
      }
      case 12: {
        if (blocks.empty()) return true;
        Block& b = blocks[PickBlock()];
        const int i = r.range(0, b.size - 1);
        const bool up = r.chance(0.5);
        const double v = r.chance(0.2) ? (up ? 1 : -1) * std::numeric_limits<double>::max() : r.chance(0.1) ? (up ? 1 : -1) * std::numeric_limits<double>::infinity() : r.uni(-5, 5);
        log += "b ";
        Lib l;
        if (up) prob->SetParameterUpperBound(b.x, i, v);
        else prob->SetParameterLowerBound(b.x, i, v);
        Pause p;
        (up ? b.hi : b.lo)[i] = v;
        break;
      }
      case 13: {  // move
        if (r.chance(0.5)) return true;
        log += "mv ";
        Lib l;
        if (r.chance(0.5)) {
          std::unique_ptr<Problem> q(new Problem(std::move(*prob)));
          prob = std::move(q);
        } else {
          std::unique_ptr<Problem> q(new Problem);
          *q = std::move(*prob);
          prob = std::move(q);
        }
        break;
      }
      case 14: {
        if (order.empty()) return true;
        log += "e ";
        return Evaluate();
      }
      default: {
        if (order.empty() || r.chance(0.8)) return true;
        log += "s ";
        return Solve();
      }
    }
    return true;
  }

  double RefCost(const Res& q) {
    const Cost& k = *costs[q.cost].p;
    double s = 0, sq = 0;
    for (size_t b = 0; b < q.x.size(); ++b)
      for (int i = 0; i < k.parameter_block_sizes()[b]; ++i) s += q.x[b][i];
    for (int i = 0; i < k.num_residuals(); ++i) sq += std::pow(k.w * s * (i + 1) + k.id % 5, 2);
    return 0.5 * sq * (q.loss >= 0 ? 1 + losses[q.loss].id % 3 : 1);
  }
  bool Evaluate() {
    double want = 0;
    for (auto& kv : res) want += RefCost(kv.second);
    double got = -1;
    std::vector<double> g;
    bool ok;
    int cols = 0;
    for (auto& kv : blocks) cols += kv.second.man >= 0 ? mans[kv.second.man].p->t : kv.second.size;
    {
      Lib l;
      ok = prob->Evaluate(Problem::EvaluateOptions(), &got, nullptr, r.chance(0.5) ? &g : nullptr, nullptr);
    }
    c.count("evaluated");
    if (!c.expect(ok && Near(got, want, 1e-9 * (1 + want)), "evaluate", "%d cost %.17g, expected %.17g", ok, got, want)) return false;
    if (!g.empty() && !c.expect((int)g.size() == cols, "gradient-size", "%zu, expected %d", g.size(), cols)) return false;
    // one by one, and for a subset of parameter blocks
    for (auto& kv : res)
      if (r.chance(0.2)) {
        double one = -1;
        const bool o1 = prob->EvaluateResidualBlock(kv.first, true, &one, nullptr, nullptr);
        const double w = RefCost(kv.second);
        if (!c.expect(o1 && Near(one, w, 1e-9 * (1 + w)), "evaluate-block", "%d cost %.17g, expected %.17g", o1, one, w)) return false;
      }
    return true;
  }
  bool Solve() {
    for (auto& kv : blocks)
      for (auto& l : kv.second.lo)
        if (kv.second.hi.count(l.first) && l.second >= kv.second.hi[l.first]) return true;
    std::map<double*, std::vector<double>> held;
    for (auto& kv : blocks) {
      const Block& b = kv.second;
      if (b.constant || (b.man >= 0 && mans[b.man].p->t == 0)) held[b.x] = std::vector<double>(b.x, b.x + b.size);
    }
    ceres::Solver::Options o;
    o.logging_type = ceres::SILENT;
    o.max_num_iterations = 3;
    o.linear_solver_type = ceres::DENSE_QR;
    ceres::Solver::Summary s;
    {
      Lib l;
      ceres::Solve(o, prob.get(), &s);
    }
    c.count("solved");
    for (auto& kv : held)
      for (size_t i = 0; i < kv.second.size(); ++i)
        if (!c.expect(Bits(kv.first[i], kv.second[i]), "constant-moved", "%.17g became %.17g", kv.second[i], kv.first[i])) return false;
    return Evaluate();
  }

  bool Check() {
    c.count("checked");
    int nr = 0, nx = 0;
    for (auto& kv : res) nr += costs[kv.second.cost].p->num_residuals();
    for (auto& kv : blocks) nx += kv.second.size;
    if (!c.expect(prob->NumParameterBlocks() == (int)blocks.size() && prob->NumResidualBlocks() == (int)res.size() && prob->NumResiduals() == nr && prob->NumParameters() == nx, "counts", "%d/%d/%d/%d, expected %zu/%zu/%d/%d",
                  prob->NumParameterBlocks(), prob->NumResidualBlocks(), prob->NumResiduals(), prob->NumParameters(), blocks.size(), res.size(), nr, nx)) return false;
    std::vector<double*> pb;
    std::vector<ceres::ResidualBlockId> rb;
    {
      Lib l;
      prob->GetParameterBlocks(&pb);
      prob->GetResidualBlocks(&rb);
    }
    if (!c.expect(pb.size() == blocks.size() && rb.size() == res.size(), "lists", "%zu and %zu", pb.size(), rb.size())) return false;
    std::set<double*> ps(pb.begin(), pb.end());
    std::set<ceres::ResidualBlockId> rs(rb.begin(), rb.end());
    if (!c.expect(ps.size() == pb.size() && rs.size() == rb.size(), "lists-repeat", "repeated entries")) return false;
    for (auto& kv : blocks) if (!c.expect(ps.count(kv.first), "lists", "a parameter block is missing")) return false;
    for (auto& kv : res) if (!c.expect(rs.count(kv.first), "lists", "a residual block is missing")) return false;
    if (!removed_r && !c.expect(rb == order, "residual-order", "not the order of addition")) return false;
    for (auto& m : memory)
      if (!c.expect(prob->HasParameterBlock(m.first) == (blocks.count(m.first) > 0), "has-block", "wrong membership")) return false;
    std::map<double*, std::set<ceres::ResidualBlockId>> uses;
    for (auto& kv : res) {
      std::vector<double*> x;
      { Lib l; prob->GetParameterBlocksForResidualBlock(kv.first, &x); }
      if (!c.expect(x == kv.second.x, "blocks-of-residual", "differs")) return false;
      if (!c.expect(prob->GetCostFunctionForResidualBlock(kv.first) == costs[kv.second.cost].p, "cost-of-residual", "differs")) return false;
      if (!c.expect(prob->GetLossFunctionForResidualBlock(kv.first) == (kv.second.loss >= 0 ? losses[kv.second.loss].p : nullptr), "loss-of-residual", "differs")) return false;
      for (double* p : x) uses[p].insert(kv.first);
    }
    for (auto& kv : blocks) {
      const Block& b = kv.second;
      const Man* m = b.man >= 0 ? mans[b.man].p : nullptr;
      if (!c.expect(prob->ParameterBlockSize(b.x) == b.size && prob->ParameterBlockTangentSize(b.x) == (m ? m->t : b.size), "block-size", "%d tangent %d", prob->ParameterBlockSize(b.x), prob->ParameterBlockTangentSize(b.x))) return false;
      if (!c.expect(prob->GetManifold(b.x) == m && prob->HasManifold(b.x) == (m != nullptr), "manifold-of-block", "differs")) return false;
      if (!c.expect(prob->IsParameterBlockConstant(b.x) == (b.constant || (m && m->t == 0)), "constancy", "reported %d, set %d", prob->IsParameterBlockConstant(b.x), b.constant)) return false;
      for (int i = 0; i < b.size; ++i) {
        const double lo = prob->GetParameterLowerBound(b.x, i), hi = prob->GetParameterUpperBound(b.x, i);
        const double wl = b.lo.count(i) ? b.lo.at(i) : -std::numeric_limits<double>::max(), wh = b.hi.count(i) ? b.hi.at(i) : std::numeric_limits<double>::max();
        auto same = [](double g, double w) { return g == w || (std::isinf(w) && std::fabs(g) >= std::numeric_limits<double>::max() && (g > 0) == (w > 0)); };
        if (!c.expect(same(lo, wl) && same(hi, wh), "bounds", "[%d] %.17g..%.17g, expected %.17g..%.17g", i, lo, hi, wl, wh)) return false;
      }
      std::vector<ceres::ResidualBlockId> v;
      { Lib l; prob->GetResidualBlocksForParameterBlock(b.x, &v); }
      std::set<ceres::ResidualBlockId> vs(v.begin(), v.end());
      if (!c.expect(vs.size() == v.size() && vs == uses[b.x], "residuals-of-block", "%zu, expected %zu", v.size(), uses[b.x].size())) return false;
    }
    return Lives(false);
  }
  // exactly-once destruction; nothing in use destroyed
  bool Lives(bool end) {
    for (auto& kv : reg.destroyed)
      if (!c.expect(kv.second == 1, "destroyed-twice", "object %d destroyed %d times", kv.first, kv.second)) return false;
    for (auto& o : costs) {
      if (o.refs > 0 && !end && !c.expect(!Dead(o.id), "cost-destroyed-in-use", "cost %d", o.id)) return false;
      if (!own_cost && !c.expect(!Dead(o.id), "unowned-destroyed", "cost %d", o.id)) return false;
      if (end && own_cost && o.in_problem && !c.expect(Dead(o.id), "not-destroyed", "owned cost %d", o.id)) return false;
    }
    for (auto& o : losses) {
      if (o.refs > 0 && !end && !c.expect(!Dead(o.id), "loss-destroyed-in-use", "loss %d", o.id)) return false;
      if (!own_loss && !c.expect(!Dead(o.id), "unowned-destroyed", "loss %d", o.id)) return false;
      if (end && own_loss && o.in_problem && !c.expect(Dead(o.id), "not-destroyed", "owned loss %d", o.id)) return false;
    }
    for (auto& o : mans) {
      if (!end && o.refs > 0 && !c.expect(!Dead(o.id), "manifold-destroyed-in-use", "manifold %d", o.id)) return false;
      if (!own_man && !c.expect(!Dead(o.id), "unowned-destroyed", "manifold %d", o.id)) return false;
      if (end && own_man && o.in_problem && !c.expect(Dead(o.id), "not-destroyed", "owned manifold %d", o.id)) return false;
    }
    return true;
  }
  void End() {
    { Lib l; prob.reset(); }
    c.count("destroyed", reg.destroyed.size());
    Lives(true);
    for (auto& o : costs) if (o.p && !(own_cost && o.in_problem)) delete o.p;
    for (auto& o : losses) if (o.p && !(own_loss && o.in_problem)) delete o.p;
    for (auto& o : mans) if (o.p && !(own_man && o.in_problem)) delete o.p;
    for (auto& m : memory) delete[] m.first;
    ctx.reset();
  }
};

void History(Case& c) {
  static bool warm = false;
  if (!warm) {
    warm = true;
    Registry reg;
    g_reg = &reg;
    Problem p;
    double x = 1;
    p.AddResidualBlock(new Cost(0, 1, {1}), nullptr, &x);
    ceres::Solver::Options o;
    o.logging_type = ceres::SILENT;
    o.linear_solver_type = ceres::DENSE_QR;
    ceres::Solver::Summary s;
    ceres::Solve(o, &p, &s);
  }
  {
    std::lock_guard<std::mutex> l(Mu());
    Live().clear();
  }
  {
    World w(c);
    const int steps = c.rng.chance(0.2) ? 200 : c.rng.range(5, 60);
    const int every = c.rng.of({1, 1, 3, 10});
    bool ok = true;
    int k = 0;
    for (; k < steps && ok; ++k) {
      ok = w.Step();
      if (ok && k % every == 0) ok = w.Check();
    }
    if (ok) ok = w.Check();
    c.count("edits", k);
    c.note("own %d%d%d fast %d unsafe %d ctx %d: %s", w.own_cost, w.own_loss, w.own_man, w.fast, w.unsafe_, w.ctx != nullptr, w.log.substr(w.log.size() > 1200 ? w.log.size() - 1200 : 0).c_str());
    for (size_t i = 0; i + 6 < w.log.size(); i += 9) c.sig(w.log.substr(i, 7));
    w.End();
  }
  size_t left;
  {
    std::lock_guard<std::mutex> l(Mu());
    left = Live().size();
  }
  c.expect(left == 0, "leak", "%zu allocations made by the library survive the problem", left);
}

// Aliasing and adjacency: neighbouring blocks inside one array are legal.
void Adjacent(Case& c) {
  auto& r = c.rng;
  const int n = r.range(2, 30);
  std::unique_ptr<double[]> slab(new double[n]);
  for (int i = 0; i < n; ++i) slab[i] = r.uni(-1, 1);
  std::vector<std::pair<int, int>> parts;
  for (int i = 0; i < n;) {
    const int s = std::min(n - i, r.range(1, 4));
    if (r.chance(0.85)) parts.push_back({i, s});
    i += s;
  }
  r.shuffle(parts);
  Problem p(Model::NoOwn());
  std::vector<std::unique_ptr<SmoothCost>> costs;
  double want = 0;
  for (auto& q : parts) {
    if (r.chance(0.5)) p.AddParameterBlock(&slab[q.first], q.second);
    Smooth s;
    s.Init(r, {q.second}, 2);
    costs.emplace_back(new SmoothCost(s));
    p.AddResidualBlock(costs.back().get(), nullptr, &slab[q.first]);
    const double* x = &slab[q.first];
    double o[2];
    s.Eval(&x, o);
    want += 0.5 * (o[0] * o[0] + o[1] * o[1]);
  }
  c.note("%d parts of %d", (int)parts.size(), n);
  c.sig(Fmt("adj/%d/%d", (int)parts.size(), n));
  if (parts.empty()) return;
  double got = 0;
  c.count("adjacent");
  if (!c.expect(p.NumParameterBlocks() == (int)parts.size(), "adjacent-count", "%d of %zu", p.NumParameterBlocks(), parts.size())) return;
  c.expect(p.Evaluate(Problem::EvaluateOptions(), &got, nullptr, nullptr, nullptr) && Near(got, want, 1e-10 * (1 + want)), "adjacent-cost", "%.17g, expected %.17g", got, want);
}

}  // namespace

VH_MAIN({"history", History, 1500}, {"adjacent", Adjacent, 500})
