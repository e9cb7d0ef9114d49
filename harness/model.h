// Random nonlinear least squares problems with an independent dense evaluation.
#ifndef MODEL_H_
#define MODEL_H_
#include <Eigen/Dense>
#include <memory>
#include <string>
#include <vector>

#include "ceres/loss_function.h"
#include "ceres/manifold.h"
#include "ceres/problem.h"
#include "ceres/product_manifold.h"
#include "ceres/sphere_manifold.h"
#include "smooth_cost.h"

namespace vh {
using Eigen::MatrixXd;
using Eigen::VectorXd;
using RowMajorXd = Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;

struct ModelOptions {
  int max_pb = 10, max_rb = 16, max_size = 5, max_res = 5;
  double p_manifold = 0.3, p_const = 0.15, p_bound = 0.0, p_loss = 0.4, p_isolated = 0.1;
  bool schur = false;     // make the first blocks independent of one another
  bool regular = false;   // add a unit prior to every block so that the optimum is well conditioned
  bool linear = false;
  int exact_pb = 0;
};

enum ManKind { kNone, kSubset, kQuat, kEigenQuat, kSphere, kEuclid, kAllHeld, kProduct };

struct Model {
  struct PB {
    std::unique_ptr<double[]> x;
    int size = 0, tangent = 0, kind = kNone;
    std::unique_ptr<ceres::Manifold> man;
    bool constant = false;
    std::vector<int> held;
    std::vector<double> lo, hi;
    bool Bounded() const { return !lo.empty(); }
    bool Fixed() const { return constant || tangent == 0; }
  };
  struct RB {
    std::unique_ptr<ceres::CostFunction> cost;
    SmoothCost* smooth = nullptr;
    std::unique_ptr<ceres::LossFunction> loss;
    std::string loss_name;
    std::vector<int> pbs;
    ceres::ResidualBlockId id = nullptr;
  };
  std::vector<PB> pbs;
  std::vector<RB> rbs;
  int num_e = 0;

  static std::unique_ptr<ceres::LossFunction> RandomLoss(Rng& r, std::string* name) {
    std::unique_ptr<ceres::LossFunction> l;
    const double a = std::pow(10.0, r.uni(-0.7, 0.7));
    switch (r.range(0, 7)) {
      case 0: l.reset(new ceres::TrivialLoss); *name = "trivial"; break;
      case 1: l.reset(new ceres::HuberLoss(a)); *name = "huber"; break;
      case 2: l.reset(new ceres::SoftLOneLoss(a)); *name = "softl1"; break;
      case 3: l.reset(new ceres::CauchyLoss(a)); *name = "cauchy"; break;
      case 4: l.reset(new ceres::ArctanLoss(a)); *name = "arctan"; break;
      case 5: l.reset(new ceres::TolerantLoss(a, std::pow(10.0, r.uni(-0.7, 0.7)))); *name = "tolerant"; break;
      case 6: l.reset(new ceres::ScaledLoss(r.chance(0.3) ? nullptr : new ceres::HuberLoss(a), r.uni(0.2, 3), ceres::TAKE_OWNERSHIP)); *name = "scaled"; break;
      default: l.reset(new ceres::ComposedLoss(new ceres::CauchyLoss(a), ceres::TAKE_OWNERSHIP, new ceres::SoftLOneLoss(1), ceres::TAKE_OWNERSHIP)); *name = "composed"; break;
    }
    return l;
  }

  static void RandomUnit(Rng& r, double* x, int n) {
    double s = 0;
    do {
      s = 0;
      for (int i = 0; i < n; ++i) x[i] = r.normal(), s += x[i] * x[i];
    } while (s < 1e-4);
    for (int i = 0; i < n; ++i) x[i] /= std::sqrt(s);
  }

  void AddManifold(Rng& r, PB* p) {
    const int n = p->size;
    const int k = r.range(0, 9);
    p->kind = kNone;
    if (k <= 3 && n >= 2) {
      p->kind = kSubset;
      const int h = r.range(1, n - 1);
      std::vector<int> idx(n);
      for (int i = 0; i < n; ++i) idx[i] = i;
      r.shuffle(idx);
      p->held.assign(idx.begin(), idx.begin() + h);
      p->man.reset(new ceres::SubsetManifold(n, p->held));
    } else if (k <= 5 && n == 4) {
      p->kind = r.chance(0.5) ? kQuat : kEigenQuat;
      if (p->kind == kQuat) p->man.reset(new ceres::QuaternionManifold);
      else p->man.reset(new ceres::EigenQuaternionManifold);
      RandomUnit(r, p->x.get(), 4);
    } else if (k <= 7 && n >= 2) {
      p->kind = kSphere;
      p->man.reset(new ceres::SphereManifold<Eigen::Dynamic>(n));
      RandomUnit(r, p->x.get(), n);
    } else if (k == 8) {
      p->kind = kEuclid;
      p->man.reset(new ceres::EuclideanManifold<Eigen::Dynamic>(n));
    } else if (r.chance(0.3)) {
      p->kind = kAllHeld;
      for (int i = 0; i < n; ++i) p->held.push_back(i);
      p->man.reset(new ceres::SubsetManifold(n, p->held));
    } else if (n == 6 || n == 7) {
      p->kind = kProduct;
      p->man.reset(new ceres::ProductManifold<ceres::QuaternionManifold, ceres::EuclideanManifold<Eigen::Dynamic>>(ceres::QuaternionManifold{}, ceres::EuclideanManifold<Eigen::Dynamic>(n - 4)));
      RandomUnit(r, p->x.get(), 4);
    }
    if (p->man) p->tangent = p->man->TangentSize();
  }

  void Init(Rng& r, const ModelOptions& o) {
    const int np = o.exact_pb ? o.exact_pb : r.range(1, o.max_pb);
    for (int i = 0; i < np; ++i) {
      PB p;
      p.size = r.range(1, o.max_size);
      p.tangent = p.size;
      p.x.reset(new double[p.size]);
      for (int k = 0; k < p.size; ++k) p.x[k] = r.chance(0.1) ? 0.0 : r.uni(-2, 2);
      if (r.chance(o.p_manifold)) AddManifold(r, &p);
      p.constant = r.chance(o.p_const);
      if (p.kind == kNone && r.chance(o.p_bound)) {
        p.lo.assign(p.size, -std::numeric_limits<double>::max());
        p.hi.assign(p.size, std::numeric_limits<double>::max());
        for (int k = 0; k < p.size; ++k) {
          if (r.chance(0.6)) p.lo[k] = p.x[k] - (r.chance(0.3) ? 0.0 : r.uni(0, 1));
          if (r.chance(0.6)) p.hi[k] = p.x[k] + (r.chance(0.3) && p.lo[k] < p.x[k] ? 0.0 : r.uni(0.01, 1));
        }
      }
      pbs.push_back(std::move(p));
    }
    num_e = o.schur ? std::max(1, r.range(np / 3, 2 * np / 3)) : 0;
    const int nr = r.range(1, o.max_rb);
    for (int i = 0; i < nr; ++i) {
      std::vector<int> cand;
      if (o.schur) {
        if (num_e > 0 && r.chance(0.85)) cand.push_back(r.range(0, num_e - 1));
        std::vector<int> f;
        for (int k = num_e; k < np; ++k) f.push_back(k);
        r.shuffle(f);
        const int take = std::min<int>(f.size(), r.range(cand.empty() ? 1 : 0, 3));
        cand.insert(cand.end(), f.begin(), f.begin() + take);
      } else {
        std::vector<int> all(np);
        for (int k = 0; k < np; ++k) all[k] = k;
        r.shuffle(all);
        cand.assign(all.begin(), all.begin() + std::min(np, r.range(1, 4)));
      }
      if (cand.empty()) continue;
      if (r.chance(0.5)) r.shuffle(cand);
      AddRB(r, cand, r.range(1, o.max_res), o);
    }
    if (o.regular)
      for (int i = 0; i < np; ++i) {
        // x_i - target: full rank in every block
        RB b;
        b.pbs = {i};
        Smooth s;
        s.Init(r, {pbs[i].size}, pbs[i].size);
        for (int k = 0; k < s.m; ++k) {
          s.rows[k].s = s.rows[k].q = 0;
          for (int q = 0; q < s.n; ++q) s.rows[k].a[q] = q == k ? 2.0 : 0.0;
          s.rows[k].c = r.uni(-2, 2);
        }
        b.smooth = new SmoothCost(s);
        b.cost.reset(b.smooth);
        rbs.push_back(std::move(b));
      }
  }
  void AddRB(Rng& r, const std::vector<int>& p, int m, const ModelOptions& o) {
    RB b;
    b.pbs = p;
    std::vector<int> sizes;
    for (int k : p) sizes.push_back(pbs[k].size);
    Smooth s;
    s.Init(r, sizes, m);
    if (o.linear)
      for (auto& row : s.rows) row.s = row.q = 0;
    if (o.regular)
      for (auto& row : s.rows) row.s *= 0.2, row.q = 0;
    b.smooth = new SmoothCost(s);
    b.cost.reset(b.smooth);
    if (r.chance(o.p_loss)) b.loss = RandomLoss(r, &b.loss_name);
    rbs.push_back(std::move(b));
  }

  static ceres::Problem::Options NoOwn() {
    ceres::Problem::Options o;
    o.cost_function_ownership = o.loss_function_ownership = o.manifold_ownership = ceres::DO_NOT_TAKE_OWNERSHIP;
    return o;
  }
  // Adds everything to a problem, parameter blocks first (in model order).
  void AddTo(ceres::Problem* p) {
    for (auto& b : pbs) {
      p->AddParameterBlock(b.x.get(), b.size, b.man.get());
      if (b.constant) p->SetParameterBlockConstant(b.x.get());
      for (size_t k = 0; k < b.lo.size(); ++k) {
        p->SetParameterLowerBound(b.x.get(), k, b.lo[k]);
        p->SetParameterUpperBound(b.x.get(), k, b.hi[k]);
      }
    }
    for (auto& b : rbs) {
      std::vector<double*> x;
      for (int k : b.pbs) x.push_back(pbs[k].x.get());
      b.id = p->AddResidualBlock(b.cost.get(), b.loss.get(), x);
    }
  }
  using State = std::vector<std::vector<double>>;
  State Get() const {
    State s;
    for (auto& b : pbs) s.emplace_back(b.x.get(), b.x.get() + b.size);
    return s;
  }
  void Set(const State& s) {
    for (size_t i = 0; i < pbs.size(); ++i) std::copy(s[i].begin(), s[i].end(), pbs[i].x.get());
  }

  // One residual block by the definition.
  struct BlockEval {
    double s = 0, cost = 0, mag = 1;
    VectorXd r;
    std::vector<MatrixXd> J;  // per parameter block, tangent
  };
  BlockEval EvalBlock(const RB& b, const State& x, bool apply_loss = true) const {
    BlockEval e;
    std::vector<double> flat;
    for (int k : b.pbs) flat.insert(flat.end(), x[k].begin(), x[k].end());
    const Smooth& f = b.smooth->f;
    std::vector<double> J, r;
    f.Jac(flat, &J, &r);
    e.r = Eigen::Map<VectorXd>(r.data(), f.m);
    long double s = 0;
    for (double v : r) s += static_cast<long double>(v) * v;
    e.s = static_cast<double>(s);
    e.mag = f.Scale(flat);
    for (size_t k = 0; k < b.pbs.size(); ++k) {
      const PB& p = pbs[b.pbs[k]];
      MatrixXd Jk(f.m, p.size);
      for (int i = 0; i < f.m; ++i)
        for (int j = 0; j < p.size; ++j) Jk(i, j) = J[i * f.n + f.off[k] + j];
      if (p.man) {
        RowMajorXd P(p.size, p.tangent);
        if (p.tangent) p.man->PlusJacobian(x[b.pbs[k]].data(), P.data());
        Jk = (Jk * P).eval();
      }
      e.J.push_back(Jk);
    }
    e.cost = e.s / 2;
    if (b.loss && apply_loss) {
      double rho[3];
      b.loss->Evaluate(e.s, rho);
      e.cost = rho[0] / 2;
      const double D = e.s == 0 ? 1 : 1 + 2 * e.s * rho[2] / rho[1];
      const double alpha = e.s == 0 || rho[2] <= 0 ? 0 : D > 0 ? 1 - std::sqrt(D) : 1;
      const double sr = std::sqrt(rho[1]);
      for (auto& Jk : e.J) {
        if (alpha != 0) Jk = (Jk - alpha / e.s * e.r * (e.r.transpose() * Jk)).eval();
        Jk *= sr;
      }
      e.r *= (e.s == 0 || rho[2] <= 0) ? sr : sr / (1 - alpha);
    }
    return e;
  }
  double Cost(const State& x, bool apply_loss = true, double* mag = nullptr) const {
    long double c = 0;
    for (auto& b : rbs) {
      const BlockEval e = EvalBlock(b, x, apply_loss);
      c += e.cost;
      if (mag) *mag += std::fabs(e.cost) + e.mag;
    }
    return static_cast<double>(c);
  }
  // The gradient in the tangent spaces, blocks that are fixed zero.
  std::vector<VectorXd> Gradient(const State& x) const {
    std::vector<VectorXd> g;
    for (auto& p : pbs) g.push_back(VectorXd::Zero(p.tangent));
    for (auto& b : rbs) {
      const BlockEval e = EvalBlock(b, x);
      for (size_t k = 0; k < b.pbs.size(); ++k)
        if (!pbs[b.pbs[k]].Fixed()) g[b.pbs[k]] += e.J[k].transpose() * e.r;
    }
    return g;
  }
  std::string Describe() const {
    std::string s = "blocks";
    for (auto& p : pbs) s += Fmt(" %d%s%s%s", p.size, p.kind == kNone ? "" : p.kind == kSubset ? "s" : p.kind == kSphere ? "o" : p.kind == kAllHeld ? "h" : p.kind == kEuclid ? "e" : p.kind == kProduct ? "p" : "q", p.constant ? "c" : "", p.Bounded() ? "b" : "");
    s += "; residuals";
    for (size_t i = 0; i < rbs.size() && i < 20; ++i) {
      s += Fmt(" %d(", rbs[i].smooth->f.m);
      for (int k : rbs[i].pbs) s += Fmt("%d,", k);
      s += rbs[i].loss ? rbs[i].loss_name + ")" : ")";
    }
    return s;
  }
};

}  // namespace vh
#endif
