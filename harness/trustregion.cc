// C16: trust region strategies.  Levenberg-Marquardt and both doglegs run over random
// histories of accepted, rejected and invalid steps, with a linear solver that records
// what it is asked, solves it in long double and fails on demand, next to an executable
// model of their state; then with the real linear solvers; and the step evaluator next to
// the algorithm it implements.
#include <Eigen/Dense>
#include <memory>

#include "blocks.h"
#include "ceres/block_sparse_matrix.h"
#include "ceres/compressed_row_sparse_matrix.h"
#include "ceres/context_impl.h"
#include "ceres/dense_sparse_matrix.h"
#include "ceres/linear_solver.h"
#include "ceres/trust_region_step_evaluator.h"
#include "ceres/trust_region_strategy.h"

using namespace vh;
namespace ci = ceres::internal;
using LS = ci::LinearSolver;
using TRS = ci::TrustRegionStrategy;
using TT = ci::LinearSolverTerminationType;
using LD = long double;
using MatL = Eigen::Matrix<LD, -1, -1>;
using VecL = Eigen::Matrix<LD, -1, 1>;

namespace {

ci::ContextImpl* Ctx() {
  static ci::ContextImpl* c = [] {
    auto* c = new ci::ContextImpl;
    c->EnsureMinimumThreads(4);
    return c;
  }();
  return c;
}

enum Fault { kOk, kNoConvergence, kFail, kFatal, kNaN, kInf, kUnwritten };
const char* kFaultName[] = {"ok", "noconv", "fail", "fatal", "nan", "inf", "unwritten"};

// Solves exactly, or misbehaves as the script says.
struct ScriptedSolver : LS {
  struct Call {
    VectorXd D, y;
    double q_tolerance, r_tolerance;
    Fault fault;
  };
  MatrixXd J;
  std::vector<Fault> script;  // faults of the coming calls; afterwards every call is fine
  std::vector<Call> calls;
  Case* c = nullptr;
  const ci::LinearOperator* expected_a = nullptr;
  const double* expected_b = nullptr;
  Summary Solve(ci::LinearOperator* A, const double* b, const PerSolveOptions& o, double* x) override {
    Call k;
    const int n = J.cols(), m = J.rows();
    k.fault = kOk;
    if (!script.empty()) k.fault = script.front(), script.erase(script.begin());
    c->expect(A == expected_a && b == expected_b, "solver-inputs", "the strategy passed another matrix or vector to the linear solver");
    c->expect(o.D != nullptr, "solver-diagonal-missing", "no diagonal");
    k.D = Eigen::Map<const VectorXd>(o.D, n);
    k.q_tolerance = o.q_tolerance;
    k.r_tolerance = o.r_tolerance;
    MatL M = MatL::Zero(m + n, n);
    M.topRows(m) = J.cast<LD>();
    for (int i = 0; i < n; ++i) M(m + i, i) = k.D[i];
    VecL rhs = VecL::Zero(m + n);
    for (int i = 0; i < m; ++i) rhs[i] = b[i];
    k.y = M.householderQr().solve(rhs).cast<double>();
    Summary s;
    s.num_iterations = 1 + static_cast<int>(calls.size());
    s.residual_norm = 0.5 + calls.size();
    s.termination_type = TT::SUCCESS;
    switch (k.fault) {
      case kNoConvergence:
        s.termination_type = TT::NO_CONVERGENCE;
        [[fallthrough]];
      case kOk:
        for (int i = 0; i < n; ++i) x[i] = k.y[i];
        break;
      case kFail: s.termination_type = TT::FAILURE; break;
      case kFatal: s.termination_type = TT::FATAL_ERROR; break;
      case kNaN:
      case kInf:
        for (int i = 0; i < n; ++i) x[i] = k.y[i];
        x[c->rng.range(0, n - 1)] = k.fault == kNaN ? NAN : -INFINITY;
        break;
      case kUnwritten:
        for (int i = 0; i < n; ++i)
          if (i != n / 2) x[i] = k.y[i];
        break;
    }
    calls.push_back(k);
    return s;
  }
};

// One point of the outer iteration.
struct Point {
  MatrixXd J;
  VectorXd r;
  std::unique_ptr<ci::SparseMatrix> A;
  std::string kind;
};

Point MakePoint(Rng& r, int m, int n, int form) {
  Point p;
  p.J.resize(m, n);
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j) p.J(i, j) = r.normal();
  p.r.resize(m);
  for (int i = 0; i < m; ++i) p.r[i] = r.normal();
  const int mode = r.range(0, 9);
  switch (mode) {
    case 0:
    case 1: p.kind = "generic"; break;
    case 2:
    case 3: {
      p.kind = "scaled";
      for (int j = 0; j < n; ++j) p.J.col(j) *= std::pow(10.0, r.uni(-6, 6));
      break;
    }
    case 4: {
      p.kind = "deficient";
      if (n > 1) p.J.col(n - 1) = p.J.col(0) * r.uni(0.5, 2) + (r.chance(0.5) ? std::pow(10.0, r.uni(-12, -4)) : 0.0) * p.J.col(n - 1);
      if (n > 2 && r.chance(0.4)) p.J.col(1).setZero();
      break;
    }
    case 5:
    case 6: {
      // Columns orthogonal up to a perturbation: gradient and Newton step almost parallel.
      p.kind = "orthogonal";
      if (m >= n) {
        MatrixXd Q = Eigen::HouseholderQR<MatrixXd>(p.J).householderQ() * MatrixXd::Identity(m, n);
        p.J = Q + std::pow(10.0, r.uni(-16, -1)) * p.J;
        if (r.chance(0.5))
          for (int j = 0; j < n; ++j) p.J.col(j) *= r.uni(0.5, 20);
      }
      break;
    }
    case 7: {
      // Gradient (almost) an eigenvector of the scaled normal matrix.
      p.kind = "eigen";
      Eigen::JacobiSVD<MatrixXd> svd(p.J, Eigen::ComputeThinU | Eigen::ComputeThinV);
      p.r = svd.matrixU().col(r.range(0, static_cast<int>(svd.singularValues().size()) - 1)) + std::pow(10.0, r.uni(-17, -3)) * p.r;
      break;
    }
    case 8: {
      p.kind = "ill";
      Eigen::JacobiSVD<MatrixXd> svd(p.J, Eigen::ComputeThinU | Eigen::ComputeThinV);
      VectorXd s = svd.singularValues();
      for (int i = 0; i < s.size(); ++i) s[i] = std::pow(10.0, r.uni(-9, 0));
      p.J = svd.matrixU() * s.asDiagonal() * svd.matrixV().transpose();
      break;
    }
    default: {
      p.kind = "integer";
      for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) p.J(i, j) = r.range(-2, 2);
      for (int i = 0; i < m; ++i) p.r[i] = r.range(-3, 3);
      while ((p.J.transpose() * p.r).norm() == 0) p.J(0, 0) += 1, p.r[0] += 2;  // a stationary point ends the iteration before
      break;
    }
  }
  if (r.chance(0.2)) p.r *= std::pow(10.0, r.uni(-6, 6));
  if (r.chance(0.1)) p.J *= std::pow(10.0, r.uni(-3, 3));
  if (form == 0) {
    auto d = std::make_unique<ci::DenseSparseMatrix>(m, n);
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < n; ++j) d->mutable_values()[i * n + j] = p.J(i, j);
    p.A = std::move(d);
  } else if (form == 1) {
    auto s = std::make_unique<ci::CompressedRowSparseMatrix>(m, n, m * n);
    for (int i = 0; i <= m; ++i) s->mutable_rows()[i] = i * n;
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < n; ++j) s->mutable_cols()[i * n + j] = j, s->mutable_values()[i * n + j] = p.J(i, j);
    p.A = std::move(s);
  } else {
    auto* bs = new ci::CompressedRowBlockStructure;
    const int split = n > 1 ? r.range(1, n - 1) : n;
    bs->cols.emplace_back(split, 0);
    if (n > split) bs->cols.emplace_back(n - split, split);
    bs->rows.emplace_back();
    bs->rows[0].block = Block(m, 0);
    bs->rows[0].cells.emplace_back(0, 0);
    if (n > split) bs->rows[0].cells.emplace_back(1, m * split);
    auto b = std::make_unique<BlockSparseMatrix>(bs);
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < n; ++j) b->mutable_values()[j < split ? i * split + j : m * split + i * (n - split) + j - split] = p.J(i, j);
    p.A = std::move(b);
  }
  return p;
}

VectorXd ClampedDiagonal(const MatrixXd& J, double lo, double hi) {
  VectorXd d(J.cols());
  for (int j = 0; j < J.cols(); ++j) {
    LD s = 0;
    for (int i = 0; i < J.rows(); ++i) s += LD(J(i, j)) * J(i, j);
    d[j] = std::min(std::max(static_cast<double>(s), lo), hi);
  }
  return d;
}

LD Model(const Point& p, const VecL& step) {
  const VecL Js = p.J.cast<LD>() * step;
  return p.r.cast<LD>().dot(Js) + Js.squaredNorm() / 2;
}

bool SameDiagonal(const VectorXd& a, const VectorXd& b) {
  for (int i = 0; i < a.size(); ++i)
    if (!(std::fabs(a[i] - b[i]) <= 1e-12 * std::fabs(b[i]))) return false;
  return true;
}

struct Setup {
  int m, n, form;
  double min_d, max_d, radius, max_radius, eta;
  Point p;
};
Setup MakeSetup(Case& c) {
  Rng& r = c.rng;
  Setup s;
  s.n = r.chance(0.15) ? 1 : r.range(2, 12);
  s.m = r.chance(0.2) ? r.range(1, s.n) : r.range(s.n, s.n + 8);
  s.form = r.range(0, 2);
  s.min_d = r.of({1e-6, 1e-6, 1e-3, 1e-12, 1.0});
  s.max_d = r.of({1e32, 1e32, 1e3, 2.0});
  s.p = MakePoint(r, s.m, s.n, s.form);
  s.radius = std::pow(10.0, r.uni(-3, 6));
  s.max_radius = r.chance(0.4) ? s.radius * std::pow(10.0, r.uni(0, 2)) : 1e16;
  s.eta = r.uni(0, 1);
  c.note("%dx%d form%d diag[%g,%g] radius %g max %g %s", s.m, s.n, s.form, s.min_d, s.max_d, s.radius, s.max_radius, s.p.kind.c_str());
  return s;
}

TRS::Options MakeOptions(const Setup& s, LS* solver, ceres::TrustRegionStrategyType t, ceres::DoglegType d, int threads) {
  TRS::Options o;
  o.trust_region_strategy_type = t;
  o.dogleg_type = d;
  o.linear_solver = solver;
  o.initial_radius = s.radius;
  o.max_radius = s.max_radius;
  o.min_lm_diagonal = s.min_d;
  o.max_lm_diagonal = s.max_d;
  o.context = Ctx();
  o.num_threads = threads;
  return o;
}

std::vector<Fault> Script(Rng& r, int len) {
  std::vector<Fault> f;
  for (int i = 0; i < len; ++i) f.push_back(r.of({kFail, kNaN, kInf, kUnwritten, kFail}));
  return f;
}

struct Guarded {
  std::vector<double> v;
  int n;
  explicit Guarded(int n) : v(n + 4, 7.25), n(n) {}
  double* data() { return v.data() + 2; }
  bool intact() const { return v[0] == 7.25 && v[1] == 7.25 && v[n + 2] == 7.25 && v[n + 3] == 7.25; }
  Eigen::Map<const VectorXd> step() const { return Eigen::Map<const VectorXd>(v.data() + 2, n); }
};

double AcceptQuality(Rng& r) {
  switch (r.range(0, 6)) {
    case 0: return r.of({0.25, 0.75, 0.5, 1.0});
    case 1: return std::pow(10.0, r.uni(-8, -2));
    case 2: return std::pow(10.0, r.uni(0, 8));
    default: return r.uni(0.001, 1.3);
  }
}

void LevenbergMarquardt(Case& c) {
  Rng& r = c.rng;
  Setup s = MakeSetup(c);
  ScriptedSolver solver;
  solver.c = &c;
  auto strategy = TRS::Create(MakeOptions(s, &solver, ceres::LEVENBERG_MARQUARDT, ceres::TRADITIONAL_DOGLEG, r.range(1, 3)));
  double radius = s.radius, factor = 2;
  Point p = std::move(s.p);
  std::string hist;
  const int steps = r.range(1, 25);
  for (int k = 0; k < steps && !c.bad; ++k) {
    if (!c.expect(Bits(strategy->Radius(), radius), "lm-radius", "after%s the radius is %.17g, not %.17g", hist.c_str(), strategy->Radius(), radius)) return;
    TRS::PerSolveOptions po;
    po.eta = s.eta;
    Fault f = kOk;
    if (r.chance(0.15)) f = static_cast<Fault>(r.range(kNoConvergence, kUnwritten));
    solver.script = {f};
    solver.J = p.J;
    solver.expected_a = p.A.get();
    solver.expected_b = p.r.data();
    solver.calls.clear();
    const VectorXd r0 = p.r;
    Guarded step(s.n);
    const TRS::Summary sum = strategy->ComputeStep(po, p.A.get(), p.r.data(), step.data());
    c.count("lm-steps");
    c.expect(step.intact(), "write-out-of-bounds", "cells around the step changed");
    ceres::Matrix J1;
    p.A->ToDenseMatrix(&J1);
    c.expect(J1 == p.J && p.r == r0, "inputs-changed", "ComputeStep changed its inputs");
    if (!c.expect(solver.calls.size() == 1, "lm-solves", "%zu linear solves", solver.calls.size())) return;
    const auto& call = solver.calls[0];
    VectorXd D = (ClampedDiagonal(p.J, s.min_d, s.max_d) / radius).cwiseSqrt();
    c.expect(SameDiagonal(call.D, D), "lm-diagonal", "after%s radius %g diagonal %s, expected %s", hist.c_str(), radius, Str(call.D).c_str(), Str(D).c_str());
    c.expect(Bits(call.q_tolerance, s.eta), "lm-forcing", "forcing %g passed as %g", s.eta, call.q_tolerance);
    c.expect(call.r_tolerance <= 0, "lm-forcing", "a residual tolerance %g ends the linear solver early", call.r_tolerance);
    c.expect(sum.num_iterations == 1 && sum.residual_norm == 0.5, "lm-summary", "iterations %d residual %g", sum.num_iterations, sum.residual_norm);
    const TT want = f == kOk ? TT::SUCCESS : f == kNoConvergence ? TT::NO_CONVERGENCE : f == kFatal ? TT::FATAL_ERROR : TT::FAILURE;
    c.expect(sum.termination_type == want, "lm-termination", "linear solver %s: %d", kFaultName[f], static_cast<int>(sum.termination_type));
    const bool usable = f == kOk || f == kNoConvergence;
    if (usable) {
      c.count("lm-checked");
      bool same = true;
      for (int i = 0; i < s.n; ++i) same = same && step.step()[i] == -call.y[i];
      c.expect(same, "lm-step", "step %s, solution %s", Str(step.step()).c_str(), Str(call.y).c_str());
    } else c.count("failures");
    const int act = usable ? r.range(0, 5) : 5;
    if (act <= 2) {
      const double q = AcceptQuality(r);
      strategy->StepAccepted(q);
      radius = radius / std::max(1.0 / 3.0, 1.0 - std::pow(2.0 * q - 1.0, 3));
      radius = std::min(radius, s.max_radius);
      factor = 2;
      hist += Fmt(" +%.3g", q);
      p = MakePoint(r, s.m, s.n, s.form);
      c.count("accepted");
    } else {
      if (act == 5) strategy->StepIsInvalid(), hist += " !", c.count("invalid");
      else strategy->StepRejected(r.uni(-3, 1e-3)), hist += " -", c.count("rejected");
      radius /= factor;
      factor *= 2;
    }
    c.expect(strategy->Radius() > 0 && strategy->Radius() <= s.max_radius, "radius-range", "radius %g outside (0, %g]", strategy->Radius(), s.max_radius);
    if (radius < 1e-30) break;
  }
  c.note("history%s", hist.c_str());
  c.sig(Fmt("%d %s%s", s.n, p.kind.c_str(), hist.substr(0, 40).c_str()));
}

// Minimum of x'Bx/2 + g'x over |x| = rho for B positive semidefinite, by bisection.
LD BoundaryMinimum(const Eigen::Matrix<LD, 2, 2>& B, const Eigen::Matrix<LD, 2, 1>& g, LD rho) {
  LD best = INFINITY;
  // Dense scan of the angle followed by local refinement: no root finding involved.
  const int kN = 720;
  const LD pi = 3.14159265358979323846264338327950288L;
  auto f = [&](LD t) {
    Eigen::Matrix<LD, 2, 1> x(rho * cosl(t), rho * sinl(t));
    return x.dot(B * x) / 2 + g.dot(x);
  };
  int at = 0;
  for (int i = 0; i < kN; ++i) {
    const LD v = f(2 * pi * i / kN);
    if (v < best) best = v, at = i;
  }
  LD lo = 2 * pi * (at - 1) / kN, hi = 2 * pi * (at + 1) / kN;
  for (int i = 0; i < 200; ++i) {
    const LD a = lo + (hi - lo) / 3, b = hi - (hi - lo) / 3;
    if (f(a) < f(b)) hi = b; else lo = a;
  }
  return std::min(best, f((lo + hi) / 2));
}

void Dogleg(Case& c) {
  Rng& r = c.rng;
  Setup s = MakeSetup(c);
  const bool subspace = r.chance(0.5);
  ScriptedSolver solver;
  solver.c = &c;
  // A radius that is interesting for the first point.
  {
    const VectorXd d = ClampedDiagonal(s.p.J, s.min_d, s.max_d).cwiseSqrt();
    const MatrixXd Js = s.p.J * d.cwiseInverse().asDiagonal();
    const VectorXd g = Js.transpose() * s.p.r;
    const double cauchy = std::pow(g.norm(), 3) / (Js * g).squaredNorm();
    MatrixXd H = Js.transpose() * Js;
    H.diagonal().array() += 1e-8;
    const double gn = H.ldlt().solve(g).norm();
    if (r.chance(0.8) && cauchy > 0 && std::isfinite(cauchy) && std::isfinite(gn)) {
      s.radius = r.chance(0.3) ? cauchy * std::pow(10.0, r.uni(-2, 0)) : r.chance(0.6) && gn > cauchy ? cauchy * std::pow(gn / cauchy, r.uni(0, 1)) : gn * r.uni(1, 5);
      if (r.chance(0.1)) s.radius = r.chance(0.5) ? gn : cauchy;
      s.max_radius = r.chance(0.4) ? s.radius * std::pow(10.0, r.uni(0, 1)) : std::max(1e16, s.radius);
    }
    if (!(s.radius > 1e-20)) s.radius = 1e-20;
    s.max_radius = std::max(s.max_radius, s.radius);
  }
  auto strategy = TRS::Create(MakeOptions(s, &solver, ceres::DOGLEG, subspace ? ceres::SUBSPACE_DOGLEG : ceres::TRADITIONAL_DOGLEG, 1));
  c.note("%s radius %.9g max %.9g", subspace ? "subspace" : "traditional", s.radius, s.max_radius);
  double radius = s.radius, mu = 1e-8, gn_mu = mu;
  Point p = std::move(s.p);
  bool reuse = false;
  VectorXd gn;  // scaled Gauss-Newton step of the current point
  std::string hist;
  const int steps = r.range(1, 20);
  for (int k = 0; k < steps && !c.bad; ++k) {
    if (!c.expect(Bits(strategy->Radius(), radius), "dogleg-radius", "after%s the radius is %.17g, not %.17g", hist.c_str(), strategy->Radius(), radius)) return;
    TRS::PerSolveOptions po;
    solver.script = r.chance(0.15) ? Script(r, r.range(1, 9)) : std::vector<Fault>();
    const bool fatal = r.chance(0.03);
    if (fatal) solver.script.push_back(kFatal);
    const std::vector<Fault> script = solver.script;
    solver.J = p.J;
    solver.expected_a = p.A.get();
    solver.expected_b = p.r.data();
    solver.calls.clear();
    Guarded step(s.n);
    const VectorXd r0 = p.r;
    const TRS::Summary sum = strategy->ComputeStep(po, p.A.get(), p.r.data(), step.data());
    c.count("dogleg-steps");
    c.expect(step.intact(), "write-out-of-bounds", "cells around the step changed");
    ceres::Matrix J1;
    p.A->ToDenseMatrix(&J1);
    c.expect(J1 == p.J && p.r == r0, "inputs-changed", "ComputeStep changed its inputs");
    const VectorXd diag = ClampedDiagonal(p.J, s.min_d, s.max_d).cwiseSqrt();
    TT want = TT::SUCCESS;
    if (reuse) {
      c.count("reused");
      c.expect(solver.calls.empty() && sum.num_iterations == 0, "dogleg-reuse-solve", "a linear solve after a rejected step");
      solver.script.clear();
    } else {
      want = TT::FAILURE;
      size_t q = 0;
      while (mu < 1) {
        if (!c.expect(q < solver.calls.size(), "dogleg-retries", "%zu linear solves, expected more (mu %g)", solver.calls.size(), mu)) return;
        const auto& call = solver.calls[q++];
        const VectorXd D = diag * std::sqrt(mu);
        c.expect(SameDiagonal(call.D, D), "dogleg-diagonal", "after%s mu %g diagonal %s, expected %s", hist.c_str(), mu, Str(call.D).c_str(), Str(D).c_str());
        c.expect(call.q_tolerance == 0 && call.r_tolerance == 0, "dogleg-tolerance", "q %g r %g", call.q_tolerance, call.r_tolerance);
        if (call.fault == kFatal) { want = TT::FATAL_ERROR; break; }
        if (call.fault == kOk) {
          want = TT::SUCCESS;
          gn = (-call.y.array() * diag.array()).matrix();
          gn_mu = mu;
          break;
        }
        mu *= 10;
        c.count("regularised");
      }
      c.expect(q == solver.calls.size(), "dogleg-retries", "%zu linear solves, expected %zu", solver.calls.size(), q);
    }
    c.expect(sum.termination_type == want, "dogleg-termination", "termination %d, expected %d (%s)", static_cast<int>(sum.termination_type), static_cast<int>(want), hist.c_str());
    if (c.bad) return;
    double step_norm = 0;
    if (want == TT::SUCCESS) {
      // Everything in the scaled space.
      const VecL d = diag.cast<LD>();
      const MatL Js = p.J.cast<LD>() * d.cwiseInverse().asDiagonal();
      const VecL g = Js.transpose() * p.r.cast<LD>();
      const VecL x = (step.step().cast<LD>().array() * d.array()).matrix();
      const VecL G = gn.cast<LD>();
      const LD gnorm = g.norm(), Gn = G.norm();
      const LD alpha = g.squaredNorm() / (Js * g).squaredNorm();
      step_norm = static_cast<double>(x.norm());
      c.count("dogleg-checked");
      bool finite = true;
      for (int i = 0; i < s.n; ++i) finite = finite && std::isfinite(step.step()[i]);
      if (!c.expect(finite, "dogleg-not-finite", "step %s", Str(step.step()).c_str())) return;
      c.expect(x.norm() <= radius * (1 + 1e-9), "dogleg-outside", "%s %s after%s: scaled step norm %.12g, radius %.12g, |g| %.6Lg |gn| %.6Lg", subspace ? "subspace" : "traditional", p.kind.c_str(), hist.c_str(), step_norm,
               radius, gnorm, Gn);
      // The Cauchy point within the region.
      const LD tc = std::min(alpha, static_cast<LD>(radius) / gnorm);
      auto model = [&](const VecL& y) { const VecL J = Js * y; return g.dot(y) + J.squaredNorm() / 2; };
      // The Gauss-Newton step minimises the model with mu/2 |y|^2 added, so that is the model
      // in which the path descends.
      const LD mc = model(-tc * g) + gn_mu / 2 * tc * gnorm * tc * gnorm, mx = model(x) + gn_mu / 2 * x.squaredNorm();
      // Rounding of the entries of the step, seen through the gradient and the curvature.
      const LD slack = 1e-9L * fabsl(mc) + 1e-14L * (gnorm * x.norm() + (Js * x).squaredNorm());
      c.expect(mx <= mc + slack, "dogleg-cauchy", "%s %s after%s: model change %.12Lg, Cauchy point %.12Lg (radius %g |g| %.6Lg |gn| %.6Lg)", subspace ? "subspace" : "traditional", p.kind.c_str(), hist.c_str(), mx, mc,
               radius, gnorm, Gn);
      const char* which = "gauss-newton";
      if (Gn <= radius * (1 - 1e-12L)) {
        c.expect((x - G).norm() <= 1e-12L * Gn, "dogleg-newton", "the Gauss-Newton step is inside the region, but the step differs: %s vs %s", Str(x).c_str(), Str(G).c_str());
      } else if (!subspace) {
        VecL ref;
        if (alpha * gnorm >= radius) {
          ref = -(radius / gnorm) * g;
          which = "cauchy";
        } else {
          const VecL a = -alpha * g, b = G;
          const LD A = (b - a).squaredNorm(), Bq = a.dot(b - a), C = a.squaredNorm() - LD(radius) * radius;
          LD t = (-Bq + sqrtl(std::max<LD>(0, Bq * Bq - A * C))) / A;
          t = std::min<LD>(1, t);
          ref = a + t * (b - a);
          which = "segment";
        }
        // When the Cauchy point is on the boundary up to rounding, the two cases may differ.
        if (fabsl(alpha * gnorm - radius) <= 1e-9L * radius) {
          const VecL a = -alpha * g, ba = G - a;
          LD t = (x - a).dot(ba) / ba.squaredNorm();
          if (fabsl(t) * ba.norm() > 1e-4L * radius) t = std::min<LD>(1, std::max<LD>(0, t));
          if ((x - a - t * ba).norm() <= 1e-9L * radius) ref = x;
        }
        if (fabsl(Gn - radius) <= 1e-9L * radius && (x - G).norm() <= 1e-9L * radius) ref = x;
        // The crossing moves fast where the segment is almost tangent to the sphere.
        c.expect((x - ref).norm() <= 1e-6L * radius, "dogleg-path", "%s after%s: %s step %s, expected %s (radius %g)", p.kind.c_str(), hist.c_str(), which, Str(x).c_str(), Str(ref).c_str(), radius);
      } else {
        // Orthonormal basis of span(g, G) in long double.
        const VecL u = g / gnorm;
        VecL w = G - u.dot(G) * u;
        w -= u.dot(w) * u;
        const LD sine = w.norm() / Gn;
        which = sine < 1e-13L ? "parallel" : sine < 1e-6L ? "near-parallel" : "boundary";
        if (sine > 1e-13L) {
          w /= w.norm();
          const VecL off = x - u.dot(x) * u - w.dot(x) * w;
          const LD tol = 1e-7L + 1e-14L / sine;
          c.expect(off.norm() <= tol * x.norm(), "dogleg-subspace", "%s: the step leaves the subspace by %.3Lg of its norm (sine %.3Lg)", p.kind.c_str(), off.norm() / x.norm(), sine);
          MatL U(s.n, 2);
          U.col(0) = u;
          U.col(1) = w;
          const MatL JU = Js * U;
          const Eigen::Matrix<LD, 2, 2> B = JU.transpose() * JU;
          const Eigen::Matrix<LD, 2, 1> g2 = U.transpose() * g;
          const LD best = BoundaryMinimum(B, g2, radius) + gn_mu / 2 * LD(radius) * radius;
          c.expect(mx <= best + (1e-6L + 1e-12L / sine) * fabsl(best) + slack, "dogleg-optimum", "%s after%s: model change %.12Lg, minimum on the boundary %.12Lg (sine %.3Lg, radius %g, |x| %g)", p.kind.c_str(),
                   hist.c_str(), mx, best, sine, radius, step_norm);
        }
      }
      c.count(std::string("dogleg-") + which);
      c.sig(Fmt("%d %d %s %s %s", subspace, s.n, which, p.kind.c_str(), hist.substr(0, 16).c_str()));
    } else {
      c.count("failures");
      if (want == TT::FATAL_ERROR) break;
    }
    const int act = want == TT::SUCCESS ? r.range(0, 5) : 5;
    if (act <= 2) {
      const double q = AcceptQuality(r);
      strategy->StepAccepted(q);
      hist += Fmt(" +%.3g", q);
      mu = std::max(1e-8, 2.0 * mu / 10.0);
      reuse = false;
      if (q < 0.25) radius *= 0.5;
      if (q > 0.75) {
        const double now = strategy->Radius(), expect = std::min(s.max_radius, std::max(radius, 3 * step_norm));
        c.expect(std::fabs(now - expect) <= 1e-9 * expect, "dogleg-grow", "radius %.12g after a good step of norm %.12g at radius %.12g, expected %.12g (max %g)", now, step_norm, radius, expect, s.max_radius);
        radius = now;
      }
      p = MakePoint(r, s.m, s.n, s.form);
      c.count("accepted");
    } else if (act == 5) {
      strategy->StepIsInvalid();
      mu *= 10;
      reuse = false;
      hist += " !";
      c.count("invalid");
    } else {
      strategy->StepRejected(r.uni(-3, 1e-3));
      radius *= 0.5;
      reuse = true;
      hist += " -";
      c.count("rejected");
    }
    c.expect(strategy->Radius() > 0 && strategy->Radius() <= s.max_radius, "radius-range", "radius %g outside (0, %g]", strategy->Radius(), s.max_radius);
    if (radius < 1e-25) break;
  }
  c.note("history%s", hist.c_str());
}

// The same through the real linear solvers.
void Real(Case& c) {
  Rng& r = c.rng;
  BlockSpec bs;
  bs.e_max = 3;
  bs.f_max = 3;
  bs.max_f = 3;
  bs.f_min = 1;
  const bool full = bs.full_rank = r.chance(0.7);
  BlockProblem p;
  p.Init(r, bs, r.chance(0.4));
  const int n = p.A->num_cols(), m = p.A->num_rows();
  LS::Options lo;
  lo.context = Ctx();
  lo.num_threads = r.range(1, 3);
  lo.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
  lo.type = r.of({ceres::DENSE_QR, ceres::DENSE_NORMAL_CHOLESKY, ceres::SPARSE_NORMAL_CHOLESKY, ceres::DENSE_SCHUR, ceres::SPARSE_SCHUR});
  lo.elimination_groups = {p.num_e, static_cast<int>(p.A->block_structure()->cols.size()) - p.num_e};
  if (r.chance(0.3)) lo.max_num_refinement_iterations = 2;
  auto solver = LS::Create(lo);
  const int kind = r.range(0, 2);
  Setup s;
  s.radius = std::pow(10.0, r.uni(-2, 4));
  s.max_radius = 1e10;
  s.min_d = 1e-6;
  s.max_d = 1e32;
  auto strategy = TRS::Create(MakeOptions(s, solver.get(), kind ? ceres::DOGLEG : ceres::LEVENBERG_MARQUARDT, kind == 2 ? ceres::SUBSPACE_DOGLEG : ceres::TRADITIONAL_DOGLEG, lo.num_threads));
  c.note("%s %s t%d radius %g %s", ceres::LinearSolverTypeToString(lo.type), kind == 0 ? "lm" : kind == 1 ? "traditional" : "subspace", lo.num_threads, s.radius, p.Describe().c_str());
  c.sig(Fmt("%d %d %llu", lo.type, kind, (unsigned long long)p.Shape()));
  bool same_point = false;
  for (int k = 0, steps = r.range(1, 8); k < steps && !c.bad; ++k) {
    const MatrixXd J = p.Dense();
    Guarded step(n);
    const double radius = strategy->Radius();
    TRS::PerSolveOptions po;
    po.eta = 0;
    std::unique_ptr<ci::SparseMatrix> dense;
    ci::SparseMatrix* A = p.A.get();
    if (lo.type == ceres::DENSE_QR || lo.type == ceres::DENSE_NORMAL_CHOLESKY) {
      auto d = std::make_unique<ci::DenseSparseMatrix>(m, n);
      for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) d->mutable_values()[i * n + j] = J(i, j);
      dense = std::move(d);
      A = dense.get();
    }
    const TRS::Summary sum = strategy->ComputeStep(po, A, p.b.data(), step.data());
    if (!c.expect(sum.termination_type == TT::SUCCESS, "real-failed", "termination %d", static_cast<int>(sum.termination_type))) return;
    const VectorXd x = step.step();
    const VectorXd diag = ClampedDiagonal(J, s.min_d, s.max_d);
    MatL M = MatL::Zero(m + n, n);
    M.topRows(m) = J.cast<LD>();
    if (kind == 0) {
      for (int i = 0; i < n; ++i) M(m + i, i) = sqrtl(diag[i] / LD(radius));
      Eigen::JacobiSVD<MatrixXd> svd(M.cast<double>());
      const double cond = svd.singularValues()(0) / svd.singularValues()(n - 1);
      VecL rhs = VecL::Zero(m + n);
      rhs.head(m) = -p.b.cast<LD>();
      const VectorXd ref = M.householderQr().solve(rhs).cast<double>();
      const double tol = (1e-12 + 1e-14 * cond * cond) * (ref.norm() + p.b.norm() / svd.singularValues()(n - 1));
      if (1e-14 * cond * cond < 1e-3) {
        c.count("real-lm");
        c.expect((x - ref).norm() <= tol, "real-lm-step", "radius %g step %s, minimiser %s (cond %.3g)", radius, Str(x).c_str(), Str(ref).c_str(), cond);
      }
    } else {
      const VectorXd d = diag.cwiseSqrt();
      const MatL Js = J.cast<LD>() * d.cast<LD>().cwiseInverse().asDiagonal();
      const VecL g = Js.transpose() * p.b.cast<LD>();
      const VecL y = (x.array() * d.array()).matrix().cast<LD>();
      const LD tc = std::min(g.squaredNorm() / (Js * g).squaredNorm(), static_cast<LD>(radius) / g.norm());
      auto model = [&](const VecL& v) { const VecL q = Js * v; return g.dot(v) + q.squaredNorm() / 2; };
      c.count("real-dogleg");
      c.expect(y.norm() <= radius * (1 + 1e-9), "dogleg-outside", "scaled step norm %.12Lg, radius %.12g", y.norm(), radius);
      const LD mc = model(-tc * g), my = model(y);
      c.expect(my <= (full ? mc + 1e-7L * fabsl(mc) : 0), "dogleg-cauchy", "model change %.12Lg, Cauchy point %.12Lg", my, mc);
    }
    // A strategy without a past at this radius gives the same step.
    {
      Setup f;
      f.min_d = s.min_d, f.max_d = s.max_d, f.max_radius = s.max_radius;
      f.radius = radius;
      auto solver2 = LS::Create(lo);
      auto fresh = TRS::Create(MakeOptions(f, solver2.get(), kind ? ceres::DOGLEG : ceres::LEVENBERG_MARQUARDT, kind == 2 ? ceres::SUBSPACE_DOGLEG : ceres::TRADITIONAL_DOGLEG, 1));
      Guarded step2(n);
      const TRS::Summary sum2 = fresh->ComputeStep(po, A, p.b.data(), step2.data());
      c.expect(sum2.termination_type == TT::SUCCESS, "real-failed", "fresh termination %d", static_cast<int>(sum2.termination_type));
      c.expect((x - step2.step()).norm() <= 1e-6 * (1 + x.norm()) || !full, "real-fresh", "step %s, from scratch %s", Str(x).c_str(), Str(VectorXd(step2.step())).c_str());
      if (same_point) c.count("reused");
    }
    if (r.chance(0.5)) {
      strategy->StepAccepted(r.uni(0.1, 1));
      p.Fill(r, false);
      same_point = false;
    } else {
      strategy->StepRejected(-1);
      same_point = true;
    }
  }
}

// Conn, Gould & Toint, algorithm 10.1.2.
void Evaluator(Case& c) {
  Rng& r = c.rng;
  const int window = r.of({0, 0, 1, 2, 3, 5, 10});
  double cost = std::pow(10.0, r.uni(-3, 6));
  ci::TrustRegionStepEvaluator e(cost, window);
  double f_min = cost, f_r = cost, f_c = cost, sigma_r = 0, sigma_c = 0, f_k = cost;
  int l = 0;
  std::string h;
  std::vector<double> accepted = {cost};
  for (int k = 0, n = r.range(1, 60); k < n && !c.bad; ++k) {
    const double scale = std::fabs(f_k) + 1e-3;
    const double model = scale * std::pow(10.0, r.uni(-6, 0));
    double trial = r.chance(0.05) ? std::numeric_limits<double>::max() : r.chance(0.1) ? f_k : f_k - scale * r.uni(-0.6, 0.6);
    if (r.chance(0.05)) trial = f_min;
    const double q = e.StepQuality(trial, model);
    if (trial == std::numeric_limits<double>::max()) {
      c.expect(q == std::numeric_limits<double>::lowest(), "evaluator-failed", "a failed evaluation has quality %g", q);
      continue;
    }
    const double rho_c = (f_k - trial) / model, rho_h = (f_r - trial) / (sigma_r + model);
    c.count("qualities");
    const double ref = std::max(rho_c, rho_h);
    if (!c.expect(std::fabs(q - ref) <= 1e-12 * (std::fabs(ref) + 1), "evaluator-quality", "window %d after%s: quality %.17g, expected %.17g", window, h.c_str(), q, ref)) return;
    if (window == 0) {
      // Monotonic: only a decrease has positive quality.
      c.expect((q > 0) == (trial < f_k), "evaluator-monotonic", "cost %g -> %g quality %g", f_k, trial, q);
      c.count("monotonic");
    }
    if (!(q > 1e-3)) { h += " -"; continue; }
    // Never above the largest cost of the last window+1 accepted iterates since the minimum.
    e.StepAccepted(trial, model);
    c.count("evaluator-accepted");
    if (trial > f_k) c.count("uphill");
    h += trial > f_k ? " u" : " d";
    f_k = trial;
    sigma_c += model;
    sigma_r += model;
    if (f_k < f_min) {
      f_c = f_min = f_k;
      sigma_c = 0;
      l = 0;
    } else {
      ++l;
      if (f_k > f_c) f_c = f_k, sigma_c = 0;
    }
    if (l == window) f_r = f_c, sigma_r = sigma_c;
  }
  c.sig(Fmt("%d %s", window, h.substr(0, 24).c_str()));
  c.note("window %d%s", window, h.c_str());
}

}  // namespace

VH_MAIN({"lm", LevenbergMarquardt, 3000}, {"dogleg", Dogleg, 6000}, {"real", Real, 400}, {"evaluator", Evaluator, 3000})
