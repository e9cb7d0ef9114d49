// C13: every linear solver and factorization returns the minimiser of
//   |Ax - b|^2 + |Dx|^2,
// over repeated solves with the same structure, leaving its inputs alone, and reports
// systems it cannot solve.
#include <Eigen/Dense>
#include <set>

#include "blocks.h"
#include "ceres/compressed_row_sparse_matrix.h"
#include "ceres/conjugate_gradients_solver.h"
#include "ceres/context_impl.h"
#include "ceres/dense_cholesky.h"
#include "ceres/dense_qr.h"
#include "ceres/dense_sparse_matrix.h"
#include "ceres/iterative_refiner.h"
#include "ceres/linear_solver.h"
#include "ceres/sparse_cholesky.h"

using namespace vh;
namespace ci = ceres::internal;
using LS = ci::LinearSolver;
using TT = ci::LinearSolverTerminationType;

namespace {

ci::ContextImpl* Ctx() {
  static ci::ContextImpl* c = [] {
    auto* c = new ci::ContextImpl;
    c->EnsureMinimumThreads(8);
    return c;
  }();
  return c;
}

struct Ref {
  VectorXd x;
  double cond = 1, scale = 1;
  MatrixXd M;  // [A; D]
  VectorXd rhs;
  VectorXd Gradient(const VectorXd& y) const { return M.transpose() * (M * y - rhs); }
};
Ref Reference(const MatrixXd& A, const VectorXd& b, const double* D) {
  Ref r;
  const int m = A.rows(), n = A.cols();
  r.M = MatrixXd::Zero(m + (D ? n : 0), n);
  r.M.topRows(m) = A;
  r.rhs = VectorXd::Zero(r.M.rows());
  r.rhs.head(m) = b;
  if (D)
    for (int i = 0; i < n; ++i) r.M(m + i, i) = D[i];
  Eigen::JacobiSVD<MatrixXd> svd(r.M);
  const auto& s = svd.singularValues();
  r.cond = r.M.rows() < n || s(n - 1) == 0 ? 1e300 : s(0) / s(n - 1);
  Eigen::Matrix<long double, -1, -1> L = r.M.cast<long double>();
  r.x = L.householderQr().solve(r.rhs.cast<long double>()).cast<double>();
  r.scale = r.x.norm() + b.norm() / std::max(1e-300, static_cast<double>(s(n - 1)));
  return r;
}

enum Kind { kQR, kDenseNormal, kSparseNormal, kDynamic, kDenseSchur, kSparseSchur, kIterSchur, kIterSchurExplicit, kCgnr, kKinds };
const char* kKindName[] = {"dense-qr", "dense-normal", "sparse-normal", "dynamic-sparse", "dense-schur", "sparse-schur", "iterative-schur", "iterative-schur-explicit", "cgnr"};

struct Config {
  Kind kind;
  LS::Options o;
  bool iterative() const { return kind == kIterSchur || kind == kIterSchurExplicit || kind == kCgnr; }
  bool schur() const { return kind >= kDenseSchur && kind <= kIterSchurExplicit; }
  std::string Describe() const {
    return Fmt("%s %s%s%s ref%d t%d%s", kKindName[kind], iterative() ? ceres::PreconditionerTypeToString(o.preconditioner_type) : "",
               o.ordering_type == ci::OrderingType::AMD ? " amd" : "", o.use_mixed_precision_solves ? " mixed" : "", o.max_num_refinement_iterations, o.num_threads,
               o.use_spse_initialization ? " spse" : "");
  }
};

Config RandomConfig(Rng& r, const BlockProblem& p, Kind k) {
  Config c;
  c.kind = k;
  auto& o = c.o;
  o.context = Ctx();
  o.num_threads = r.chance(0.5) ? 1 : r.range(2, 6);
  o.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
  o.ordering_type = r.chance(0.5) ? ci::OrderingType::AMD : ci::OrderingType::NATURAL;
  const int ncols = p.A->block_structure()->cols.size();
  o.elimination_groups = {p.num_e};
  if (ncols > p.num_e || r.chance(0.5)) o.elimination_groups.push_back(ncols - p.num_e);
  if (o.elimination_groups.size() < 2) o.elimination_groups.push_back(0);
  const int n = p.A->num_cols();
  switch (k) {
    case kQR: o.type = ceres::DENSE_QR; break;
    case kDenseNormal: o.type = ceres::DENSE_NORMAL_CHOLESKY; break;
    case kSparseNormal: o.type = ceres::SPARSE_NORMAL_CHOLESKY; break;
    case kDynamic: o.type = ceres::SPARSE_NORMAL_CHOLESKY; o.dynamic_sparsity = true; break;
    case kDenseSchur: o.type = ceres::DENSE_SCHUR; break;
    case kSparseSchur: o.type = ceres::SPARSE_SCHUR; break;
    case kIterSchur: {
      o.type = ceres::ITERATIVE_SCHUR;
      const bool f = ncols > p.num_e;
      o.preconditioner_type = f ? r.of({ceres::IDENTITY, ceres::JACOBI, ceres::SCHUR_JACOBI, ceres::CLUSTER_JACOBI, ceres::CLUSTER_TRIDIAGONAL, ceres::SCHUR_POWER_SERIES_EXPANSION})
                                : r.of({ceres::IDENTITY, ceres::JACOBI, ceres::SCHUR_JACOBI});
      o.visibility_clustering_type = r.chance(0.5) ? ceres::CANONICAL_VIEWS : ceres::SINGLE_LINKAGE;
      o.max_num_spse_iterations = r.range(1, 6);
      o.use_spse_initialization = r.chance(0.3);
      o.spse_tolerance = r.of({0.1, 1e-3, 0.0});
      break;
    }
    case kIterSchurExplicit:
      o.type = ceres::ITERATIVE_SCHUR;
      o.use_explicit_schur_complement = true;
      o.preconditioner_type = ceres::SCHUR_JACOBI;
      break;
    default:
      o.type = ceres::CGNR;
      o.preconditioner_type = r.of({ceres::IDENTITY, ceres::JACOBI, ceres::SUBSET});
      if (o.preconditioner_type == ceres::SUBSET) o.subset_preconditioner_start_row_block = r.range(0, static_cast<int>(p.A->block_structure()->rows.size()) - 1);
      break;
  }
  if (!c.iterative() && k != kQR && k != kDynamic) {
    if (r.chance(0.35)) o.use_mixed_precision_solves = true;
    if (o.use_mixed_precision_solves ? r.chance(0.8) : r.chance(0.15)) o.max_num_refinement_iterations = r.range(1, 6);
  }
  if (c.iterative()) {
    o.min_num_iterations = r.range(0, 2);
    o.max_num_iterations = 20 * n + 50;
    o.residual_reset_period = r.of({1, 3, 10, 1000});
  }
  return c;
}

// One solver object, several solves.
void Solver(Case& c) {
  Rng& r = c.rng;
  BlockSpec s;
  const bool use_d = r.chance(0.7);
  s.full_rank = !use_d;
  s.split = r.chance(0.7);
  s.f_min = r.chance(0.15) ? 0 : 1;
  if (r.chance(0.1)) s.f_max = s.f_min;
  if (r.chance(0.3)) s.row = 2, s.e = r.range(2, 4), s.f = r.of({3, 4, 6, 8, 9});
  if (r.chance(0.1)) s.row = 2, s.e = 3, s.f = 6, s.f_min = s.f_max = 1;
  BlockProblem p;
  const bool scaled = r.chance(0.3);
  p.Init(r, s, scaled);
  const Kind kind = static_cast<Kind>(r.range(0, kKinds - 1));
  const Config cfg = RandomConfig(r, p, kind);
  c.note("%s | %s%s%s", cfg.Describe().c_str(), p.Describe().c_str(), use_d ? " D" : "", scaled ? " scaled" : "");
  auto solver = LS::Create(cfg.o);
  if (!c.expect(solver != nullptr, "create", "no solver")) return;
  std::unique_ptr<CompressedRowBlockStructure> bs0(new CompressedRowBlockStructure(*p.A->block_structure()));
  std::unique_ptr<CompressedRowBlockStructure> ts0(new CompressedRowBlockStructure(*p.A->transpose_block_structure()));
  std::unique_ptr<ci::DenseSparseMatrix> dense;
  std::unique_ptr<ci::CompressedRowSparseMatrix> crs;
  const int n = p.A->num_cols(), m = p.A->num_rows();
  const int solves = r.range(1, 4);
  for (int k = 0; k < solves; ++k) {
    if (k) p.Fill(r, r.chance(0.2));
    const MatrixXd A = p.Dense();
    ci::LinearOperator* op = p.A.get();
    ci::SparseMatrix* sm = p.A.get();
    if (kind == kQR || kind == kDenseNormal) {
      if (!dense) dense = std::make_unique<ci::DenseSparseMatrix>(m, n);
      *dense->mutable_matrix() = A;
      op = sm = dense.get();
    } else if (kind == kDynamic) {
      // the sparsity may change between solves
      crs = p.A->ToCompressedRowSparseMatrix();
      if (r.chance(0.6)) *crs->mutable_col_blocks() = bs0->cols;
      crs->SetMaxNumNonZeros(crs->num_nonzeros() + n);
      op = sm = crs.get();
    }
    const std::vector<double> v0(sm->values(), sm->values() + sm->num_nonzeros());
    const int rows0 = sm->num_rows();
    // exact sizes, guarded by ASan
    std::vector<double> b(p.b.data(), p.b.data() + m), D(p.D.data(), p.D.data() + n);
    std::unique_ptr<double[]> x(new double[n]);
    for (int i = 0; i < n; ++i) x[i] = r.chance(0.5) ? std::nan("") : 1e10 * r.normal();
    LS::PerSolveOptions po;
    po.D = use_d ? D.data() : nullptr;
    po.r_tolerance = r.of({1e-13, 1e-10});  // the first may be out of reach
    po.q_tolerance = r.chance(0.8) ? 0.0 : -1.0;
    const auto sum = solver->Solve(op, b.data(), po, x.get());
    c.count("solves");
    // inputs
    bool same = sm->num_rows() == rows0 && sm->num_nonzeros() == static_cast<int>(v0.size()) && std::memcmp(v0.data(), sm->values(), v0.size() * sizeof(double)) == 0;
    if (sm == p.A.get()) same = same && SameStructure(*bs0, *p.A->block_structure()) && SameStructure(*ts0, *p.A->transpose_block_structure());
    c.expect(same && std::memcmp(b.data(), p.b.data(), m * sizeof(double)) == 0 && std::memcmp(D.data(), p.D.data(), n * sizeof(double)) == 0, "inputs-changed", "solve %d changed its inputs", k);
    const Ref ref = Reference(A, p.b, po.D);
    // errors the arithmetic allows
    const double eps = cfg.o.use_mixed_precision_solves ? 1.2e-7 : 2.3e-16;
    const double c2 = ref.cond * ref.cond;
    // the subset alone may be singular when there is no diagonal
    if (!use_d && cfg.o.preconditioner_type == ceres::SUBSET) { c.count("subset-without-diagonal"); continue; }
    if (eps * c2 > 1e-2) { c.count("ill-conditioned"); continue; }
    const Eigen::Map<VectorXd> y(x.get(), n);
    if (cfg.iterative()) {
      c.expect(sum.num_iterations <= cfg.o.max_num_iterations, "iterations", "%d iterations, limit %d", sum.num_iterations, cfg.o.max_num_iterations);
      if (sum.termination_type != TT::SUCCESS) {
        // rounding may keep the residual from reaching the tolerance
        const double slack = 1e-16 * c2 * 100;
        c.expect(po.r_tolerance < slack || ref.cond > 1e3, "no-convergence", "solve %d: %s, condition %g, tolerance %g", k, sum.message.c_str(), ref.cond, po.r_tolerance);
        c.count("not-converged");
        continue;
      }
      // a small residual of the (reduced) normal equations bounds the error; a stalled
      // quadratic model bounds the energy
      if (po.r_tolerance < 1e-15 * c2 && sum.message.find("zeta") != std::string::npos && po.q_tolerance < 0) { c.count("not-converged"); continue; }
      const double stalled = sum.message.find("zeta") != std::string::npos ? 3e-8 : 0;
      const double tol = (1e3 * (po.r_tolerance + 1e-15) * c2 + stalled * ref.cond) * ref.scale * ref.cond + 1e-12 * ref.scale;
      c.expect((y - ref.x).norm() <= tol, "iterative-solution", "solve %d: error %g, tolerance %g, condition %g: %s", k, (y - ref.x).norm(), tol, ref.cond, sum.message.c_str());
      c.count("iterative-checked");
    } else {
      if (!c.expect(sum.termination_type == TT::SUCCESS, "failure", "solve %d: %s, condition %g", k, sum.message.c_str(), ref.cond)) continue;
      double tol;
      const double growth = std::sqrt(static_cast<double>(n)) * 30;
      if (cfg.o.use_mixed_precision_solves) {
        // each refinement step multiplies the error by about eps cond^2
        double rate = std::min(1.0, growth * eps * c2);
        tol = std::pow(rate, 1 + cfg.o.max_num_refinement_iterations) * ref.scale + 30 * growth * 2.3e-16 * c2 * ref.scale;
      } else {
        tol = growth * eps * (kind == kQR ? ref.cond * std::max(1.0, ref.cond * 1e-2) : c2) * ref.scale + 1e-13 * ref.scale;
      }
      c.expect((y - ref.x).norm() <= tol, "solution", "solve %d: error %g, tolerance %g, condition %g, size %g", k, (y - ref.x).norm(), tol, ref.cond, ref.x.norm());
      c.count("direct-checked");
      if (cfg.o.max_num_refinement_iterations) c.count("refined");
    }
  }
  c.sig(Fmt("%s d%d n%d", cfg.Describe().c_str(), use_d, std::min(n, 24)));
  c.sig(p.Shape());
}

// Systems that have no unique solution: an exactly dependent column.
void Singular(Case& c) {
  Rng& r = c.rng;
  BlockSpec s;
  s.full_rank = true;
  s.f_min = 1;
  BlockProblem p;
  p.Init(r, s);
  // zero one column of an F block, so that its pivot is exactly zero
  const auto* bs = p.A->block_structure();
  const int blk = r.range(p.num_e, static_cast<int>(bs->cols.size()) - 1);
  const int j = r.range(0, bs->cols[blk].size - 1);
  double* v = p.A->mutable_values();
  for (auto& row : bs->rows)
    for (auto& cell : row.cells)
      if (cell.block_id == blk)
        for (int i = 0; i < row.block.size; ++i) v[cell.position + i * bs->cols[blk].size + j] = 0;
  const Kind kind = r.of({kDenseNormal, kSparseNormal, kDynamic, kDenseSchur, kSparseSchur, kCgnr});
  Config cfg = RandomConfig(r, p, kind);
  if (kind == kCgnr) cfg.o.preconditioner_type = ceres::IDENTITY;
  c.note("%s | %s", cfg.Describe().c_str(), p.Describe().c_str());
  auto solver = LS::Create(cfg.o);
  std::unique_ptr<ci::DenseSparseMatrix> dense;
  std::unique_ptr<ci::CompressedRowSparseMatrix> crs;
  ci::LinearOperator* op = p.A.get();
  const MatrixXd A = p.Dense();
  if (kind == kDenseNormal) dense = std::make_unique<ci::DenseSparseMatrix>(ceres::Matrix(A)), op = dense.get();
  if (kind == kDynamic) crs = p.A->ToCompressedRowSparseMatrix(), op = crs.get();
  const int n = p.A->num_cols();
  std::vector<double> x(n, 0.0);
  LS::PerSolveOptions po;
  po.r_tolerance = 1e-10;
  const auto sum = solver->Solve(op, p.b.data(), po, x.data());
  c.count("singular");
  if (cfg.iterative()) {
    // the system is consistent: either a minimiser, or not converged
    const Ref ref = Reference(A, p.b, nullptr);
    Eigen::Map<VectorXd> y(x.data(), n);
    if (sum.termination_type == TT::SUCCESS)
      c.expect(ref.Gradient(y).norm() <= 1e-6 * (1 + p.b.norm()) * (1 + A.norm()) * (1 + A.norm()), "singular-cg", "gradient %g: %s", ref.Gradient(y).norm(), sum.message.c_str());
  } else {
    c.expect(sum.termination_type == TT::FAILURE || sum.termination_type == TT::FATAL_ERROR, "singular-success", "a singular system was reported solved: %s", sum.message.c_str());
    c.expect(!sum.message.empty() && sum.message.find("uccess") == std::string::npos, "singular-message", "message '%s'", sum.message.c_str());
    // the same object recovers
    if (r.chance(0.7)) {
      p.Fill(r);
      const MatrixXd B = p.Dense();
      if (dense) *dense->mutable_matrix() = B;
      if (crs) crs = p.A->ToCompressedRowSparseMatrix(), op = crs.get();
      const auto s2 = solver->Solve(op, p.b.data(), po, x.data());
      const Ref ref = Reference(B, p.b, nullptr);
      Eigen::Map<VectorXd> y(x.data(), n);
      if (ref.cond < 100) {
        const double tol = cfg.o.use_mixed_precision_solves ? 1e-2 : 1e-8;
        c.expect(s2.termination_type == TT::SUCCESS && (y - ref.x).norm() <= tol * ref.scale, "singular-recover", "a regular system after a singular one: %s, error %g", s2.message.c_str(), (y - ref.x).norm());
        c.count("recovered");
      }
    }
  }
  c.sig(Fmt("singular %s", cfg.Describe().c_str()));
}

MatrixXd RandomSpd(Rng& r, int n, double log_cond) {
  MatrixXd g(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) g(i, j) = r.normal();
  Eigen::HouseholderQR<MatrixXd> qr(g);
  MatrixXd Q = qr.householderQ();
  VectorXd d(n);
  for (int i = 0; i < n; ++i) d[i] = std::pow(10.0, n > 1 ? -log_cond * i / (n - 1) : 0.0);
  MatrixXd S = Q * d.asDiagonal() * Q.transpose();
  return (S + S.transpose()) / 2;
}

// The factorization classes on their own.
void Factor(Case& c) {
  Rng& r = c.rng;
  LS::Options o;
  o.context = Ctx();
  o.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
  o.ordering_type = r.chance(0.5) ? ci::OrderingType::AMD : ci::OrderingType::NATURAL;
  o.use_mixed_precision_solves = r.chance(0.4);
  if (o.use_mixed_precision_solves || r.chance(0.3)) o.max_num_refinement_iterations = r.range(0, 5);
  const int n = r.range(1, 14);
  const double lc = r.uni(0, 2);
  const int which = r.range(0, 2);
  const double eps = o.use_mixed_precision_solves ? 1.2e-7 : 2.3e-16;
  auto tol = [&](double cond, double size) {
    const double g = 30 * std::sqrt(n * 1.0);
    return std::pow(std::min(1.0, g * eps * cond), 1 + (o.use_mixed_precision_solves ? o.max_num_refinement_iterations : 0)) * size + g * 2.3e-16 * cond * size * 10;
  };
  c.note("%s n%d mixed%d ref%d cond 1e%.2f", which == 0 ? "dense-cholesky" : which == 1 ? "sparse-cholesky" : "dense-qr", n, o.use_mixed_precision_solves, o.max_num_refinement_iterations, lc);
  std::string message;
  if (which == 0) {
    auto ch = ci::DenseCholesky::Create(o);
    for (int k = r.range(1, 3); k > 0; --k) {
      MatrixXd S = RandomSpd(r, n, lc);
      const bool bad = r.chance(0.25);
      if (bad) {
        const int i = r.range(0, n - 1);
        if (r.chance(0.5)) S.row(i).setZero(), S.col(i).setZero();
        else S(i, i) = -r.uni(0.5, 2);
      }
      VectorXd b(n);
      for (int i = 0; i < n; ++i) b[i] = r.normal();
      // row major with only the documented triangle filled, or both
      const bool half = r.chance(0.6);
      std::unique_ptr<double[]> lhs(new double[n * n]), x(new double[n]);
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) lhs[i * n + j] = half && i > j ? 0.0 : S(i, j);
      const auto t = ch->FactorAndSolve(n, lhs.get(), b.data(), x.get(), &message);
      if (bad) {
        c.expect(t == TT::FAILURE, "indefinite", "indefinite matrix: %s", message.c_str());
        c.count("indefinite");
        continue;
      }
      if (!c.expect(t == TT::SUCCESS, "spd-failed", "%s", message.c_str())) continue;
      const VectorXd y = Eigen::Map<VectorXd>(x.get(), n), e = S.cast<long double>().partialPivLu().solve(b.cast<long double>()).cast<double>();
      c.expect((y - e).norm() <= tol(std::pow(10, lc), e.norm()), "dense-cholesky", "error %g of %g, %s triangle", (y - e).norm(), e.norm(), half ? "one" : "both");
      // more right hand sides with the same factorization
      for (int i = 0; i < n; ++i) b[i] = r.normal();
      if (ch->Solve(b.data(), x.get(), &message) == TT::SUCCESS) {
        const VectorXd z = Eigen::Map<VectorXd>(x.get(), n), f = S.partialPivLu().solve(b);
        c.expect((z - f).norm() <= tol(std::pow(10, lc), f.norm()), "dense-cholesky-again", "error %g of %g", (z - f).norm(), f.norm());
      } else {
        c.fail("dense-cholesky-again", "second solve failed");
      }
      c.count("factored");
    }
  } else if (which == 1) {
    auto ch = ci::SparseCholesky::Create(o);
    const bool lower = ch->StorageType() == ci::CompressedRowSparseMatrix::StorageType::LOWER_TRIANGULAR;
    // one structure, several values
    Eigen::MatrixXi P = Eigen::MatrixXi::Zero(n, n);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j <= i; ++j) P(i, j) = P(j, i) = i == j || r.chance(0.4);
    for (int k = r.range(1, 4); k > 0; --k) {
      MatrixXd S = MatrixXd::Zero(n, n);
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < i; ++j)
          if (P(i, j)) S(i, j) = S(j, i) = r.normal();
      for (int i = 0; i < n; ++i) S(i, i) = S.row(i).cwiseAbs().sum() + r.uni(0.2, 2);
      const bool bad = r.chance(0.2);
      if (bad) {
        const int i = r.range(0, n - 1);
        if (r.chance(0.5)) S.row(i).setZero(), S.col(i).setZero();
        else S(i, i) = -r.uni(0.5, 2);
      }
      std::vector<int> ri = {0}, ci_;
      std::vector<double> va;
      for (int i = 0; i < n; ++i) {
        for (int j = 0; j < n; ++j)
          if (P(i, j) && (lower ? j <= i : j >= i)) ci_.push_back(j), va.push_back(S(i, j));
        ri.push_back(ci_.size());
      }
      ci::CompressedRowSparseMatrix M(n, n, va.size());
      std::copy(ri.begin(), ri.end(), M.mutable_rows());
      std::copy(ci_.begin(), ci_.end(), M.mutable_cols());
      std::copy(va.begin(), va.end(), M.mutable_values());
      M.set_storage_type(ch->StorageType());
      VectorXd b(n);
      for (int i = 0; i < n; ++i) b[i] = r.normal();
      std::unique_ptr<double[]> x(new double[n]);
      const auto t = ch->FactorAndSolve(&M, b.data(), x.get(), &message);
      if (bad) {
        c.expect(t == TT::FAILURE, "sparse-singular", "singular matrix: %s", message.c_str());
        c.count("indefinite");
        continue;
      }
      if (!c.expect(t == TT::SUCCESS, "sparse-spd-failed", "%s", message.c_str())) continue;
      Eigen::JacobiSVD<MatrixXd> svd(S);
      const double cond = svd.singularValues()(0) / svd.singularValues()(n - 1);
      for (int q = 0; q < 2; ++q) {
        if (q) {
          for (int i = 0; i < n; ++i) b[i] = r.normal();
          ch->Solve(b.data(), x.get(), &message);
        }
        const VectorXd y = Eigen::Map<VectorXd>(x.get(), n), e = S.partialPivLu().solve(b);
        c.expect((y - e).norm() <= tol(cond, e.norm()), "sparse-cholesky", "error %g of %g, condition %g", (y - e).norm(), e.norm(), cond);
      }
      c.count("factored");
    }
  } else {
    auto qr = ci::DenseQR::Create(o);
    for (int k = r.range(1, 3); k > 0; --k) {
      const int m = n + r.range(0, 6);
      MatrixXd A(m, n);
      VectorXd b(m);
      for (int i = 0; i < m; ++i) {
        b[i] = r.normal();
        for (int j = 0; j < n; ++j) A(i, j) = r.normal();
      }
      Eigen::JacobiSVD<MatrixXd> svd(A);
      const double cond = svd.singularValues()(0) / svd.singularValues()(n - 1);
      std::unique_ptr<double[]> lhs(new double[m * n]), x(new double[n]);
      for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) lhs[j * m + i] = A(i, j);
      const auto t = qr->FactorAndSolve(m, n, lhs.get(), b.data(), x.get(), &message);
      if (!c.expect(t == TT::SUCCESS, "qr-failed", "%s", message.c_str())) continue;
      const VectorXd y = Eigen::Map<VectorXd>(x.get(), n), e = A.cast<long double>().colPivHouseholderQr().solve(b.cast<long double>()).cast<double>();
      c.expect((y - e).norm() <= 1e-14 * n * cond * cond * (e.norm() + b.norm()) + 1e-13 * n, "dense-qr", "error %g of %g condition %g", (y - e).norm(), e.norm(), cond);
      c.count("factored");
    }
  }
  c.sig(Fmt("%d n%d m%d r%d o%d", which, n, o.use_mixed_precision_solves, o.max_num_refinement_iterations, static_cast<int>(o.ordering_type)));
}

struct DenseOp : ci::ConjugateGradientsLinearOperator<ceres::Vector> {
  MatrixXd S;
  int calls = 0;
  void RightMultiplyAndAccumulate(const ceres::Vector& x, ceres::Vector& y) final { ++calls; y += S * x; }
};

// Conjugate gradients on its own: what the summary says is so.
void Cg(Case& c) {
  Rng& r = c.rng;
  const int n = r.range(1, 16);
  DenseOp A, M;
  A.S = RandomSpd(r, n, r.uni(0, 3));
  const int pre = r.range(0, 3);
  M.S = pre == 0 ? MatrixXd::Identity(n, n) : pre == 1 ? MatrixXd(A.S.diagonal().cwiseInverse().asDiagonal()) : pre == 2 ? MatrixXd(A.S.inverse()) : RandomSpd(r, n, 1);
  M.S = ((M.S + M.S.transpose()) / 2).eval();
  ceres::Vector b(n), x(n), s[4];
  for (int i = 0; i < n; ++i) b[i] = r.normal(), x[i] = r.chance(0.5) ? 0 : r.normal();
  const int mode = r.range(0, 9);
  if (mode == 0) b.setZero();
  if (mode == 1) x = A.S.partialPivLu().solve(b);
  if (r.chance(0.4)) x.setZero();
  for (auto& v : s) v = ceres::Vector::Constant(n, 3e7);
  ceres::Vector* sp[4] = {&s[0], &s[1], &s[2], &s[3]};
  ci::ConjugateGradientsSolverOptions o;
  o.min_num_iterations = r.range(0, 4);
  o.max_num_iterations = std::max(o.min_num_iterations, r.of({1, 2, 5, n, 3 * n, 20 * n}));
  if (o.max_num_iterations == 0) o.max_num_iterations = 1;
  o.residual_reset_period = r.of({1, 2, 10});
  o.r_tolerance = r.of({0.0, 1e-12, 1e-6, 1e-2, 0.5});
  o.q_tolerance = r.of({0.0, 0.0, 1e-8, 1e-2, 0.3});
  o.context = Ctx();
  o.num_threads = r.of({1, 1, 3});
  const ceres::Vector x0 = x;
  c.note("n%d pre%d min%d max%d reset%d r%g q%g", n, pre, o.min_num_iterations, o.max_num_iterations, o.residual_reset_period, o.r_tolerance, o.q_tolerance);
  const auto sum = ci::ConjugateGradientsSolver<ceres::Vector>(o, A, b, M, sp, x);
  c.count("cg");
  c.expect(sum.num_iterations >= 0 && sum.num_iterations <= o.max_num_iterations, "cg-iterations", "%d of at most %d", sum.num_iterations, o.max_num_iterations);
  auto Q = [&](const ceres::Vector& v) { return v.dot(A.S * v) - 2 * b.dot(v); };
  const double rel = (b - A.S * x).norm() / std::max(1e-300, b.norm());
  const double size = std::max(x.norm(), x0.norm()) * A.S.norm() / std::max(1e-300, b.norm());
  // Limits and tolerances can push it past the solution, where it iterates on noise.
  const int enough = (x0 - A.S.partialPivLu().solve(b)).norm() < 1e-10 * (1 + x0.norm()) ? 0 : pre == 2 ? 1 : n;
  if (sum.num_iterations > enough && (o.min_num_iterations > enough || (o.r_tolerance < 1e-10 && o.q_tolerance < 1e-10))) {
    c.count("cg-past-solution");
    return;
  }
  c.expect(x.allFinite(), "cg-finite", "solution not finite: %s", sum.message.c_str());
  c.expect(Q(x) <= Q(x0) + 1e-12 * (std::fabs(Q(x0)) + x0.squaredNorm()), "cg-progress", "quadratic went from %.17g to %.17g", Q(x0), Q(x));
  if (b.isZero()) {
    c.expect(x.isZero() && sum.termination_type == TT::SUCCESS, "cg-zero", "zero right hand side");
  } else if (sum.termination_type == TT::SUCCESS) {
    if (sum.message.find("zeta") == std::string::npos) {
      c.expect(rel <= o.r_tolerance * (1 + 1e-6) + 1e-13 * (1 + size) * o.residual_reset_period, "cg-residual", "relative residual %g, tolerance %g: %s", rel, o.r_tolerance, sum.message.c_str());
      c.count("cg-residual");
    } else {
      c.count("cg-quadratic");
      c.expect(sum.num_iterations >= o.min_num_iterations, "cg-min", "%d iterations, minimum %d: %s", sum.num_iterations, o.min_num_iterations, sum.message.c_str());
    }
    c.expect(sum.num_iterations >= o.min_num_iterations || rel < 1e-12 * (1 + size), "cg-min", "%d iterations, minimum %d: %s", sum.num_iterations, o.min_num_iterations, sum.message.c_str());
  } else if (sum.termination_type == TT::NO_CONVERGENCE && sum.message.find("Maximum") != std::string::npos) {
    c.expect(sum.num_iterations == o.max_num_iterations, "cg-early", "stopped after %d of %d: %s", sum.num_iterations, o.max_num_iterations, sum.message.c_str());
    c.expect(rel > o.r_tolerance * (1 - 1e-6) - 1e-13 * (1 + size) * o.residual_reset_period, "cg-missed", "residual %g meets the tolerance %g", rel, o.r_tolerance);
    c.count("cg-limit");
  }
  // exact arithmetic needs one step with the exact preconditioner and n otherwise
  if (!b.isZero() && o.q_tolerance == 0 && o.r_tolerance >= 1e-6 && o.max_num_iterations >= 20 * n) {
    c.expect(sum.termination_type == TT::SUCCESS || rel < 1e-13 * (1 + size), "cg-converges", "%s", sum.message.c_str());
    if (pre == 2) c.expect(sum.num_iterations <= std::max(o.min_num_iterations, 2), "cg-exact-preconditioner", "%d iterations with the exact inverse", sum.num_iterations);
    c.expect(sum.num_iterations <= std::max(o.min_num_iterations, 5 * n + 10), "cg-rate", "%d iterations for size %d", sum.num_iterations, n);
  }
  c.sig(Fmt("n%d pre%d %d %d r%g q%g t%d m%d", n, pre, o.min_num_iterations, sum.num_iterations, o.r_tolerance, o.q_tolerance, static_cast<int>(sum.termination_type), mode < 2 ? mode : 2));
}

}  // namespace

VH_MAIN({"solver", Solver, 1500}, {"singular", Singular, 300}, {"factor", Factor, 600}, {"cg", Cg, 1200})
