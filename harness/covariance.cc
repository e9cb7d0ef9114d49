// Covariance estimates against the dense (pseudo-)inverse of J'J.
#include "ceres/covariance.h"

#include <Eigen/SVD>
#include <Eigen/SparseCore>
#include <Eigen/SparseQR>
#include <Eigen/OrderingMethods>

#include "ceres/problem.h"
#include "model.h"
#include "smooth_cost.h"

using namespace vh;
using LD = long double;
using LMat = Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic>;
using LVec = Eigen::Matrix<LD, Eigen::Dynamic, 1>;

namespace {

struct Ref {
  std::vector<int> at;  // first column of each block, -1 if its covariance is zero
  LMat C;               // tangent covariance of the active blocks
  LMat J;
  Eigen::MatrixXi pattern;
  int m = 0, n = 0;
  bool defined = false;  // the inverse, or the pseudo-inverse that was asked for, exists
  bool unclear = false;  // too close to a threshold to decide
  double tol = 0;        // absolute accuracy to expect of C
  int rank = 0;
};

Ref Reference(const Model& m, bool apply_loss, const ceres::Covariance::Options& o) {
  Ref f;
  std::vector<bool> used(m.pbs.size(), false);
  for (auto& b : m.rbs)
    for (int k : b.pbs) used[k] = true;
  f.at.assign(m.pbs.size(), -1);
  for (size_t i = 0; i < m.pbs.size(); ++i)
    if (used[i] && !m.pbs[i].Fixed()) { f.at[i] = f.n; f.n += m.pbs[i].tangent; }
  for (auto& b : m.rbs) f.m += b.smooth->f.m;
  if (f.n == 0) { f.defined = true; return f; }
  LMat& J = f.J;
  J = LMat::Zero(f.m, f.n);
  f.pattern = Eigen::MatrixXi::Zero(f.m, f.n);
  int row = 0;
  const auto x = m.Get();
  for (auto& b : m.rbs) {
    const auto e = m.EvalBlock(b, x, apply_loss);
    for (size_t k = 0; k < b.pbs.size(); ++k)
      if (f.at[b.pbs[k]] >= 0) {
        J.block(row, f.at[b.pbs[k]], e.J[k].rows(), e.J[k].cols()) = e.J[k].cast<LD>();
        f.pattern.block(row, f.at[b.pbs[k]], e.J[k].rows(), e.J[k].cols()).setOnes();
      }
    row += b.smooth->f.m;
  }
  // All n singular values, the missing ones zero.
  LMat Jn = LMat::Zero(std::max(f.m, f.n), f.n);
  Jn.topRows(f.m) = J;
  Eigen::JacobiSVD<LMat> svd(Jn, Eigen::ComputeThinU | Eigen::ComputeThinV);
  const LVec s = svd.singularValues();
  const LD smax = s(0);
  const LD thr = sqrtl(o.min_reciprocal_condition_number);
  LVec w = LVec::Zero(f.n);
  f.defined = true;
  const bool dense = o.algorithm_type == ceres::DENSE_SVD;
  const int drop = dense ? o.null_space_rank : 0;
  int keep = drop >= 0 ? std::max(0, f.n - drop) : f.n;
  for (int i = 0; i < keep; ++i) {
    const LD ratio = smax > 0 ? s(i) / smax : 0;
    if (dense) {
      if (ratio > 0 && ratio < 2 * thr && ratio > thr / 2) f.unclear = true;
      if (ratio > 1e-18L && ratio < 1e-13L && ratio > thr / 2) f.unclear = true;  // rounding decides
      if (!(ratio >= thr)) {
        if (drop < 0) { keep = i; break; }
        f.defined = false;
        break;
      }
    } else {
      if (ratio > 1e-17L && ratio < 1e-6L) f.unclear = true;
      if (ratio < 1e-6L) f.defined = false;
    }
    if (s(i) > 0) w(i) = 1 / (s(i) * s(i));
    f.rank = i + 1;
  }
  // Eigen 3.4's BDCSVD, used from 16 columns on, returns grossly wrong singular
  // values for some block structured matrices; below that it is JacobiSVD.
  if (dense && f.n >= 16) f.unclear = true;
  f.C = svd.matrixV() * w.asDiagonal() * svd.matrixV().transpose();
  if (f.rank > 0) {
    const LD last = s(f.rank - 1), next = f.rank < f.n ? s(f.rank) : 0;
    const LD gap = last - next;
    if (f.defined && !(gap > 1e-6L * smax)) f.unclear = true;
    f.tol = static_cast<double>(1e-13L * (f.m + f.n) * smax / std::max<LD>(gap, 1e-300L) / (last * last));
  }
  return f;
}

// Eigen 3.4's SparseQR overlooks the deficiency of about one structurally deficient
// matrix in a hundred thousand; it is asked about the very same matrix, whose blocks
// of columns are ordered by address.
bool QrMissesDeficiency(const Model& m, const Ref& f, const ceres::Covariance::Options& o) {
  std::vector<int> order;
  for (size_t i = 0; i < f.at.size(); ++i)
    if (f.at[i] >= 0) order.push_back(i);
  std::sort(order.begin(), order.end());
  do {
    Eigen::SparseMatrix<double, Eigen::RowMajor> rows(f.m, f.n);
    std::vector<Eigen::Triplet<double>> t;
    int to = 0;
    for (int b : order)
      for (int j = f.at[b]; j < f.at[b] + m.pbs[b].tangent; ++j, ++to)
        for (int i = 0; i < f.m; ++i)
          if (f.pattern(i, j)) t.emplace_back(i, to, static_cast<double>(f.J(i, j)));
    rows.setFromTriplets(t.begin(), t.end());
    const Eigen::SparseMatrix<double, Eigen::ColMajor> A = rows;
    Eigen::SparseQR<Eigen::SparseMatrix<double, Eigen::ColMajor>, Eigen::COLAMDOrdering<int>> qr;
    if (o.column_pivot_threshold > 0) qr.setPivotThreshold(o.column_pivot_threshold);
    qr.compute(A);
    if (qr.info() == Eigen::Success && qr.rank() == f.n) return true;
  } while (std::next_permutation(order.begin(), order.end()));
  return false;
}

std::string Opt(const ceres::Covariance::Options& o) {
  return Fmt("%s lib %d null %d cond %.1e threads %d loss %d pivot %g", o.algorithm_type == ceres::DENSE_SVD ? "SVD" : "QR", o.sparse_linear_algebra_library_type, o.null_space_rank, o.min_reciprocal_condition_number, o.num_threads, o.apply_loss_function, o.column_pivot_threshold);
}

void Blocks_(Case& c) {
  Rng& r = c.rng;
  Model m;
  ModelOptions mo;
  mo.max_pb = 6;
  mo.max_rb = 8;
  mo.max_size = r.chance(0.3) ? 7 : 4;
  mo.regular = r.chance(0.6);
  mo.p_bound = 0.1;
  m.Init(r, mo);
  if (!mo.regular && r.chance(0.4)) {
    // plenty of residuals, so that the Jacobian has full rank more often
    for (size_t i = 0; i < m.pbs.size(); ++i) m.AddRB(r, {static_cast<int>(i)}, m.pbs[i].size + 1, mo);
  }
  const int defect = r.range(0, 9);
  if (defect == 0)  // a block without influence
    for (auto& b : m.rbs)
      for (size_t k = 0; k < b.pbs.size(); ++k)
        if (b.pbs[k] == 0)
          for (auto& row : b.smooth->f.rows)
            for (int i = 0; i < b.smooth->f.blocks[k]; ++i) row.a[b.smooth->f.off[k] + i] = row.w[b.smooth->f.off[k] + i] = 0;
  if (defect == 1)  // nothing has influence
    for (auto& b : m.rbs)
      for (auto& row : b.smooth->f.rows) std::fill(row.a.begin(), row.a.end(), 0.0), std::fill(row.w.begin(), row.w.end(), 0.0);
  ceres::Problem problem(Model::NoOwn());
  m.AddTo(&problem);
  ceres::Covariance::Options o;
  o.algorithm_type = r.chance(0.5) ? ceres::DENSE_SVD : ceres::SPARSE_QR;
  o.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
  o.num_threads = r.chance(0.5) ? 1 : r.range(2, 4);
  o.apply_loss_function = r.chance(0.6);
  if (r.chance(0.4)) o.null_space_rank = r.range(-1, 4);
  if (r.chance(0.3)) o.min_reciprocal_condition_number = std::pow(10.0, r.uni(-14, -3));
  if (r.chance(0.1)) o.column_pivot_threshold = 1e-12;
  const bool unsupported = r.chance(0.03);
  if (unsupported) o.algorithm_type = ceres::SPARSE_QR, o.sparse_linear_algebra_library_type = r.of({ceres::SUITE_SPARSE, ceres::ACCELERATE_SPARSE, ceres::NO_SPARSE});
  c.note("%s; %s", Opt(o).c_str(), m.Describe().c_str());
  const int np = m.pbs.size();
  ceres::Covariance cov(o);
  const int rounds = r.range(1, 3);
  for (int round = 0; round < rounds; ++round) {
    if (round > 0) {
      // another point, other constants
      for (auto& p : m.pbs) {
        if (p.kind == kNone || p.kind == kSubset || p.kind == kEuclid)
          for (int k = 0; k < p.size; ++k) p.x[k] = r.uni(-2, 2);
        else if (p.kind == kSphere || p.kind == kQuat || p.kind == kEigenQuat) Model::RandomUnit(r, p.x.get(), p.size);
        if (r.chance(0.2)) {
          p.constant = !p.constant;
          p.constant ? problem.SetParameterBlockConstant(p.x.get()) : problem.SetParameterBlockVariable(p.x.get());
        }
      }
    }
    const auto before = m.Get();
    Ref f = Reference(m, o.apply_loss_function, o);
    // The request
    std::vector<std::vector<int>> asked(np, std::vector<int>(np, 0));
    bool ok;
    const bool list = r.chance(0.4);
    bool any_active = false;
    if (list) {
      std::vector<int> idx;
      for (int i = 0; i < np; ++i) if (r.chance(0.7)) idx.push_back(i);
      r.shuffle(idx);
      std::vector<const double*> v;
      for (int i : idx) v.push_back(m.pbs[i].x.get());
      for (int i : idx) for (int j : idx) { asked[i][j] = 1; any_active |= f.at[i] >= 0 && f.at[j] >= 0; }
      ok = cov.Compute(v, &problem);
    } else {
      std::vector<std::pair<const double*, const double*>> v;
      const double p = r.uni(0.1, 1);
      for (int i = 0; i < np; ++i)
        for (int j = i; j < np; ++j)
          if (r.chance(p)) {
            const bool flip = r.chance(0.5);
            v.push_back({m.pbs[flip ? j : i].x.get(), m.pbs[flip ? i : j].x.get()});
            if (i != j && r.chance(0.1)) v.push_back({v.back().second, v.back().first});
            asked[i][j] = asked[j][i] = 1;
            any_active |= f.at[i] >= 0 && f.at[j] >= 0;
          }
      r.shuffle(v);
      ok = cov.Compute(v, &problem);
    }
    c.count("computed");
    c.sig(Opt(o) + Fmt("n%d r%d", f.n, f.rank));
    if (!c.expect(m.Get() == before, "covariance:state-changed", "Compute changed the parameters")) return;
    for (auto& p : m.pbs)
      if (!c.expect(problem.IsParameterBlockConstant(p.x.get()) == p.Fixed(), "covariance:constancy-changed", "Compute changed constancy")) return;
    if (unsupported) {
      c.expect(ok == false, "covariance:unsupported", "an unsupported configuration claims success");
      return;
    }
    if (!any_active) {
      if (!c.expect(ok, "covariance:failed-empty", "failed though every requested block is zero")) return;
    } else {
      if (!f.unclear && ok && !f.defined && o.algorithm_type == ceres::SPARSE_QR && QrMissesDeficiency(m, f, o)) { c.count("qr-missed"); continue; }
      if (f.unclear) { c.count("unclear"); if (!ok) continue; }
      else if (!c.expect(ok == f.defined, ok ? "covariance:deficiency-accepted" : "covariance:failed", "returned %d, but the %s %s (rank %d of %d, %d residuals)", ok, o.algorithm_type == ceres::DENSE_SVD && o.null_space_rank != 0 ? "pseudo-inverse asked for" : "inverse", f.defined ? "exists" : "does not exist", f.rank, f.n, f.m)) return;
      if (!ok) { c.count("deficient"); continue; }
      if (f.unclear) continue;
      if (f.rank < f.n) c.count("pseudo-inverses");
    }
    if (!any_active) f.tol = 0;
    // The blocks
    const double scale = any_active ? static_cast<double>(f.C.cwiseAbs().maxCoeff()) : 0;
    std::vector<MatrixXd> P(np);
    for (int i = 0; i < np; ++i) {
      auto& p = m.pbs[i];
      if (!p.man) P[i] = MatrixXd::Identity(p.size, p.size);
      else { RowMajorXd q(p.size, p.tangent); if (p.tangent) p.man->PlusJacobian(p.x.get(), q.data()); P[i] = q; }
    }
    auto Want = [&](int i, int j, bool tangent) -> MatrixXd {
      const auto &a = m.pbs[i], &b = m.pbs[j];
      const int ra = tangent ? a.tangent : a.size, rb = tangent ? b.tangent : b.size;
      if (f.at[i] < 0 || f.at[j] < 0) return MatrixXd::Zero(ra, rb);
      MatrixXd t = f.C.block(f.at[i], f.at[j], a.tangent, b.tangent).cast<double>();
      return tangent ? t : MatrixXd(P[i] * t * P[j].transpose());
    };
    for (int i = 0; i < np; ++i)
      for (int j = 0; j < np; ++j) {
        const bool tangent = r.chance(0.4);
        const int ra = tangent ? m.pbs[i].tangent : m.pbs[i].size, rb = tangent ? m.pbs[j].tangent : m.pbs[j].size;
        std::unique_ptr<double[]> buf(new double[ra * rb]);
        std::fill_n(buf.get(), ra * rb, -3.25);
        const bool zero = f.at[i] < 0 || f.at[j] < 0;
        const bool got = tangent ? cov.GetCovarianceBlockInTangentSpace(m.pbs[i].x.get(), m.pbs[j].x.get(), buf.get()) : cov.GetCovarianceBlock(m.pbs[i].x.get(), m.pbs[j].x.get(), buf.get());
        c.count("blocks");
        if (!asked[i][j] && !zero) {
          c.count("not-asked");
          if (!c.expect(!got, "covariance:not-asked", "block (%d, %d) was never asked for but is returned", i, j)) return;
          continue;
        }
        if (!c.expect(got, "covariance:missing", "block (%d, %d) was asked for but is not returned", i, j)) return;
        const MatrixXd w = Want(i, j, tangent);
        const double lift = tangent ? 1 : std::max(1.0, P[i].norm() * P[j].norm());
        for (int a = 0; a < ra; ++a)
          for (int b = 0; b < rb; ++b) {
            if (!c.expect(zero ? buf[a * rb + b] == 0 : Near(buf[a * rb + b], w(a, b), lift * (f.tol + 1e-15 * scale)), zero ? "covariance:constant-not-zero" : tangent ? "covariance:tangent-value" : "covariance:value", "block (%d, %d) entry (%d, %d): %.17g, dense %.17g, tolerance %.3g", i, j, a, b, buf[a * rb + b], w(a, b), lift * f.tol))
              return;
          }
        if (!tangent && !zero)  // held coordinates never vary
          for (int h : m.pbs[i].held)
            for (int b = 0; b < rb; ++b)
              if (!c.expect(buf[h * rb + b] == 0, "covariance:held", "block (%d, %d) row %d", i, j, h)) return;
        if (c.rng.chance(0.2)) {  // the transposed query gives the transposed block
          std::unique_ptr<double[]> tb(new double[ra * rb]);
          tangent ? cov.GetCovarianceBlockInTangentSpace(m.pbs[j].x.get(), m.pbs[i].x.get(), tb.get()) : cov.GetCovarianceBlock(m.pbs[j].x.get(), m.pbs[i].x.get(), tb.get());
          for (int a = 0; a < ra; ++a)
            for (int b = 0; b < rb; ++b)
              if (!c.expect(Near(tb[b * ra + a], buf[a * rb + b], i == j ? lift * (f.tol + 1e-15 * scale) : 1e-13 * lift * scale), "covariance:transpose", "block (%d, %d) entry (%d, %d): %.17g and %.17g", i, j, a, b, buf[a * rb + b], tb[b * ra + a])) return;
        }
      }
    // As matrices
    for (int rep = 0; rep < 2; ++rep) {
      const bool tangent = rep;
      std::vector<int> idx;
      for (int i = 0; i < np; ++i) {
        bool all = true;
        idx.push_back(i);
        for (int a : idx) for (int b : idx) all &= asked[a][b] || f.at[a] < 0 || f.at[b] < 0;
        if (!all) idx.pop_back();
      }
      r.shuffle(idx);
      if (r.chance(0.5) && idx.size() > 1) idx.resize(r.range(1, idx.size()));
      if (idx.empty()) continue;
      std::vector<const double*> v;
      int N = 0;
      std::vector<int> off;
      for (int i : idx) { v.push_back(m.pbs[i].x.get()); off.push_back(N); N += tangent ? m.pbs[i].tangent : m.pbs[i].size; }
      std::unique_ptr<double[]> M(new double[N * N]);
      std::fill_n(M.get(), N * N, -3.25);
      const bool got = tangent ? cov.GetCovarianceMatrixInTangentSpace(v, M.get()) : cov.GetCovarianceMatrix(v, M.get());
      if (!c.expect(got, "covariance:matrix-failed", "%zu blocks", idx.size())) return;
      c.count("matrices");
      for (size_t a = 0; a < idx.size(); ++a)
        for (size_t b = 0; b < idx.size(); ++b) {
          const MatrixXd w = Want(idx[a], idx[b], tangent);
          const double lift = tangent ? 1 : std::max(1.0, P[idx[a]].norm() * P[idx[b]].norm());
          for (int p = 0; p < w.rows(); ++p)
            for (int q = 0; q < w.cols(); ++q) {
              const double g = M[(off[a] + p) * N + off[b] + q];
              if (!c.expect(Near(g, w(p, q), lift * (f.tol + 1e-15 * scale)), "covariance:matrix-value", "%s block (%d, %d) entry (%d, %d): %.17g, dense %.17g", tangent ? "tangent" : "ambient", idx[a], idx[b], p, q, g, w(p, q))) return;
            }
        }
    }
  }
}

// A cost function that fails makes the computation fail.
void Faults(Case& c) {
  Rng& r = c.rng;
  Model m;
  ModelOptions mo;
  mo.max_pb = 4;
  mo.max_rb = 5;
  mo.max_size = 3;
  mo.regular = true;
  m.Init(r, mo);
  struct Bad : ceres::CostFunction {
    int kind;
    Bad(int size, int kind) : kind(kind) { set_num_residuals(1); mutable_parameter_block_sizes()->push_back(size); }
    bool Evaluate(double const* const*, double* res, double** jac) const override {
      res[0] = kind == 1 ? std::nan("") : 1;
      if (jac && jac[0] && kind != 3)
        for (int i = 0; i < parameter_block_sizes()[0]; ++i) jac[0][i] = kind == 2 ? std::numeric_limits<double>::infinity() : 1;
      return kind != 0;
    }
  };
  ceres::Problem problem(Model::NoOwn());
  m.AddTo(&problem);
  const int kind = r.range(0, 3), who = r.range(0, static_cast<int>(m.pbs.size()) - 1);
  Bad bad(m.pbs[who].size, kind);
  problem.AddResidualBlock(&bad, nullptr, m.pbs[who].x.get());
  const bool seen = kind <= 1 || !m.pbs[who].Fixed();
  ceres::Covariance::Options o;
  o.algorithm_type = r.chance(0.5) ? ceres::DENSE_SVD : ceres::SPARSE_QR;
  o.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
  o.num_threads = r.range(1, 3);
  if (r.chance(0.3)) o.null_space_rank = -1;
  c.note("fault %d at block %d, %s; %s", kind, who, Opt(o).c_str(), m.Describe().c_str());
  bool active = false;
  for (auto& p : m.pbs) active |= !p.Fixed();
  std::vector<std::pair<const double*, const double*>> v;
  for (auto& p : m.pbs)
    if (!p.Fixed()) v.push_back({p.x.get(), p.x.get()});
  const auto before = m.Get();
  ceres::Covariance cov(o);
  const bool ok = cov.Compute(v, &problem);
  c.count("faults");
  c.sig(Fmt("fault %d %d %d", kind, o.algorithm_type, active));
  c.expect(m.Get() == before, "covariance:state-changed", "Compute changed the parameters");
  if (active && seen) c.expect(!ok, "covariance:fault-ignored", "Compute succeeds although a cost function %s", kind == 0 ? "failed" : "gave values that are not finite or wrote nothing");
  // The object is usable afterwards.
  problem.RemoveResidualBlock([&] { std::vector<ceres::ResidualBlockId> ids; problem.GetResidualBlocksForParameterBlock(m.pbs[who].x.get(), &ids); for (auto id : ids) if (problem.GetCostFunctionForResidualBlock(id) == &bad) return id; return ids[0]; }());
  if (cov.Compute(v, &problem)) c.count("recovered");
  else {
    const Ref f = Reference(m, true, o);
    c.expect(!f.defined || f.unclear, "covariance:not-recovered", "Compute fails after the fault is gone");
  }
}

}  // namespace

VH_MAIN({"blocks", Blocks_, 400}, {"faults", Faults, 60})
