// C15: Schur elimination, its implicit operator, the partitioned views and the
// preconditioners built from them, against dense block elimination.
#include <Eigen/Dense>
#include <algorithm>
#include <set>

#include "blocks.h"
#include "ceres/block_jacobi_preconditioner.h"
#include "ceres/block_random_access_dense_matrix.h"
#include "ceres/block_random_access_diagonal_matrix.h"
#include "ceres/block_random_access_sparse_matrix.h"
#include "ceres/compressed_row_sparse_matrix.h"
#include "ceres/context_impl.h"
#include "ceres/detect_structure.h"
#include "ceres/implicit_schur_complement.h"
#include "ceres/linear_solver.h"
#include "ceres/partitioned_matrix_view.h"
#include "ceres/power_series_expansion_preconditioner.h"
#include "ceres/schur_eliminator.h"
#include "ceres/schur_jacobi_preconditioner.h"
#include "ceres/subset_preconditioner.h"
#include "ceres/visibility_based_preconditioner.h"

namespace ceres::internal {
// The door the class leaves open for its unit test.
class VisibilityBasedPreconditionerTest {
 public:
  // Nothing to see (an empty membership) should the class come to look different inside.
  template <typename P>
  static auto Membership(const P& p, int) -> decltype(std::vector<int>(p.cluster_membership_)) { return p.cluster_membership_; }
  template <typename P>
  static std::vector<int> Membership(const P&, long) { return {}; }
  template <typename P>
  static auto ClusterPairs(const P& p, int) -> decltype(std::set<std::pair<int, int>>(p.cluster_pairs_.begin(), p.cluster_pairs_.end())) { return {p.cluster_pairs_.begin(), p.cluster_pairs_.end()}; }
  template <typename P>
  static std::set<std::pair<int, int>> ClusterPairs(const P&, long) { return {}; }
  template <typename P>
  static auto NumClusters(const P& p, int) -> decltype(int(p.num_clusters_)) { return p.num_clusters_; }
  template <typename P>
  static int NumClusters(const P&, long) { return 0; }
};
}  // namespace ceres::internal

using namespace vh;
namespace ci = ceres::internal;
using LS = ci::LinearSolver;
using LD = long double;
using ML = Eigen::Matrix<LD, -1, -1>;
using VL = Eigen::Matrix<LD, -1, 1>;

namespace {

ci::ContextImpl* Ctx() {
  static ci::ContextImpl* c = [] {
    auto* c = new ci::ContextImpl;
    c->EnsureMinimumThreads(8);
    return c;
  }();
  return c;
}

// Exactly sized output with a value in it that must go.
struct Out {
  std::unique_ptr<double[]> p;
  int n;
  explicit Out(int n, double v = -3.25e5) : p(new double[n]), n(n) { std::fill_n(p.get(), n, v); }
  operator double*() { return p.get(); }
  VectorXd v() const { return Eigen::Map<const VectorXd>(p.get(), n); }
};

struct Dense {
  ML E, F, EtE, Ei, S, FtF;
  VL b, rhs;
  double cond_e = 1, norm = 0;
  Dense(const BlockProblem& p, const double* D, bool pseudo = false) {
    const ML A = p.Dense().cast<LD>();
    const int ne = p.e_cols, n = A.cols();
    E = A.leftCols(ne);
    F = A.rightCols(n - ne);
    b = p.b.cast<LD>();
    EtE = E.transpose() * E;
    FtF = F.transpose() * F;
    if (D) {
      for (int i = 0; i < ne; ++i) EtE(i, i) += static_cast<LD>(D[i]) * D[i];
      for (int i = ne; i < n; ++i) FtF(i - ne, i - ne) += static_cast<LD>(D[i]) * D[i];
    }
    Ei = ML::Zero(ne, ne);
    for (int k = 0; k < p.num_e; ++k) {
      const Block& blk = p.A->block_structure()->cols[k];
      const ML m = EtE.block(blk.position, blk.position, blk.size, blk.size);
      Eigen::SelfAdjointEigenSolver<MatrixXd> es(m.cast<double>());
      const double lo = es.eigenvalues().minCoeff(), hi = es.eigenvalues().maxCoeff();
      if (pseudo) {
        // deficient only through coordinates that nothing uses: invert the others
        std::vector<int> live;
        for (int i = 0; i < blk.size; ++i)
          if (m(i, i) != 0) live.push_back(i);
        ML s(live.size(), live.size());
        for (size_t i = 0; i < live.size(); ++i)
          for (size_t j = 0; j < live.size(); ++j) s(i, j) = m(live[i], live[j]);
        if (!live.empty()) {
          Eigen::SelfAdjointEigenSolver<MatrixXd> e2(s.cast<double>());
          cond_e = std::max(cond_e, e2.eigenvalues().minCoeff() > 0 ? e2.eigenvalues().maxCoeff() / e2.eigenvalues().minCoeff() : 1e300);
          const ML si = s.inverse();
          for (size_t i = 0; i < live.size(); ++i)
            for (size_t j = 0; j < live.size(); ++j) Ei(blk.position + live[i], blk.position + live[j]) = si(i, j);
        }
      } else {
        cond_e = std::max(cond_e, lo > 0 ? hi / lo : 1e300);
        Ei.block(blk.position, blk.position, blk.size, blk.size) = m.inverse();
      }
    }
    S = FtF - F.transpose() * E * Ei * E.transpose() * F;
    rhs = F.transpose() * b - F.transpose() * E * Ei * E.transpose() * b;
    norm = 1 + static_cast<double>(A.norm());
  }
  bool usable() const { return cond_e < 1e9; }
  double tol() const { return 1e-13 * norm * norm * (1 + cond_e); }
  VectorXd Back(const VectorXd& z) const { return (Ei * (E.transpose() * (b - F * z.cast<LD>()))).cast<double>(); }
};

bool Close(const VectorXd& a, const VectorXd& b, double tol) { return a.size() == b.size() && (a.size() == 0 || (a.allFinite() && (a - b).cwiseAbs().maxCoeff() <= tol)); }

// every specialisation there is, and near misses
const int kSizes[][3] = {{2, 2, 2}, {2, 2, 3}, {2, 2, 4}, {2, 2, 0}, {2, 3, 3}, {2, 3, 4}, {2, 3, 6}, {2, 3, 9}, {2, 3, 0}, {2, 4, 3}, {2, 4, 4},
                         {2, 4, 6}, {2, 4, 8}, {2, 4, 9}, {2, 4, 0}, {2, 0, 0}, {3, 3, 3}, {4, 4, 2}, {4, 4, 3}, {4, 4, 4}, {4, 4, 0},
                         {2, 3, 5}, {2, 0, 3}, {3, 3, 2}, {4, 4, 5}, {0, 3, 6}, {3, 0, 0}, {1, 1, 1}};
constexpr int kNumSizes = sizeof kSizes / sizeof kSizes[0];

BlockSpec Spec(Rng& r, int k) {
  BlockSpec s;
  s.split = r.chance(0.7);
  s.f_min = 1;
  s.p_cell = r.uni(0.2, 0.9);
  if (k < kNumSizes) {
    s.row = kSizes[k][0], s.e = kSizes[k][1], s.f = kSizes[k][2];
    s.p_odd_f = 0.3;
  }
  if (r.chance(0.1)) s.e_max = 25, s.max_rows_per_e = 6;
  return s;
}

LS::Options Options(Rng& r, const BlockProblem& p, bool generic = false) {
  LS::Options o;
  o.context = Ctx();
  o.num_threads = r.chance(0.4) ? 1 : r.range(2, 6);
  const auto& bs = *p.A->block_structure();
  o.elimination_groups = {p.num_e, static_cast<int>(bs.cols.size()) - p.num_e};
  o.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
  if (!generic) ci::DetectStructure(bs, p.num_e, &o.row_block_size, &o.e_block_size, &o.f_block_size);
  return o;
}
std::string Tag(const LS::Options& o) { return Fmt("%d,%d,%d t%d", o.row_block_size, o.e_block_size, o.f_block_size, o.num_threads); }

// Structure detection, from the definition: sizes shared by all rows with an E block.
void Detected(Case& c, const BlockProblem& p) {
  const auto& bs = *p.A->block_structure();
  std::set<int> row, e, f;
  for (auto& rw : bs.rows) {
    if (rw.cells.front().block_id >= p.num_e) break;
    row.insert(rw.block.size);
    e.insert(bs.cols[rw.cells[0].block_id].size);
    for (size_t i = 1; i < rw.cells.size(); ++i) f.insert(bs.cols[rw.cells[i].block_id].size);
  }
  int a, b, d;
  ci::DetectStructure(bs, p.num_e, &a, &b, &d);
  auto ok = [](int got, const std::set<int>& s) { return got == Eigen::Dynamic || s.empty() ? true : s.size() == 1 && *s.begin() == got; };
  c.expect(ok(a, row) && ok(b, e) && ok(d, f), "detect-structure", "claims %d,%d,%d for %s", a, b, d, p.Describe().c_str());
  // what is constant is found, unless an earlier size already varies in a way that no specialisation uses
  if (row.size() == 1) c.expect(a == *row.begin(), "detect-structure-row", "row size %d not found, %d", *row.begin(), a);
  if (e.size() == 1) c.expect(b == *e.begin(), "detect-structure-e", "E size %d not found, %d", *e.begin(), b);
  if (f.size() == 1) c.expect(d == *f.begin(), "detect-structure-f", "F size %d not found, %d", *f.begin(), d);
}

void Eliminate(Case& c) {
  Rng& r = c.rng;
  const int k = c.index % (kNumSizes + 8);
  BlockSpec s = Spec(r, k);
  const bool deficient = r.chance(0.15);
  const bool always_d = r.chance(0.5) && !deficient;
  s.full_rank = !always_d;
  BlockProblem p;
  p.Init(r, s, r.chance(0.2));
  Detected(c, p);
  const auto& bs = *p.A->block_structure();
  const int n = p.A->num_cols(), nf = n - p.e_cols, nb = bs.cols.size() - p.num_e;
  LS::Options o = Options(r, p, r.chance(0.15));
  c.note("%s %s", Tag(o).c_str(), p.Describe().c_str());
  // dead coordinates of E blocks
  std::set<int> dead;
  if (deficient)
    for (int q = r.range(1, 4); q > 0; --q) dead.insert(r.range(0, p.e_cols - 1));
  std::unique_ptr<ci::SchurEliminatorBase> el;
  const bool one = bs.cols.size() == static_cast<size_t>(p.num_e) + 1 && o.row_block_size == 2 && o.e_block_size == 3 && o.f_block_size == 6 && !deficient && r.chance(0.7);
  if (one)
    el = std::make_unique<ci::SchurEliminatorForOneFBlock<2, 3, 6>>();
  else
    el = ci::SchurEliminatorBase::Create(o);
  el->Init(p.num_e, !deficient, &bs);
  c.sig(Fmt("eliminate %s%s%s", Tag(o).c_str(), one ? " one" : "", deficient ? " deficient" : ""));
  std::vector<Block> fb;
  for (int i = p.num_e; i < static_cast<int>(bs.cols.size()); ++i)
    fb.emplace_back(bs.cols[i].size, bs.cols[i].position - p.e_cols);
  const int rounds = r.range(1, 3);
  for (int round = 0; round < rounds; ++round) {
    if (round) p.Fill(r);
    if (!dead.empty()) {
      double* v = p.A->mutable_values();
      for (auto& row : bs.rows)
        for (auto& cell : row.cells)
          if (cell.block_id < p.num_e)
            for (int i = 0; i < row.block.size; ++i)
              for (int j = 0; j < bs.cols[cell.block_id].size; ++j)
                if (dead.count(bs.cols[cell.block_id].position + j)) v[cell.position + i * bs.cols[cell.block_id].size + j] = 0;
    }
    const double* D = always_d || (!deficient && r.chance(0.5)) ? p.D.data() : nullptr;
    const Dense ref(p, D, deficient);
    const int kind = one ? 0 : r.range(0, 2);
    const bool with_rhs = one || r.chance(0.8);
    const std::vector<double> values(p.A->values(), p.A->values() + p.A->num_nonzeros());
    std::unique_ptr<ci::BlockRandomAccessMatrix> lhs;
    absl::btree_set<std::pair<int, int>> pairs;
    for (int i = 0; i < nb; ++i)
      for (int j = i; j < nb; ++j)
        if (i == j || r.chance(0.5)) pairs.emplace(i, j);
    if (kind == 0) lhs = std::make_unique<ci::BlockRandomAccessDenseMatrix>(fb, Ctx(), o.num_threads);
    else if (kind == 1) lhs = std::make_unique<ci::BlockRandomAccessSparseMatrix>(fb, pairs, Ctx(), o.num_threads);
    else lhs = std::make_unique<ci::BlockRandomAccessDiagonalMatrix>(fb, Ctx(), o.num_threads);
    // leftovers of an earlier use
    for (int i = 0; i < nb; ++i) {
      int rr, cc, rs, cs;
      if (auto* cell = lhs->GetCell(i, i, &rr, &cc, &rs, &cs)) ceres::MatrixRef(cell->values, rs, cs).block(rr, cc, fb[i].size, fb[i].size).setConstant(17);
    }
    Out rhs(nf);
    el->Eliminate(ci::BlockSparseMatrixData(*p.A), with_rhs ? p.b.data() : nullptr, D, lhs.get(), with_rhs ? static_cast<double*>(rhs) : nullptr);
    c.count("eliminations");
    c.expect(std::memcmp(values.data(), p.A->values(), values.size() * 8) == 0, "eliminate-input", "the matrix changed");
    if (!ref.usable()) continue;
    c.count(one ? "one-block" : deficient ? "deficient" : "compared");
    for (int i = 0; i < nb; ++i)
      for (int j = i; j < nb; ++j) {
        int rr, cc, rs, cs;
        auto* cell = lhs->GetCell(i, j, &rr, &cc, &rs, &cs);
        const bool want = kind == 0 || (kind == 1 ? pairs.count({i, j}) > 0 : i == j);
        if (!c.expect((cell != nullptr) == want, "eliminate-cells", "cell %d,%d %s", i, j, cell ? "there" : "missing")) return;
        if (!cell) continue;
        const MatrixXd got = ceres::MatrixRef(cell->values, rs, cs).block(rr, cc, fb[i].size, fb[j].size);
        const MatrixXd exp = ref.S.block(fb[i].position, fb[j].position, fb[i].size, fb[j].size).cast<double>();
        // only the upper triangle is promised of blocks on the diagonal
        for (int a = 0; a < got.rows(); ++a)
          for (int b = i == j ? a : 0; b < got.cols(); ++b)
            if (!c.expect(std::fabs(got(a, b) - exp(a, b)) <= ref.tol(), "eliminate-lhs", "block %d,%d entry %d,%d: %.17g not %.17g (tol %g) round %d kind %d D %d", i, j, a, b, got(a, b), exp(a, b), ref.tol(), round, kind, D != nullptr)) return;
      }
    if (with_rhs && !c.expect(Close(rhs.v(), ref.rhs.cast<double>(), ref.tol() * (1 + p.b.norm())), "eliminate-rhs", "%s not %s", vh::Str(rhs.v()).c_str(), vh::Str(VectorXd(ref.rhs.cast<double>())).c_str())) return;
    // back substitution
    VectorXd z = VectorXd::Zero(nf);
    for (int i = 0; i < nf; ++i) z[i] = r.normal();
    Out y(p.e_cols, 0.0);  // the elimination adds to it
    const VectorXd z0 = z;
    el->BackSubstitute(ci::BlockSparseMatrixData(*p.A), p.b.data(), D, z.data(), y);
    c.count("back-substitutions");
    const double inv = static_cast<double>(ref.Ei.norm());
    if (!c.expect(Close(y.v(), ref.Back(z0), ref.tol() * (1 + inv) * (1 + p.b.norm() + z.norm())), "back-substitute", "%s not %s", vh::Str(y.v()).c_str(), vh::Str(ref.Back(z0)).c_str())) return;
    c.expect(z == z0, "back-substitute-input", "z changed");
  }
}

void Views(Case& c) {
  Rng& r = c.rng;
  const int k = c.index % (kNumSizes + 8);
  BlockSpec s = Spec(r, k);
  if (r.chance(0.1)) s.f_min = s.f_max = 0;
  BlockProblem p;
  p.Init(r, s);
  LS::Options o = Options(r, p, r.chance(0.15));
  c.note("%s %s", Tag(o).c_str(), p.Describe().c_str());
  c.sig(Fmt("view %s", Tag(o).c_str()));
  const auto& bs = *p.A->block_structure();
  auto v = ci::PartitionedMatrixViewBase::Create(o, *p.A);
  const int m = p.A->num_rows(), n = p.A->num_cols(), ne = p.e_cols, nf = n - ne;
  c.expect(v->num_rows() == m && v->num_cols() == n && v->num_cols_e() == ne && v->num_cols_f() == nf && v->num_col_blocks_e() == p.num_e &&
               v->num_col_blocks_f() == static_cast<int>(bs.cols.size()) - p.num_e,
           "view-sizes", "%d %d %d %d %d %d", v->num_rows(), v->num_cols(), v->num_cols_e(), v->num_cols_f(), v->num_col_blocks_e(), v->num_col_blocks_f());
  std::unique_ptr<BlockSparseMatrix> ete, ftf;
  for (int round = r.range(1, 3); round > 0; --round) {
    p.Fill(r);
    const ML A = p.Dense().cast<LD>();
    const ML E = A.leftCols(ne), F = A.rightCols(nf);
    const double tol = 1e-13 * (1 + static_cast<double>(A.norm()));
    auto product = [&](const char* what, int in, int out, const ML& M, const std::function<void(const double*, double*)>& f) {
      VectorXd x(in), y0(out);
      for (int i = 0; i < in; ++i) x[i] = r.normal();
      for (int i = 0; i < out; ++i) y0[i] = r.normal();
      Out y(out);
      for (int i = 0; i < out; ++i) y[i] = y0[i];
      Out xi(in);
      for (int i = 0; i < in; ++i) xi[i] = x[i];
      f(xi, y);
      c.count("view-products");
      const VectorXd want = (y0.cast<LD>() + M * x.cast<LD>()).cast<double>();
      c.expect(Close(y.v(), want, tol * (1 + x.norm())), std::string("view-") + what, "%s not %s", vh::Str(y.v()).c_str(), vh::Str(want).c_str());
      c.expect(xi.v() == x, std::string("view-input-") + what, "x changed");
    };
    product("right-e", ne, m, E, [&](const double* x, double* y) { v->RightMultiplyAndAccumulateE(x, y); });
    product("right-f", nf, m, F, [&](const double* x, double* y) { v->RightMultiplyAndAccumulateF(x, y); });
    product("left-e", m, ne, E.transpose(), [&](const double* x, double* y) { v->LeftMultiplyAndAccumulateE(x, y); });
    product("left-f", m, nf, F.transpose(), [&](const double* x, double* y) { v->LeftMultiplyAndAccumulateF(x, y); });
    product("left-e-1", m, ne, E.transpose(), [&](const double* x, double* y) { v->LeftMultiplyAndAccumulateESingleThreaded(x, y); });
    product("left-f-1", m, nf, F.transpose(), [&](const double* x, double* y) { v->LeftMultiplyAndAccumulateFSingleThreaded(x, y); });
    if (o.num_threads > 1) {
      product("left-e-n", m, ne, E.transpose(), [&](const double* x, double* y) { v->LeftMultiplyAndAccumulateEMultiThreaded(x, y); });
      product("left-f-n", m, nf, F.transpose(), [&](const double* x, double* y) { v->LeftMultiplyAndAccumulateFMultiThreaded(x, y); });
    }
    auto diagonal = [&](const char* what, const ML& M, int first, int last, int offset, std::unique_ptr<BlockSparseMatrix>* keep, const std::function<std::unique_ptr<BlockSparseMatrix>()>& create,
                        const std::function<void(BlockSparseMatrix*)>& update) {
      if (!*keep) {
        *keep = create();
      } else {
        for (int i = 0; i < (*keep)->num_nonzeros(); ++i) (*keep)->mutable_values()[i] = 99;
        update(keep->get());
      }
      c.count("view-diagonals");
      MatrixXd want = MatrixXd::Zero(M.cols(), M.cols());
      for (int i = first; i < last; ++i) {
        const int at = bs.cols[i].position - offset, sz = bs.cols[i].size;
        want.block(at, at, sz, sz) = (M.middleCols(at, sz).transpose() * M.middleCols(at, sz)).cast<double>();
      }
      const MatrixXd got = BlockProblem::Dense(**keep);
      c.expect(got.rows() == want.rows() && got.cols() == want.cols() && (want.size() == 0 || (got - want).cwiseAbs().maxCoeff() <= tol * (1 + static_cast<double>(A.norm()))), std::string("view-diagonal-") + what, "off by %g",
               got.rows() == want.rows() && got.size() ? (got - want).cwiseAbs().maxCoeff() : -1.0);
    };
    diagonal("e", E, 0, p.num_e, 0, &ete, [&] { return v->CreateBlockDiagonalEtE(); }, [&](BlockSparseMatrix* d) { v->UpdateBlockDiagonalEtE(d); });
    diagonal("f", F, p.num_e, bs.cols.size(), ne, &ftf, [&] { return v->CreateBlockDiagonalFtF(); }, [&](BlockSparseMatrix* d) { v->UpdateBlockDiagonalFtF(d); });
  }
}

void Implicit(Case& c) {
  Rng& r = c.rng;
  const int k = c.index % (kNumSizes + 8);
  BlockSpec s = Spec(r, k);
  const bool always_d = r.chance(0.6);
  s.full_rank = !always_d;
  if (r.chance(0.05)) s.f_min = s.f_max = 0;
  BlockProblem p;
  p.Init(r, s);
  LS::Options o = Options(r, p, r.chance(0.15));
  o.preconditioner_type = r.of({ceres::IDENTITY, ceres::JACOBI, ceres::SCHUR_POWER_SERIES_EXPANSION});
  o.use_spse_initialization = r.chance(0.3);
  const bool ftf = o.use_spse_initialization || o.preconditioner_type != ceres::IDENTITY;
  c.note("%s ftf %d %s", Tag(o).c_str(), ftf, p.Describe().c_str());
  c.sig(Fmt("implicit %s ftf%d", Tag(o).c_str(), ftf));
  const auto& bs = *p.A->block_structure();
  const int n = p.A->num_cols(), ne = p.e_cols, nf = n - ne;
  ci::ImplicitSchurComplement isc(o);
  for (int round = r.range(1, 3); round > 0; --round) {
    p.Fill(r);
    const double* D = always_d || r.chance(0.5) ? p.D.data() : nullptr;
    isc.Init(*p.A, D, p.b.data());
    const Dense ref(p, D);
    if (!ref.usable()) continue;
    c.expect(isc.num_rows() == nf && isc.num_cols() == nf, "implicit-sizes", "%d %d", isc.num_rows(), isc.num_cols());
    const double tol = ref.tol(), inv = static_cast<double>(ref.Ei.norm());
    c.expect(Close(isc.rhs(), ref.rhs.cast<double>(), tol * (1 + p.b.norm())), "implicit-rhs", "%s not %s", vh::Str(VectorXd(isc.rhs())).c_str(), vh::Str(VectorXd(ref.rhs.cast<double>())).c_str());
    VectorXd x(nf);
    for (int i = 0; i < nf; ++i) x[i] = r.normal();
    for (int left = 0; left < 2; ++left) {
      // this one assigns its output, whatever it is called
      Out y(nf);
      left ? isc.LeftMultiplyAndAccumulate(x.data(), y) : isc.RightMultiplyAndAccumulate(x.data(), y);
      c.count("implicit-products");
      c.expect(Close(y.v(), (ref.S * x.cast<LD>()).cast<double>(), tol * (1 + x.norm())), "implicit-product", "%s not %s", vh::Str(y.v()).c_str(), vh::Str(VectorXd((ref.S * x.cast<LD>()).cast<double>())).c_str());
    }
    {
      Out y(n);
      isc.BackSubstitute(x.data(), y);
      c.count("implicit-back");
      VectorXd want(n);
      want << ref.Back(x), x;
      c.expect(Close(y.v(), want, tol * (1 + inv) * (1 + p.b.norm() + x.norm())), "implicit-back", "%s not %s", vh::Str(y.v()).c_str(), vh::Str(want).c_str());
    }
    const MatrixXd ei = BlockProblem::Dense(*isc.block_diagonal_EtE_inverse());
    c.expect((ei - ref.Ei.cast<double>()).cwiseAbs().maxCoeff() <= 1e-13 * ref.cond_e * (1 + inv) * 10, "implicit-ete-inverse", "off by %g (inverse %g)", (ei - ref.Ei.cast<double>()).cwiseAbs().maxCoeff(), inv);
    if (!ftf || nf == 0) continue;
    ML fi = ML::Zero(nf, nf);
    double cond = 1;
    for (size_t i = p.num_e; i < bs.cols.size(); ++i) {
      const int at = bs.cols[i].position - ne, sz = bs.cols[i].size;
      const ML m = ref.FtF.block(at, at, sz, sz);
      Eigen::SelfAdjointEigenSolver<MatrixXd> es(m.cast<double>());
      cond = std::max(cond, es.eigenvalues()(0) > 0 ? es.eigenvalues()(sz - 1) / es.eigenvalues()(0) : 1e300);
      fi.block(at, at, sz, sz) = m.inverse();
    }
    if (cond > 1e9) continue;
    const double fnorm = static_cast<double>(fi.norm());
    const MatrixXd gfi = BlockProblem::Dense(*isc.block_diagonal_FtF_inverse());
    c.expect((gfi - fi.cast<double>()).cwiseAbs().maxCoeff() <= 1e-12 * cond * (1 + fnorm), "implicit-ftf-inverse", "off by %g", (gfi - fi.cast<double>()).cwiseAbs().maxCoeff());
    const ML Z = fi * ref.F.transpose() * ref.E * ref.Ei * ref.E.transpose() * ref.F;
    const double ztol = 10 * tol * (1 + fnorm) * (1 + cond) * (1 + inv);
    {
      VectorXd y0(nf);
      for (int i = 0; i < nf; ++i) y0[i] = r.normal();
      Out y(nf);
      for (int i = 0; i < nf; ++i) y[i] = y0[i];
      isc.InversePowerSeriesOperatorRightMultiplyAccumulate(x.data(), y);
      c.count("power-operators");
      const VectorXd want = (y0.cast<LD>() + Z * x.cast<LD>()).cast<double>();
      c.expect(Close(y.v(), want, ztol * (1 + x.norm())), "power-operator", "%s not %s", vh::Str(y.v()).c_str(), vh::Str(want).c_str());
    }
    {
      const int most = r.range(1, 8);
      const double t = r.of({0.0, 0.1, 1e-3});
      ci::Preconditioner::Options po(o);
      ci::PowerSeriesExpansionPreconditioner pre(&isc, most, t, po);
      c.expect(pre.Update(*p.A, D), "power-series-update", "refused");
      Out y(nf);
      pre.RightMultiplyAndAccumulate(x.data(), y);
      c.count("power-series");
      // the partial sum it may stop at
      VL term = fi * x.cast<LD>(), sum = term;
      const LD thr = t * term.norm();
      bool ok = false;
      double gap = 1e300;
      for (int i = 1;; ++i) {
        term = Z * term;
        sum += term;
        const LD tn = term.norm();
        const bool may = i >= most || tn < thr * (1 + 1e-6L) + 1e-9L * thr;
        const bool must = i >= most || tn < thr * (1 - 1e-6L);
        if (may) {
          const double g = (y.v() - sum.cast<double>()).cwiseAbs().maxCoeff();
          gap = std::min(gap, g);
          ok = ok || Close(y.v(), sum.cast<double>(), ztol * std::pow(1 + static_cast<double>(Z.norm()), i) * (1 + x.norm()));
        }
        if (must || i > 20) break;
      }
      c.expect(ok, "power-series", "not the partial sum of at most %d terms, tolerance %g: off by %g", most, t, gap);
    }
  }
}

std::string Members(const std::vector<int>& m) {
  std::string s;
  for (int x : m) s += Fmt("%d ", x);
  return s;
}
// A preconditioner as a dense matrix, applied to a zeroed vector as conjugate gradients do.
MatrixXd Apply(const ci::Preconditioner& p, int n) {
  MatrixXd m(n, n);
  for (int i = 0; i < n; ++i) {
    VectorXd x = VectorXd::Zero(n);
    x[i] = 1;
    Out y(n, 0.0);
    p.RightMultiplyAndAccumulate(x.data(), y);
    m.col(i) = y.v();
  }
  return m;
}
void Inverse(Case& c, const char* what, const MatrixXd& got, const ML& M, double extra) {
  Eigen::SelfAdjointEigenSolver<MatrixXd> es(M.cast<double>());
  const double lo = es.eigenvalues()(0), hi = es.eigenvalues()(M.rows() - 1);
  if (!(lo > hi * 1e-8)) return;
  c.count("preconditioners");
  const MatrixXd want = M.inverse().cast<double>();
  const double tol = (1e-12 * hi + extra) / lo / lo * M.rows();
  if (!got.allFinite()) c.fail(what, "not finite");
  const double off = (got - want).cwiseAbs().maxCoeff();
  c.expect(off <= tol, what, "off by %g (allowed %g, norm %g)", off, tol, want.norm());
}

void Preconditioners(Case& c) {
  Rng& r = c.rng;
  const int k = c.index % (kNumSizes + 8);
  BlockSpec s = Spec(r, k);
  s.e_max = std::min(s.e_max, 12);
  const bool always_d = r.chance(0.6);
  s.full_rank = !always_d;
  if (r.chance(0.3)) s.f_min = 4, s.f_max = 9, s.p_cell = 0.3;
  BlockProblem p;
  p.Init(r, s);
  const auto& bs = *p.A->block_structure();
  const int n = p.A->num_cols(), ne = p.e_cols, nf = n - ne;
  LS::Options o = Options(r, p, r.chance(0.15));
  ci::Preconditioner::Options po(o);
  const int kind = r.range(0, 6);
  c.note("kind %d %s %s", kind, Tag(o).c_str(), p.Describe().c_str());
  std::unique_ptr<ci::Preconditioner> pre;
  std::unique_ptr<ci::CompressedRowSparseMatrix> crs;
  int start = 0;
  switch (kind) {
    case 0: pre = std::make_unique<ci::BlockSparseJacobiPreconditioner>(po, *p.A); break;
    case 1:
      crs = p.A->ToCompressedRowSparseMatrix();
      pre = std::make_unique<ci::BlockCRSJacobiPreconditioner>(po, *crs);
      break;
    case 2: pre = std::make_unique<ci::SchurJacobiPreconditioner>(bs, po); break;
    case 3:
      start = r.range(0, static_cast<int>(bs.rows.size()) - 1);
      po.subset_preconditioner_start_row_block = start;
      po.ordering_type = r.chance(0.5) ? ci::OrderingType::AMD : ci::OrderingType::NATURAL;
      pre = std::make_unique<ci::SubsetPreconditioner>(po, *p.A);
      break;
    default:
      po.type = kind == 4 ? ceres::CLUSTER_JACOBI : ceres::CLUSTER_TRIDIAGONAL;
      po.visibility_clustering_type = r.chance(0.5) ? ceres::CANONICAL_VIEWS : ceres::SINGLE_LINKAGE;
      po.ordering_type = r.chance(0.5) ? ci::OrderingType::AMD : ci::OrderingType::NATURAL;
      pre = std::make_unique<ci::VisibilityBasedPreconditioner>(bs, po);
  }
  c.sig(Fmt("preconditioner %d %s", kind, Tag(o).c_str()));
  const int size = kind == 0 || kind == 1 || kind == 3 ? n : nf;
  c.expect(pre->num_rows() == size && pre->num_cols() == size, "preconditioner-size", "%d", pre->num_rows());
  for (int round = r.range(1, 3); round > 0; --round) {
    if (round > 1 || r.chance(0.5)) p.Fill(r);
    const double* D = always_d || (kind != 3 && r.chance(0.5)) ? p.D.data() : nullptr;
    if (kind == 3 && !D) D = p.D.data();
    const Dense ref(p, D);
    if (!ref.usable()) continue;
    const std::vector<double> values(p.A->values(), p.A->values() + p.A->num_nonzeros());
    const std::vector<double> dv(p.D.data(), p.D.data() + n);
    const int rows = bs.rows.size();
    bool ok;
    if (crs) {
      p.A->UpdateCompressedRowSparseMatrix(crs.get());
      ok = pre->Update(*crs, D);
    } else {
      ok = pre->Update(*p.A, D);
    }
    c.count("updates");
    c.expect(static_cast<int>(bs.rows.size()) == rows && static_cast<size_t>(p.A->num_nonzeros()) == values.size() && std::memcmp(values.data(), p.A->values(), values.size() * 8) == 0 && std::memcmp(dv.data(), p.D.data(), n * 8) == 0,
             "preconditioner-input", "the matrix or the diagonal changed");
    const ML A = p.Dense().cast<LD>();
    ML full = A.transpose() * A;
    if (D)
      for (int i = 0; i < n; ++i) full(i, i) += static_cast<LD>(D[i]) * D[i];
    ML M = ML::Zero(size, size);
    auto mask = [&](const ML& from, int first, int offset) {
      for (size_t i = first; i < bs.cols.size(); ++i) {
        const int at = bs.cols[i].position - offset, sz = bs.cols[i].size;
        M.block(at, at, sz, sz) = from.block(at, at, sz, sz);
      }
    };
    if (kind <= 1) {
      mask(full, 0, 0);
      c.expect(ok, "block-jacobi-update", "refused");
      Inverse(c, kind ? "block-jacobi-crs" : "block-jacobi", Apply(*pre, size), M, 0);
    } else if (kind == 2) {
      mask(ref.S, p.num_e, ne);
      c.expect(ok, "schur-jacobi-update", "refused");
      Inverse(c, "schur-jacobi", Apply(*pre, size), M, ref.tol());
    } else if (kind == 3) {
      const int first = bs.rows[start].block.position;
      const ML Q = A.bottomRows(A.rows() - first);
      M = Q.transpose() * Q;
      for (int i = 0; i < n; ++i) M(i, i) += static_cast<LD>(D[i]) * D[i];
      if (c.expect(ok, "subset-update", "refused")) Inverse(c, "subset", Apply(*pre, size), M, 0);
    } else {
      using T = ci::VisibilityBasedPreconditionerTest;
      auto& v = static_cast<ci::VisibilityBasedPreconditioner&>(*pre);
      const auto member = T::Membership(v, 0);
      const auto pairs = T::ClusterPairs(v, 0);
      const int clusters = T::NumClusters(v, 0), nb = bs.cols.size() - p.num_e;
      if (member.empty() || pairs.empty() || clusters == 0) continue;
      std::vector<int> degree(clusters);
      bool valid = static_cast<int>(member.size()) == nb;
      for (int x : member) valid = valid && x >= 0 && x < clusters;  // a cluster may stay empty
      for (auto& q : pairs) {
        if (q.first == q.second) continue;
        valid = valid && kind != 4 && q.first < q.second && q.first >= 0 && q.second < clusters;
        if (valid) ++degree[q.first], ++degree[q.second];
      }
      for (int i = 0; i < clusters; ++i) valid = valid && pairs.count({i, i}) && degree[i] <= 2;
      if (!c.expect(valid, "visibility-clusters", "%d clusters of %d blocks, membership %s", clusters, nb, Members(member).c_str())) return;
      if (clusters < nb && clusters > 1) c.count("clustered");
      ML half = M;
      for (int i = 0; i < nb; ++i)
        for (int j = 0; j < nb; ++j) {
          const auto &bi = bs.cols[p.num_e + i], &bj = bs.cols[p.num_e + j];
          const int a = std::min(member[i], member[j]), b = std::max(member[i], member[j]);
          if (!pairs.count({a, b})) continue;
          M.block(bi.position - ne, bj.position - ne, bi.size, bj.size) = ref.S.block(bi.position - ne, bj.position - ne, bi.size, bj.size);
          half.block(bi.position - ne, bj.position - ne, bi.size, bj.size) = ref.S.block(bi.position - ne, bj.position - ne, bi.size, bj.size) * (a == b ? 1.0L : 0.5L);
        }
      Eigen::SelfAdjointEigenSolver<MatrixXd> es(M.cast<double>()), ss(ref.S.cast<double>());
      const double hi = es.eigenvalues()(size - 1), lo = es.eigenvalues()(0);
      if (!(ss.eigenvalues()(0) > 1e-8 * hi)) continue;  // the Schur complement itself is hardly definite
      if (!c.expect(ok, "visibility-update", "refused a positive definite system")) return;
      if (lo > 1e-9 * hi) Inverse(c, kind == 4 ? "cluster-jacobi" : "cluster-tridiagonal", Apply(*pre, size), M, ref.tol());
      else if (lo < -1e-9 * hi) c.count("halved"), Inverse(c, "cluster-tridiagonal-halved", Apply(*pre, size), half, ref.tol());
    }
  }
}

}  // namespace

VH_MAIN({"eliminate", Eliminate, 400}, {"views", Views, 300}, {"implicit", Implicit, 200}, {"preconditioners", Preconditioners, 300})
