// C14: matrix containers and dense kernels against their dense meaning.
#include <Eigen/Dense>
#include <set>

#include "absl/container/btree_set.h"
#include "blocks.h"
#include "ceres/block_random_access_dense_matrix.h"
#include "ceres/block_random_access_diagonal_matrix.h"
#include "ceres/block_random_access_sparse_matrix.h"
#include "ceres/compressed_col_sparse_matrix_utils.h"
#include "ceres/compressed_row_sparse_matrix.h"
#include "ceres/context_impl.h"
#include "ceres/crs_matrix.h"
#include "ceres/dense_sparse_matrix.h"
#include "ceres/dynamic_compressed_row_sparse_matrix.h"
#include "ceres/eigen_vector_ops.h"
#include "ceres/inner_product_computer.h"
#include "ceres/invert_psd_matrix.h"
#include "ceres/parallel_vector_ops.h"
#include "ceres/triplet_sparse_matrix.h"

using namespace vh;
namespace ci = ceres::internal;
using ci::BlockSparseMatrix;
using ci::CompressedRowSparseMatrix;
using ci::TripletSparseMatrix;
using ST = CompressedRowSparseMatrix::StorageType;

namespace {

ci::ContextImpl* Ctx() {
  static ci::ContextImpl* c = [] {
    auto* c = new ci::ContextImpl;
    c->EnsureMinimumThreads(8);
    return c;
  }();
  return c;
}

MatrixXd FromRowMajor(const ceres::Matrix& m) { return MatrixXd(m); }
bool Same(const MatrixXd& a, const MatrixXd& b) { return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || a == b); }

// y0 + M x, checked entry by entry against a long double sum.
bool Product(const MatrixXd& M, const std::vector<double>& x, const std::vector<double>& y0, const std::vector<double>& y, std::string* why, double extra = 0) {
  for (int i = 0; i < M.rows(); ++i) {
    long double s = y0[i], a = std::fabs(y0[i]);
    for (int j = 0; j < M.cols(); ++j) {
      const long double t = static_cast<long double>(M(i, j)) * x[j];
      s += t;
      a += std::fabs(t);
    }
    if (!(std::fabs(static_cast<double>(s) - y[i]) <= 4e-16 * (M.cols() + 4) * static_cast<double>(a) + extra)) {
      *why = Fmt("entry %d: %.17g for %.17g", i, y[i], static_cast<double>(s));
      return false;
    }
  }
  return true;
}
std::vector<double> RandomVec(Rng& r, int n) {
  std::vector<double> v(n);
  for (auto& x : v) x = r.normal();
  v.shrink_to_fit();
  return v;
}
// data() that is never null, with the exact size behind it
double* Ptr(std::vector<double>& v) {
  static double dummy;
  return v.empty() ? &dummy : v.data();
}
const double* Ptr(const std::vector<double>& v) {
  static double dummy;
  return v.empty() ? &dummy : v.data();
}

std::string TextOf(const ci::SparseMatrix& m) {
  char* buf = nullptr;
  size_t n = 0;
  FILE* f = open_memstream(&buf, &n);
  m.ToTextFile(f);
  std::fclose(f);
  std::string s(buf, n);
  std::free(buf);
  return s;
}

// Everything the SparseMatrix interface promises, for a matrix whose meaning is M (for
// symmetric storage, M is the full symmetric matrix and stored the entries kept).
void CheckInterface(Case& c, const char* what, ci::SparseMatrix& A, const MatrixXd& M, const MatrixXd& stored, bool symmetric, bool repeated = false) {
  Rng& r = c.rng;
  const std::string w = what;
  if (!c.expect(A.num_rows() == M.rows() && A.num_cols() == M.cols(), w + "-size", "%s is %dx%d, not %dx%d", what, A.num_rows(), A.num_cols(), (int)M.rows(), (int)M.cols())) return;
  std::string why;
  const int m = M.rows(), n = M.cols();
  for (int threads : {0, r.range(1, 8)}) {
    const auto x = RandomVec(r, n), y0 = RandomVec(r, m);
    auto y = y0;
    if (threads == 0) A.RightMultiplyAndAccumulate(Ptr(x), Ptr(y));
    else A.RightMultiplyAndAccumulate(Ptr(x), Ptr(y), Ctx(), threads);
    c.expect(Product(M, x, y0, y, &why, repeated ? 1e-13 : 0), w + "-right", "%s right product with %d threads: %s", what, threads, why.c_str());
    const auto u = RandomVec(r, m), v0 = RandomVec(r, n);
    auto v = v0;
    if (threads == 0) A.LeftMultiplyAndAccumulate(Ptr(u), Ptr(v));
    else static_cast<ci::LinearOperator&>(A).LeftMultiplyAndAccumulate(Ptr(u), Ptr(v), Ctx(), threads);
    c.expect(Product(M.transpose(), u, v0, v, &why, repeated ? 1e-13 : 0), w + "-left", "%s left product with %d threads: %s", what, threads, why.c_str());
    if (repeated) continue;  // norms of sums are not defined on repeated entries
    std::vector<double> nrm(n, std::nan(""));
    if (threads == 0) A.SquaredColumnNorm(Ptr(nrm));
    else A.SquaredColumnNorm(Ptr(nrm), Ctx(), threads);
    for (int j = 0; j < n; ++j) {
      const double e = M.col(j).squaredNorm();
      c.expect(Near(nrm[j], e, 1e-14 * (m + 4) * e), w + "-column-norm", "%s squared norm of column %d is %.17g, not %.17g (%d threads)", what, j, nrm[j], e, threads);
    }
    c.count("products", 3);
  }
  ceres::Matrix d = ceres::Matrix::Constant(3, 2, 5.0);
  A.ToDenseMatrix(&d);
  c.expect(Same(FromRowMajor(d), stored), w + "-dense", "%s ToDenseMatrix differs: %s for %s", what, Str(d).c_str(), Str(stored).c_str());
  // text
  MatrixXd t = MatrixXd::Zero(m, n);
  const std::string text = TextOf(A);
  const char* p = text.c_str();
  int lines = 0, i, j, used;
  double v;
  bool ok = true;
  while (std::sscanf(p, "%d %d %lf%n", &i, &j, &v, &used) == 3) {
    p += used;
    ++lines;
    if (i < 0 || j < 0 || i >= m || j >= n) { ok = false; break; }
    t(i, j) += v;
  }
  c.expect(ok && lines == A.num_nonzeros() && NearM(t, stored, 1e-6 * 3), w + "-text", "%s text of %d lines for %d nonzeros does not give the matrix", what, lines, A.num_nonzeros());
  if (!symmetric) {
    const auto s = RandomVec(r, n);
    const int threads = r.chance(0.5) ? 0 : r.range(1, 8);
    if (threads == 0) A.ScaleColumns(Ptr(s));
    else A.ScaleColumns(Ptr(s), Ctx(), threads);
    MatrixXd e = stored;
    for (int k = 0; k < n; ++k) e.col(k) *= s[k];
    A.ToDenseMatrix(&d);
    // duplicates make the two roundings differ
    c.expect(NearM(MatrixXd(d), e, 1e-14 * (1 + (e.size() ? e.cwiseAbs().maxCoeff() : 0))), w + "-scale", "%s ScaleColumns with %d threads is wrong", what, threads);
  }
  if (r.chance(0.5)) A.SetZero();
  else A.SetZero(Ctx(), r.range(1, 8));
  A.ToDenseMatrix(&d);
  c.expect(d.size() == 0 || d.isZero(0), w + "-setzero", "%s is not zero after SetZero", what);
  c.expect(A.num_rows() == m && A.num_cols() == n, w + "-setzero", "%s changed size in SetZero", what);
  c.count("interfaces");
}

struct Trip {
  std::vector<int> i, j;
  std::vector<double> v;
  int m, n;
  MatrixXd Dense() const {
    MatrixXd d = MatrixXd::Zero(m, n);
    for (size_t k = 0; k < v.size(); ++k) d(i[k], j[k]) += v[k];
    return d;
  }
};
Trip RandomTrip(Rng& r, int m, int n, bool dup) {
  Trip t;
  t.m = m;
  t.n = n;
  const double p = r.of({0.0, 0.05, 0.3, 0.7, 1.0});
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j)
      if (r.chance(p)) {
        const int k = dup && r.chance(0.2) ? r.range(2, 3) : 1;
        for (int q = 0; q < k; ++q) t.i.push_back(i), t.j.push_back(j), t.v.push_back(r.normal());
      }
  std::vector<int> o(t.v.size());
  for (size_t k = 0; k < o.size(); ++k) o[k] = k;
  r.shuffle(o);
  Trip s = t;
  for (size_t k = 0; k < o.size(); ++k) s.i[k] = t.i[o[k]], s.j[k] = t.j[o[k]], s.v[k] = t.v[o[k]];
  return s;
}
TripletSparseMatrix Make(Rng& r, const Trip& t) {
  if (r.chance(0.5)) return TripletSparseMatrix(t.m, t.n, t.i, t.j, t.v);
  TripletSparseMatrix a(t.m, t.n, t.v.size() + r.range(0, 3));
  for (size_t k = 0; k < t.v.size(); ++k) a.mutable_rows()[k] = t.i[k], a.mutable_cols()[k] = t.j[k], a.mutable_values()[k] = t.v[k];
  a.set_num_nonzeros(t.v.size());
  return a;
}
int Dim(Rng& r) { return r.chance(0.08) ? 0 : r.chance(0.2) ? r.range(10, 40) : r.range(1, 9); }

void TripletCase(Case& c) {
  Rng& r = c.rng;
  const bool dup = r.chance(0.4);
  Trip t = RandomTrip(r, Dim(r), Dim(r), dup);
  TripletSparseMatrix A = Make(r, t);
  MatrixXd M = t.Dense();
  std::string hist;
  const int ops = r.range(0, 6);
  for (int k = 0; k < ops; ++k) {
    const int op = r.range(0, 6);
    hist += Fmt("%d ", op);
    if (op == 0 || op == 1) {
      Trip u = RandomTrip(r, op == 0 ? Dim(r) : A.num_rows(), op == 0 ? A.num_cols() : Dim(r), dup);
      TripletSparseMatrix B = Make(r, u);
      const MatrixXd N = u.Dense();
      MatrixXd R(M.rows() + (op == 0 ? N.rows() : 0), M.cols() + (op == 1 ? N.cols() : 0));
      if (op == 0) R << M, N;
      else if (R.size()) {
        R.leftCols(M.cols()) = M;
        R.rightCols(N.cols()) = N;
      }
      if (op == 0) A.AppendRows(B);
      else A.AppendCols(B);
      M = R;
    } else if (op == 2) {
      const int m = std::max(0, A.num_rows() + r.range(-3, 3)), n = std::max(0, A.num_cols() + r.range(-3, 3));
      A.Resize(m, n);
      MatrixXd R = MatrixXd::Zero(m, n);
      const int p = std::min<int>(m, M.rows()), q = std::min<int>(n, M.cols());
      R.topLeftCorner(p, q) = M.topLeftCorner(p, q);
      M = R;
    } else if (op == 3) {
      const int want = A.num_nonzeros() + r.range(0, 20);
      A.Reserve(want);
      c.expect(A.max_num_nonzeros() >= want, "triplet-reserve", "Reserve(%d) left room for %d", want, A.max_num_nonzeros());
      for (int q = A.num_nonzeros(); q < want; ++q) A.mutable_rows()[q] = 0, A.mutable_cols()[q] = 0, A.mutable_values()[q] = 1e9;
    } else if (op == 4) {
      TripletSparseMatrix B(A);
      if (r.chance(0.5)) {
        TripletSparseMatrix C(1, 1, 1);
        C = B;
        A = C;
      } else {
        TripletSparseMatrix* p = &A;
        A = *p;
        A = B;
      }
      for (int q = 0; q < B.num_nonzeros(); ++q) B.mutable_values()[q] = 7;  // a copy is independent
    } else if (op == 5 && A.num_nonzeros() > 0) {
      ceres::Matrix d;
      ci::DenseSparseMatrix D(A);
      D.ToDenseMatrix(&d);
      c.expect(NearM(MatrixXd(d), M, 1e-13), "triplet-to-dense-sparse", "DenseSparseMatrix of a triplet matrix differs");
      c.expect(D.num_nonzeros() == M.size(), "dense-nonzeros", "dense matrix has %d nonzeros", D.num_nonzeros());
    } else if (op == 6) {
      c.expect(A.AllTripletsWithinBounds() && A.IsValid(), "triplet-bounds", "valid triplets said to be out of bounds");
      if (A.num_nonzeros() > 0) {
        TripletSparseMatrix B(A);
        const int q = r.range(0, B.num_nonzeros() - 1);
        switch (r.range(0, 3)) {
          case 0: B.mutable_rows()[q] = B.num_rows(); break;
          case 1: B.mutable_rows()[q] = -1; break;
          case 2: B.mutable_cols()[q] = B.num_cols(); break;
          default: B.mutable_cols()[q] = -1;
        }
        c.expect(!B.AllTripletsWithinBounds(), "triplet-bounds", "triplet %d is out of bounds, unnoticed", q);
      }
    }
    c.count("edits");
  }
  c.note("triplet %dx%d %d nonzeros after %s", A.num_rows(), A.num_cols(), A.num_nonzeros(), hist.c_str());
  c.sig(Fmt("t %d %d %d %s", A.num_rows(), A.num_cols(), A.num_nonzeros() / 4, hist.c_str()));
  // The text, read back, is the matrix up to its printed digits.
  if (A.num_nonzeros() > 0) {
    std::string s = TextOf(A);
    FILE* f = fmemopen(s.data(), s.size(), "r");
    auto B = TripletSparseMatrix::CreateFromTextFile(f);
    std::fclose(f);
    ceres::Matrix d;
    B->ToDenseMatrix(&d);
    int mr = 0, mc = 0;
    for (int k = 0; k < A.num_nonzeros(); ++k) mr = std::max(mr, A.rows()[k] + 1), mc = std::max(mc, A.cols()[k] + 1);
    c.expect(d.rows() == mr && d.cols() == mc && B->num_nonzeros() == A.num_nonzeros() && NearM(MatrixXd(d), M.topLeftCorner(mr, mc), 3e-6), "triplet-read", "the text read back is another matrix");
    c.count("read-back");
  }
  // stored order of summation decides the last bits of repeated entries
  ceres::Matrix d;
  A.ToDenseMatrix(&d);
  if (c.expect(NearM(MatrixXd(d), M, 1e-13), "triplet-dense", "triplet matrix is %s, not %s", Str(d).c_str(), Str(M).c_str())) CheckInterface(c, "triplet", A, MatrixXd(d), MatrixXd(d), false, dup);
  const int n = r.range(0, 8);
  const auto v = RandomVec(r, n);
  auto D = TripletSparseMatrix::CreateSparseDiagonalMatrix(Ptr(v), n);
  D->ToDenseMatrix(&d);
  MatrixXd e = MatrixXd::Zero(n, n);
  for (int i = 0; i < n; ++i) e(i, i) = v[i];
  c.expect(Same(MatrixXd(d), e), "triplet-diagonal", "diagonal matrix is %s", Str(d).c_str());
}

MatrixXd DenseOf(const ceres::CRSMatrix& m) {
  MatrixXd d = MatrixXd::Zero(m.num_rows, m.num_cols);
  for (int i = 0; i < m.num_rows; ++i)
    for (int k = m.rows[i]; k < m.rows[i + 1]; ++k) d(i, m.cols[k]) += m.values[k];
  return d;
}
MatrixXd DenseOf(const CompressedRowSparseMatrix& m) {
  MatrixXd d = MatrixXd::Zero(m.num_rows(), m.num_cols());
  for (int i = 0; i < m.num_rows(); ++i)
    for (int k = m.rows()[i]; k < m.rows()[i + 1]; ++k) d(i, m.cols()[k]) += m.values()[k];
  return d;
}
// Rows, columns and block lists are well formed.
bool Sound(const CompressedRowSparseMatrix& m, bool sorted) {
  if (m.rows()[0] != 0) return false;
  for (int i = 0; i < m.num_rows(); ++i) {
    if (m.rows()[i + 1] < m.rows()[i]) return false;
    for (int k = m.rows()[i]; k < m.rows()[i + 1]; ++k) {
      if (m.cols()[k] < 0 || m.cols()[k] >= m.num_cols()) return false;
      if (sorted && k > m.rows()[i] && m.cols()[k] <= m.cols()[k - 1]) return false;
    }
  }
  return true;
}
std::vector<Block> RandomBlocks(Rng& r, int n) {
  std::vector<Block> b;
  int pos = 0;
  while (pos < n) {
    const int s = std::min(n - pos, r.range(1, 4));
    b.emplace_back(s, pos);
    pos += s;
  }
  return b;
}

void CrsCase(Case& c) {
  Rng& r = c.rng;
  Trip t = RandomTrip(r, Dim(r), Dim(r), false);
  TripletSparseMatrix T = Make(r, t);
  const bool tr = r.chance(0.3);
  auto A = tr ? CompressedRowSparseMatrix::FromTripletSparseMatrixTransposed(T) : CompressedRowSparseMatrix::FromTripletSparseMatrix(T);
  MatrixXd M = tr ? MatrixXd(t.Dense().transpose()) : t.Dense();
  c.expect(A->storage_type() == ST::UNSYMMETRIC, "crs-type", "converted matrix is not unsymmetric");
  c.expect(A->num_nonzeros() == static_cast<int>(t.v.size()) && Sound(*A, true), "crs-from-triplet", "conversion is malformed");
  const bool blocked = r.chance(0.5) && A->num_rows() > 0;
  std::vector<Block> rb, cb;
  if (blocked) {
    rb = RandomBlocks(r, A->num_rows());
    cb = RandomBlocks(r, A->num_cols());
    *A->mutable_row_blocks() = rb;
    *A->mutable_col_blocks() = cb;
  }
  std::string hist;
  const int ops = r.range(0, 6);
  for (int k = 0; k < ops; ++k) {
    const int op = r.range(0, 4);
    hist += Fmt("%d ", op);
    if (op == 0) {
      Trip u = RandomTrip(r, blocked ? r.range(1, 8) : Dim(r), A->num_cols(), false);
      auto B = CompressedRowSparseMatrix::FromTripletSparseMatrix(Make(r, u));
      if (blocked) {
        *B->mutable_row_blocks() = RandomBlocks(r, B->num_rows());
        *B->mutable_col_blocks() = cb;
        for (auto& b : B->row_blocks()) rb.push_back(b);
      }
      A->AppendRows(*B);
      MatrixXd R(M.rows() + u.m, M.cols());
      R << M, u.Dense();
      M = R;
      if (blocked) {
        bool same = A->row_blocks().size() == rb.size();
        for (size_t q = 0; same && q < rb.size(); ++q) same = A->row_blocks()[q].size == rb[q].size;
        c.expect(same, "crs-append-blocks", "row blocks after AppendRows are wrong");
      }
    } else if (op == 1 && A->num_rows() > 0) {
      int n = r.range(0, A->num_rows());
      if (blocked) {  // whole row blocks, and not all of them
        const int q = r.range(0, static_cast<int>(rb.size()) - 1);
        n = 0;
        for (int z = 0; z < q; ++z) n += rb[rb.size() - 1 - z].size;
        rb.resize(rb.size() - q);
      }
      A->DeleteRows(n);
      M = MatrixXd(M.topRows(M.rows() - n));
      if (blocked) c.expect(A->row_blocks().size() == rb.size(), "crs-delete-blocks", "%zu row blocks left of %zu", A->row_blocks().size(), rb.size());
    } else if (op == 2) {
      auto B = A->Transpose();
      c.expect(Same(DenseOf(*B), M.transpose()) && Sound(*B, true), "crs-transpose", "transpose is %s of %s", Str(DenseOf(*B)).c_str(), Str(M).c_str());
      c.expect(B->num_rows() == A->num_cols() && B->num_cols() == A->num_rows(), "crs-transpose", "transpose has the wrong size");
      if (blocked) {
        c.expect(B->row_blocks() == A->col_blocks() && B->col_blocks() == A->row_blocks(), "crs-transpose-blocks", "transpose has other blocks");
        std::vector<Block> nr = B->row_blocks();
        if (nr.empty()) continue;
      }
    } else if (op == 3) {
      ceres::CRSMatrix m;
      m.rows = {4, 4, 4};
      A->ToCRSMatrix(&m);
      c.expect(m.num_rows == A->num_rows() && m.num_cols == A->num_cols() && static_cast<int>(m.rows.size()) == m.num_rows + 1 && static_cast<int>(m.cols.size()) == A->num_nonzeros() &&
                   m.values.size() == m.cols.size() && Same(DenseOf(m), M),
               "crs-to-crs", "exported matrix differs");
    } else if (op == 4) {
      A->SetMaxNumNonZeros(A->num_nonzeros() + r.range(0, 10));
    }
    c.count("edits");
  }
  c.note("crs %dx%d %d nonzeros blocked %d after %s", A->num_rows(), A->num_cols(), A->num_nonzeros(), blocked, hist.c_str());
  c.sig(Fmt("c %d %d %d %s", A->num_rows(), A->num_cols(), A->num_nonzeros() / 4, hist.c_str()));
  ceres::CRSMatrix tm;
  if (ops == 0) {
    T.ToCRSMatrix(&tm);
    c.expect(Same(DenseOf(tm), t.Dense()), "triplet-to-crs", "triplet to CRSMatrix differs");
  }
  if (c.expect(Sound(*A, true) && Same(DenseOf(*A), M), "crs-content", "after %s the matrix is %s, not %s", hist.c_str(), Str(DenseOf(*A)).c_str(), Str(M).c_str())) CheckInterface(c, "crs", *A, M, M, false);
  // diagonals
  const int n = r.range(1, 8);
  const auto v = RandomVec(r, n);
  MatrixXd e = MatrixXd::Zero(n, n);
  for (int i = 0; i < n; ++i) e(i, i) = v[i];
  CompressedRowSparseMatrix D(Ptr(v), n);
  c.expect(Same(DenseOf(D), e) && Sound(D, true), "crs-diagonal", "diagonal matrix is %s", Str(DenseOf(D)).c_str());
  const auto blocks = RandomBlocks(r, n);
  auto B = CompressedRowSparseMatrix::CreateBlockDiagonalMatrix(r.chance(0.8) ? v.data() : (e.setZero(), nullptr), blocks);
  c.expect(Same(DenseOf(*B), e) && Sound(*B, true) && B->num_nonzeros() == ci::SumSquaredSizes(blocks), "crs-block-diagonal", "block diagonal matrix is %s", Str(DenseOf(*B)).c_str());
  c.expect(B->row_blocks() == blocks && B->col_blocks() == blocks, "crs-block-diagonal", "block diagonal matrix has other blocks");
  CheckInterface(c, "crs-block-diagonal", *B, e, e, false);
}

void SymmetricCase(Case& c) {
  Rng& r = c.rng;
  const int n = r.range(1, 20);
  auto blocks = r.chance(0.5) ? RandomBlocks(r, n) : [&] {
    std::vector<Block> b;
    for (int i = 0; i < n; ++i) b.emplace_back(1, i);
    return b;
  }();
  const bool lower = r.chance(0.5);
  const double p = r.of({0.0, 0.2, 0.6, 1.0});
  MatrixXd S = MatrixXd::Zero(n, n), stored = S;
  Trip t;
  t.m = t.n = n;
  for (size_t a = 0; a < blocks.size(); ++a)
    for (size_t b = 0; b <= a; ++b) {
      if (!r.chance(a == b ? std::max(p, 0.7) : p)) continue;
      for (int i = 0; i < blocks[a].size; ++i)
        for (int j = 0; j < blocks[b].size; ++j) {
          const int R = blocks[a].position + i, C = blocks[b].position + j;
          if (a == b && j > i) continue;
          S(R, C) = S(C, R) = r.normal();
        }
      for (int i = 0; i < blocks[a].size; ++i)
        for (int j = 0; j < blocks[b].size; ++j) {
          const int R = blocks[a].position + i, C = blocks[b].position + j;
          t.i.push_back(lower ? R : C);
          t.j.push_back(lower ? C : R);
          t.v.push_back(S(R, C));
          stored(t.i.back(), t.j.back()) = S(R, C);
        }
    }
  auto A = CompressedRowSparseMatrix::FromTripletSparseMatrix(Make(r, t));
  A->set_storage_type(lower ? ST::LOWER_TRIANGULAR : ST::UPPER_TRIANGULAR);
  *A->mutable_row_blocks() = blocks;
  *A->mutable_col_blocks() = blocks;
  c.note("symmetric %d lower %d, %zu blocks", n, lower, blocks.size());
  c.sig(Fmt("s %d %d %zu %d", n, lower, blocks.size(), A->num_nonzeros()));
  auto T = A->Transpose();
  c.expect(T->storage_type() == (lower ? ST::UPPER_TRIANGULAR : ST::LOWER_TRIANGULAR), "crs-transpose-type", "transpose of a triangular matrix has the wrong storage type");
  c.expect(Same(DenseOf(*T), stored.transpose()), "crs-transpose", "transpose of a triangular matrix differs");
  CheckInterface(c, "crs-symmetric", *T, S, stored.transpose(), true);
  CheckInterface(c, "crs-symmetric", *A, S, stored, true);
  // random matrices
  CompressedRowSparseMatrix::RandomMatrixOptions o;
  o.storage_type = r.of({ST::UNSYMMETRIC, ST::LOWER_TRIANGULAR, ST::UPPER_TRIANGULAR});
  o.num_row_blocks = r.range(1, 6);
  o.min_row_block_size = r.range(1, 3);
  o.max_row_block_size = o.min_row_block_size + r.range(0, 3);
  o.num_col_blocks = r.range(1, 6);
  o.min_col_block_size = r.range(1, 3);
  o.max_col_block_size = o.min_col_block_size + r.range(0, 3);
  o.block_density = r.of({0.1, 0.5, 1.0});
  std::mt19937 g(r.range(0, 1 << 30));
  auto R = CompressedRowSparseMatrix::CreateRandomMatrix(o, g);
  bool ok = Sound(*R, true) && R->storage_type() == o.storage_type && static_cast<int>(R->row_blocks().size()) == o.num_row_blocks && R->num_nonzeros() > 0;
  int pos = 0;
  for (auto& b : R->row_blocks()) ok = ok && b.position == pos && b.size >= o.min_row_block_size && b.size <= o.max_row_block_size, pos += b.size;
  ok = ok && pos == R->num_rows();
  pos = 0;
  for (auto& b : R->col_blocks()) ok = ok && b.position == pos, pos += b.size;
  ok = ok && pos == R->num_cols();
  const MatrixXd D = DenseOf(*R);
  for (size_t a = 0; ok && a < R->row_blocks().size(); ++a)
    for (size_t b = 0; ok && b < R->col_blocks().size(); ++b) {
      const Block &x = R->row_blocks()[a], &y = R->col_blocks()[b];
      int nz = 0;
      for (int i = 0; i < x.size; ++i)
        for (int j = 0; j < y.size; ++j) nz += D(x.position + i, y.position + j) != 0;
      const bool forbidden = (o.storage_type == ST::LOWER_TRIANGULAR && b > a) || (o.storage_type == ST::UPPER_TRIANGULAR && b < a);
      ok = nz == 0 ? (forbidden || o.block_density < 1) : (!forbidden && nz == x.size * y.size);
      if (ok && o.storage_type != ST::UNSYMMETRIC && a == b)
        for (int i = 0; i < x.size; ++i)
          for (int j = 0; j < i; ++j) ok = ok && D(x.position + i, y.position + j) == D(x.position + j, y.position + i);
    }
  c.expect(ok, "crs-random", "random matrix is not as its options ask");
}

// General block structures: rows without cells, columns without cells.
CompressedRowBlockStructure* RandomStructure(Rng& r, const std::vector<Block>& cols, int rows, bool shuffled) {
  auto* bs = new CompressedRowBlockStructure;
  bs->cols = cols;
  const double p = r.of({0.1, 0.3, 0.6, 1.0});
  int pos = 0;
  std::vector<Cell*> cells;
  for (int i = 0; i < rows; ++i) {
    bs->rows.emplace_back();
    auto& row = bs->rows.back();
    row.block = Block(r.range(1, 5), pos);
    pos += row.block.size;
    for (size_t j = 0; j < cols.size(); ++j)
      if (r.chance(p)) row.cells.emplace_back(j, 0);
  }
  std::vector<std::pair<int, int>> order;
  for (size_t i = 0; i < bs->rows.size(); ++i)
    for (size_t k = 0; k < bs->rows[i].cells.size(); ++k) order.emplace_back(i, k);
  if (shuffled) r.shuffle(order);
  int v = 0;
  for (auto& [i, k] : order) {
    auto& cell = bs->rows[i].cells[k];
    cell.position = v;
    v += bs->rows[i].block.size * cols[cell.block_id].size;
  }
  return bs;
}
void FillRandom(Rng& r, BlockSparseMatrix* m) {
  for (int i = 0; i < m->num_nonzeros(); ++i) m->mutable_values()[i] = r.normal();
}

void BsmCase(Case& c) {
  Rng& r = c.rng;
  std::vector<Block> cols;
  {
    int pos = 0;
    for (int k = r.range(1, 8); k > 0; --k) {
      cols.emplace_back(r.range(1, 5), pos);
      pos += cols.back().size;
    }
  }
  const bool shuffled = r.chance(0.4);
  BlockSparseMatrix A(RandomStructure(r, cols, r.range(1, 12), shuffled));
  FillRandom(r, &A);
  MatrixXd M = BlockProblem::Dense(A);
  int deletable = shuffled ? 0 : static_cast<int>(A.block_structure()->rows.size());  // rows whose values are stored last
  std::string hist;
  std::vector<std::pair<int, int>> dropped;
  for (int k = r.range(0, 5); k > 0; --k) {
    const int op = r.range(0, 1);
    if (op == 0) {
      BlockSparseMatrix B(RandomStructure(r, cols, r.range(0, 4), r.chance(0.5)));
      FillRandom(r, &B);
      const MatrixXd N = BlockProblem::Dense(B);
      if (r.chance(0.3)) {
        std::vector<double> d = RandomVec(r, M.cols());
        auto D = BlockSparseMatrix::CreateDiagonalMatrix(d.data(), cols);
        const MatrixXd e = VectorXd::Map(d.data(), d.size()).asDiagonal();
        c.expect(Same(BlockProblem::Dense(*D), e), "bsm-diagonal", "diagonal block matrix is %s", Str(BlockProblem::Dense(*D)).c_str());
        A.AppendRows(*D);
        MatrixXd R(M.rows() + e.rows(), M.cols());
        R << M, e;
        M = R;
        deletable += cols.size();
        hist += "d ";
      } else {
        A.AppendRows(B);
        MatrixXd R(M.rows() + N.rows(), M.cols());
        R << M, N;
        M = R;
        deletable += B.block_structure()->rows.size();
        hist += "a ";
      }
    } else {
      const int n = r.range(0, deletable);
      int rows = 0;
      const auto& br = A.block_structure()->rows;
      for (int q = 0; q < n; ++q) rows += br[br.size() - 1 - q].block.size;
      A.DeleteRowBlocks(n);
      deletable -= n;
      M = MatrixXd(M.topRows(M.rows() - rows));
      hist += Fmt("-%d ", n);
    }
    c.count("edits");
  }
  c.note("bsm %dx%d %d nonzeros shuffled %d after %s", A.num_rows(), A.num_cols(), A.num_nonzeros(), shuffled, hist.c_str());
  uint64_t h = HashStr(hist);
  for (auto& row : A.block_structure()->rows) {
    h = Combine(h, row.block.size);
    for (auto& cell : row.cells) h = Combine(h, cell.block_id);
  }
  c.sig(h);
  if (!c.expect(A.num_rows() == M.rows() && Same(BlockProblem::Dense(A), M), "bsm-edit", "after %s the matrix differs", hist.c_str())) return;
  int nnz = 0, pos = 0;
  bool ok = true;
  for (auto& row : A.block_structure()->rows) {
    ok = ok && row.block.position == pos;
    pos += row.block.size;
    for (auto& cell : row.cells) nnz += row.block.size * cols[cell.block_id].size;
  }
  c.expect(ok && nnz == A.num_nonzeros(), "bsm-structure", "block structure is inconsistent: %d nonzeros, counted %d", A.num_nonzeros(), nnz);
  // the transposed structure is that of the transposed matrix, however the matrix came about
  const auto* ts = A.transpose_block_structure();
  ok = ts->rows.size() == cols.size() && ts->cols.size() == A.block_structure()->rows.size();
  int cum = 0;
  for (size_t j = 0; ok && j < cols.size(); ++j) {
    ok = ts->rows[j].block == cols[j];
    std::vector<std::pair<int, int>> want, got;
    int cn = 0;
    for (size_t i = 0; i < A.block_structure()->rows.size(); ++i)
      for (auto& cell : A.block_structure()->rows[i].cells)
        if (cell.block_id == static_cast<int>(j)) want.emplace_back(i, cell.position), cn += A.block_structure()->rows[i].block.size * cols[j].size;
    for (auto& cell : ts->rows[j].cells) got.emplace_back(cell.block_id, cell.position);
    cum += cn;
    ok = ok && want == got && ts->rows[j].nnz == cn && ts->rows[j].cumulative_nnz == cum;
  }
  for (size_t i = 0; ok && i < ts->cols.size(); ++i) ok = ts->cols[i] == A.block_structure()->rows[i].block;
  c.expect(ok, "bsm-transpose-structure", "transposed block structure is not that of the matrix after %s", hist.c_str());
  // conversions
  auto crs = A.ToCompressedRowSparseMatrix();
  c.expect(Sound(*crs, true) && Same(DenseOf(*crs), M), "bsm-to-crs", "compressed row matrix differs");
  c.expect(crs->num_nonzeros() == A.num_nonzeros() && crs->col_blocks() == cols && crs->row_blocks().size() == A.block_structure()->rows.size(), "bsm-to-crs", "compressed row matrix has other blocks");
  auto crt = A.ToCompressedRowSparseMatrixTranspose();
  c.expect(Sound(*crt, true) && Same(DenseOf(*crt), M.transpose()), "bsm-to-crs-transpose", "transposed compressed row matrix differs");
  c.expect(crt->row_blocks() == cols, "bsm-to-crs-transpose", "transposed compressed row matrix has other blocks");
  FillRandom(r, &A);
  M = BlockProblem::Dense(A);
  A.UpdateCompressedRowSparseMatrix(crs.get());
  A.UpdateCompressedRowSparseMatrixTranspose(crt.get());
  c.expect(Same(DenseOf(*crs), M), "bsm-update-crs", "updated compressed row matrix differs");
  c.expect(Same(DenseOf(*crt), M.transpose()), "bsm-update-crs-transpose", "updated transposed compressed row matrix differs");
  TripletSparseMatrix T(r.range(0, 5), r.range(0, 5), r.range(0, 5));
  A.ToTripletSparseMatrix(&T);
  ceres::Matrix d;
  T.ToDenseMatrix(&d);
  c.expect(Same(MatrixXd(d), M) && T.num_nonzeros() == A.num_nonzeros() && T.AllTripletsWithinBounds(), "bsm-to-triplet", "triplet matrix differs");
  c.count("conversions", 5);
  CheckInterface(c, "bsm", A, M, M, false);
  // random matrices
  BlockSparseMatrix::RandomMatrixOptions o;
  o.num_row_blocks = r.range(1, 6);
  o.min_row_block_size = r.range(1, 3);
  o.max_row_block_size = o.min_row_block_size + r.range(0, 2);
  o.num_col_blocks = r.range(1, 6);
  o.min_col_block_size = r.range(1, 3);
  o.max_col_block_size = o.min_col_block_size + r.range(0, 2);
  o.block_density = r.of({0.1, 0.5, 1.0});
  if (r.chance(0.3)) o.col_blocks = cols;
  std::mt19937 g(r.range(0, 1 << 30));
  auto R = BlockSparseMatrix::CreateRandomMatrix(o, g);
  const auto* rs = R->block_structure();
  ok = static_cast<int>(rs->rows.size()) == o.num_row_blocks && R->num_nonzeros() > 0;
  ok = ok && (o.col_blocks.empty() ? static_cast<int>(rs->cols.size()) == o.num_col_blocks : rs->cols == cols);
  pos = 0;
  for (auto& row : rs->rows) {
    ok = ok && row.block.position == pos && row.block.size >= o.min_row_block_size && row.block.size <= o.max_row_block_size;
    pos += row.block.size;
    if (o.block_density == 1) ok = ok && row.cells.size() == rs->cols.size();
  }
  c.expect(ok && pos == R->num_rows(), "bsm-random", "random block matrix is not as its options ask");
  const MatrixXd RM = BlockProblem::Dense(*R);
  CheckInterface(c, "bsm-random", *R, RM, RM, false);
}

// Deleting rows whose values are not the last ones stored (a recorded finding).
void DetachedDelete(Case& c) {
  // E values first, then F values: the layout the Schur solvers' Jacobian has
  auto* bs = new CompressedRowBlockStructure;
  bs->cols = {Block(1, 0), Block(1, 1)};
  for (int i = 0; i < 2; ++i) {
    bs->rows.emplace_back();
    bs->rows.back().block = Block(1, i);
    bs->rows.back().cells = {Cell(0, i), Cell(1, 2 + i)};
  }
  BlockSparseMatrix A(bs);
  for (int i = 0; i < 4; ++i) A.mutable_values()[i] = i + 1;
  A.DeleteRowBlocks(1);
  MatrixXd e(1, 2);
  e << 1, 3;
  c.expect(Same(BlockProblem::Dense(A), e), "bsm-edit", "row deletion");
  A.SetZero();
  c.note("delete from [1 3; 2 4] stored by column");
  c.sig("detached");
  c.expect(BlockProblem::Dense(A).isZero(0), "bsm-detached-delete", "after deleting a row whose values lie before kept ones, SetZero leaves %s", Str(BlockProblem::Dense(A)).c_str());
}

void DynamicCase(Case& c) {
  Rng& r = c.rng;
  const int m = r.range(1, 12), n = r.range(1, 10);
  ci::DynamicCompressedRowSparseMatrix A(m, n, r.range(0, 20));
  std::vector<std::vector<std::pair<int, double>>> rows(m);
  std::string hist;
  for (int round = r.range(1, 4); round > 0; --round) {
    for (int k = r.range(0, 4); k > 0; --k) {
      const int s = r.range(0, m - 1), q = r.range(0, m - s);
      A.ClearRows(s, q);
      for (int i = s; i < s + q; ++i) rows[i].clear();
      for (int i = s; i < s + q; ++i)
        for (int j = 0; j < n; ++j)
          if (r.chance(0.4)) {
            const double v = r.normal();
            A.InsertEntry(i, j, v);
            rows[i].emplace_back(j, v);
          }
      hist += Fmt("%d+%d ", s, q);
    }
    const int extra = r.range(0, 10);
    A.Finalize(extra);
    MatrixXd M = MatrixXd::Zero(m, n);
    int nnz = 0;
    for (int i = 0; i < m; ++i)
      for (auto& [j, v] : rows[i]) M(i, j) = v, ++nnz;
    c.expect(A.num_nonzeros() == nnz && Sound(A, false) && Same(DenseOf(A), M), "dynamic-content", "matrix after %s is %s, not %s", hist.c_str(), Str(DenseOf(A)).c_str(), Str(M).c_str());
    // what the dynamic solver does: append a diagonal, then drop it
    if (r.chance(0.5)) {
      const auto d = RandomVec(r, n);
      CompressedRowSparseMatrix D(d.data(), n);
      A.AppendRows(D);
      MatrixXd R(m + n, n);
      R << M, MatrixXd(VectorXd::Map(d.data(), n).asDiagonal());
      c.expect(Same(DenseOf(A), R), "dynamic-append", "rows appended to a dynamic matrix differ");
      A.DeleteRows(n);
      c.expect(Same(DenseOf(A), M), "dynamic-delete", "rows deleted from a dynamic matrix differ");
    }
    if (round == 1) {
      c.note("dynamic %dx%d after %s", m, n, hist.c_str());
      c.sig(Fmt("d %d %d %s", m, n, hist.c_str()));
      CheckInterface(c, "dynamic", A, M, M, false);
    }
    c.count("finalized");
  }
  const int dm = Dim(r), dn = Dim(r);
  MatrixXd M(dm, dn);
  for (int i = 0; i < M.size(); ++i) M.data()[i] = r.normal();
  ceres::Matrix rm = M;
  if (r.chance(0.5)) {
    ci::DenseSparseMatrix D(rm);
    c.expect(Same(MatrixXd(D.matrix()), M), "dense-content", "dense matrix differs");
    CheckInterface(c, "dense", D, M, M, false);
  } else {
    ci::DenseSparseMatrix D(dm, dn);
    *D.mutable_matrix() = rm;
    CheckInterface(c, "dense", D, M, M, false);
  }
}

void InnerCase(Case& c) {
  Rng& r = c.rng;
  std::vector<Block> cols;
  int pos = 0;
  for (int k = r.range(1, 8); k > 0; --k) {
    cols.emplace_back(r.range(1, 5), pos);
    pos += cols.back().size;
  }
  BlockSparseMatrix A(RandomStructure(r, cols, r.range(1, 10), r.chance(0.5)));
  if (A.num_nonzeros() == 0) return;
  const int nr = A.block_structure()->rows.size();
  int s = 0, e = nr;
  const bool ranged = r.chance(0.5);
  if (ranged) {
    s = r.range(0, nr);
    e = r.range(s, nr);
  }
  const bool lower = r.chance(0.5);
  const ST st = lower ? ST::LOWER_TRIANGULAR : ST::UPPER_TRIANGULAR;
  auto P = ranged ? ci::InnerProductComputer::Create(A, s, e, st) : ci::InnerProductComputer::Create(A, st);
  std::set<std::pair<int, int>> cells;
  for (int i = s; i < e; ++i)
    for (auto& a : A.block_structure()->rows[i].cells)
      for (auto& b : A.block_structure()->rows[i].cells)
        if (lower ? b.block_id <= a.block_id : b.block_id >= a.block_id) cells.emplace(a.block_id, b.block_id);
  c.note("inner product of %dx%d rows %d..%d lower %d", A.num_rows(), A.num_cols(), s, e, lower);
  uint64_t h = Combine(lower, Combine(s, e));
  for (auto& x : cells) h = Combine(h, x.first * 1000 + x.second);
  c.sig(h);
  for (int round = r.range(1, 3); round > 0; --round) {
    FillRandom(r, &A);
    P->Compute();
    const auto& R = P->result();
    const int n = A.num_cols();
    const MatrixXd M = BlockProblem::Dense(A);
    const int r0 = s < nr ? A.block_structure()->rows[s].block.position : A.num_rows();
    const int r1 = e < nr ? A.block_structure()->rows[e].block.position : A.num_rows();
    const MatrixXd S = M.middleRows(r0, r1 - r0);
    const MatrixXd full = S.transpose() * S, mag = S.cwiseAbs().transpose() * S.cwiseAbs();
    MatrixXd want = MatrixXd::Zero(n, n);
    int nnz = 0;
    for (auto& [a, b] : cells) {
      want.block(cols[a].position, cols[b].position, cols[a].size, cols[b].size) = full.block(cols[a].position, cols[b].position, cols[a].size, cols[b].size);
      nnz += cols[a].size * cols[b].size;
    }
    c.expect(R.num_rows() == n && R.num_cols() == n && R.storage_type() == st && Sound(R, true) && R.num_nonzeros() == nnz, "inner-structure", "product has %d nonzeros, not %d, or is malformed", R.num_nonzeros(), nnz);
    c.expect(R.row_blocks() == cols && R.col_blocks() == cols, "inner-blocks", "product has other blocks");
    const MatrixXd got = DenseOf(R);
    bool ok = true;
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) ok = ok && std::fabs(got(i, j) - want(i, j)) <= 1e-14 * (A.num_rows() + 4) * mag(i, j);
    c.expect(ok, "inner-product", "inner product is %s, not %s", Str(got).c_str(), Str(want).c_str());
    c.count("inner-products");
  }
}

void RandomAccessCase(Case& c) {
  Rng& r = c.rng;
  const int n = r.range(1, 16);
  const auto blocks = RandomBlocks(r, n);
  const int nb = blocks.size(), threads = r.range(1, 8);
  const int kind = r.range(0, 2);
  absl::btree_set<std::pair<int, int>> pairs;
  const double p = r.of({0.0, 0.3, 1.0});
  for (int i = 0; i < nb; ++i)
    for (int j = i; j < nb; ++j)
      if (r.chance(i == j ? std::max(p, 0.6) : p)) pairs.emplace(i, j);
  std::unique_ptr<ci::BlockRandomAccessMatrix> A;
  ci::BlockRandomAccessSparseMatrix* sp = nullptr;
  ci::BlockRandomAccessDiagonalMatrix* dg = nullptr;
  ci::BlockRandomAccessDenseMatrix* de = nullptr;
  if (kind == 0) A.reset(de = new ci::BlockRandomAccessDenseMatrix(blocks, Ctx(), threads));
  else if (kind == 1) A.reset(sp = new ci::BlockRandomAccessSparseMatrix(blocks, pairs, Ctx(), threads));
  else A.reset(dg = new ci::BlockRandomAccessDiagonalMatrix(blocks, Ctx(), threads));
  c.note("random access kind %d, %d blocks of %d", kind, nb, n);
  uint64_t h = kind;
  for (auto& b : blocks) h = Combine(h, b.size);
  if (kind == 1)
    for (auto& x : pairs) h = Combine(h, x.first * 100 + x.second);
  c.sig(h);
  c.expect(A->num_rows() == n && A->num_cols() == n, "cells-size", "%dx%d for %d", A->num_rows(), A->num_cols(), n);
  MatrixXd M = MatrixXd::Zero(n, n);
  auto present = [&](int i, int j) { return kind == 0 || (kind == 1 ? pairs.count({i, j}) > 0 : i == j); };
  std::set<double*> seen;
  for (int round = 0; round < 2; ++round) {
    if (round) A->SetZero(), M.setZero();
    for (int i = 0; i < nb; ++i)
      for (int j = 0; j < nb; ++j) {
        int R, C, rs, cs;
        ci::CellInfo* cell = A->GetCell(i, j, &R, &C, &rs, &cs);
        if (!c.expect((cell != nullptr) == present(i, j), "cells-present", "cell (%d,%d) present %d", i, j, cell != nullptr)) return;
        if (!cell) continue;
        if (!c.expect(R >= 0 && C >= 0 && R + blocks[i].size <= rs && C + blocks[j].size <= cs, "cells-place", "cell (%d,%d) at %d,%d in %dx%d", i, j, R, C, rs, cs)) return;
        std::lock_guard<std::mutex> l(cell->m);
        ceres::MatrixRef m(cell->values, rs, cs);
        auto blk = m.block(R, C, blocks[i].size, blocks[j].size);
        if (round) c.expect(blk.isZero(0), "cells-setzero", "cell (%d,%d) is not zero after SetZero", i, j);
        else {
          for (int a = 0; a < blk.rows(); ++a)
            for (int b = 0; b < blk.cols(); ++b)
              if (kind != 2) c.expect(seen.insert(&blk(a, b)).second, "cells-overlap", "cell (%d,%d) shares memory with another", i, j);
        }
        MatrixXd v(blk.rows(), blk.cols());
        for (int q = 0; q < v.size(); ++q) v.data()[q] = r.normal();
        if (kind == 2 || i == j) v = MatrixXd(v * v.transpose()) + MatrixXd::Identity(v.rows(), v.rows()) * (kind == 2 ? 0.5 : 0.0);
        blk = v;
        M.block(blocks[i].position, blocks[j].position, v.rows(), v.cols()) = v;
      }
  }
  c.count("cells", nb * nb);
  std::string why;
  const auto x = RandomVec(r, n), y0 = RandomVec(r, n);
  if (kind == 0) {
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) c.expect(de->values()[i * n + j] == M(i, j), "cells-dense", "dense entry (%d,%d) differs", i, j);
  } else if (kind == 1) {
    MatrixXd S = M.triangularView<Eigen::StrictlyUpper>();
    // the symmetric meaning: diagonal blocks as stored, the rest mirrored
    MatrixXd full = M;
    for (int i = 0; i < nb; ++i)
      for (int j = i + 1; j < nb; ++j)
        full.block(blocks[j].position, blocks[i].position, blocks[j].size, blocks[i].size) = M.block(blocks[i].position, blocks[j].position, blocks[i].size, blocks[j].size).transpose();
    auto y = y0;
    sp->SymmetricRightMultiplyAndAccumulate(x.data(), y.data());
    c.expect(Product(full, x, y0, y, &why), "cells-symmetric", "symmetric product: %s", why.c_str());
    c.expect(Same(BlockProblem::Dense(*sp->matrix()), M), "cells-matrix", "matrix of the cells differs");
  } else {
    auto y = y0;
    dg->RightMultiplyAndAccumulate(x.data(), y.data());
    c.expect(Product(M, x, y0, y, &why), "cells-diagonal", "block diagonal product: %s", why.c_str());
    c.expect(Same(DenseOf(*dg->matrix()), M), "cells-matrix", "matrix of the cells differs");
    dg->Invert();
    const MatrixXd I = DenseOf(*dg->matrix());
    double cond = 1;
    for (auto& b : blocks) {
      Eigen::SelfAdjointEigenSolver<MatrixXd> es(M.block(b.position, b.position, b.size, b.size));
      cond = std::max(cond, es.eigenvalues().maxCoeff() / es.eigenvalues().minCoeff());
    }
    c.expect(NearM(MatrixXd(I * M), MatrixXd::Identity(n, n), 1e-13 * cond * n), "cells-invert", "inverse times matrix is %s", Str(MatrixXd(I * M)).c_str());
    for (size_t i = 0; i < blocks.size(); ++i)
      for (size_t j = 0; j < blocks.size(); ++j)
        if (i != j) c.expect(I.block(blocks[i].position, blocks[j].position, blocks[i].size, blocks[j].size).isZero(0), "cells-invert", "inverse has off-diagonal blocks");
  }
}

template <int N>
void PsdFixed(Case& c, int n) {
  Rng& r = c.rng;
  const int rank = r.chance(0.5) ? n : r.range(0, n);
  MatrixXd Q(n, n);
  for (int i = 0; i < Q.size(); ++i) Q.data()[i] = r.normal();
  Q = MatrixXd(Q.householderQr().householderQ());
  VectorXd l = VectorXd::Zero(n), li = l;
  for (int i = 0; i < rank; ++i) l[i] = std::pow(10.0, r.uni(-2, 2)), li[i] = 1 / l[i];
  MatrixXd A = Q * l.asDiagonal() * Q.transpose();
  A = MatrixXd((A + A.transpose()) / 2);
  // a small eigenvalue far above the rounding of the largest is no null space
  if (rank > 1 && r.chance(0.25)) {
    const int i = r.range(0, rank - 1);
    l[i] = std::pow(10.0, r.uni(-11, -6)), li[i] = 1 / l[i];
    for (int k = 0; k < rank; ++k)
      if (k != i) l[k] = r.uni(0.5, 2), li[k] = 1 / l[k];
    A = Q * l.asDiagonal() * Q.transpose();
    A = MatrixXd((A + A.transpose()) / 2);
  }
  const MatrixXd want = Q * li.asDiagonal() * Q.transpose();
  typename ceres::EigenTypes<N, N>::Matrix m = A;
  // first order: the error of A, a rounding of its largest entry, through the inverse twice
  const double tol = n * (rank ? 1e-13 * li.maxCoeff() * l.maxCoeff() * li.maxCoeff() : 1e-11);
  if (rank == n) {
    const MatrixXd got = ci::InvertPSDMatrix<N>(true, m);
    c.expect(NearM(got, want, tol), "psd-full", "inverse of %s is %s, not %s", Str(A).c_str(), Str(got).c_str(), Str(want).c_str());
  }
  const MatrixXd got = ci::InvertPSDMatrix<N>(false, m);
  c.expect(NearM(got, want, tol), "psd-pseudo", "pseudo-inverse of rank %d %s is %s, not %s", rank, Str(A).c_str(), Str(got).c_str(), Str(want).c_str());
  c.count("inverted");
}

template <typename Int>
void Triangular(Case& c) {
  Rng& r = c.rng;
  const int n = r.range(1, 14);
  MatrixXd R = MatrixXd::Zero(n, n);
  std::vector<Int> rows, cols = {0};
  std::vector<double> vals;
  const double p = r.of({0.0, 0.3, 1.0});
  for (int j = 0; j < n; ++j) {
    for (int i = 0; i <= j; ++i)
      if (i == j || r.chance(p)) {
        R(i, j) = i == j ? r.sign() * r.uni(0.7, 2) : r.uni(-0.5, 0.5);
        rows.push_back(i);
        vals.push_back(R(i, j));
      }
    cols.push_back(rows.size());
  }
  const double cond = R.norm() * R.inverse().norm();
  const double tol = 1e-14 * n * cond;
  auto b = RandomVec(r, n);
  const VectorXd vb = VectorXd::Map(b.data(), n);
  auto x = b;
  ci::SolveUpperTriangularInPlace<Int>(n, rows.data(), cols.data(), vals.data(), x.data());
  VectorXd w = R.triangularView<Eigen::Upper>().solve(vb);
  c.expect((VectorXd::Map(x.data(), n) - w).norm() <= tol * (w.norm() + 1), "triangular-solve", "R x = b");
  x = b;
  ci::SolveUpperTriangularTransposeInPlace<Int>(n, rows.data(), cols.data(), vals.data(), x.data());
  w = R.transpose().triangularView<Eigen::Lower>().solve(vb);
  c.expect((VectorXd::Map(x.data(), n) - w).norm() <= tol * (w.norm() + 1), "triangular-solve-transpose", "R' x = b");
  const int k = r.range(0, n - 1);
  std::vector<double> s(n, 1e10);
  ci::SolveRTRWithSparseRHS<Int>(n, rows.data(), cols.data(), vals.data(), k, s.data());
  w = (R.transpose() * R).ldlt().solve(VectorXd::Unit(n, k));
  c.expect((VectorXd::Map(s.data(), n) - w).norm() <= tol * cond * (w.norm() + 1), "triangular-rtr", "R'R x = e%d: %s for %s", k, Str(s).c_str(), Str(w).c_str());
  c.count("triangular", 3);
}

void UtilCase(Case& c) {
  Rng& r = c.rng;
  const int n = r.range(1, 9);
  switch (n) {
    case 1: PsdFixed<1>(c, n); break;
    case 2: PsdFixed<2>(c, n); break;
    case 3: PsdFixed<3>(c, n); break;
    case 4: PsdFixed<4>(c, n); break;
    case 5: PsdFixed<5>(c, n); break;
    case 6: PsdFixed<6>(c, n); break;
  }
  PsdFixed<Eigen::Dynamic>(c, n);
  Triangular<int>(c);
  Triangular<long>(c);
  // scalar to block sparsity
  const int rows = r.range(1, 16), cols = r.range(1, 16);
  const auto rb = RandomBlocks(r, rows), cb = RandomBlocks(r, cols);
  std::vector<std::vector<int>> has(cb.size());
  std::vector<int> sr, sc = {0};
  for (size_t j = 0; j < cb.size(); ++j) {
    for (size_t i = 0; i < rb.size(); ++i)
      if (r.chance(0.4)) has[j].push_back(i);
    // the top left entry of a block must be there; the others may
    const bool full = r.chance(0.5);
    for (int q = 0; q < cb[j].size; ++q) {
      for (int i : has[j])
        for (int z = 0; z < rb[i].size; ++z)
          if ((z == 0 && q == 0) || full || r.chance(0.5)) sr.push_back(rb[i].position + z);
      sc.push_back(sr.size());
    }
  }
  std::vector<int> br = {7}, bc = {7}, wr, wc = {0};
  for (auto& col : has) {
    for (int i : col) wr.push_back(i);
    wc.push_back(wr.size());
  }
  sr.shrink_to_fit();
  static const int none = 0;
  ci::CompressedColumnScalarMatrixToBlockMatrix(sr.empty() ? &none : sr.data(), sc.data(), rb, cb, &br, &bc);
  c.expect(br == wr && bc == wc, "block-sparsity", "block sparsity of %zu entries differs", sr.size());
  std::vector<int> order(rb.size()), scalar = {1, 2, 3}, want;
  for (size_t i = 0; i < order.size(); ++i) order[i] = i;
  r.shuffle(order);
  ci::BlockOrderingToScalarOrdering(rb, order, &scalar);
  for (int i : order)
    for (int z = 0; z < rb[i].size; ++z) want.push_back(rb[i].position + z);
  c.expect(scalar == want, "scalar-ordering", "scalar ordering differs");
  // block lists
  const int k = r.range(0, rb.size());
  const auto tail = ci::Tail(rb, k);
  bool ok = static_cast<int>(tail.size()) == k;
  int pos = 0, sq = 0;
  for (int i = 0; ok && i < k; ++i) {
    ok = tail[i].size == rb[rb.size() - k + i].size && tail[i].position == pos;
    pos += tail[i].size;
  }
  for (auto& b : rb) sq += b.size * b.size;
  c.expect(ok && ci::SumSquaredSizes(rb) == sq && ci::NumScalarEntries(rb) == rows && ci::NumScalarEntries({}) == 0, "block-lists", "tail or totals of block lists differ");
  c.note("utilities n %d, blocks %zux%zu", n, rb.size(), cb.size());
  c.sig(Fmt("u %d %zu %zu %zu", n, rb.size(), cb.size(), sr.size()));
}

void VectorCase(Case& c) {
  Rng& r = c.rng;
  const int k = ci::kMinBlockSizeParallelVectorOps;
  const int n = r.chance(0.1) ? 0 : r.of({r.range(1, 50), k - 1, k, k + 1, 2 * k - 1, 2 * k, 2 * k + r.range(1, 1000), 3 * k + 7, 5 * k + r.range(0, k)});
  const int t = r.range(1, 8);
  c.note("vectors of %d with %d threads", n, t);
  c.sig(Fmt("v %d %d", n, t));
  ceres::Vector x(n), y(n), z(n);
  const uint64_t s = r.u64();
  long double dot = 0, nn = 0, mag = 0;
  for (int i = 0; i < n; ++i) {
    x[i] = static_cast<double>(Mix(s + i) >> 40) * 1e-6 - 8;
    y[i] = static_cast<double>(Mix(s - 7 - i) >> 40) * 1e-6 - 8;
    z[i] = std::nan("");
    dot += static_cast<long double>(x[i]) * y[i];
    mag += std::fabs(x[i] * y[i]);
    nn += static_cast<long double>(x[i]) * x[i];
  }
  c.expect(Near(ci::Norm(x, Ctx(), t), std::sqrt(static_cast<double>(nn)), 1e-12 * std::sqrt(static_cast<double>(nn))), "vector-norm", "norm differs");
  c.expect(Near(ci::Dot(x, y, Ctx(), t), static_cast<double>(dot), 1e-12 * static_cast<double>(mag)), "vector-dot", "dot product differs");
  const double a = r.normal(), b = r.normal();
  ci::Axpby(a, x, b, y, z, Ctx(), t);
  bool ok = true;
  for (int i = 0; i < n; ++i) ok = ok && Near(z[i], a * x[i] + b * y[i], 1e-14 * (std::fabs(a * x[i]) + std::fabs(b * y[i])));
  c.expect(ok, "vector-axpby", "a x + b y differs");
  ceres::Vector w = y;
  ci::Axpby(a, x, b, w, w, Ctx(), t);
  c.expect(n == 0 || w == z, "vector-axpby-alias", "y = a x + b y differs from z = a x + b y");
  ci::Copy(x, w, Ctx(), t);
  c.expect(n == 0 || w == x, "vector-copy", "copy differs");
  ceres::Vector u(n);
  ci::ParallelAssign(Ctx(), t, u, x.array().square().matrix());
  ok = true;
  for (int i = 0; i < n; ++i) ok = ok && u[i] == x[i] * x[i];
  c.expect(ok, "vector-assign", "assigned expression differs");
  ci::SetZero(w, Ctx(), t);
  c.expect(n == 0 || w.isZero(0), "vector-zero", "not zero");
  c.count("vectors");
}

}  // namespace

VH_MAIN({"triplet", TripletCase, 500}, {"crs", CrsCase, 500}, {"symmetric", SymmetricCase, 300}, {"bsm", BsmCase, 500}, {"detached", DetachedDelete, 1}, {"dynamic", DynamicCase, 250}, {"inner", InnerCase, 400},
        {"random_access", RandomAccessCase, 400}, {"util", UtilCase, 400}, {"vectors", VectorCase, 25})
