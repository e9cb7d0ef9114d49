// Random block sparse least squares systems with a dense image.
#ifndef BLOCKS_H_
#define BLOCKS_H_
#include <Eigen/Dense>
#include <memory>
#include <string>
#include <vector>

#include "ceres/block_sparse_matrix.h"
#include "ceres/block_structure.h"
#include "vh.h"

namespace vh {
using Eigen::MatrixXd;
using Eigen::VectorXd;
using ceres::internal::Block;
using ceres::internal::BlockSparseMatrix;
using ceres::internal::Cell;
using ceres::internal::CompressedRowBlockStructure;

struct BlockSpec {
  int e_min = 1, e_max = 6, f_min = 0, f_max = 6;
  int row = 0, e = 0, f = 0;  // fixed sizes, 0: random
  int max_row = 4, max_e = 4, max_f = 6;
  int max_rows_per_e = 4;
  double p_cell = 0.5;
  bool full_rank = false;  // enough rows for a well-posed system without a diagonal
  bool split = true;       // E values stored before F values, as the Jacobian writer does
  bool rows_without_e = true;
  double p_odd_f = 0;        // F blocks of other sizes that only rows without E use
};

struct BlockProblem {
  std::unique_ptr<BlockSparseMatrix> A;
  int num_e = 0;
  VectorXd b, D;
  int e_cols = 0;

  static CompressedRowBlockStructure* Structure(Rng& r, const BlockSpec& s, int* num_e) {
    auto bs = std::make_unique<CompressedRowBlockStructure>();
    const int ne = r.range(s.e_min, s.e_max);
    const int nf = r.range(s.f_min, s.f_max);
    *num_e = ne;
    int pos = 0;
    for (int i = 0; i < ne + nf; ++i) {
      const int size = i < ne ? (s.e ? s.e : r.range(1, s.max_e)) : (s.f ? s.f : r.range(1, s.max_f));
      bs->cols.emplace_back(size, pos);
      pos += size;
    }
    const int odd = s.f && nf > 1 && r.chance(s.p_odd_f) ? r.range(1, nf - 1) : 0;  // the last ones
    if (odd) {
      pos = bs->cols[ne + nf - odd].position;
      for (int i = ne + nf - odd; i < ne + nf; ++i) bs->cols[i] = Block(r.range(1, s.max_f), pos), pos += bs->cols[i].size;
    }
    int nf_e = nf - odd;  // F blocks that the rows being made may use
    int rpos = 0;
    auto add = [&](int size, const std::vector<int>& ids) {
      bs->rows.emplace_back();
      auto& row = bs->rows.back();
      row.block.size = size;
      row.block.position = rpos;
      rpos += size;
      for (int id : ids) row.cells.emplace_back(id, 0);
    };
    std::vector<bool> used(nf, false);
    auto fs = [&](double p, std::vector<int>* ids) {
      for (int k = 0; k < nf_e; ++k)
        if (r.chance(p)) ids->push_back(ne + k), used[k] = true;
    };
    for (int e = 0; e < ne; ++e) {
      const int n = r.range(1, s.max_rows_per_e);
      int have = 0;
      for (int k = 0; k < n || (s.full_rank && have < bs->cols[e].size); ++k) {
        const int size = s.row ? s.row : r.range(1, s.max_row);
        std::vector<int> ids = {e};
        if (!(r.chance(0.1))) fs(s.p_cell, &ids);
        add(size, ids);
        have += size;
      }
    }
    nf_e = nf;
    bool all = true;
    for (bool u : used) all = all && u;
    const bool tail = s.rows_without_e && r.chance(0.6);
    if (nf > 0 && (tail || !all || s.full_rank)) {
      if (s.full_rank)
        for (int k = 0; k < nf; ++k) add(bs->cols[ne + k].size, {ne + k});
      for (int k = 0; k < nf; ++k)
        if (!used[k] && !s.full_rank) {
          std::vector<int> ids;
          fs(s.p_cell / 2, &ids);
          if (!used[k]) ids = {ne + k};
          used[k] = true;
          add(r.range(1, s.max_row), ids.empty() ? std::vector<int>{ne + k} : ids);
        }
      if (tail)
        for (int q = r.range(1, 4); q > 0; --q) {
          std::vector<int> ids;
          fs(s.p_cell, &ids);
          if (ids.empty()) ids = {ne + r.range(0, nf - 1)};
          add(r.range(1, s.max_row), ids);
        }
    }
    int v = 0;
    if (s.split) {
      for (int pass = 0; pass < 2; ++pass)
        for (auto& row : bs->rows)
          for (auto& c : row.cells)
            if ((c.block_id < ne) == (pass == 0)) c.position = v, v += row.block.size * bs->cols[c.block_id].size;
    } else {
      for (auto& row : bs->rows)
        for (auto& c : row.cells) c.position = v, v += row.block.size * bs->cols[c.block_id].size;
    }
    return bs.release();
  }

  void Fill(Rng& r, bool scaled = false) {
    double* v = A->mutable_values();
    for (int i = 0; i < A->num_nonzeros(); ++i) v[i] = r.normal();
    const auto* bs = A->block_structure();
    if (scaled) {
      std::vector<double> sc(A->num_cols());
      for (auto& x : sc) x = std::pow(10.0, r.uni(-1.5, 1.5));
      for (auto& row : bs->rows)
        for (auto& c : row.cells)
          for (int i = 0; i < row.block.size; ++i)
            for (int j = 0; j < bs->cols[c.block_id].size; ++j) v[c.position + i * bs->cols[c.block_id].size + j] *= sc[bs->cols[c.block_id].position + j];
    }
    b.resize(A->num_rows());
    for (int i = 0; i < b.size(); ++i) b[i] = r.normal();
    D.resize(A->num_cols());
    for (int i = 0; i < D.size(); ++i) D[i] = r.uni(0.1, 1.5);
  }
  void Init(Rng& r, const BlockSpec& s, bool scaled = false) {
    A = std::make_unique<BlockSparseMatrix>(Structure(r, s, &num_e));
    e_cols = 0;
    for (int i = 0; i < num_e; ++i) e_cols += A->block_structure()->cols[i].size;
    Fill(r, scaled);
  }
  // The matrix by definition.
  static MatrixXd Dense(const BlockSparseMatrix& A) {
    MatrixXd m = MatrixXd::Zero(A.num_rows(), A.num_cols());
    const auto* bs = A.block_structure();
    for (auto& row : bs->rows)
      for (auto& c : row.cells) {
        const Block& col = bs->cols[c.block_id];
        for (int i = 0; i < row.block.size; ++i)
          for (int j = 0; j < col.size; ++j) m(row.block.position + i, col.position + j) = A.values()[c.position + i * col.size + j];
      }
    return m;
  }
  MatrixXd Dense() const { return Dense(*A); }
  std::string Describe() const {
    const auto* bs = A->block_structure();
    std::string s = Fmt("%dx%d e%d [", A->num_rows(), A->num_cols(), num_e);
    for (auto& c : bs->cols) s += Fmt("%d ", c.size);
    s += "]";
    for (size_t i = 0; i < bs->rows.size() && i < 16; ++i) {
      s += Fmt(" %d(", bs->rows[i].block.size);
      for (auto& c : bs->rows[i].cells) s += Fmt("%d,", c.block_id);
      s += ")";
    }
    return s;
  }
  uint64_t Shape() const {
    const auto* bs = A->block_structure();
    uint64_t h = num_e;
    for (auto& c : bs->cols) h = Combine(h, c.size);
    for (auto& row : bs->rows) {
      h = Combine(h, 1000 + row.block.size);
      for (auto& c : row.cells) h = Combine(h, c.block_id);
    }
    return h;
  }
};

inline bool SameStructure(const CompressedRowBlockStructure& a, const CompressedRowBlockStructure& b) {
  if (a.cols.size() != b.cols.size() || a.rows.size() != b.rows.size()) return false;
  for (size_t i = 0; i < a.cols.size(); ++i)
    if (!(a.cols[i] == b.cols[i])) return false;
  for (size_t i = 0; i < a.rows.size(); ++i) {
    if (!(a.rows[i].block == b.rows[i].block) || a.rows[i].cells.size() != b.rows[i].cells.size()) return false;
    for (size_t k = 0; k < a.rows[i].cells.size(); ++k)
      if (a.rows[i].cells[k].block_id != b.rows[i].cells[k].block_id || a.rows[i].cells[k].position != b.rows[i].cells[k].position) return false;
  }
  return true;
}

}  // namespace vh
#endif
