// C09: Problem::Evaluate, EvaluateResidualBlock and the internal evaluators against
// an independent dense evaluation.
#include <numeric>

#include "ceres/block_sparse_matrix.h"
#include "ceres/context_impl.h"
#include "ceres/crs_matrix.h"
#include "ceres/evaluator.h"
#include "ceres/problem_impl.h"
#include "ceres/program.h"
#include "ceres/sparse_matrix.h"
#include "model.h"

using namespace vh;
using ceres::Problem;

namespace {

constexpr double kEps = 2.3e-16;

struct Ref {
  double cost = 0;
  VectorXd r, g;
  MatrixXd J;
  double tol = 0, jtol = 0, gtol = 0;
};

// rows: residual blocks in order; cols: parameter blocks in order (others as constants)
Ref Reference(const Model& m, const std::vector<int>& rows, const std::vector<int>& cols, bool loss) {
  Ref f;
  int nr = 0, nc = 0;
  std::vector<int> off(m.pbs.size(), -1);
  for (int k : cols) off[k] = nc, nc += m.pbs[k].tangent;
  for (int k : rows) nr += m.rbs[k].smooth->f.m;
  f.r.setZero(nr);
  f.g.setZero(nc);
  f.J.setZero(nr, nc);
  int row = 0;
  const Model::State x = m.Get();
  long double cost = 0;
  double mag = 1;
  for (int k : rows) {
    const Model::RB& b = m.rbs[k];
    const Model::BlockEval e = m.EvalBlock(b, x, loss);
    cost += e.cost;
    f.r.segment(row, e.r.size()) = e.r;
    for (size_t i = 0; i < b.pbs.size(); ++i) {
      const Model::PB& p = m.pbs[b.pbs[i]];
      if (off[b.pbs[i]] < 0 || p.Fixed()) continue;
      f.J.block(row, off[b.pbs[i]], e.r.size(), p.tangent) = e.J[i];
    }
    row += e.r.size();
    mag = std::max(mag, e.mag * e.mag + std::fabs(e.cost));
  }
  f.cost = static_cast<double>(cost);
  f.g = f.J.transpose() * f.r;
  f.tol = 2000 * kEps * mag * (1 + rows.size());
  f.jtol = 2000 * kEps * mag * (1 + (f.J.size() ? f.J.cwiseAbs().maxCoeff() : 0));
  f.gtol = 2000 * kEps * mag * (1 + (f.J.size() ? f.J.cwiseAbs().maxCoeff() : 0)) * (1 + nr) * (1 + (f.r.size() ? f.r.cwiseAbs().maxCoeff() : 0));
  return f;
}

bool CheckCRS(Case& c, const ceres::CRSMatrix& A, int rows, int cols, MatrixXd* out) {
  if (!c.expect(A.num_rows == rows && A.num_cols == cols, "crs-size", "%dx%d, expected %dx%d", A.num_rows, A.num_cols, rows, cols)) return false;
  if (!c.expect((int)A.rows.size() == rows + 1 && A.rows[0] == 0 && A.cols.size() == A.values.size() && A.rows.back() == (int)A.cols.size(), "crs-form", "rows %zu of %d, cols %zu values %zu last %d", A.rows.size(), rows, A.cols.size(), A.values.size(), A.rows.empty() ? -1 : A.rows.back())) return false;
  out->setZero(rows, cols);
  for (int i = 0; i < rows; ++i) {
    if (!c.expect(A.rows[i] <= A.rows[i + 1], "crs-form", "row %d starts at %d, next at %d", i, A.rows[i], A.rows[i + 1])) return false;
    std::set<int> seen;
    int prev = -1;
    for (int k = A.rows[i]; k < A.rows[i + 1]; ++k) {
      if (!c.expect(A.cols[k] >= 0 && A.cols[k] < cols && seen.insert(A.cols[k]).second, "crs-form", "row %d column %d out of range or repeated", i, A.cols[k])) return false;
      if (!c.expect(A.cols[k] > prev, "crs-sorted", "row %d column %d after %d", i, A.cols[k], prev)) return false;
      prev = A.cols[k];
      (*out)(i, A.cols[k]) += A.values[k];
    }
  }
  return true;
}

bool SameState(Case& c, const Model& m, const Model::State& s, const char* when) {
  for (size_t i = 0; i < m.pbs.size(); ++i)
    for (int k = 0; k < m.pbs[i].size; ++k)
      if (!c.expect(Bits(m.pbs[i].x[k], s[i][k]), "user-state-changed", "block %zu[%d] %.17g became %.17g by %s", i, k, s[i][k], m.pbs[i].x[k], when)) return false;
  return true;
}

void Whole(Case& c) {
  auto& r = c.rng;
  Model m;
  ModelOptions o;
  o.max_pb = r.chance(0.2) ? 30 : 10;
  o.max_rb = r.chance(0.2) ? 60 : 14;
  o.max_size = r.chance(0.3) ? 9 : 5;
  o.p_const = r.of({0.0, 0.2, 0.6});
  o.schur = r.chance(0.3);
  m.Init(r, o);
  if (r.chance(0.03)) m.rbs.clear();
  c.note("%s", m.Describe().c_str());
  Problem::Options po = Model::NoOwn();
  std::unique_ptr<ceres::Context> ctx;
  if (r.chance(0.3)) ctx.reset(ceres::Context::Create()), po.context = ctx.get();
  po.enable_fast_removal = r.chance(0.5);
  po.disable_all_safety_checks = r.chance(0.2);
  Problem prob(po);
  m.AddTo(&prob);
  const int np = m.pbs.size(), nb = m.rbs.size();
  for (int rep = 0; rep < 4; ++rep) {
    if (rep) {
      // move the point, and change constancy
      for (auto& p : m.pbs) {
        if (r.chance(0.5) && (p.kind == kNone || p.kind == kSubset || p.kind == kEuclid || p.kind == kAllHeld))
          for (int k = 0; k < p.size; ++k) p.x[k] = r.uni(-2, 2);
        else if (p.kind == kSphere || p.kind == kQuat || p.kind == kEigenQuat)
          Model::RandomUnit(r, p.x.get(), p.size);
        if (r.chance(0.2)) {
          p.constant = !p.constant;
          p.constant ? prob.SetParameterBlockConstant(p.x.get()) : prob.SetParameterBlockVariable(p.x.get());
        }
      }
    }
    const Model::State before = m.Get();
    Problem::EvaluateOptions eo;
    eo.apply_loss_function = r.chance(0.7);
    eo.num_threads = r.of({1, 1, 2, 3, 4, 8});
    std::vector<int> rows(nb), cols(np);
    std::iota(rows.begin(), rows.end(), 0);
    std::iota(cols.begin(), cols.end(), 0);
    bool sub_r = false, sub_c = false;
    if (r.chance(0.5) && nb) {
      sub_r = true;
      r.shuffle(rows);
      rows.resize(r.range(1, nb));
      for (int k : rows) eo.residual_blocks.push_back(m.rbs[k].id);
    }
    if (r.chance(0.5)) {
      sub_c = true;
      r.shuffle(cols);
      cols.resize(r.range(1, np));
      for (int k : cols) eo.parameter_blocks.push_back(m.pbs[k].x.get());
    }
    const Ref ref = Reference(m, rows, cols, eo.apply_loss_function);
    const int mask = rep == 0 ? 15 : r.range(1, 15);
    double cost = 12345;
    std::vector<double> res(r.chance(0.5) ? 3 : 0, 7.0), grad(r.chance(0.5) ? 2 : 0, 7.0);
    ceres::CRSMatrix A;
    if (r.chance(0.3)) A.values.resize(5), A.cols.resize(5), A.rows.resize(2), A.num_rows = 1;
    const bool ok = prob.Evaluate(eo, mask & 1 ? &cost : nullptr, mask & 2 ? &res : nullptr, mask & 4 ? &grad : nullptr, mask & 8 ? &A : nullptr);
    c.count("evaluate");
    c.sig(Fmt("%d/%d/%d/%d/%d/%d/%d", mask, sub_r, sub_c, eo.num_threads, eo.apply_loss_function, std::min(np, 8), std::min(nb, 8)));
    const std::string what = Fmt("mask %d rows %d%s cols %d%s loss %d threads %d", mask, (int)rows.size(), sub_r ? "sub" : "", (int)cols.size(), sub_c ? "sub" : "", eo.apply_loss_function, eo.num_threads);
    if (!c.expect(ok, "evaluate-failed", "%s", what.c_str())) return;
    if (!SameState(c, m, before, "Problem::Evaluate")) return;
    if (mask & 1 && !c.expect(Near(cost, ref.cost, ref.tol), "cost", "%.17g, reference %.17g; %s", cost, ref.cost, what.c_str())) return;
    if (mask & 2) {
      if (!c.expect((int)res.size() == ref.r.size(), "residual-size", "%zu, expected %d; %s", res.size(), (int)ref.r.size(), what.c_str())) return;
      for (size_t i = 0; i < res.size(); ++i)
        if (!c.expect(Near(res[i], ref.r[i], ref.tol), "residual", "residual %zu: %.17g, reference %.17g; %s", i, res[i], ref.r[i], what.c_str())) return;
    }
    if (mask & 4) {
      if (!c.expect((int)grad.size() == ref.g.size(), "gradient-size", "%zu, expected %d; %s", grad.size(), (int)ref.g.size(), what.c_str())) return;
      for (size_t i = 0; i < grad.size(); ++i)
        if (!c.expect(Near(grad[i], ref.g[i], ref.gtol), "gradient", "entry %zu: %.17g, reference %.17g (tolerance %.3g); %s", i, grad[i], ref.g[i], ref.gtol, what.c_str())) return;
      c.count("gradient-entries", grad.size());
    }
    if (mask & 8) {
      MatrixXd D;
      if (!CheckCRS(c, A, ref.J.rows(), ref.J.cols(), &D)) return;
      c.count("jacobian-entries", A.values.size());
      for (int i = 0; i < D.rows(); ++i)
        for (int j = 0; j < D.cols(); ++j)
          if (!c.expect(Near(D(i, j), ref.J(i, j), ref.jtol), "jacobian", "entry (%d,%d): %.17g, reference %.17g (tolerance %.3g); %s", i, j, D(i, j), ref.J(i, j), ref.jtol, what.c_str())) return;
    }
    // constancy untouched
    for (auto& p : m.pbs)
      if (!c.expect(prob.IsParameterBlockConstant(p.x.get()) == p.Fixed(), "constancy-changed", "after %s", what.c_str())) return;
    // one residual block
    if (nb) {
      const int k = r.range(0, nb - 1);
      const Model::RB& b = m.rbs[k];
      const bool loss = r.chance(0.6);
      const Model::BlockEval e = m.EvalBlock(b, before, loss);
      const int M = b.smooth->f.m;
      std::unique_ptr<double[]> rr(new double[M]);
      Blocks jac;
      std::unique_ptr<double*[]> jp(new double*[b.pbs.size()]);
      bool any_const = false;
      for (size_t i = 0; i < b.pbs.size(); ++i) {
        const Model::PB& p = m.pbs[b.pbs[i]];
        jp[i] = nullptr;
        if (p.Fixed() ? r.chance(0.02) : r.chance(0.7)) {
          jp[i] = jac.Add(M * p.tangent);
          any_const |= p.Fixed();
        }
      }
      double bc = 0;
      const int how = r.range(0, 7);
      const bool wr = how & 1, wc = how & 2, wj = how & 4;
      const bool bok = r.chance(0.5) ? prob.EvaluateResidualBlock(b.id, loss, wc ? &bc : nullptr, wr ? rr.get() : nullptr, wj ? jp.get() : nullptr)
                                     : prob.EvaluateResidualBlockAssumingParametersUnchanged(b.id, loss, wc ? &bc : nullptr, wr ? rr.get() : nullptr, wj ? jp.get() : nullptr);
      c.count("residual-block");
      if (wj && any_const) {
        c.count("constant-jacobian-refused");
        if (!c.expect(!bok, "constant-jacobian", "Jacobian of a constant block was granted")) return;
      } else {
        if (!c.expect(bok, "block-failed", "residual block %d", k)) return;
        const double tol = 2000 * kEps * (e.mag * e.mag + std::fabs(e.cost) + 1);
        if (wc && !c.expect(Near(bc, e.cost, tol), "block-cost", "%.17g, reference %.17g", bc, e.cost)) return;
        if (wr)
          for (int i = 0; i < M; ++i)
            if (!c.expect(Near(rr[i], e.r[i], tol), "block-residual", "%d: %.17g, reference %.17g", i, rr[i], e.r[i])) return;
        if (wj)
          for (size_t i = 0; i < b.pbs.size(); ++i)
            if (jp[i])
              for (int a = 0; a < M; ++a)
                for (int q = 0; q < e.J[i].cols(); ++q)
                  if (!c.expect(Near(jp[i][a * e.J[i].cols() + q], e.J[i](a, q), tol * (1 + e.J[i].cwiseAbs().maxCoeff())), "block-jacobian", "block %zu (%d,%d): %.17g, reference %.17g", i, a, q, jp[i][a * e.J[i].cols() + q], e.J[i](a, q))) return;
      }
      if (!SameState(c, m, before, "EvaluateResidualBlock")) return;
    }
    // a failing cost function
    if (nb && r.chance(0.15)) {
      const int k = rows[r.range(0, (int)rows.size() - 1)];
      m.rbs[k].smooth->fail = 1;
      double cc;
      std::vector<double> gg;
      const bool fok = prob.Evaluate(eo, &cc, nullptr, &gg, nullptr);
      m.rbs[k].smooth->fail = 0;
      c.count("failure");
      if (!c.expect(!fok, "failure-ignored", "residual block %d failed; %s", k, what.c_str())) return;
      if (!SameState(c, m, before, "failing Evaluate")) return;
      double again = 0;
      if (!c.expect(prob.Evaluate(eo, &again, nullptr, nullptr, nullptr) && Near(again, ref.cost, ref.tol), "after-failure", "%.17g, reference %.17g", again, ref.cost)) return;
    }
  }
}

// The internal evaluators used by the solvers: reduced program, every Jacobian layout.
void Internal(Case& c) {
  using namespace ceres::internal;
  auto& r = c.rng;
  Model m;
  ModelOptions o;
  o.max_pb = r.chance(0.2) ? 20 : 8;
  o.max_rb = r.chance(0.2) ? 40 : 12;
  o.schur = r.chance(0.6);
  m.Init(r, o);
  c.note("%s", m.Describe().c_str());
  Problem prob(Model::NoOwn());
  m.AddTo(&prob);
  Program* program = prob.mutable_impl()->mutable_program();
  std::vector<double*> removed;
  double fixed = 0;
  std::string error;
  std::unique_ptr<Program> reduced = program->CreateReducedProgram(&removed, &fixed, &error);
  if (!c.expect(reduced != nullptr, "reduce-failed", "%s", error.c_str())) return;
  // what must remain
  std::vector<int> rows, cols;
  std::vector<char> used(m.pbs.size(), 0);
  long double fixed_ref = 0;
  for (size_t i = 0; i < m.rbs.size(); ++i) {
    bool free = false;
    for (int k : m.rbs[i].pbs)
      if (!m.pbs[k].Fixed()) free = true, used[k] = 1;
    if (free) rows.push_back(i);
    else fixed_ref += m.EvalBlock(m.rbs[i], m.Get()).cost;
  }
  for (size_t i = 0; i < m.pbs.size(); ++i)
    if (used[i]) cols.push_back(i);
  c.count("reduced");
  if (!c.expect(reduced->NumResidualBlocks() == (int)rows.size() && reduced->NumParameterBlocks() == (int)cols.size(), "reduced-size", "%d residual and %d parameter blocks, expected %zu and %zu", reduced->NumResidualBlocks(), reduced->NumParameterBlocks(), rows.size(), cols.size())) return;
  if (!c.expect(Near(fixed, (double)fixed_ref, 1e-12 * (1 + std::fabs((double)fixed_ref)) + 1e-12), "fixed-cost", "%.17g, reference %.17g", fixed, (double)fixed_ref)) return;
  if (rows.empty()) return;
  int num_e = 0;
  for (int k : cols) num_e += k < m.num_e;
  const Ref ref = Reference(m, rows, cols, true);
  const Model::State before = m.Get();
  ContextImpl context;
  static const struct { ceres::LinearSolverType t; bool dyn; const char* n; } kinds[] = {{ceres::DENSE_QR, false, "dense"}, {ceres::SPARSE_SCHUR, false, "block"}, {ceres::SPARSE_NORMAL_CHOLESKY, true, "dynamic"}, {ceres::SPARSE_NORMAL_CHOLESKY, false, "block"}, {ceres::CGNR, false, "block"}};
  const auto kind = kinds[r.range(0, 4)];
  Evaluator::Options eo;
  eo.linear_solver_type = kind.t;
  eo.dynamic_sparsity = kind.dyn;
  eo.num_threads = r.of({1, 2, 3, 7});
  eo.num_eliminate_blocks = kind.t == ceres::SPARSE_SCHUR ? r.range(0, num_e) : 0;
  eo.context = &context;
  eo.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
  context.EnsureMinimumThreads(eo.num_threads - 1);
  std::unique_ptr<Evaluator> ev = Evaluator::Create(eo, reduced.get(), &error);
  std::unique_ptr<SparseMatrix> J = ev->CreateJacobian();
  c.sig(Fmt("%s/%d/%d/%d/%d", kind.n, (int)kind.t, eo.num_threads, std::min(eo.num_eliminate_blocks, 3), std::min<int>(cols.size(), 8)));
  if (!c.expect(ev->NumEffectiveParameters() == ref.J.cols() && ev->NumResiduals() == ref.J.rows() && J->num_rows() == ref.J.rows(), "evaluator-sizes", "%d x %d, expected %d x %d", ev->NumResiduals(), ev->NumEffectiveParameters(), (int)ref.J.rows(), (int)ref.J.cols())) return;
  std::vector<double> state(reduced->NumParameters());
  // a state different from the user's
  Model::State other = before;
  for (int k : cols) {
    Model::PB& p = m.pbs[k];
    if (r.chance(0.5) && (p.kind == kNone || p.kind == kSubset)) for (double& v : other[k]) v += r.uni(-0.5, 0.5);
  }
  for (int rep = 0; rep < 3; ++rep) {
    const Model::State& at = rep == 1 ? other : before;
    size_t q = 0;
    for (int k : cols)
      for (double v : at[k]) state[q++] = v;
    m.Set(at);
    const Ref rf = Reference(m, rows, cols, true);
    m.Set(before);
    const int mask = r.range(0, 7);
    double cost = -1;
    std::vector<double> res(rf.r.size()), grad(rf.g.size());
    if (!c.expect(ev->Evaluate(state.data(), &cost, mask & 1 ? res.data() : nullptr, mask & 2 ? grad.data() : nullptr, mask & 4 ? J.get() : nullptr), "internal-failed", "%s", kind.n)) return;
    c.count("internal-evaluate");
    if (!SameState(c, m, before, "Evaluator::Evaluate")) return;
    if (!c.expect(Near(cost, rf.cost, rf.tol), "internal-cost", "%.17g, reference %.17g", cost, rf.cost)) return;
    if (mask & 1)
      for (int i = 0; i < rf.r.size(); ++i)
        if (!c.expect(Near(res[i], rf.r[i], rf.tol), "internal-residual", "%d: %.17g, reference %.17g", i, res[i], rf.r[i])) return;
    if (mask & 2)
      for (int i = 0; i < rf.g.size(); ++i)
        if (!c.expect(Near(grad[i], rf.g[i], rf.gtol), "internal-gradient", "%s threads %d %d: %.17g, reference %.17g", kind.n, eo.num_threads, i, grad[i], rf.g[i])) return;
    if (mask & 4) {
      ceres::Matrix D;
      J->ToDenseMatrix(&D);
      if (!c.expect(D.rows() == rf.J.rows() && D.cols() == rf.J.cols(), "internal-jacobian-size", "%dx%d", (int)D.rows(), (int)D.cols())) return;
      for (int i = 0; i < D.rows(); ++i)
        for (int j = 0; j < D.cols(); ++j)
          if (!c.expect(Near(D(i, j), rf.J(i, j), rf.jtol), "internal-jacobian", "%s threads %d eliminate %d entry (%d,%d): %.17g, reference %.17g", kind.n, eo.num_threads, eo.num_eliminate_blocks, i, j, D(i, j), rf.J(i, j))) return;
    }
    // Plus over the whole state
    std::vector<double> delta(ev->NumEffectiveParameters()), plus(state.size());
    for (double& v : delta) v = r.chance(0.3) ? 0.0 : r.uni(-1, 1);
    if (!c.expect(ev->Plus(state.data(), delta.data(), plus.data()), "plus-failed", "%s", kind.n)) return;
    c.count("plus");
    size_t so = 0, dof = 0;
    for (int k : cols) {
      const Model::PB& p = m.pbs[k];
      std::vector<double> want(p.size);
      if (p.man) p.man->Plus(&state[so], &delta[dof], want.data());
      else for (int i = 0; i < p.size; ++i) want[i] = state[so + i] + delta[dof + i];
      for (int i = 0; i < p.size; ++i)
        if (!c.expect(Near(plus[so + i], want[i], 1e-14 * (1 + std::fabs(want[i]))), "plus", "block %d[%d] %.17g, reference %.17g", k, i, plus[so + i], want[i])) return;
      so += p.size;
      dof += p.tangent;
    }
  }
  program->SetParameterBlockStatePtrsToUserStatePtrs();
}

}  // namespace

VH_MAIN({"problem", Whole, 2500}, {"evaluators", Internal, 2500})
