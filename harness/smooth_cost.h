// Analytic cost function over vh::Smooth with destruction counting, call logging and faults.
#ifndef SMOOTH_COST_H_
#define SMOOTH_COST_H_
#include <atomic>

#include "ceres/cost_function.h"
#include "smooth.h"
namespace vh {

struct SmoothCost : ceres::CostFunction {
  Smooth f;
  int* destroyed = nullptr;
  int fail = 0;  // 1 always, 2 only without Jacobians, 3 only with
  mutable std::atomic<int> calls{0}, jcalls{0};
  SmoothCost(Smooth s, int* destroyed = nullptr) : f(std::move(s)), destroyed(destroyed) {
    set_num_residuals(f.m);
    for (int b : f.blocks) mutable_parameter_block_sizes()->push_back(b);
  }
  ~SmoothCost() override { if (destroyed) ++*destroyed; }
  bool Evaluate(double const* const* x, double* r, double** j) const override {
    calls.fetch_add(1, std::memory_order_relaxed);
    if (j) jcalls.fetch_add(1, std::memory_order_relaxed);
    if (fail == 1 || (fail == 2 && !j) || (fail == 3 && j)) return false;
    f.Eval(x, r);
    if (j) {
      for (int k = 0; k < f.m; ++k) {
        const auto& row = f.rows[k];
        double u = row.p, v = 0;
        for (size_t b = 0; b < f.blocks.size(); ++b)
          for (int i = 0; i < f.blocks[b]; ++i) u += x[b][i] * row.w[f.off[b] + i], v += x[b][i] * row.a[f.off[b] + i];
        const double cu = row.s * std::cos(u);
        for (size_t b = 0; b < f.blocks.size(); ++b)
          if (j[b])
            for (int i = 0; i < f.blocks[b]; ++i) {
              const double w = row.w[f.off[b] + i], a = row.a[f.off[b] + i];
              j[b][k * f.blocks[b] + i] = a + cu * w + row.q * (w * v + u * a);
            }
      }
    }
    return true;
  }
};

}  // namespace vh
#endif
