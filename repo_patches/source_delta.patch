From e9be335e7872e01e7291c49643fa3518b9ddff94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 01/51] fix: numeric_limits<Jet>::min_exponent10 reported
 max_exponent10

---
 include/ceres/jet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ceres/jet.h b/include/ceres/jet.h
index 3672011..f53c922 100644
--- a/include/ceres/jet.h
+++ b/include/ceres/jet.h
@@ -1373,7 +1373,7 @@ struct numeric_limits<ceres::Jet<T, N>> {
   static constexpr int max_digits10 = std::numeric_limits<T>::max_digits10;
   static constexpr int radix = std::numeric_limits<T>::radix;
   static constexpr int min_exponent = std::numeric_limits<T>::min_exponent;
-  static constexpr int min_exponent10 = std::numeric_limits<T>::max_exponent10;
+  static constexpr int min_exponent10 = std::numeric_limits<T>::min_exponent10;
   static constexpr int max_exponent = std::numeric_limits<T>::max_exponent;
   static constexpr int max_exponent10 = std::numeric_limits<T>::max_exponent10;
   static constexpr bool traps = std::numeric_limits<T>::traps;
-- 
2.43.0


From d33c30f316e47039b1413519e3d5f3196fe9c323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 02/51] fix: NumericDiffCostFunction reported success when the
 functor failed at a perturbed point

---
 include/ceres/numeric_diff_cost_function.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/ceres/numeric_diff_cost_function.h b/include/ceres/numeric_diff_cost_function.h
index 5889b70..e4aad2c 100644
--- a/include/ceres/numeric_diff_cost_function.h
+++ b/include/ceres/numeric_diff_cost_function.h
@@ -267,17 +267,15 @@ class NumericDiffCostFunction final
                   parameters_reference_copy[block]);
     }
 
-    internal::EvaluateJacobianForParameterBlocks<kMethod,
-                                                 kNumResiduals,
-                                                 ParameterDims>(
+    return internal::EvaluateJacobianForParameterBlocks<kMethod,
+                                                        kNumResiduals,
+                                                        ParameterDims>(
         functor_.get(),
         residuals,
         options_,
         this->num_residuals(),
         parameters_reference_copy.data(),
         jacobians);
-
-    return true;
   }
 
   const CostFunctor& functor() const { return *functor_; }
-- 
2.43.0


From 6c42847d6d0acd16752c1f5fa366155d25afd5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 03/51] fix: compute Householder vectors of short vectors
 correctly

ComputeHouseholderVector compared the squared norm of the leading
coefficients with an absolute epsilon, so a vector with a small norm was
treated as if it pointed along the last axis. SphereManifold and
LineManifold then moved it by an arbitrary angle.
---
 include/ceres/internal/householder_vector.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ceres/internal/householder_vector.h b/include/ceres/internal/householder_vector.h
index 3398d00..a3a694c 100644
--- a/include/ceres/internal/householder_vector.h
+++ b/include/ceres/internal/householder_vector.h
@@ -60,7 +60,11 @@ void ComputeHouseholderVector(const XVectorType& x,
   *beta = Scalar(0.0);
   const Scalar& x_pivot = x(x.rows() - 1);
 
-  if (sigma <= Scalar(std::numeric_limits<double>::epsilon())) {
+  // The comparison is relative to the pivot, so that the result does not depend
+  // on the norm of x.
+  if (sigma <=
+      Scalar(std::numeric_limits<double>::epsilon()) * x_pivot * x_pivot) {
+    v->head(v->rows() - 1).setZero();
     if (x_pivot < Scalar(0.0)) {
       *beta = Scalar(2.0);
     }
-- 
2.43.0


From cb632e67534ba742e94107c94f8be55388d5613f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 04/51] fix: LineManifold Jacobians for directions that are not
 unit vectors

The origin point moves by H * delta_o, which does not depend on the norm of
the direction, but its Jacobian was copied from that of the direction, which
does.
---
 include/ceres/line_manifold.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/ceres/line_manifold.h b/include/ceres/line_manifold.h
index 64b61ba..b0c4295 100644
--- a/include/ceres/line_manifold.h
+++ b/include/ceres/line_manifold.h
@@ -225,15 +225,17 @@ bool LineManifold<AmbientSpaceDimension>::PlusJacobian(
   // Clear the Jacobian as only half of the matrix is not zero.
   jacobian.setZero();
 
-  auto jacobian_d =
+  auto jacobian_o =
       jacobian
           .template topLeftCorner<AmbientSpaceDimension, TangentSpaceDimension>(
               size_, size_ - 1);
-  auto jacobian_o = jacobian.template bottomRightCorner<AmbientSpaceDimension,
+  auto jacobian_d = jacobian.template bottomRightCorner<AmbientSpaceDimension,
                                                         TangentSpaceDimension>(
       size_, size_ - 1);
   internal::ComputeSphereManifoldPlusJacobian(d, &jacobian_d);
-  jacobian_o = jacobian_d;
+  // Unlike the direction, the origin point does not scale with the norm of the
+  // direction.
+  jacobian_o = jacobian_d / d.norm();
   return true;
 }
 
@@ -279,15 +281,15 @@ bool LineManifold<AmbientSpaceDimension>::MinusJacobian(
   // Clear the Jacobian as only half of the matrix is not zero.
   jacobian.setZero();
 
-  auto jacobian_d =
+  auto jacobian_o =
       jacobian
           .template topLeftCorner<TangentSpaceDimension, AmbientSpaceDimension>(
               size_ - 1, size_);
-  auto jacobian_o = jacobian.template bottomRightCorner<TangentSpaceDimension,
+  auto jacobian_d = jacobian.template bottomRightCorner<TangentSpaceDimension,
                                                         AmbientSpaceDimension>(
       size_ - 1, size_);
   internal::ComputeSphereManifoldMinusJacobian(d, &jacobian_d);
-  jacobian_o = jacobian_d;
+  jacobian_o = jacobian_d * d.norm();
 
   return true;
 }
-- 
2.43.0


From f15debc39179dcded40eacf4f49442a78b269678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 05/51] fix: RotationMatrixToQuaternion for Eigen's coefficient
 order

For rotation matrices with a negative trace the row of the largest diagonal
element was taken from the position of a quaternion coefficient, which is
only right for the Ceres order. With EigenQuaternionOrder it read outside of
the matrix and wrote the wrong coefficients.
---
 include/ceres/rotation.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ceres/rotation.h b/include/ceres/rotation.h
index 7062ec3..550cc49 100644
--- a/include/ceres/rotation.h
+++ b/include/ceres/rotation.h
@@ -470,23 +470,23 @@ void RotationMatrixToQuaternion(
     quaternion[Order::kY] = (R(0, 2) - R(2, 0)) * t;
     quaternion[Order::kZ] = (R(1, 0) - R(0, 1)) * t;
   } else {
-    int i = Order::kW;
+    int i = 0;
     if (R(1, 1) > R(0, 0)) {
-      i = Order::kX;
+      i = 1;
     }
 
     if (R(2, 2) > R(i, i)) {
-      i = Order::kY;
+      i = 2;
     }
 
     const int j = (i + 1) % 3;
     const int k = (j + 1) % 3;
     T t = sqrt(R(i, i) - R(j, j) - R(k, k) + T(1.0));
-    quaternion[i + 1] = T(0.5) * t;
+    quaternion[Order::kX + i] = T(0.5) * t;
     t = T(0.5) / t;
     quaternion[Order::kW] = (R(k, j) - R(j, k)) * t;
-    quaternion[j + 1] = (R(j, i) + R(i, j)) * t;
-    quaternion[k + 1] = (R(k, i) + R(i, k)) * t;
+    quaternion[Order::kX + j] = (R(j, i) + R(i, j)) * t;
+    quaternion[Order::kX + k] = (R(k, i) + R(i, k)) * t;
   }
 }
 
-- 
2.43.0


From 18a4c29cfe44fc27bcfedbd9f4d6ab7452ae09f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 06/51] fix: derivative of QuaternionToAngleAxis at the
 quaternion (-1, 0, 0, 0)

q and -q are the same rotation, so close to (-1, 0, 0, 0) the angle axis is
-2 times the imaginary part. The Taylor approximation used at the origin
assumed a positive real part, which made the derivatives of Jets point the
wrong way.
---
 include/ceres/rotation.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ceres/rotation.h b/include/ceres/rotation.h
index 550cc49..addfb55 100644
--- a/include/ceres/rotation.h
+++ b/include/ceres/rotation.h
@@ -443,7 +443,9 @@ inline void QuaternionToAngleAxis(const T* quaternion, T* angle_axis) {
     // the argument is zero.  By approximating with a Taylor series,
     // and truncating at one term, the value and first derivatives will be
     // computed correctly when Jets are used.
-    k = T(2.0);
+    // The two quaternions of the zero rotation differ in the sign of the first
+    // derivative.
+    k = copysign(T(2.0), quaternion[Order::kW]);
   }
 
   angle_axis[0] = q1 * k;
-- 
2.43.0


From 64a61b2407ee16df9f57a5187ec0f22a9ae31271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 07/51] fix: derivatives of AngleAxisRotatePoint are NaN for
 tiny angles

For angles below 1e-154 the derivative of 1 / theta is infinite, which led
to NaN derivatives of Jets.
---
 include/ceres/rotation.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/ceres/rotation.h b/include/ceres/rotation.h
index addfb55..afc0f64 100644
--- a/include/ceres/rotation.h
+++ b/include/ceres/rotation.h
@@ -886,11 +886,12 @@ inline void AngleAxisRotatePoint(const T angle_axis[3],
     //
     const T costheta = cos(theta);
     const T sintheta = sin(theta);
-    const T theta_inverse = T(1.0) / theta;
 
-    const T w[3] = {angle_axis[0] * theta_inverse,
-                    angle_axis[1] * theta_inverse,
-                    angle_axis[2] * theta_inverse};
+    // Divide by theta rather than multiplying by its inverse: the derivative of
+    // the inverse overflows for tiny theta.
+    const T w[3] = {angle_axis[0] / theta,
+                    angle_axis[1] / theta,
+                    angle_axis[2] / theta};
 
     // Explicitly inlined evaluation of the cross product for
     // performance reasons.
-- 
2.43.0


From feeafd76202db9089b323a8370e2b66590317c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 08/51] fix: RotationMatrixToEulerAngles close to gimbal lock

Close to gimbal lock the first and the third angle were read off entries
that are nearly zero, each with an error of its own, so the angles returned
described a rotation which was far from the one given.
---
 include/ceres/rotation.h | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/ceres/rotation.h b/include/ceres/rotation.h
index afc0f64..aa66051 100644
--- a/include/ceres/rotation.h
+++ b/include/ceres/rotation.h
@@ -629,18 +629,31 @@ template <typename EulerSystem, typename T, int row_stride, int col_stride>
 void RotationMatrixToEulerAngles(
     const MatrixAdapter<const T, row_stride, col_stride>& R, T* euler) {
   using std::atan2;
+  using std::cos;
   using std::fpclassify;
   using std::hypot;
+  using std::sin;
 
   const auto [i, j, k] = EulerSystem::kAxes;
 
   T ea[3];
+  // Below this distance from gimbal lock, the entries which determine the first
+  // and the third angle are dominated by rounding errors. To describe the given
+  // rotation nevertheless, the third angle must then be the one that remains
+  // once the first rotation is undone.
+  constexpr double kNearGimbalLock = 1e-8;
   if constexpr (EulerSystem::kIsProperEuler) {
     const T sy = hypot(R(i, j), R(i, k));
     if (fpclassify(sy) != FP_ZERO) {
       ea[0] = atan2(R(i, j), R(i, k));
       ea[1] = atan2(sy, R(i, i));
-      ea[2] = atan2(R(j, i), -R(k, i));
+      if (sy > kNearGimbalLock) {
+        ea[2] = atan2(R(j, i), -R(k, i));
+      } else {
+        const T c0 = cos(ea[0]);
+        const T s0 = sin(ea[0]);
+        ea[2] = atan2(c0 * R(k, j) - s0 * R(k, k), c0 * R(j, j) - s0 * R(j, k));
+      }
     } else {
       ea[0] = atan2(-R(j, k), R(j, j));
       ea[1] = atan2(sy, R(i, i));
@@ -651,7 +664,13 @@ void RotationMatrixToEulerAngles(
     if (fpclassify(cy) != FP_ZERO) {
       ea[0] = atan2(R(k, j), R(k, k));
       ea[1] = atan2(-R(k, i), cy);
-      ea[2] = atan2(R(j, i), R(i, i));
+      if (cy > kNearGimbalLock) {
+        ea[2] = atan2(R(j, i), R(i, i));
+      } else {
+        const T c0 = cos(ea[0]);
+        const T s0 = sin(ea[0]);
+        ea[2] = atan2(s0 * R(i, k) - c0 * R(i, j), c0 * R(j, j) - s0 * R(j, k));
+      }
     } else {
       ea[0] = atan2(-R(j, k), R(j, j));
       ea[1] = atan2(-R(k, i), cy);
-- 
2.43.0


From 5e7c9413b8d0a41555e93bc97f845612f3feeb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:26 +0000
Subject: [PATCH 09/51] fix: take only accepted steps into account for the
 final cost

---
 internal/ceres/solver_utils.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/solver_utils.h b/internal/ceres/solver_utils.h
index 60bca91..aa1cb83 100644
--- a/internal/ceres/solver_utils.h
+++ b/internal/ceres/solver_utils.h
@@ -52,10 +52,15 @@ template <typename SummaryType>
 void SetSummaryFinalCost(SummaryType* summary) {
   summary->final_cost = summary->initial_cost;
   // We need the loop here, instead of just looking at the last
-  // iteration because the minimizer maybe making non-monotonic steps.
+  // iteration because the minimizer maybe making non-monotonic steps. Steps
+  // that were not successful do not count, the cost of such an iteration is
+  // that of a point which was rejected.
   for (int i = 0; i < summary->iterations.size(); ++i) {
     const IterationSummary& iteration_summary = summary->iterations[i];
-    summary->final_cost = std::min(iteration_summary.cost, summary->final_cost);
+    if (iteration_summary.step_is_successful) {
+      summary->final_cost =
+          std::min(iteration_summary.cost, summary->final_cost);
+    }
   }
 }
 
-- 
2.43.0


From 1ad0afa5c84e38011d59af7851bbc008582927ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:26 +0000
Subject: [PATCH 10/51] fix: replace the power series preconditioner when there
 are no E blocks

---
 internal/ceres/preconditioner.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ceres/preconditioner.cc b/internal/ceres/preconditioner.cc
index 7c51976..ed3cd8b 100644
--- a/internal/ceres/preconditioner.cc
+++ b/internal/ceres/preconditioner.cc
@@ -39,6 +39,7 @@ Preconditioner::~Preconditioner() = default;
 PreconditionerType Preconditioner::PreconditionerForZeroEBlocks(
     PreconditionerType preconditioner_type) {
   if (preconditioner_type == SCHUR_JACOBI ||
+      preconditioner_type == SCHUR_POWER_SERIES_EXPANSION ||
       preconditioner_type == CLUSTER_JACOBI ||
       preconditioner_type == CLUSTER_TRIDIAGONAL) {
     return JACOBI;
-- 
2.43.0


From 84ff753b9595649750768d5ff04ae10fa0bb9efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:57 +0000
Subject: [PATCH 11/51] fix: accept an exact solution in the conjugate
 gradients solver

---
 internal/ceres/conjugate_gradients_solver.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/ceres/conjugate_gradients_solver.h b/internal/ceres/conjugate_gradients_solver.h
index ba70a13..3494380 100644
--- a/internal/ceres/conjugate_gradients_solver.h
+++ b/internal/ceres/conjugate_gradients_solver.h
@@ -144,7 +144,7 @@ LinearSolver::Summary ConjugateGradientsSolver(
   Axpby(1.0, rhs, -1.0, tmp, r, options.context, options.num_threads);
 
   double norm_r = Norm(r, options.context, options.num_threads);
-  if (options.min_num_iterations == 0 && norm_r <= tol_r) {
+  if (norm_r == 0.0 || (options.min_num_iterations == 0 && norm_r <= tol_r)) {
     summary.termination_type = LinearSolverTerminationType::SUCCESS;
     summary.message =
         absl::StrFormat("Convergence. |r| = %e <= %e.", norm_r, tol_r);
@@ -284,10 +284,12 @@ LinearSolver::Summary ConjugateGradientsSolver(
     }
     Q0 = Q1;
 
-    // Residual based termination.
+    // Residual based termination. If the residual is zero, the solution is
+    // exact and no further iteration is possible.
     norm_r = Norm(r, options.context, options.num_threads);
-    if (norm_r <= tol_r &&
-        summary.num_iterations >= options.min_num_iterations) {
+    if (norm_r == 0.0 ||
+        (norm_r <= tol_r &&
+         summary.num_iterations >= options.min_num_iterations)) {
       summary.termination_type = LinearSolverTerminationType::SUCCESS;
       summary.message =
           absl::StrFormat("Iteration: %d Convergence. |r| = %e <= %e.",
-- 
2.43.0


From fe5e14eaaa28f702d2f545c6e293049603246bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:03 +0000
Subject: [PATCH 12/51] fix: record the step norm of every trust region step

---
 internal/ceres/trust_region_minimizer.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/ceres/trust_region_minimizer.cc b/internal/ceres/trust_region_minimizer.cc
index c2c10f8..41b01ef 100644
--- a/internal/ceres/trust_region_minimizer.cc
+++ b/internal/ceres/trust_region_minimizer.cc
@@ -110,6 +110,9 @@ void TrustRegionMinimizer::Minimize(const Minimizer::Options& options,
     ComputeCandidatePointAndEvaluateCost();
     DoInnerIterationsIfNeeded();
 
+    // Compute the norm of the step in the ambient space.
+    iteration_summary_.step_norm = (x_ - candidate_x_).norm();
+
     if (atleast_one_successful_step && ParameterToleranceReached()) {
       return;
     }
@@ -725,9 +728,6 @@ bool TrustRegionMinimizer::MinTrustRegionRadiusReached() {
 // Solver::Options::parameter_tolerance based convergence check.
 bool TrustRegionMinimizer::ParameterToleranceReached() {
   const double x_norm = x_.norm();
-
-  // Compute the norm of the step in the ambient space.
-  iteration_summary_.step_norm = (x_ - candidate_x_).norm();
   const double step_size_tolerance =
       options_.parameter_tolerance * (x_norm + options_.parameter_tolerance);
 
-- 
2.43.0


From 8f20aa6ee3875e4986d5eec643a4e1b2d6651cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:03 +0000
Subject: [PATCH 13/51] fix: run the callbacks for the last line search
 iteration

---
 internal/ceres/line_search_minimizer.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/ceres/line_search_minimizer.cc b/internal/ceres/line_search_minimizer.cc
index 1f0b05b..1c50214 100644
--- a/internal/ceres/line_search_minimizer.cc
+++ b/internal/ceres/line_search_minimizer.cc
@@ -211,11 +211,11 @@ void LineSearchMinimizer::Minimize(const Minimizer::Options& options,
   LineSearch::Summary line_search_summary;
   int num_line_search_direction_restarts = 0;
 
-  while (true) {
-    if (!RunCallbacks(options, iteration_summary, summary)) {
-      break;
-    }
+  if (!RunCallbacks(options, iteration_summary, summary)) {
+    return;
+  }
 
+  while (true) {
     iteration_start_time = absl::Now();
     if (iteration_summary.iteration >= options.max_num_iterations) {
       summary->message = "Maximum number of iterations reached.";
@@ -431,6 +431,10 @@ void LineSearchMinimizer::Minimize(const Minimizer::Options& options,
         absl::ToDoubleSeconds(line_search_summary.total_time);
     ++summary->num_successful_steps;
 
+    if (!RunCallbacks(options, iteration_summary, summary)) {
+      break;
+    }
+
     const double step_size_tolerance =
         options.parameter_tolerance * (x_norm + options.parameter_tolerance);
     if (iteration_summary.step_norm <= step_size_tolerance) {
-- 
2.43.0


From d3370e8919f9bb199d822cdafb0732b3993f9627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 14/51] fix: iterative refinement of dense Cholesky solutions

The refiner used the whole matrix, of which only the lower triangle is
valid, and used it after the factorization had overwritten it.
---
 internal/ceres/dense_cholesky.cc    | 6 ++----
 internal/ceres/dense_cholesky.h     | 5 +++--
 internal/ceres/iterative_refiner.cc | 4 ++--
 internal/ceres/iterative_refiner.h  | 3 +++
 4 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/internal/ceres/dense_cholesky.cc b/internal/ceres/dense_cholesky.cc
index 631cfbb..2d6df1b 100644
--- a/internal/ceres/dense_cholesky.cc
+++ b/internal/ceres/dense_cholesky.cc
@@ -329,22 +329,20 @@ RefinedDenseCholesky::~RefinedDenseCholesky() = default;
 
 LinearSolverTerminationType RefinedDenseCholesky::Factorize(
     const int num_cols, double* lhs, std::string* message) {
-  lhs_ = lhs;
-  num_cols_ = num_cols;
+  lhs_ = Eigen::Map<const ColMajorMatrix>(lhs, num_cols, num_cols);
   return dense_cholesky_->Factorize(num_cols, lhs, message);
 }
 
 LinearSolverTerminationType RefinedDenseCholesky::Solve(const double* rhs,
                                                         double* solution,
                                                         std::string* message) {
-  CHECK(lhs_ != nullptr);
   auto termination_type = dense_cholesky_->Solve(rhs, solution, message);
   if (termination_type != LinearSolverTerminationType::SUCCESS) {
     return termination_type;
   }
 
   iterative_refiner_->Refine(
-      num_cols_, lhs_, rhs, dense_cholesky_.get(), solution);
+      lhs_.cols(), lhs_.data(), rhs, dense_cholesky_.get(), solution);
   return LinearSolverTerminationType::SUCCESS;
 }
 
diff --git a/internal/ceres/dense_cholesky.h b/internal/ceres/dense_cholesky.h
index 4f55c58..946ba90 100644
--- a/internal/ceres/dense_cholesky.h
+++ b/internal/ceres/dense_cholesky.h
@@ -42,6 +42,7 @@
 #include "Eigen/Dense"
 #include "ceres/context_impl.h"
 #include "ceres/cuda_buffer.h"
+#include "ceres/internal/eigen.h"
 #include "ceres/linear_solver.h"
 
 #ifndef CERES_NO_CUDA
@@ -188,8 +189,8 @@ class CERES_NO_EXPORT RefinedDenseCholesky final : public DenseCholesky {
  private:
   std::unique_ptr<DenseCholesky> dense_cholesky_;
   std::unique_ptr<DenseIterativeRefiner> iterative_refiner_;
-  double* lhs_ = nullptr;
-  int num_cols_;
+  // A copy, since factorizing a matrix can overwrite it.
+  ColMajorMatrix lhs_;
 };
 
 #ifndef CERES_NO_CUDA
diff --git a/internal/ceres/iterative_refiner.cc b/internal/ceres/iterative_refiner.cc
index 54d48f3..a7f060d 100644
--- a/internal/ceres/iterative_refiner.cc
+++ b/internal/ceres/iterative_refiner.cc
@@ -86,12 +86,12 @@ void DenseIterativeRefiner::Refine(const int num_cols,
                                    DenseCholesky* cholesky,
                                    double* solution_ptr) {
   Allocate(num_cols);
-  ConstMatrixRef lhs(lhs_ptr, num_cols, num_cols);
+  Eigen::Map<const ColMajorMatrix> lhs(lhs_ptr, num_cols, num_cols);
   ConstVectorRef rhs(rhs_ptr, num_cols);
   VectorRef solution(solution_ptr, num_cols);
   std::string ignored_message;
   for (int i = 0; i < max_num_iterations_; ++i) {
-    residual_ = rhs - lhs * solution;
+    residual_ = rhs - lhs.selfadjointView<Eigen::Lower>() * solution;
     // solution += lhs^-1 residual
     cholesky->Solve(residual_.data(), correction_.data(), &ignored_message);
     solution += correction_;
diff --git a/internal/ceres/iterative_refiner.h b/internal/ceres/iterative_refiner.h
index 6607268..a382074 100644
--- a/internal/ceres/iterative_refiner.h
+++ b/internal/ceres/iterative_refiner.h
@@ -103,6 +103,9 @@ class CERES_NO_EXPORT DenseIterativeRefiner {
   // Given an initial estimate of the solution of lhs * x = rhs, use
   // max_num_iterations rounds of iterative refinement to improve it.
   //
+  // lhs is a column-major symmetric matrix. As in DenseCholesky, only its lower
+  // triangular part is used.
+  //
   // cholesky is assumed to contain an already computed factorization (or
   // an approximation thereof) of lhs.
   //
-- 
2.43.0


From c4f2f67a6fb8c9c8074e6d94e4f29c772f9bd3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 15/51] fix: terminate conjugate gradients only when it is
 better than zero

The test of the quadratic model is meaningless when the initial solution
is not zero and the model is still positive.
---
 internal/ceres/conjugate_gradients_solver.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/conjugate_gradients_solver.h b/internal/ceres/conjugate_gradients_solver.h
index 3494380..8b56b28 100644
--- a/internal/ceres/conjugate_gradients_solver.h
+++ b/internal/ceres/conjugate_gradients_solver.h
@@ -270,8 +270,10 @@ LinearSolver::Summary ConjugateGradientsSolver(
     //   Journal of Computational and Applied Mathematics,
     //   124(1-2), 45-59, 2000.
     //
+    // When the initial solution is not zero, Q(x_i) can be positive, i.e., x_i
+    // is worse than zero and zeta is negative or meaningless.
     const double zeta = summary.num_iterations * (Q1 - Q0) / Q1;
-    if (zeta < options.q_tolerance &&
+    if (Q1 < 0.0 && zeta < options.q_tolerance &&
         summary.num_iterations >= options.min_num_iterations) {
       summary.termination_type = LinearSolverTerminationType::SUCCESS;
       summary.message =
-- 
2.43.0


From 3e354ed385b59c6c4b534694fbb2c65757eab81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 16/51] fix: do not assert free space when appending rows
 without nonzeros

---
 internal/ceres/compressed_row_sparse_matrix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ceres/compressed_row_sparse_matrix.cc b/internal/ceres/compressed_row_sparse_matrix.cc
index b474cca..b0aa49b 100644
--- a/internal/ceres/compressed_row_sparse_matrix.cc
+++ b/internal/ceres/compressed_row_sparse_matrix.cc
@@ -500,8 +500,8 @@ void CompressedRowSparseMatrix::AppendRows(const CompressedRowSparseMatrix& m) {
   }
 
   // Copy the contents of m into this matrix.
-  DCHECK_LT(num_nonzeros(), cols_.size());
   if (m.num_nonzeros() > 0) {
+    DCHECK_LT(num_nonzeros(), cols_.size());
     std::copy(m.cols(), m.cols() + m.num_nonzeros(), &cols_[num_nonzeros()]);
     std::copy(
         m.values(), m.values() + m.num_nonzeros(), &values_[num_nonzeros()]);
-- 
2.43.0


From 8a3ca0deb93d464851c8a9bd0852d0d534018997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 17/51] fix: BlockSparseMatrix::AppendRows copied values by
 storage order rather than by cell

---
 internal/ceres/block_sparse_matrix.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/block_sparse_matrix.cc b/internal/ceres/block_sparse_matrix.cc
index e79d62a..21022e2 100644
--- a/internal/ceres/block_sparse_matrix.cc
+++ b/internal/ceres/block_sparse_matrix.cc
@@ -658,8 +658,17 @@ void BlockSparseMatrix::AppendRows(const BlockSparseMatrix& m) {
     FreeValues(old_values);
   }
 
-  std::copy(
-      m.values(), m.values() + m.num_nonzeros(), values_ + old_num_nonzeros);
+  // The cells of m can be stored in any order, whereas the rows appended here are
+  // stored row by row.
+  for (int i = 0; i < m_bs->rows.size(); ++i) {
+    const CompressedRow& m_row = m_bs->rows[i];
+    const CompressedRow& row = block_structure_->rows[old_num_row_blocks + i];
+    for (int c = 0; c < m_row.cells.size(); ++c) {
+      std::copy_n(m.values() + m_row.cells[c].position,
+                  m_row.block.size * m_bs->cols[m_row.cells[c].block_id].size,
+                  values_ + row.cells[c].position);
+    }
+  }
 
   if (transpose_block_structure_ == nullptr) {
     return;
-- 
2.43.0


From 5744356de1c6a498d4db454e002f60be79168b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 18/51] fix: report indefinite matrices as failures of the
 sparse Cholesky factorization

Eigen's LDLT factorization succeeds on indefinite matrices. The CLUSTER_TRIDIAGONAL
preconditioner relies on the failure to scale its off-diagonal blocks, and without it
was an indefinite matrix.
---
 internal/ceres/eigensparse.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/ceres/eigensparse.cc b/internal/ceres/eigensparse.cc
index 1bc16b6..4675814 100644
--- a/internal/ceres/eigensparse.cc
+++ b/internal/ceres/eigensparse.cc
@@ -87,6 +87,11 @@ class EigenSparseCholeskyTemplate final : public SparseCholesky {
       *message = "Eigen failure. Unable to find numeric factorization.";
       return LinearSolverTerminationType::FAILURE;
     }
+    // The LDLT factorization of an indefinite matrix succeeds too.
+    if (!(solver_.vectorD().array() > 0).all()) {
+      *message = "Eigen failure. The matrix is not positive definite.";
+      return LinearSolverTerminationType::FAILURE;
+    }
     return LinearSolverTerminationType::SUCCESS;
   }
 
-- 
2.43.0


From 26e86e0ca72b3acca11b54aa46909f8adc52d474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 19/51] fix: subspace dogleg step stays on the trust region
 boundary

The candidates are compared after projecting them onto the boundary, but
the unprojected candidate was returned. When several candidates project
onto (nearly) the same point, the one returned could belong to a root
that is not on the boundary, and the step left the trust region.
---
 internal/ceres/dogleg_strategy.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/dogleg_strategy.cc b/internal/ceres/dogleg_strategy.cc
index ef45a0b..34b8f3c 100644
--- a/internal/ceres/dogleg_strategy.cc
+++ b/internal/ceres/dogleg_strategy.cc
@@ -502,11 +502,12 @@ bool DoglegStrategy::FindMinimumOnTrustRegionBoundary(Vector2d* minimum) const {
     // in the minimum, it is safe to consider all of them after projecting
     // them onto the trust region boundary.
     if (x_i.norm() > 0) {
-      const double f_i = EvaluateSubspaceModel((radius_ / x_i.norm()) * x_i);
+      const Vector2d boundary_x_i = (radius_ / x_i.norm()) * x_i;
+      const double f_i = EvaluateSubspaceModel(boundary_x_i);
       valid_root_found = true;
       if (f_i < minimum_value) {
         minimum_value = f_i;
-        *minimum = x_i;
+        *minimum = boundary_x_i;
       }
     }
   }
-- 
2.43.0


From 535a613b73d7740df2d6b67c29e186dcd59afdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 20/51] fix: dogleg trust region radius obeys
 max_trust_region_radius

---
 internal/ceres/dogleg_strategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ceres/dogleg_strategy.cc b/internal/ceres/dogleg_strategy.cc
index 34b8f3c..8c47c52 100644
--- a/internal/ceres/dogleg_strategy.cc
+++ b/internal/ceres/dogleg_strategy.cc
@@ -624,7 +624,7 @@ void DoglegStrategy::StepAccepted(double step_quality) {
   }
 
   if (step_quality > increase_threshold_) {
-    radius_ = std::max(radius_, 3.0 * dogleg_step_norm_);
+    radius_ = std::min(max_radius_, std::max(radius_, 3.0 * dogleg_step_norm_));
   }
 
   // Reduce the regularization multiplier, in the hope that whatever
-- 
2.43.0


From 10601ae1ca607adfd6d9db956d14c986c8aeaaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:36 +0000
Subject: [PATCH 21/51] fix: FindPolynomialRoots returned NaN for a quadratic
 with a double root at zero

---
 internal/ceres/polynomial.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/polynomial.cc b/internal/ceres/polynomial.cc
index a0596c6..573fb0b 100644
--- a/internal/ceres/polynomial.cc
+++ b/internal/ceres/polynomial.cc
@@ -158,7 +158,8 @@ void FindQuadraticPolynomialRoots(const Vector& polynomial,
 
   // Real roots.
   if (D >= 0) {
-    if (real != nullptr) {
+    // If b = c = 0, both roots are zero and the formulas below divide by zero.
+    if (real != nullptr && (b != 0.0 || c != 0.0)) {
       // Stable quadratic roots according to BKP Horn.
       // http://people.csail.mit.edu/bkph/articles/Quadratics.pdf
       if (b >= 0) {
-- 
2.43.0


From 472824254a68fe809f7917fdca56ec75bd258873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:36 +0000
Subject: [PATCH 22/51] fix: restart nonlinear conjugate gradients when beta is
 undefined

---
 internal/ceres/line_search_direction.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/line_search_direction.cc b/internal/ceres/line_search_direction.cc
index b4e8a33..8764003 100644
--- a/internal/ceres/line_search_direction.cc
+++ b/internal/ceres/line_search_direction.cc
@@ -84,7 +84,9 @@ class CERES_NO_EXPORT NonlinearConjugateGradient final
     *search_direction = -current.gradient + beta * previous.search_direction;
     const double directional_derivative =
         current.gradient.dot(*search_direction);
-    if (directional_derivative > -function_tolerance_) {
+    // Written so that an undefined (NaN) direction is also restarted, e.g. when
+    // the gradient did not change and beta is 0 / 0.
+    if (!(directional_derivative <= -function_tolerance_)) {
       LOG(WARNING) << "Restarting non-linear conjugate gradients: "
                    << directional_derivative;
       *search_direction = -current.gradient;
-- 
2.43.0


From 733a15968837c42c8be1d56c4f043d5046c89e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:36 +0000
Subject: [PATCH 23/51] fix: the Wolfe line search crashed on a trial point
 with a non-finite gradient

---
 internal/ceres/line_search.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/line_search.cc b/internal/ceres/line_search.cc
index 039975d..570d516 100644
--- a/internal/ceres/line_search.cc
+++ b/internal/ceres/line_search.cc
@@ -130,16 +130,19 @@ void LineSearchFunction::Evaluate(const double x,
     return;
   }
 
-  output->value_is_valid = true;
   if (!evaluate_gradient) {
+    output->value_is_valid = true;
     return;
   }
 
+  // A point at which the requested gradient is not finite is as unusable as one
+  // at which the value is not finite.
   output->gradient = direction_.dot(output->vector_gradient);
   if (!std::isfinite(output->gradient)) {
     return;
   }
 
+  output->value_is_valid = true;
   output->gradient_is_valid = true;
   output->vector_gradient_is_valid = true;
 }
-- 
2.43.0


From 40baa175121009d08c46bd76794d759e921b8994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:36 +0000
Subject: [PATCH 24/51] fix: the Wolfe line search lost its best point when the
 last trial was invalid

---
 internal/ceres/line_search.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/ceres/line_search.cc b/internal/ceres/line_search.cc
index 570d516..b29559b 100644
--- a/internal/ceres/line_search.cc
+++ b/internal/ceres/line_search.cc
@@ -619,10 +619,10 @@ bool WolfeLineSearch::BracketingPhase(const FunctionSample& initial_position,
       // Ensure that bracket_low is always set to the step size amongst all
       // those tested which minimizes f() and satisfies the Armijo condition
       // when we terminate due to the 'artificial' max_num_iterations condition.
-      *bracket_low =
-          current.value_is_valid && current.value < bracket_low->value
-              ? current
-              : *bracket_low;
+      const FunctionSample& best = current.value_is_valid ? current : previous;
+      if (best.value < bracket_low->value) {
+        *bracket_low = best;
+      }
       break;
     }
     // Either: f(current) is invalid; or, f(current) is valid, but does not
-- 
2.43.0


From 9723e9b10af38a8ba5d02bd8c437d6059c7ecd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:00 +0000
Subject: [PATCH 25/51] fix: GetCovarianceBlock dereferenced a null covariance
 matrix

When no pair of variable parameter blocks was requested from Compute there is
no covariance matrix, and querying a variable block crashed instead of
returning false.
---
 internal/ceres/covariance_impl.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index b2449f9..d2514ed 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -171,6 +171,14 @@ bool CovarianceImpl::GetCovarianceBlockInTangentOrAmbientSpace(
     std::swap(parameter_block1, parameter_block2);
   }
 
+  // If none of the requested blocks involves a pair of variable parameter
+  // blocks, then there is no covariance matrix.
+  if (covariance_matrix_ == nullptr) {
+    LOG(ERROR) << "Unable to find covariance block for "
+               << original_parameter_block1 << " " << original_parameter_block2;
+    return false;
+  }
+
   // Find where in the covariance matrix the block is located.
   const int row_begin =
       FindOrDie(parameter_block_to_row_index_, parameter_block1);
-- 
2.43.0


From fa1071831f8611e214b453fefa5249f729b4b470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:00 +0000
Subject: [PATCH 26/51] fix: GetCovarianceBlock read past the end of the
 covariance structure

The bound was checked after the element was read, so querying a block that
was not requested read one element past the end of the array.
---
 internal/ceres/covariance_impl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index d2514ed..82d3e13 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -193,7 +193,7 @@ bool CovarianceImpl::GetCovarianceBlockInTangentOrAmbientSpace(
   // vector to determine where the set of columns corresponding to the
   // covariance block begin.
   int offset = 0;
-  while (cols_begin[offset] != col_begin && offset < row_size) {
+  while (offset < row_size && cols_begin[offset] != col_begin) {
     ++offset;
   }
 
-- 
2.43.0


From 19ea775fcc65ac467c5fa23b1f0f319c5ce14d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:00 +0000
Subject: [PATCH 27/51] fix: Covariance::Compute ignored a failed Jacobian
 evaluation

---
 internal/ceres/covariance_impl.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index 82d3e13..8ea3a40 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -555,7 +555,11 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingSuiteSparseQR() {
   }
 
   CRSMatrix jacobian;
-  problem_->Evaluate(evaluate_options_, nullptr, nullptr, nullptr, &jacobian);
+  if (!problem_->Evaluate(
+          evaluate_options_, nullptr, nullptr, nullptr, &jacobian)) {
+    LOG(ERROR) << "Evaluating the Jacobian failed.";
+    return false;
+  }
   event_logger.AddEvent("Evaluate");
 
   // Construct a compressed column form of the Jacobian.
@@ -722,7 +726,11 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingDenseSVD() {
   }
 
   CRSMatrix jacobian;
-  problem_->Evaluate(evaluate_options_, nullptr, nullptr, nullptr, &jacobian);
+  if (!problem_->Evaluate(
+          evaluate_options_, nullptr, nullptr, nullptr, &jacobian)) {
+    LOG(ERROR) << "Evaluating the Jacobian failed.";
+    return false;
+  }
   event_logger.AddEvent("Evaluate");
 
   Matrix dense_jacobian(jacobian.num_rows, jacobian.num_cols);
@@ -818,7 +826,11 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingEigenSparseQR() {
   }
 
   CRSMatrix jacobian;
-  problem_->Evaluate(evaluate_options_, nullptr, nullptr, nullptr, &jacobian);
+  if (!problem_->Evaluate(
+          evaluate_options_, nullptr, nullptr, nullptr, &jacobian)) {
+    LOG(ERROR) << "Evaluating the Jacobian failed.";
+    return false;
+  }
   event_logger.AddEvent("Evaluate");
 
   using EigenSparseMatrix = Eigen::SparseMatrix<double, Eigen::ColMajor>;
-- 
2.43.0


From 226bcef441b4166e9376ce6e89ba1f715fc0f44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:00 +0000
Subject: [PATCH 28/51] fix: the covariance of a zero Jacobian was computed as
 inf/NaN

All singular values are zero, so their ratio is NaN and passed the test
against the smallest allowed ratio.
---
 internal/ceres/covariance_impl.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index 8ea3a40..d46d883 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -773,7 +773,8 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingDenseSVD() {
   // instead of a regular inverse.
   for (int i = 0; i < max_rank; ++i) {
     const double singular_value_ratio = singular_values[i] / max_singular_value;
-    if (singular_value_ratio < min_singular_value_ratio) {
+    // The negation is needed for a zero Jacobian, whose ratio is not a number.
+    if (!(singular_value_ratio >= min_singular_value_ratio)) {
       // Since the singular values are in decreasing order, if
       // automatic truncation is enabled, then from this point on
       // all values will fail the ratio test and there is nothing to
-- 
2.43.0


From 0d10b0b19b1d469b96361cc1591579dbb011171e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:00 +0000
Subject: [PATCH 29/51] fix: DENSE_SVD accepted a Jacobian with fewer rows than
 columns

Only the min(rows, columns) singular values of the Jacobian were examined. The
remaining eigenvalues of J'J are zero, so with a non-negative null_space_rank a
rank deficient Jacobian was reported as a success, and null_space_rank dropped
too many eigenvalues.
---
 internal/ceres/covariance_impl.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index d46d883..37c3b5e 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -763,8 +763,21 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingDenseSVD() {
       sqrt(options_.min_reciprocal_condition_number);
 
   const bool automatic_truncation = (options_.null_space_rank < 0);
-  const int max_rank = std::min(num_singular_values,
-                                num_singular_values - options_.null_space_rank);
+  const int num_cols = jacobian.num_cols;
+  const int max_rank = automatic_truncation
+                           ? num_singular_values
+                           : num_cols - options_.null_space_rank;
+
+  // A Jacobian with fewer rows than columns has num_cols - num_rows eigenvalues
+  // that are exactly zero, these are part of the null space too.
+  if (max_rank > num_singular_values) {
+    LOG(ERROR) << "Error: Covariance matrix is rank deficient and "
+               << "Covariance::Options::null_space_rank is too small to enable "
+               << "the computation of a Pseudo-Inverse. "
+               << "Number of columns: " << num_cols
+               << " number of rows: " << jacobian.num_rows;
+    return false;
+  }
 
   // Compute the squared inverse of the singular values. Truncate the
   // computation based on min_singular_value_ratio and
-- 
2.43.0


From 2b66091ca4940bfbdcda555ed862730b3936aab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:25 +0000
Subject: [PATCH 30/51] fix: data race on the result of GetCovarianceMatrix

Several threads wrote the success flag without synchronisation.
---
 internal/ceres/covariance_impl.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index 37c3b5e..9012477 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -31,6 +31,7 @@
 #include "ceres/covariance_impl.h"
 
 #include <algorithm>
+#include <atomic>
 #include <cstdlib>
 #include <memory>
 #include <numeric>
@@ -325,7 +326,7 @@ bool CovarianceImpl::GetCovarianceMatrixInTangentOrAmbientSpace(
   auto workspace = std::make_unique<double[]>(
       num_threads * max_covariance_block_size * max_covariance_block_size);
 
-  bool success = true;
+  std::atomic<bool> success{true};
 
   // Technically the following code is a double nested loop where
   // i = 1:n, j = i:n.
-- 
2.43.0


From e5be02b9e4efae7c381beb7d636ece29a9ffa7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:37 +0000
Subject: [PATCH 31/51] fix: do not invalidate the iterator when removing a
 vertex with a self edge

---
 internal/ceres/graph.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/graph.h b/internal/ceres/graph.h
index f683d37..d4ec691 100644
--- a/internal/ceres/graph.h
+++ b/internal/ceres/graph.h
@@ -63,7 +63,10 @@ class CERES_NO_EXPORT Graph {
     vertices_.erase(vertex);
     const absl::flat_hash_set<Vertex>& sinks = edges_[vertex];
     for (const Vertex& s : sinks) {
-      edges_[s].erase(vertex);
+      // Do not modify the set being iterated over if there is a self edge.
+      if (s != vertex) {
+        edges_[s].erase(vertex);
+      }
     }
 
     edges_.erase(vertex);
@@ -131,7 +134,10 @@ class WeightedGraph {
       } else {
         edge_weights_.erase(std::make_pair(s, vertex));
       }
-      edges_[s].erase(vertex);
+      // Do not modify the set being iterated over if there is a self edge.
+      if (s != vertex) {
+        edges_[s].erase(vertex);
+      }
     }
 
     edges_.erase(vertex);
-- 
2.43.0


From c086443e7838978396624c259f9630dfd11144e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:07 +0000
Subject: [PATCH 32/51] fix: exclude views with an invalid weight from the
 canonical views

---
 internal/ceres/canonical_views_clustering.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/canonical_views_clustering.cc b/internal/ceres/canonical_views_clustering.cc
index a41e5f8..5c74818 100644
--- a/internal/ceres/canonical_views_clustering.cc
+++ b/internal/ceres/canonical_views_clustering.cc
@@ -31,6 +31,7 @@
 
 #include "ceres/canonical_views_clustering.h"
 
+#include <cmath>
 #include <vector>
 
 #include "absl/container/flat_hash_map.h"
@@ -141,7 +142,9 @@ void CanonicalViewsClustering::ComputeClustering(
 void CanonicalViewsClustering::FindValidViews(IntSet* valid_views) const {
   const IntSet& views = graph_->vertices();
   for (const auto& view : views) {
-    if (graph_->VertexWeight(view) != WeightedGraph<int>::InvalidWeight()) {
+    // WeightedGraph::InvalidWeight() is NaN, which compares unequal to
+    // everything, including itself.
+    if (!std::isnan(graph_->VertexWeight(view))) {
       valid_views->insert(view);
     }
   }
-- 
2.43.0


From a18fc20710a81e34141dc33127e54ef92c3f53da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:12 +0000
Subject: [PATCH 33/51] fix: gradient checking ignored the problem's evaluation
 callback

The problem with checked cost functions was created without the evaluation
callback, so the user's cost functions were evaluated unprepared.
---
 internal/ceres/gradient_checking_cost_function.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/ceres/gradient_checking_cost_function.cc b/internal/ceres/gradient_checking_cost_function.cc
index 3d206cc..51ada84 100644
--- a/internal/ceres/gradient_checking_cost_function.cc
+++ b/internal/ceres/gradient_checking_cost_function.cc
@@ -186,6 +186,8 @@ std::unique_ptr<ProblemImpl> CreateGradientCheckingProblemImpl(
       DO_NOT_TAKE_OWNERSHIP;
   gradient_checking_problem_options.manifold_ownership = DO_NOT_TAKE_OWNERSHIP;
   gradient_checking_problem_options.context = problem_impl->context();
+  gradient_checking_problem_options.evaluation_callback =
+      problem_impl->mutable_program()->mutable_evaluation_callback();
 
   NumericDiffOptions numeric_diff_options;
   numeric_diff_options.relative_step_size = relative_step_size;
-- 
2.43.0


From eb806bb4de7a4198e0fe3c335959d2151a4ef401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:13 +0000
Subject: [PATCH 34/51] fix: a point change after a Wolfe line search was not
 announced

When the line search returned a point other than the one it evaluated last,
the evaluation callback was told that the point had not changed.
---
 internal/ceres/line_search_minimizer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/line_search_minimizer.cc b/internal/ceres/line_search_minimizer.cc
index 1c50214..b17c5d0 100644
--- a/internal/ceres/line_search_minimizer.cc
+++ b/internal/ceres/line_search_minimizer.cc
@@ -356,7 +356,9 @@ void LineSearchMinimizer::Minimize(const Minimizer::Options& options,
       current_state.gradient = optimal_point.vector_gradient;
     } else {
       Evaluator::EvaluateOptions evaluate_options;
-      evaluate_options.new_evaluation_point = false;
+      // The Armijo line search returns the point it evaluated last. The Wolfe
+      // line search may return an earlier one.
+      evaluate_options.new_evaluation_point = options.line_search_type != ARMIJO;
       if (!evaluator->Evaluate(evaluate_options,
                                optimal_point.vector_x.data(),
                                &(current_state.cost),
-- 
2.43.0


From 7262e697ef7ebf7343631823969f0815e8b1ea5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:17 +0000
Subject: [PATCH 35/51] fix: TinySolver tested and reported the scaled gradient

Summary::gradient_max_norm and gradient_tolerance are documented to be about
J'f(x), but the Jacobi scaling of J was left in.
---
 include/ceres/tiny_solver.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ceres/tiny_solver.h b/include/ceres/tiny_solver.h
index 093bc36..26c977b 100644
--- a/include/ceres/tiny_solver.h
+++ b/include/ceres/tiny_solver.h
@@ -235,7 +235,9 @@ class TinySolver {
     jacobian_ = jacobian_ * jacobi_scaling_.asDiagonal();
     jtj_ = jacobian_.transpose() * jacobian_;
     g_ = jacobian_.transpose() * residuals_;
-    summary.gradient_max_norm = g_.array().abs().maxCoeff();
+    // g_ is the gradient with respect to the scaled parameters.
+    summary.gradient_max_norm =
+        (g_.array() / jacobi_scaling_.array()).abs().maxCoeff();
     cost_ = residuals_.squaredNorm() / 2;
     return true;
   }
-- 
2.43.0


From 79d86d88b6504a94a8da5d5e32e2cf9a8aed9398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:17 +0000
Subject: [PATCH 36/51] fix: TinySolver's function_tolerance was absolute

It is documented to be relative to the cost: a problem with a small cost was
reported to have converged wherever it started.
---
 include/ceres/tiny_solver.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/ceres/tiny_solver.h b/include/ceres/tiny_solver.h
index 26c977b..547dcde 100644
--- a/include/ceres/tiny_solver.h
+++ b/include/ceres/tiny_solver.h
@@ -299,6 +299,9 @@ class TinySolver {
       function(&x_new_[0], &f_x_new_[0], nullptr);
 
       const Scalar cost_change = (2 * cost_ - f_x_new_.squaredNorm());
+      // Twice the tolerance on the change, like cost_change.
+      const Scalar cost_change_tolerance =
+          options.function_tolerance * 2 * cost_;
       // TODO(sameeragarwal): Better more numerically stable evaluation.
       const Scalar model_cost_change = lm_step_.dot(2 * g_ - jtj_ * lm_step_);
 
@@ -313,7 +316,7 @@ class TinySolver {
 
         // TODO(sameeragarwal): Deal with failure.
         Update(function, x);
-        if (std::abs(cost_change) < options.function_tolerance) {
+        if (std::abs(cost_change) < cost_change_tolerance) {
           summary.status = COST_CHANGE_TOO_SMALL;
           break;
         }
@@ -337,7 +340,7 @@ class TinySolver {
         // or the local linear model was not good (rho < 0).
 
         // Additionally if the cost change is too small, then terminate.
-        if (std::abs(cost_change) < options.function_tolerance) {
+        if (std::abs(cost_change) < cost_change_tolerance) {
           // Terminate
           summary.status = COST_CHANGE_TOO_SMALL;
           break;
-- 
2.43.0


From c1e85f9808ced8469f7c91f6c29e9101194e09e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:13 +0000
Subject: [PATCH 37/51] fix: TinySolver accepted steps which increase the cost

When the normal equations are ill conditioned the predicted change of the
cost can be negative, so its ratio to an actual increase is positive.
---
 include/ceres/tiny_solver.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ceres/tiny_solver.h b/include/ceres/tiny_solver.h
index 547dcde..cb41c3e 100644
--- a/include/ceres/tiny_solver.h
+++ b/include/ceres/tiny_solver.h
@@ -309,9 +309,11 @@ class TinySolver {
       // in error that would be obtained if the problem was linear. See [1]
       // for details.
       Scalar rho(cost_change / model_cost_change);
-      if (rho > 0) {
+      if (rho > 0 && cost_change > 0) {
         // Accept the Levenberg-Marquardt step because the linear
-        // model fits well.
+        // model fits well. rho is also positive if the cost increases and
+        // the normal equations were solved so badly that the model predicts
+        // an increase.
         x = x_new_;
 
         // TODO(sameeragarwal): Deal with failure.
-- 
2.43.0


From d08c980f5c228d6f14d6e6f278a773c50beac27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:26 +0000
Subject: [PATCH 38/51] fix: a failing Manifold::PlusJacobian left dangling
 parameter state pointers

Program::StateVectorToParameterBlocks and
Program::SetParameterBlockStatePtrsToUserStatePtrs returned at the first
parameter block whose PlusJacobian failed, so that the blocks behind it kept
pointing to an earlier state vector, which may have been freed since.
---
 internal/ceres/program.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/ceres/program.cc b/internal/ceres/program.cc
index 826fdab..36638ac 100644
--- a/internal/ceres/program.cc
+++ b/internal/ceres/program.cc
@@ -79,13 +79,16 @@ EvaluationCallback* Program::mutable_evaluation_callback() {
 }
 
 bool Program::StateVectorToParameterBlocks(const double* state) {
+  // Every parameter block is updated even if one of them fails, so that none of
+  // them is left pointing to the memory of an earlier state vector.
+  bool status = true;
   for (auto* parameter_block : parameter_blocks_) {
     if (!parameter_block->IsConstant() && !parameter_block->SetState(state)) {
-      return false;
+      status = false;
     }
     state += parameter_block->Size();
   }
-  return true;
+  return status;
 }
 
 void Program::ParameterBlocksToStateVector(double* state) const {
@@ -102,13 +105,15 @@ void Program::CopyParameterBlockStateToUserState() {
 }
 
 bool Program::SetParameterBlockStatePtrsToUserStatePtrs() {
+  // See the comment in StateVectorToParameterBlocks.
+  bool status = true;
   for (auto* parameter_block : parameter_blocks_) {
     if (!parameter_block->IsConstant() &&
         !parameter_block->SetState(parameter_block->user_state())) {
-      return false;
+      status = false;
     }
   }
-  return true;
+  return status;
 }
 
 bool Program::Plus(const double* state,
-- 
2.43.0


From c7e006d6fa43e6a88fefcec7cfb44876bd31cb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:26 +0000
Subject: [PATCH 39/51] fix: Problem::EvaluateResidualBlock crashed if
 Manifold::PlusJacobian failed

---
 internal/ceres/problem_impl.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/internal/ceres/problem_impl.cc b/internal/ceres/problem_impl.cc
index ef5851b..29c6f31 100644
--- a/internal/ceres/problem_impl.cc
+++ b/internal/ceres/problem_impl.cc
@@ -768,10 +768,9 @@ bool ProblemImpl::EvaluateResidualBlock(ResidualBlock* residual_block,
                    << ". But the parameter block is marked constant.";
         return false;
       }
-    } else {
-      CHECK(parameter_block->SetState(parameter_block->user_state()))
-          << "Congratulations, you found a Ceres bug! Please report this error "
-          << "to the developers.";
+    } else if (!parameter_block->SetState(parameter_block->user_state())) {
+      // The user's Manifold::PlusJacobian failed.
+      return false;
     }
   }
 
-- 
2.43.0


From 16f05b261b5650d34c52c2e62d332d0de7eb89cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:10 +0000
Subject: [PATCH 40/51] fix: non-finite loss function values were accepted

A LossFunction returning a NaN or an infinity crashed the Corrector or gave NaN
gradients, which pass the gradient tolerance test as convergence.
---
 internal/ceres/residual_block.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/ceres/residual_block.cc b/internal/ceres/residual_block.cc
index 311d0a4..e156714 100644
--- a/internal/ceres/residual_block.cc
+++ b/internal/ceres/residual_block.cc
@@ -32,7 +32,9 @@
 #include "ceres/residual_block.h"
 
 #include <algorithm>
+#include <cmath>
 #include <cstddef>
+#include <limits>
 #include <vector>
 
 #include "absl/container/fixed_array.h"
@@ -165,6 +167,15 @@ bool ResidualBlock::Evaluate(const bool apply_loss_function,
 
   double rho[3];
   loss_function_->Evaluate(squared_norm, rho);
+  // The second derivative of a loss function may legitimately be -infinity at a
+  // kink.
+  if (!std::isfinite(rho[0]) || !std::isfinite(rho[1]) || std::isnan(rho[2]) ||
+      rho[2] == std::numeric_limits<double>::infinity()) {
+    LOG(WARNING) << "LossFunction::Evaluate returned a non-finite value for "
+                 << "s = " << squared_norm << ": rho = [" << rho[0] << ", "
+                 << rho[1] << ", " << rho[2] << "]";
+    return false;
+  }
   *cost = 0.5 * rho[0];
 
   // No jacobians and not outputting residuals? All done. Doing an early exit
-- 
2.43.0


From d455d24d244e066575ede8f72ab19114e2fbf17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:28 +0000
Subject: [PATCH 41/51] fix: a failing Manifold::Plus was reported as parameter
 convergence

If Plus fails after a successful step the candidate point still is the current
one, so that the step norm was zero and the solver terminated with
"Parameter tolerance reached".
---
 internal/ceres/trust_region_minimizer.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/trust_region_minimizer.cc b/internal/ceres/trust_region_minimizer.cc
index 41b01ef..39b0f32 100644
--- a/internal/ceres/trust_region_minimizer.cc
+++ b/internal/ceres/trust_region_minimizer.cc
@@ -110,8 +110,13 @@ void TrustRegionMinimizer::Minimize(const Minimizer::Options& options,
     ComputeCandidatePointAndEvaluateCost();
     DoInnerIterationsIfNeeded();
 
-    // Compute the norm of the step in the ambient space.
-    iteration_summary_.step_norm = (x_ - candidate_x_).norm();
+    // Compute the norm of the step in the ambient space. If the candidate point
+    // could not be computed or evaluated, candidate_x_ may be anything, e.g. x_
+    // itself, so use the norm of the step in the tangent space.
+    iteration_summary_.step_norm =
+        candidate_cost_ < std::numeric_limits<double>::max()
+            ? (x_ - candidate_x_).norm()
+            : delta_.norm();
 
     if (atleast_one_successful_step && ParameterToleranceReached()) {
       return;
-- 
2.43.0


From 07e7579838be2412dada37d08d4df65e490738ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:28 +0000
Subject: [PATCH 42/51] fix: non-finite points returned by Manifold::Plus were
 accepted

---
 internal/ceres/parameter_block.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/ceres/parameter_block.h b/internal/ceres/parameter_block.h
index a914087..88568f4 100644
--- a/internal/ceres/parameter_block.h
+++ b/internal/ceres/parameter_block.h
@@ -230,6 +230,11 @@ class CERES_NO_EXPORT ParameterBlock {
       if (!manifold_->Plus(x, delta, x_plus_delta)) {
         return false;
       }
+      if (!IsArrayValid(size_, x_plus_delta)) {
+        LOG(WARNING) << "Manifold::Plus computation returned an invalid vector "
+                     << "for x: " << ConstVectorRef(x, size_).transpose();
+        return false;
+      }
     } else {
       VectorRef(x_plus_delta, size_) =
           ConstVectorRef(x, size_) + ConstVectorRef(delta, size_);
-- 
2.43.0


From 102d9381670ff24dfdecfd298058889f2f2da640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:43 +0000
Subject: [PATCH 43/51] fix: covariances were lifted with the result of a
 failing PlusJacobian

---
 internal/ceres/covariance_impl.cc | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index 9012477..a79586d 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -48,12 +48,14 @@
 #include "absl/container/flat_hash_set.h"
 #include "absl/log/check.h"
 #include "absl/log/log.h"
+#include "ceres/array_utils.h"
 #include "ceres/compressed_col_sparse_matrix_utils.h"
 #include "ceres/compressed_row_sparse_matrix.h"
 #include "ceres/covariance.h"
 #include "ceres/crs_matrix.h"
 #include "ceres/event_logger.h"
 #include "ceres/internal/eigen.h"
+#include "ceres/manifold.h"
 #include "ceres/map_util.h"
 #include "ceres/parallel_for.h"
 #include "ceres/parallel_utils.h"
@@ -103,6 +105,20 @@ void CheckForDuplicates(std::vector<T> blocks) {
   }
 }
 
+// Returns false if the manifold failed or did not return a finite matrix.
+static bool ComputePlusJacobian(const Manifold& manifold,
+                                const double* x,
+                                Matrix* jacobian) {
+  InvalidateArray(jacobian->size(), jacobian->data());
+  if (!manifold.PlusJacobian(x, jacobian->data()) ||
+      !IsArrayValid(jacobian->size(), jacobian->data())) {
+    LOG(ERROR) << "Manifold::PlusJacobian computation failed for x: "
+               << ConstVectorRef(x, manifold.AmbientSize()).transpose();
+    return false;
+  }
+  return true;
+}
+
 bool CovarianceImpl::Compute(const CovarianceBlocks& covariance_blocks,
                              ProblemImpl* problem) {
   CheckForDuplicates<std::pair<const double*, const double*>>(
@@ -254,8 +270,9 @@ bool CovarianceImpl::GetCovarianceBlockInTangentOrAmbientSpace(
   Matrix block1_jacobian(block1_size, block1_tangent_size);
   if (manifold1 == nullptr) {
     block1_jacobian.setIdentity();
-  } else {
-    manifold1->PlusJacobian(parameter_block1, block1_jacobian.data());
+  } else if (!ComputePlusJacobian(
+                 *manifold1, parameter_block1, &block1_jacobian)) {
+    return false;
   }
 
   Matrix block2_jacobian(block2_size, block2_tangent_size);
@@ -265,8 +282,9 @@ bool CovarianceImpl::GetCovarianceBlockInTangentOrAmbientSpace(
   } else {
     if (manifold2 == nullptr) {
       block2_jacobian.setIdentity();
-    } else {
-      manifold2->PlusJacobian(parameter_block2, block2_jacobian.data());
+    } else if (!ComputePlusJacobian(
+                   *manifold2, parameter_block2, &block2_jacobian)) {
+      return false;
     }
   }
 
-- 
2.43.0


From e47c98c268f0c72bdc370aabe1e00f585668b9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:43 +0000
Subject: [PATCH 44/51] fix: a NaN gradient was reported as gradient
 convergence

---
 internal/ceres/trust_region_minimizer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/trust_region_minimizer.cc b/internal/ceres/trust_region_minimizer.cc
index 39b0f32..c866363 100644
--- a/internal/ceres/trust_region_minimizer.cc
+++ b/internal/ceres/trust_region_minimizer.cc
@@ -694,8 +694,9 @@ bool TrustRegionMinimizer::MaxSolverIterationsReached() {
 // Check convergence based on the max norm of the gradient (only for
 // iterations where the step was declared successful).
 bool TrustRegionMinimizer::GradientToleranceReached() {
+  // The comparison is such that a NaN is not taken for convergence.
   if (!iteration_summary_.step_is_successful ||
-      iteration_summary_.gradient_max_norm > options_.gradient_tolerance) {
+      !(iteration_summary_.gradient_max_norm <= options_.gradient_tolerance)) {
     return false;
   }
 
-- 
2.43.0


From e775136b3faaebbacb174295a644e99dfa886a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:04 +0000
Subject: [PATCH 45/51] fix: GradientProblemSolver accepted non-finite costs
 and gradients

A FirstOrderFunction returning a NaN or an infinite cost at the initial or at an
accepted point was reported as convergence.
---
 internal/ceres/gradient_problem_evaluator.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/gradient_problem_evaluator.h b/internal/ceres/gradient_problem_evaluator.h
index d272f04..3469c34 100644
--- a/internal/ceres/gradient_problem_evaluator.h
+++ b/internal/ceres/gradient_problem_evaluator.h
@@ -31,6 +31,7 @@
 #ifndef CERES_INTERNAL_GRADIENT_PROBLEM_EVALUATOR_H_
 #define CERES_INTERNAL_GRADIENT_PROBLEM_EVALUATOR_H_
 
+#include <cmath>
 #include <map>
 #include <memory>
 #include <string>
@@ -40,6 +41,7 @@
 #include "ceres/execution_summary.h"
 #include "ceres/gradient_problem.h"
 #include "ceres/internal/disable_warnings.h"
+#include "ceres/internal/eigen.h"
 #include "ceres/internal/export.h"
 #include "ceres/sparse_matrix.h"
 
@@ -70,7 +72,17 @@ class CERES_NO_EXPORT GradientProblemEvaluator final : public Evaluator {
     ScopedExecutionTimer call_type_timer(
         gradient == nullptr ? "Evaluator::Residual" : "Evaluator::Jacobian",
         &execution_summary_);
-    return problem_.Evaluate(state, cost, gradient);
+    if (!problem_.Evaluate(state, cost, gradient)) {
+      return false;
+    }
+    if (!std::isfinite(*cost) ||
+        (gradient != nullptr &&
+         !ConstVectorRef(gradient, NumEffectiveParameters()).allFinite())) {
+      LOG(ERROR) << "FirstOrderFunction::Evaluate returned a cost or gradient "
+                 << "which is not finite. Evaluation failed.";
+      return false;
+    }
+    return true;
   }
 
   bool Plus(const double* state,
-- 
2.43.0


From 1729edfd847b61e5dfd035d552e48acfa05e7020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:34 +0000
Subject: [PATCH 46/51] fix: GradientChecker ignored a failing
 Manifold::PlusJacobian

---
 internal/ceres/gradient_checker.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/gradient_checker.cc b/internal/ceres/gradient_checker.cc
index dffbba2..195c78c 100644
--- a/internal/ceres/gradient_checker.cc
+++ b/internal/ceres/gradient_checker.cc
@@ -106,7 +106,10 @@ bool EvaluateCostFunction(const CostFunction* function,
       int tangent_size = manifolds.at(i)->TangentSize();
       CHECK_EQ(jacobians->at(i).cols(), ambient_size);
       Matrix ambient_J_tangent(ambient_size, tangent_size);
-      manifolds.at(i)->PlusJacobian(parameters[i], ambient_J_tangent.data());
+      if (!manifolds.at(i)->PlusJacobian(parameters[i],
+                                         ambient_J_tangent.data())) {
+        return false;
+      }
       local_jacobians->at(i).noalias() = jacobians->at(i) * ambient_J_tangent;
     }
   }
-- 
2.43.0


From 685b36e0e2d15dfa081620189b2372d38557a8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:10 +0000
Subject: [PATCH 47/51] fix: a failed gradient check could move the parameters

If the minimizer terminated for another reason before the callback could abort
it, the solve was reported as a FAILURE but the parameters had been updated.
---
 internal/ceres/solver.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/solver.cc b/internal/ceres/solver.cc
index 97c1d87..8301731 100644
--- a/internal/ceres/solver.cc
+++ b/internal/ceres/solver.cc
@@ -643,7 +643,10 @@ void PostSolveSummarize(const internal::PreprocessedProblem& pp,
   }
 }
 
-void Minimize(internal::PreprocessedProblem* pp, Solver::Summary* summary) {
+void Minimize(
+    internal::PreprocessedProblem* pp,
+    const internal::GradientCheckingIterationCallback& gradient_checking_callback,
+    Solver::Summary* summary) {
   using internal::Minimizer;
   using internal::Program;
 
@@ -666,6 +669,12 @@ void Minimize(internal::PreprocessedProblem* pp, Solver::Summary* summary) {
   minimizer->Minimize(
       pp->minimizer_options, pp->reduced_parameters.data(), summary);
 
+  // The minimizer may terminate for another reason before the callback gets to
+  // stop it. The solve is a failure nevertheless, so the result is not used.
+  if (gradient_checking_callback.gradient_error_detected()) {
+    summary->termination_type = FAILURE;
+  }
+
   program->StateVectorToParameterBlocks(
       summary->IsSolutionUsable() ? pp->reduced_parameters.data()
                                   : original_reduced_parameters.data());
@@ -824,7 +833,7 @@ void Solver::Solve(const Solver::Options& options,
 
   if (status) {
     const absl::Time minimizer_start_time = absl::Now();
-    Minimize(&pp, summary);
+    Minimize(&pp, gradient_checking_callback, summary);
     summary->minimizer_time_in_seconds =
         absl::ToDoubleSeconds(absl::Now() - minimizer_start_time);
   } else {
-- 
2.43.0


From d9521b3962a1b1be917a2ddaa6d480b9201765b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:13 +0000
Subject: [PATCH 48/51] fix: min_lm_diagonal = 0 passed Options::IsValid and
 crashed the strategies

---
 internal/ceres/solver.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/solver.cc b/internal/ceres/solver.cc
index 8301731..69287f2 100644
--- a/internal/ceres/solver.cc
+++ b/internal/ceres/solver.cc
@@ -411,8 +411,8 @@ bool TrustRegionOptionsAreValid(const Solver::Options& options,
   OPTION_LE_OPTION(min_trust_region_radius, initial_trust_region_radius);
   OPTION_LE_OPTION(initial_trust_region_radius, max_trust_region_radius);
   OPTION_GE(min_relative_decrease, 0.0);
-  OPTION_GE(min_lm_diagonal, 0.0);
-  OPTION_GE(max_lm_diagonal, 0.0);
+  OPTION_GT(min_lm_diagonal, 0.0);
+  OPTION_GT(max_lm_diagonal, 0.0);
   OPTION_LE_OPTION(min_lm_diagonal, max_lm_diagonal);
   OPTION_GE(max_num_consecutive_invalid_steps, 0);
   OPTION_GT(eta, 0.0);
-- 
2.43.0


From 58ed3cba5f3e4288583960a97d873d81dc9194ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:42 +0000
Subject: [PATCH 49/51] fix: an unused and unavailable CUDA_SPARSE crashed
 Schur based solves

---
 internal/ceres/block_jacobian_writer.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/block_jacobian_writer.cc b/internal/ceres/block_jacobian_writer.cc
index 34cdc1b..93f1088 100644
--- a/internal/ceres/block_jacobian_writer.cc
+++ b/internal/ceres/block_jacobian_writer.cc
@@ -258,8 +258,12 @@ std::unique_ptr<SparseMatrix> BlockJacobianWriter::CreateJacobian() const {
     std::sort(row->cells.begin(), row->cells.end(), CellLessThan);
   }
 
-  return std::make_unique<BlockSparseMatrix>(
-      bs, options_.sparse_linear_algebra_library_type == CUDA_SPARSE);
+  // Not every linear solver needs the sparse linear algebra library, so the
+  // library asked for may be one which is not available.
+  const bool use_page_locked_memory =
+      options_.sparse_linear_algebra_library_type == CUDA_SPARSE &&
+      IsSparseLinearAlgebraLibraryTypeAvailable(CUDA_SPARSE);
+  return std::make_unique<BlockSparseMatrix>(bs, use_page_locked_memory);
 }
 
 }  // namespace ceres::internal
-- 
2.43.0


From f0cc1dd429e138dbe70f517d856d8bd1613e19f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:43 +0000
Subject: [PATCH 50/51] fix: replacing ITERATIVE_SCHUR by CGNR crashed if
 CUDA_SPARSE is unavailable

---
 internal/ceres/evaluator.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/evaluator.cc b/internal/ceres/evaluator.cc
index 516d701..8248987 100644
--- a/internal/ceres/evaluator.cc
+++ b/internal/ceres/evaluator.cc
@@ -69,7 +69,11 @@ std::unique_ptr<Evaluator> Evaluator::Create(const Evaluator::Options& options,
           options, program);
     }
     case CGNR: {
-      if (options.sparse_linear_algebra_library_type == CUDA_SPARSE) {
+      // ITERATIVE_SCHUR, which does not need the sparse linear algebra library,
+      // is replaced by CGNR if the problem has no Schur structure, so the
+      // library may be one which is not available.
+      if (options.sparse_linear_algebra_library_type == CUDA_SPARSE &&
+          IsSparseLinearAlgebraLibraryTypeAvailable(CUDA_SPARSE)) {
         return std::make_unique<ProgramEvaluator<ScratchEvaluatePreparer,
                                                  CompressedRowJacobianWriter>>(
             options, program);
-- 
2.43.0


From 73973f07556a655a7cf7fa842dde1ecd7d518d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:02 +0000
Subject: [PATCH 51/51] fix: derivative of cbrt for numbers whose square
 overflows or underflows

---
 include/ceres/jet.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ceres/jet.h b/include/ceres/jet.h
index f53c922..07a8885 100644
--- a/include/ceres/jet.h
+++ b/include/ceres/jet.h
@@ -693,8 +693,9 @@ inline Jet<T, N> ceil(const Jet<T, N>& f) {
 // cbrt(a + h) ~= cbrt(a) + h / (3 a ^ (2/3))
 template <typename T, int N>
 inline Jet<T, N> cbrt(const Jet<T, N>& f) {
-  const T derivative = T(1.0) / (T(3.0) * cbrt(f.a * f.a));
-  return Jet<T, N>(cbrt(f.a), f.v * derivative);
+  const T tmp = cbrt(f.a);
+  const T derivative = T(1.0) / (T(3.0) * tmp * tmp);
+  return Jet<T, N>(tmp, f.v * derivative);
 }
 
 // exp2(x + h) = 2^(x+h) ~= 2^x + h*2^x*log(2)
-- 
2.43.0

