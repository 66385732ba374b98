From 5b211a55f9c440f9e192e368aa5cb256f2bbfa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 01/15] fix: MpcData::gemvGT dropped the B(i)' term when a is
 not +1 or -1

---
 fbstab/components/mpc_data.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fbstab/components/mpc_data.cc b/fbstab/components/mpc_data.cc
index 0bed8c5..9a2face 100644
--- a/fbstab/components/mpc_data.cc
+++ b/fbstab/components/mpc_data.cc
@@ -191,6 +191,7 @@ void MpcData::gemvGT(const Eigen::VectorXd& x, double a, double b,
       ui.noalias() -= B.transpose() * vp1;
     } else {
       xi.noalias() += a * A.transpose().lazyProduct(vp1);
+      ui.noalias() += a * B.transpose().lazyProduct(vp1);
     }
   }
   // The i = N step of the recursion.
-- 
2.43.0


From 4578f96ffa515c93e922341fc94aae03ae7a349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 02/15] fix: report the residual of the returned point on a
 proximal iteration timeout

---
 fbstab/fbstab_algorithm-impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fbstab/fbstab_algorithm-impl.h b/fbstab/fbstab_algorithm-impl.h
index bc5ce42..6658f26 100644
--- a/fbstab/fbstab_algorithm-impl.h
+++ b/fbstab/fbstab_algorithm-impl.h
@@ -216,7 +216,9 @@ SolverOut FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::Solve(
     prox_iters_++;
   }  // end proximal loop
 
-  // Timeout exit.
+  // Timeout exit. The residual workspace was last evaluated before the duals
+  // were projected, re-evaluate it at the point that is returned.
+  rk_->PenalizedNaturalResidual(*xk_);
   SolverOut output = PrepareOutput(ExitFlag::MAXITERATIONS, prox_iters_,
                                    newton_iters_, *rk_, start_time, E0, os);
   WriteVariable(*xk_, z0, l0, v0, y0);
-- 
2.43.0


From 4a26d89113f5ec4e76397fb890e3af940f856929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 03/15] fix: accepted subproblem tolerances no longer make
 Solve throw from saturate

---
 fbstab/fbstab_algorithm-impl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fbstab/fbstab_algorithm-impl.h b/fbstab/fbstab_algorithm-impl.h
index 6658f26..1f41908 100644
--- a/fbstab/fbstab_algorithm-impl.h
+++ b/fbstab/fbstab_algorithm-impl.h
@@ -23,6 +23,7 @@ inline void AlgorithmParameters::ValidateOptions() {
 
   inner_tol_max = tools::saturate(inner_tol_max, 1e-8, 1e2);
   inner_tol_min = tools::saturate(inner_tol_min, 1e-14, 1e-2);
+  inner_tol_max = std::max(inner_tol_max, inner_tol_min);
 
   max_newton_iters = std::max(max_newton_iters, 1);
   max_prox_iters = std::max(max_prox_iters, 1);
@@ -176,8 +177,8 @@ SolverOut FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::Solve(
     // TODO(dliaomcp@umich.edu) Implement adaptive rule for decreasing sigma.
 
     // Update subproblem tolerance.
-    inner_tol =
-        tools::saturate(inner_tol * opts_.delta, opts_.inner_tol_min, Ek);
+    inner_tol = tools::saturate(inner_tol * opts_.delta, opts_.inner_tol_min,
+                                std::max(Ek, opts_.inner_tol_min));
 
     // Solve the proximal subproblem.
     xi_->Copy(*xk_);
-- 
2.43.0


From 677c58da019f5281b0803cbabede00c9c1a99a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 04/15] fix: FBstabDense::Solve checks the size of the
 constraint margin output

---
 fbstab/fbstab_dense.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbstab/fbstab_dense.h b/fbstab/fbstab_dense.h
index 7e309c5..3c36fd8 100644
--- a/fbstab/fbstab_dense.h
+++ b/fbstab/fbstab_dense.h
@@ -172,7 +172,8 @@ class FBstabDense {
       throw std::runtime_error(
           "In FBstabDense::Solve: mismatch between *this and data dimensions.");
     }
-    if (nz_ != x.z.size() || x.l.size() != nl_ || nv_ != x.v.size()) {
+    if (nz_ != x.z.size() || x.l.size() != nl_ || nv_ != x.v.size() ||
+        nv_ != x.y.size()) {
       throw std::runtime_error(
           "In FBstabDense::Solve: mismatch between *this and initial guess "
           "dimensions.");
-- 
2.43.0


From 7369022dc5370cab364942186d06f2540a1e043a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 05/15] fix: DenseCholeskySolver performs its documented size
 and linked data checks

---
 fbstab/components/dense_cholesky_solver.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fbstab/components/dense_cholesky_solver.cc b/fbstab/components/dense_cholesky_solver.cc
index 3e6bdda..224be75 100644
--- a/fbstab/components/dense_cholesky_solver.cc
+++ b/fbstab/components/dense_cholesky_solver.cc
@@ -9,8 +9,7 @@
 
 namespace fbstab {
 
-DenseCholeskySolver::DenseCholeskySolver(int nz, int nl, int nv)
-    : ldlt_(nz + nl) {
+DenseCholeskySolver::DenseCholeskySolver(int nz, int nl, int nv) {
   if (nz <= 0 || nv <= 0 || nl < 0) {
     throw std::runtime_error(
         "In DenseCholeskySolver: nz and nv must be > 0 and nl >= 0");
@@ -21,6 +20,7 @@ DenseCholeskySolver::DenseCholeskySolver(int nz, int nl, int nv)
 
   K_.resize(nz_ + nl_, nz_ + nl_);
   E_.resize(nz_, nz_);
+  ldlt_ = Eigen::LDLT<Eigen::MatrixXd>(nz_ + nl_);
   r1_.resize(nz_ + nl_);
   r2_.resize(nv_);
   Gamma_.resize(nv_);
@@ -36,7 +36,7 @@ bool DenseCholeskySolver::Initialize(const FullVariable& x,
     throw std::runtime_error(
         "In DenseCholeskySolver::Factor: inputs must be the same size");
   }
-  if (xbar.nz_ != nz_ || xbar.nv_ != nv_) {
+  if (xbar.nz_ != nz_ || xbar.nl_ != nl_ || xbar.nv_ != nv_) {
     throw std::runtime_error(
         "In DenseCholeskySolver::Factor: inputs must match object size.");
   }
@@ -79,6 +79,7 @@ bool DenseCholeskySolver::Initialize(const FullVariable& x,
 }
 
 bool DenseCholeskySolver::Solve(const FullResidual& r, FullVariable* x) const {
+  NullDataCheck();
   if (x == nullptr) {
     throw std::runtime_error(
         "In DenseCholeskySolver::Solve: x cannot be null.");
-- 
2.43.0


From d2d88286bace295cb7bae02da593ad3ded7ce652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 06/15] fix: RiccatiLinearSolver performs its documented null
 and size checks

---
 fbstab/components/riccati_linear_solver.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/fbstab/components/riccati_linear_solver.cc b/fbstab/components/riccati_linear_solver.cc
index 8211cab..2496e9f 100644
--- a/fbstab/components/riccati_linear_solver.cc
+++ b/fbstab/components/riccati_linear_solver.cc
@@ -86,7 +86,10 @@ bool RiccatiLinearSolver::Initialize(const FullVariable& x,
         "In RiccatiLinearSolver::Initialize: sigma must be positive.");
   }
   NullDataCheck();
-  // TODO: Add size check with the linear solver as well!
+  if (x.nz_ != nz_ || x.nl_ != nl_ || x.nv_ != nv_) {
+    throw std::runtime_error(
+        "In RiccatiLinearSolver::Initialize: inputs must match object size.");
+  }
 
   Eigen::Vector2d temp;
   for (int i = 0; i < nv_; i++) {
@@ -210,12 +213,19 @@ bool RiccatiLinearSolver::Initialize(const FullVariable& x,
 }
 
 bool RiccatiLinearSolver::Solve(const FullResidual& r, FullVariable* dx) const {
+  if (dx == nullptr) {
+    throw std::runtime_error(
+        "In RiccatiLinearSolver::Solve: dx cannot be null.");
+  }
   if (!r.SameSize(*dx)) {
     throw std::runtime_error(
         "In RiccatiLinearSolver::Solve: r and dx size mismatch.");
   }
   NullDataCheck();
-  // TODO: Add size check against the *this
+  if (dx->nz_ != nz_ || dx->nl_ != nl_ || dx->nv_ != nv_) {
+    throw std::runtime_error(
+        "In RiccatiLinearSolver::Solve: inputs must match object size.");
+  }
 
   // Compute the post-elimination residual,
   // r1 = rz - A'*(rv./mus) and r2 = -rl.
-- 
2.43.0


From e746cb25d1ca07b727820bdb724036147fccfc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 07/15] fix: FullResidual and FullFeasibility perform their
 documented argument checks

---
 fbstab/components/full_feasibility.cc | 5 +++++
 fbstab/components/full_residual.cc    | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/fbstab/components/full_feasibility.cc b/fbstab/components/full_feasibility.cc
index 33a766a..58e4b1d 100644
--- a/fbstab/components/full_feasibility.cc
+++ b/fbstab/components/full_feasibility.cc
@@ -25,6 +25,11 @@ FullFeasibility::FullFeasibility(int nz, int nl, int nv) {
 FullFeasibility::FeasibilityStatus FullFeasibility::CheckFeasibility(
     const FullVariable& x, double tol) {
   NullDataCheck();
+  if (x.nz_ != nz_ || x.nl_ != nl_ || x.nv_ != nv_) {
+    throw std::runtime_error(
+        "In FullFeasibility::CheckFeasibility: x and *this must be the same "
+        "size.");
+  }
 
   // The conditions for dual-infeasibility are:
   // max(Az) <= 0 and f'*z < 0 and |Hz| <= tol * |z| and |Gz| <= tol*|z|
diff --git a/fbstab/components/full_residual.cc b/fbstab/components/full_residual.cc
index 6c88ca5..44f8079 100644
--- a/fbstab/components/full_residual.cc
+++ b/fbstab/components/full_residual.cc
@@ -49,6 +49,15 @@ double FullResidual::Merit() const {
 void FullResidual::InnerResidual(const FullVariable& x,
                                  const FullVariable& xbar, double sigma) {
   NullDataCheck();
+  if (!SameSize(x) || !SameSize(xbar)) {
+    throw std::runtime_error(
+        "In FullResidual::InnerResidual: x, xbar and *this must be the same "
+        "size.");
+  }
+  if (sigma <= 0) {
+    throw std::runtime_error(
+        "In FullResidual::InnerResidual: sigma must be positive.");
+  }
   // r.z = H*z + f + G'*l + A'*v + sigma*(z-zbar)
   z_.setConstant(0.0);
   data_->axpyf(1.0, &z_);
-- 
2.43.0


From e968b26e2a350b23e6f964e5a59795decc1ff73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 08/15] fix: FullResidual::Fill keeps the cached norms in step
 with the contents

---
 fbstab/components/full_residual.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fbstab/components/full_residual.cc b/fbstab/components/full_residual.cc
index 44f8079..9f9dfdf 100644
--- a/fbstab/components/full_residual.cc
+++ b/fbstab/components/full_residual.cc
@@ -29,6 +29,9 @@ void FullResidual::Fill(double a) {
   z_.setConstant(a);
   l_.setConstant(a);
   v_.setConstant(a);
+  znorm_ = z_.norm();
+  lnorm_ = l_.norm();
+  vnorm_ = v_.norm();
 }
 
 void FullResidual::Negate() {
-- 
2.43.0


From 7ee7c884d880d21b7a45bc26a2c0db5707088f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 09/15] fix: MpcData rejects q, r, c and d sequences that are
 not column vectors

---
 fbstab/components/mpc_data.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fbstab/components/mpc_data.cc b/fbstab/components/mpc_data.cc
index 9a2face..4b24455 100644
--- a/fbstab/components/mpc_data.cc
+++ b/fbstab/components/mpc_data.cc
@@ -321,7 +321,7 @@ void MpcData::ValidateInputs() const {
   if (S_.cols() != nx) {
     throw std::runtime_error("Size mismatch in S input to MpcData.");
   }
-  if (q_.rows() != nx) {
+  if (q_.rows() != nx || q_.cols() != 1) {
     throw std::runtime_error("Size mismatch in q input to MpcData.");
   }
   if (E_.cols() != nx) {
@@ -333,7 +333,7 @@ void MpcData::ValidateInputs() const {
   if (B_.rows() != nx) {
     throw std::runtime_error("Size mismatch in B input to MpcData.");
   }
-  if (c_.rows() != nx) {
+  if (c_.rows() != nx || c_.cols() != 1) {
     throw std::runtime_error("Size mismatch in c input to MpcData.");
   }
 
@@ -344,7 +344,7 @@ void MpcData::ValidateInputs() const {
   if (S_.rows() != nu) {
     throw std::runtime_error("Size mismatch in S input to MpcData.");
   }
-  if (r_.rows() != nu) {
+  if (r_.rows() != nu || r_.cols() != 1) {
     throw std::runtime_error("Size mismatch in r input to MpcData.");
   }
   if (L_.cols() != nu) {
@@ -358,7 +358,7 @@ void MpcData::ValidateInputs() const {
   if (L_.rows() != nc) {
     throw std::runtime_error("Size mismatch in L input to MpcData.");
   }
-  if (d_.rows() != nc) {
+  if (d_.rows() != nc || d_.cols() != 1) {
     throw std::runtime_error("Size mismatch in d input to MpcData.");
   }
 }
-- 
2.43.0


From 32ee477f78f157a3d34fa1a57f255db9f91abdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 10/15] fix: primal infeasibility certificates must have
 nonnegative inequality duals

---
 fbstab/components/full_feasibility.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fbstab/components/full_feasibility.cc b/fbstab/components/full_feasibility.cc
index 58e4b1d..0d083f7 100644
--- a/fbstab/components/full_feasibility.cc
+++ b/fbstab/components/full_feasibility.cc
@@ -59,7 +59,8 @@ FullFeasibility::FeasibilityStatus FullFeasibility::CheckFeasibility(
   }
 
   // The conditions for primal infeasibility are:
-  // v'*b + l'*h < 0 and |A'*v + G'*l| \leq tol * |(v,l)|
+  // v'*b + l'*h < 0, |A'*v + G'*l| \leq tol * |(v,l)| and
+  // min(v) >= -tol * |(v,l)|
 
   // Compute p1 = infnorm(G'*l + A'*v).
   tz_.fill(0.0);
@@ -77,7 +78,10 @@ FullFeasibility::FeasibilityStatus FullFeasibility::CheckFeasibility(
   const double u = std::max(x.v().lpNorm<Eigen::Infinity>(),
                             x.l().lpNorm<Eigen::Infinity>());
   bool primal_feasible = true;
-  if ((p1 <= tol * u) && (p2 < 0)) {
+  // A certificate needs nonnegative inequality multipliers (Farkas' lemma).
+  const double p3 = x.v().minCoeff();
+
+  if ((p1 <= tol * u) && (p2 < 0) && (p3 >= -tol * u)) {
     primal_feasible = false;
   }
 
-- 
2.43.0


From 963cdd1ea02fb0669de291d67e5743e6e610e880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 11/15] fix: DenseData products with b = 0 no longer read the
 output vector

---
 fbstab/components/dense_data.cc | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/fbstab/components/dense_data.cc b/fbstab/components/dense_data.cc
index 4dd3a1c..136402f 100644
--- a/fbstab/components/dense_data.cc
+++ b/fbstab/components/dense_data.cc
@@ -11,27 +11,47 @@ using VectorXd = Eigen::VectorXd;
 
 void DenseData::gemvH(const Eigen::VectorXd &x, double a, double b,
                       Eigen::VectorXd *y) const {
-  *y = a * H_ * x + b * (*y);
+  if (b == 0.0) {
+    *y = a * H_ * x;  // y may be uninitialized
+  } else {
+    *y = a * H_ * x + b * (*y);
+  }
 }
 
 void DenseData::gemvG(const Eigen::VectorXd &x, double a, double b,
                       Eigen::VectorXd *y) const {
-  *y = a * G_ * x + b * (*y);
+  if (b == 0.0) {
+    *y = a * G_ * x;  // y may be uninitialized
+  } else {
+    *y = a * G_ * x + b * (*y);
+  }
 }
 
 void DenseData::gemvGT(const Eigen::VectorXd &x, double a, double b,
                        Eigen::VectorXd *y) const {
-  *y = a * G_.transpose() * x + b * (*y);
+  if (b == 0.0) {
+    *y = a * G_.transpose() * x;  // y may be uninitialized
+  } else {
+    *y = a * G_.transpose() * x + b * (*y);
+  }
 }
 
 void DenseData::gemvA(const Eigen::VectorXd &x, double a, double b,
                       Eigen::VectorXd *y) const {
-  *y = a * A_ * x + b * (*y);
+  if (b == 0.0) {
+    *y = a * A_ * x;  // y may be uninitialized
+  } else {
+    *y = a * A_ * x + b * (*y);
+  }
 }
 
 void DenseData::gemvAT(const Eigen::VectorXd &x, double a, double b,
                        Eigen::VectorXd *y) const {
-  *y = a * A_.transpose() * x + b * (*y);
+  if (b == 0.0) {
+    *y = a * A_.transpose() * x;  // y may be uninitialized
+  } else {
+    *y = a * A_.transpose() * x + b * (*y);
+  }
 }
 
 void DenseData::axpyf(double a, Eigen::VectorXd *y) const { *y += a * f_; }
-- 
2.43.0


From 3858c113ea4bb371041660381f27fd9bfa8ff138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:02 +0000
Subject: [PATCH 12/15] fix: DenseData throws on null inputs as documented

---
 fbstab/components/dense_data.h | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/fbstab/components/dense_data.h b/fbstab/components/dense_data.h
index fd6451f..7b21299 100644
--- a/fbstab/components/dense_data.h
+++ b/fbstab/components/dense_data.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <Eigen/Dense>
+#include <stdexcept>
 
 #include "fbstab/components/abstract_components.h"
 #include "tools/copyable_macros.h"
@@ -44,12 +45,12 @@ class DenseData : public Data {
   template <class Matrix, class Vector>
   DenseData(const Matrix* H, const Vector* f, const Matrix* G, const Vector* h,
             const Matrix* A, const Vector* b)
-      : H_(H->data(), H->rows(), H->cols()),
-        G_(G->data(), G->rows(), G->cols()),
-        A_(A->data(), A->rows(), A->cols()),
-        f_(f->data(), f->size()),
-        h_(h->data(), h->size()),
-        b_(b->data(), b->size()) {
+      : H_(MapMatrix(H)),
+        G_(MapMatrix(G)),
+        A_(MapMatrix(A)),
+        f_(MapVector(f)),
+        h_(MapVector(h)),
+        b_(MapVector(b)) {
     if (H->rows() != H->cols() || H->rows() != f->size()) {
       throw std::runtime_error(
           "In DenseData::DenseData: H must be square and the same size as f");
@@ -122,6 +123,23 @@ class DenseData : public Data {
   const Eigen::Map<const Eigen::VectorXd> h_;
   const Eigen::Map<const Eigen::VectorXd> b_;
 
+  // Creates a map of an input, throws if the input is null.
+  template <class Matrix>
+  static Eigen::Map<const Eigen::MatrixXd> MapMatrix(const Matrix* x) {
+    NullInputCheck(x);
+    return Eigen::Map<const Eigen::MatrixXd>(x->data(), x->rows(), x->cols());
+  }
+  template <class Vector>
+  static Eigen::Map<const Eigen::VectorXd> MapVector(const Vector* x) {
+    NullInputCheck(x);
+    return Eigen::Map<const Eigen::VectorXd>(x->data(), x->size());
+  }
+  static void NullInputCheck(const void* x) {
+    if (x == nullptr) {
+      throw std::runtime_error("In DenseData::DenseData: an input is null.");
+    }
+  }
+
   friend class DenseCholeskySolver;
 };
 
-- 
2.43.0


From 9164ae18995480a841de0b69ca555a4cb1d49a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:25 +0000
Subject: [PATCH 13/15] fix: residual interface functions are pure virtual

They were declared but neither pure nor defined, so the vtable of
Residual<...> referred to missing functions and programs built without
optimization did not link.
---
 fbstab/components/abstract_components.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbstab/components/abstract_components.h b/fbstab/components/abstract_components.h
index db0e6e4..a50264e 100644
--- a/fbstab/components/abstract_components.h
+++ b/fbstab/components/abstract_components.h
@@ -204,7 +204,7 @@ class Residual {
    *
    * @param[in] x Evaluation point.
    */
-  virtual void NaturalResidual(const Variable& x);
+  virtual void NaturalResidual(const Variable& x) = 0;
 
   /**
    * Computes the natural residual function augmented with
@@ -214,7 +214,7 @@ class Residual {
    *
    * @param[in] x Evaluation point.
    */
-  virtual void PenalizedNaturalResidual(const Variable& x);
+  virtual void PenalizedNaturalResidual(const Variable& x) = 0;
 
   /** @return ||z|| */
   virtual double z_norm() const = 0;
-- 
2.43.0


From 4c03fdaed99d79372b1f0f897aa5d104d69c417e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:25 +0000
Subject: [PATCH 14/15] fix: utilities.h includes the headers it uses

It used std::unique_ptr, std::runtime_error and std::forward without
including them, so neither it nor fbstab_algorithm.h could be included
first.
---
 tools/utilities.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/utilities.h b/tools/utilities.h
index 872a801..04b4a30 100644
--- a/tools/utilities.h
+++ b/tools/utilities.h
@@ -1,6 +1,9 @@
 #pragma once
 
 #include <algorithm>
+#include <memory>
+#include <stdexcept>
+#include <utility>
 
 namespace fbstab {
 namespace tools {
-- 
2.43.0


From 0c852c337ebaa841af5c36081ee40698afc6810e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:04 +0000
Subject: [PATCH 15/15] fix: time solves with a clock that is never set back

high_resolution_clock is the system clock with libstdc++: when it is
stepped during a solve, solve_time is wrong or negative, and a negative
solve_time is documented to mean that there is no timing data.
---
 fbstab/fbstab_algorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbstab/fbstab_algorithm.h b/fbstab/fbstab_algorithm.h
index f26f2c0..6c8b782 100644
--- a/fbstab/fbstab_algorithm.h
+++ b/fbstab/fbstab_algorithm.h
@@ -81,7 +81,7 @@ struct AlgorithmParameters {
   void ReliableParameters();
 };
 
-using clock = std::chrono::high_resolution_clock;
+using clock = std::chrono::steady_clock;
 /**
  * This class implements the FBstab solver for
  * convex quadratic programs, see
-- 
2.43.0

