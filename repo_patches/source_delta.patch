From 5812cfc11e221716b2b894ef67d532d58b83391e Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 01/13] fix: MpcData::gemvGT drops the B term for general
 scalings

For a outside {1,-1} only the state block of G'*x was accumulated.
---
 fbstab/components/mpc_data.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fbstab/components/mpc_data.cc b/fbstab/components/mpc_data.cc
index 0bed8c5..9a2face 100644
--- a/fbstab/components/mpc_data.cc
+++ b/fbstab/components/mpc_data.cc
@@ -191,6 +191,7 @@ void MpcData::gemvGT(const Eigen::VectorXd& x, double a, double b,
       ui.noalias() -= B.transpose() * vp1;
     } else {
       xi.noalias() += a * A.transpose().lazyProduct(vp1);
+      ui.noalias() += a * B.transpose().lazyProduct(vp1);
     }
   }
   // The i = N step of the recursion.
-- 
2.43.0


From bba4be8f8ea02c706eade17d7a6c702dea29c3fd Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 02/13] fix: require nonnegative inequality duals in the primal
 infeasibility test

Without it feasible problems could be declared primal infeasible, e.g.,
H = 0, f = -1, A = [1;1], b = [1;2] started at v = [0;1].
---
 fbstab/components/full_feasibility.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fbstab/components/full_feasibility.cc b/fbstab/components/full_feasibility.cc
index 33a766a..97bc9cb 100644
--- a/fbstab/components/full_feasibility.cc
+++ b/fbstab/components/full_feasibility.cc
@@ -54,7 +54,7 @@ FullFeasibility::FeasibilityStatus FullFeasibility::CheckFeasibility(
   }
 
   // The conditions for primal infeasibility are:
-  // v'*b + l'*h < 0 and |A'*v + G'*l| \leq tol * |(v,l)|
+  // v'*b + l'*h < 0, |A'*v + G'*l| \leq tol * |(v,l)| and v >= -tol * |(v,l)|
 
   // Compute p1 = infnorm(G'*l + A'*v).
   tz_.fill(0.0);
@@ -69,10 +69,13 @@ FullFeasibility::FeasibilityStatus FullFeasibility::CheckFeasibility(
   data_->axpyh(1.0, &tl_);
   const double p2 = tl_.dot(x.l()) + tv_.dot(x.v());
 
+  // Compute p3 = min(v), only nonnegative inequality duals certify anything.
+  const double p3 = x.v().minCoeff();
+
   const double u = std::max(x.v().lpNorm<Eigen::Infinity>(),
                             x.l().lpNorm<Eigen::Infinity>());
   bool primal_feasible = true;
-  if ((p1 <= tol * u) && (p2 < 0)) {
+  if ((p1 <= tol * u) && (p3 >= -tol * u) && (p2 < 0)) {
     primal_feasible = false;
   }
 
-- 
2.43.0


From 0a622082122a223294acda757030efd4d0d22b2f Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 03/13] fix: replace NaN options when sanitizing

std::max(x, lb) and saturate let NaN through unchanged.
---
 fbstab/fbstab_algorithm-impl.h | 11 ++++++-----
 tools/utilities.h              |  4 ++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/fbstab/fbstab_algorithm-impl.h b/fbstab/fbstab_algorithm-impl.h
index bc5ce42..c40aede 100644
--- a/fbstab/fbstab_algorithm-impl.h
+++ b/fbstab/fbstab_algorithm-impl.h
@@ -5,7 +5,8 @@
  */
 
 inline void AlgorithmParameters::ValidateOptions() {
-  sigma0 = std::max(sigma0, 1e-10);
+  // The constant comes first so that NaN is replaced as well.
+  sigma0 = std::max(1e-10, sigma0);
   sigma_max = tools::saturate(sigma_max, 1e-6, 1e2);
   sigma_min = tools::saturate(sigma_min, 1e-13, 1e-8);
   sigma0 = tools::saturate(sigma0, sigma_min, sigma_max);
@@ -16,10 +17,10 @@ inline void AlgorithmParameters::ValidateOptions() {
   delta = tools::saturate(delta, 0.0001, 0.99);
   gamma = tools::saturate(gamma, 0.001, 0.9);
 
-  abs_tol = std::max(abs_tol, 1e-14);
-  rel_tol = std::max(rel_tol, 0.0);
-  stall_tol = std::max(stall_tol, 1e-14);
-  infeas_tol = std::max(infeas_tol, 1e-14);
+  abs_tol = std::max(1e-14, abs_tol);
+  rel_tol = std::max(0.0, rel_tol);
+  stall_tol = std::max(1e-14, stall_tol);
+  infeas_tol = std::max(1e-14, infeas_tol);
 
   inner_tol_max = tools::saturate(inner_tol_max, 1e-8, 1e2);
   inner_tol_min = tools::saturate(inner_tol_min, 1e-14, 1e-2);
diff --git a/tools/utilities.h b/tools/utilities.h
index 872a801..35c81ff 100644
--- a/tools/utilities.h
+++ b/tools/utilities.h
@@ -15,7 +15,7 @@ std::unique_ptr<T> make_unique(Args&&... args) {
   return std::unique_ptr<T>(new T(std::forward<Args>(args)...));
 }
 
-// Projects x onto [a,b].
+// Projects x onto [a,b], NaN is mapped to a.
 template <class T>
 T saturate(const T& x, const T& a, const T& b) {
   if (a > b) {
@@ -24,7 +24,7 @@ T saturate(const T& x, const T& a, const T& b) {
         "lower bound");
   }
   const T temp = std::min(x, b);
-  return std::max(temp, a);
+  return std::max(a, temp);
 }
 
 }  // namespace tools
-- 
2.43.0


From c109e8203a699eed87fb3b4bf0ba39e8029caf91 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 04/13] fix: valid inner tolerances must not make Solve throw

saturate throws if its bounds cross, which happened for
inner_tol_min > inner_tol_max and for inner_tol_min > |rk|.
---
 fbstab/fbstab_algorithm-impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fbstab/fbstab_algorithm-impl.h b/fbstab/fbstab_algorithm-impl.h
index c40aede..ecf9939 100644
--- a/fbstab/fbstab_algorithm-impl.h
+++ b/fbstab/fbstab_algorithm-impl.h
@@ -24,6 +24,7 @@ inline void AlgorithmParameters::ValidateOptions() {
 
   inner_tol_max = tools::saturate(inner_tol_max, 1e-8, 1e2);
   inner_tol_min = tools::saturate(inner_tol_min, 1e-14, 1e-2);
+  inner_tol_max = std::max(inner_tol_max, inner_tol_min);
 
   max_newton_iters = std::max(max_newton_iters, 1);
   max_prox_iters = std::max(max_prox_iters, 1);
@@ -178,7 +179,8 @@ SolverOut FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::Solve(
 
     // Update subproblem tolerance.
     inner_tol =
-        tools::saturate(inner_tol * opts_.delta, opts_.inner_tol_min, Ek);
+        tools::saturate(inner_tol * opts_.delta, opts_.inner_tol_min,
+                        std::max(opts_.inner_tol_min, Ek));
 
     // Solve the proximal subproblem.
     xi_->Copy(*xk_);
-- 
2.43.0


From 5b5130d2f7a16bd837584f930f6450aeab5d58f8 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 05/13] fix: report the residual of the returned point when
 max_prox_iters is hit

rk_ still held the residual from before the last dual projection.
---
 fbstab/fbstab_algorithm-impl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fbstab/fbstab_algorithm-impl.h b/fbstab/fbstab_algorithm-impl.h
index ecf9939..543cc8a 100644
--- a/fbstab/fbstab_algorithm-impl.h
+++ b/fbstab/fbstab_algorithm-impl.h
@@ -220,6 +220,7 @@ SolverOut FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::Solve(
   }  // end proximal loop
 
   // Timeout exit.
+  rk_->PenalizedNaturalResidual(*xk_);
   SolverOut output = PrepareOutput(ExitFlag::MAXITERATIONS, prox_iters_,
                                    newton_iters_, *rk_, start_time, E0, os);
   WriteVariable(*xk_, z0, l0, v0, y0);
-- 
2.43.0


From 4d6fa4e72c8647b9097f4ccb11b6c978047854f4 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 06/13] fix: FullResidual::Fill leaves stale cached norms

---
 fbstab/components/full_residual.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fbstab/components/full_residual.cc b/fbstab/components/full_residual.cc
index 6c88ca5..de9a429 100644
--- a/fbstab/components/full_residual.cc
+++ b/fbstab/components/full_residual.cc
@@ -29,6 +29,9 @@ void FullResidual::Fill(double a) {
   z_.setConstant(a);
   l_.setConstant(a);
   v_.setConstant(a);
+  znorm_ = z_.norm();
+  lnorm_ = l_.norm();
+  vnorm_ = v_.norm();
 }
 
 void FullResidual::Negate() {
-- 
2.43.0


From a4a2287aa2196a3fc7b5889deef68ae3f05f01da Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 07/13] fix: DenseData operators read the old y even if b is
 zero

0*NaN is NaN, so uninitialized or stale workspaces leaked into results,
e.g., in FullFeasibility.
---
 fbstab/components/dense_data.cc | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/fbstab/components/dense_data.cc b/fbstab/components/dense_data.cc
index 4dd3a1c..cbab8e3 100644
--- a/fbstab/components/dense_data.cc
+++ b/fbstab/components/dense_data.cc
@@ -11,27 +11,47 @@ using VectorXd = Eigen::VectorXd;
 
 void DenseData::gemvH(const Eigen::VectorXd &x, double a, double b,
                       Eigen::VectorXd *y) const {
-  *y = a * H_ * x + b * (*y);
+  if (b == 0.0) {  // do not read y, it may be uninitialized
+    *y = a * H_ * x;
+  } else {
+    *y = a * H_ * x + b * (*y);
+  }
 }
 
 void DenseData::gemvG(const Eigen::VectorXd &x, double a, double b,
                       Eigen::VectorXd *y) const {
-  *y = a * G_ * x + b * (*y);
+  if (b == 0.0) {  // do not read y, it may be uninitialized
+    *y = a * G_ * x;
+  } else {
+    *y = a * G_ * x + b * (*y);
+  }
 }
 
 void DenseData::gemvGT(const Eigen::VectorXd &x, double a, double b,
                        Eigen::VectorXd *y) const {
-  *y = a * G_.transpose() * x + b * (*y);
+  if (b == 0.0) {  // do not read y, it may be uninitialized
+    *y = a * G_.transpose() * x;
+  } else {
+    *y = a * G_.transpose() * x + b * (*y);
+  }
 }
 
 void DenseData::gemvA(const Eigen::VectorXd &x, double a, double b,
                       Eigen::VectorXd *y) const {
-  *y = a * A_ * x + b * (*y);
+  if (b == 0.0) {  // do not read y, it may be uninitialized
+    *y = a * A_ * x;
+  } else {
+    *y = a * A_ * x + b * (*y);
+  }
 }
 
 void DenseData::gemvAT(const Eigen::VectorXd &x, double a, double b,
                        Eigen::VectorXd *y) const {
-  *y = a * A_.transpose() * x + b * (*y);
+  if (b == 0.0) {  // do not read y, it may be uninitialized
+    *y = a * A_.transpose() * x;
+  } else {
+    *y = a * A_.transpose() * x + b * (*y);
+  }
 }
 
 void DenseData::axpyf(double a, Eigen::VectorXd *y) const { *y += a * f_; }
-- 
2.43.0


From 70c167ecdb95bd1cf2b434053ba211a41b07e157 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 08/13] fix: DenseCholeskySolver allocated before validating
 its sizes

Negative sizes hit an Eigen assertion instead of the documented exception.
---
 fbstab/components/dense_cholesky_solver.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbstab/components/dense_cholesky_solver.cc b/fbstab/components/dense_cholesky_solver.cc
index 3e6bdda..d089812 100644
--- a/fbstab/components/dense_cholesky_solver.cc
+++ b/fbstab/components/dense_cholesky_solver.cc
@@ -9,8 +9,7 @@
 
 namespace fbstab {
 
-DenseCholeskySolver::DenseCholeskySolver(int nz, int nl, int nv)
-    : ldlt_(nz + nl) {
+DenseCholeskySolver::DenseCholeskySolver(int nz, int nl, int nv) {
   if (nz <= 0 || nv <= 0 || nl < 0) {
     throw std::runtime_error(
         "In DenseCholeskySolver: nz and nv must be > 0 and nl >= 0");
@@ -19,6 +18,7 @@ DenseCholeskySolver::DenseCholeskySolver(int nz, int nl, int nv)
   nl_ = nl;
   nv_ = nv;
 
+  ldlt_ = Eigen::LDLT<Eigen::MatrixXd>(nz_ + nl_);
   K_.resize(nz_ + nl_, nz_ + nl_);
   E_.resize(nz_, nz_);
   r1_.resize(nz_ + nl_);
-- 
2.43.0


From 905b9aa085768452adb1b6c6b92e46e32ca9b2ce Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 09/13] fix: linear solvers miss documented size and null
 checks

---
 fbstab/components/dense_cholesky_solver.cc |  3 ++-
 fbstab/components/riccati_linear_solver.cc | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/fbstab/components/dense_cholesky_solver.cc b/fbstab/components/dense_cholesky_solver.cc
index d089812..5f06e35 100644
--- a/fbstab/components/dense_cholesky_solver.cc
+++ b/fbstab/components/dense_cholesky_solver.cc
@@ -36,7 +36,7 @@ bool DenseCholeskySolver::Initialize(const FullVariable& x,
     throw std::runtime_error(
         "In DenseCholeskySolver::Factor: inputs must be the same size");
   }
-  if (xbar.nz_ != nz_ || xbar.nv_ != nv_) {
+  if (xbar.nz_ != nz_ || xbar.nl_ != nl_ || xbar.nv_ != nv_) {
     throw std::runtime_error(
         "In DenseCholeskySolver::Factor: inputs must match object size.");
   }
@@ -79,6 +79,7 @@ bool DenseCholeskySolver::Initialize(const FullVariable& x,
 }
 
 bool DenseCholeskySolver::Solve(const FullResidual& r, FullVariable* x) const {
+  NullDataCheck();
   if (x == nullptr) {
     throw std::runtime_error(
         "In DenseCholeskySolver::Solve: x cannot be null.");
diff --git a/fbstab/components/riccati_linear_solver.cc b/fbstab/components/riccati_linear_solver.cc
index 8211cab..a630d54 100644
--- a/fbstab/components/riccati_linear_solver.cc
+++ b/fbstab/components/riccati_linear_solver.cc
@@ -85,8 +85,11 @@ bool RiccatiLinearSolver::Initialize(const FullVariable& x,
     throw std::runtime_error(
         "In RiccatiLinearSolver::Initialize: sigma must be positive.");
   }
+  if (x.nz_ != nz_ || x.nl_ != nl_ || x.nv_ != nv_) {
+    throw std::runtime_error(
+        "In RiccatiLinearSolver::Initialize: inputs must match object size.");
+  }
   NullDataCheck();
-  // TODO: Add size check with the linear solver as well!
 
   Eigen::Vector2d temp;
   for (int i = 0; i < nv_; i++) {
@@ -210,12 +213,19 @@ bool RiccatiLinearSolver::Initialize(const FullVariable& x,
 }
 
 bool RiccatiLinearSolver::Solve(const FullResidual& r, FullVariable* dx) const {
+  if (dx == nullptr) {
+    throw std::runtime_error(
+        "In RiccatiLinearSolver::Solve: dx cannot be null.");
+  }
   if (!r.SameSize(*dx)) {
     throw std::runtime_error(
         "In RiccatiLinearSolver::Solve: r and dx size mismatch.");
   }
+  if (dx->nz_ != nz_ || dx->nl_ != nl_ || dx->nv_ != nv_) {
+    throw std::runtime_error(
+        "In RiccatiLinearSolver::Solve: inputs must match object size.");
+  }
   NullDataCheck();
-  // TODO: Add size check against the *this
 
   // Compute the post-elimination residual,
   // r1 = rz - A'*(rv./mus) and r2 = -rl.
-- 
2.43.0


From 872aff0889f97aa781d181ab9a58e57ce02d72f8 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 10/13] fix: residual and feasibility objects miss documented
 argument checks

---
 fbstab/components/full_feasibility.cc | 4 ++++
 fbstab/components/full_residual.cc    | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/fbstab/components/full_feasibility.cc b/fbstab/components/full_feasibility.cc
index 97bc9cb..14ba3ad 100644
--- a/fbstab/components/full_feasibility.cc
+++ b/fbstab/components/full_feasibility.cc
@@ -25,6 +25,10 @@ FullFeasibility::FullFeasibility(int nz, int nl, int nv) {
 FullFeasibility::FeasibilityStatus FullFeasibility::CheckFeasibility(
     const FullVariable& x, double tol) {
   NullDataCheck();
+  if (x.nz_ != nz_ || x.nl_ != nl_ || x.nv_ != nv_) {
+    throw std::runtime_error(
+        "In FullFeasibility::CheckFeasibility: x must match object size.");
+  }
 
   // The conditions for dual-infeasibility are:
   // max(Az) <= 0 and f'*z < 0 and |Hz| <= tol * |z| and |Gz| <= tol*|z|
diff --git a/fbstab/components/full_residual.cc b/fbstab/components/full_residual.cc
index de9a429..47324b3 100644
--- a/fbstab/components/full_residual.cc
+++ b/fbstab/components/full_residual.cc
@@ -52,6 +52,14 @@ double FullResidual::Merit() const {
 void FullResidual::InnerResidual(const FullVariable& x,
                                  const FullVariable& xbar, double sigma) {
   NullDataCheck();
+  if (!SameSize(x) || !SameSize(xbar)) {
+    throw std::runtime_error(
+        "In FullResidual::InnerResidual: input sizes must match.");
+  }
+  if (sigma <= 0) {
+    throw std::runtime_error(
+        "In FullResidual::InnerResidual: sigma must be positive.");
+  }
   // r.z = H*z + f + G'*l + A'*v + sigma*(z-zbar)
   z_.setConstant(0.0);
   data_->axpyf(1.0, &z_);
-- 
2.43.0


From 83337163a5a28c7b24e2a90328f2ff75575421d4 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 11/13] fix: reject sequences of the wrong width and guesses
 with a wrong y

They were accepted and then hit Eigen assertions.
---
 fbstab/components/mpc_data.cc | 8 ++++----
 fbstab/fbstab_dense.h         | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/fbstab/components/mpc_data.cc b/fbstab/components/mpc_data.cc
index 9a2face..4b24455 100644
--- a/fbstab/components/mpc_data.cc
+++ b/fbstab/components/mpc_data.cc
@@ -321,7 +321,7 @@ void MpcData::ValidateInputs() const {
   if (S_.cols() != nx) {
     throw std::runtime_error("Size mismatch in S input to MpcData.");
   }
-  if (q_.rows() != nx) {
+  if (q_.rows() != nx || q_.cols() != 1) {
     throw std::runtime_error("Size mismatch in q input to MpcData.");
   }
   if (E_.cols() != nx) {
@@ -333,7 +333,7 @@ void MpcData::ValidateInputs() const {
   if (B_.rows() != nx) {
     throw std::runtime_error("Size mismatch in B input to MpcData.");
   }
-  if (c_.rows() != nx) {
+  if (c_.rows() != nx || c_.cols() != 1) {
     throw std::runtime_error("Size mismatch in c input to MpcData.");
   }
 
@@ -344,7 +344,7 @@ void MpcData::ValidateInputs() const {
   if (S_.rows() != nu) {
     throw std::runtime_error("Size mismatch in S input to MpcData.");
   }
-  if (r_.rows() != nu) {
+  if (r_.rows() != nu || r_.cols() != 1) {
     throw std::runtime_error("Size mismatch in r input to MpcData.");
   }
   if (L_.cols() != nu) {
@@ -358,7 +358,7 @@ void MpcData::ValidateInputs() const {
   if (L_.rows() != nc) {
     throw std::runtime_error("Size mismatch in L input to MpcData.");
   }
-  if (d_.rows() != nc) {
+  if (d_.rows() != nc || d_.cols() != 1) {
     throw std::runtime_error("Size mismatch in d input to MpcData.");
   }
 }
diff --git a/fbstab/fbstab_dense.h b/fbstab/fbstab_dense.h
index 7e309c5..3c36fd8 100644
--- a/fbstab/fbstab_dense.h
+++ b/fbstab/fbstab_dense.h
@@ -172,7 +172,8 @@ class FBstabDense {
       throw std::runtime_error(
           "In FBstabDense::Solve: mismatch between *this and data dimensions.");
     }
-    if (nz_ != x.z.size() || x.l.size() != nl_ || nv_ != x.v.size()) {
+    if (nz_ != x.z.size() || x.l.size() != nl_ || nv_ != x.v.size() ||
+        nv_ != x.y.size()) {
       throw std::runtime_error(
           "In FBstabDense::Solve: mismatch between *this and initial guess "
           "dimensions.");
-- 
2.43.0


From b05d949ec8cd730c2fbd8a38f13da9d55b0a5be7 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 12/13] fix: a solve must not stall before taking a step

For stall_tol >= |1| the placeholder in dx_ made Solve return SUCCESS at once.
---
 fbstab/fbstab_algorithm-impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbstab/fbstab_algorithm-impl.h b/fbstab/fbstab_algorithm-impl.h
index 543cc8a..121ddd2 100644
--- a/fbstab/fbstab_algorithm-impl.h
+++ b/fbstab/fbstab_algorithm-impl.h
@@ -163,7 +163,7 @@ SolverOut FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::Solve(
     // b) ||x(k) - x(k-1)|| <= stall_tol
     rk_->PenalizedNaturalResidual(*xk_);
     Ek = rk_->Norm();
-    if (Ek <= combo_tol_ || dx_->Norm() <= opts_.stall_tol) {
+    if (Ek <= combo_tol_ || (k > 0 && dx_->Norm() <= opts_.stall_tol)) {
       PrintIterLine(prox_iters_, newton_iters_, *rk_, *ri_, inner_tol, os);
       SolverOut output = PrepareOutput(ExitFlag::SUCCESS, prox_iters_,
                                        newton_iters_, *rk_, start_time, E0, os);
-- 
2.43.0


From 941cbabfcc05494083a68206853021e86b8b9d97 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:19 +0000
Subject: [PATCH 13/13] fix: DenseData rejects null inputs instead of
 dereferencing them

---
 fbstab/components/dense_data.h | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/fbstab/components/dense_data.h b/fbstab/components/dense_data.h
index fd6451f..0881259 100644
--- a/fbstab/components/dense_data.h
+++ b/fbstab/components/dense_data.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <Eigen/Dense>
+#include <stdexcept>
 
 #include "fbstab/components/abstract_components.h"
 #include "tools/copyable_macros.h"
@@ -44,12 +45,12 @@ class DenseData : public Data {
   template <class Matrix, class Vector>
   DenseData(const Matrix* H, const Vector* f, const Matrix* G, const Vector* h,
             const Matrix* A, const Vector* b)
-      : H_(H->data(), H->rows(), H->cols()),
-        G_(G->data(), G->rows(), G->cols()),
-        A_(A->data(), A->rows(), A->cols()),
-        f_(f->data(), f->size()),
-        h_(h->data(), h->size()),
-        b_(b->data(), b->size()) {
+      : H_(MapMatrix(H)),
+        G_(MapMatrix(G)),
+        A_(MapMatrix(A)),
+        f_(MapVector(f)),
+        h_(MapVector(h)),
+        b_(MapVector(b)) {
     if (H->rows() != H->cols() || H->rows() != f->size()) {
       throw std::runtime_error(
           "In DenseData::DenseData: H must be square and the same size as f");
@@ -122,6 +123,24 @@ class DenseData : public Data {
   const Eigen::Map<const Eigen::VectorXd> h_;
   const Eigen::Map<const Eigen::VectorXd> b_;
 
+  // Returns a read-only view of the input matrix, throws if the input is null.
+  template <class Matrix>
+  static Eigen::Map<const Eigen::MatrixXd> MapMatrix(const Matrix* M) {
+    if (M == nullptr) {
+      throw std::runtime_error("In DenseData::DenseData: Null matrix input.");
+    }
+    return Eigen::Map<const Eigen::MatrixXd>(M->data(), M->rows(), M->cols());
+  }
+
+  // Returns a read-only view of the input vector, throws if the input is null.
+  template <class Vector>
+  static Eigen::Map<const Eigen::VectorXd> MapVector(const Vector* v) {
+    if (v == nullptr) {
+      throw std::runtime_error("In DenseData::DenseData: Null vector input.");
+    }
+    return Eigen::Map<const Eigen::VectorXd>(v->data(), v->size());
+  }
+
   friend class DenseCholeskySolver;
 };
 
-- 
2.43.0

