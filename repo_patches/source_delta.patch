From b28c7cbf2d5955767af7ad51e51d8227ccfbf157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 01/39] fix: OptimizationVariable: take per-row bounds as a
 vector, not a matrix block

---
 solver/src/solver/interface/OptVar.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/solver/src/solver/interface/OptVar.cpp b/solver/src/solver/interface/OptVar.cpp
index 70a9a53..8464150 100644
--- a/solver/src/solver/interface/OptVar.cpp
+++ b/solver/src/solver/interface/OptVar.cpp
@@ -25,8 +25,8 @@ namespace solver {
 	assert(rows == lBnd.rows());
 	assert(rows == uBnd.rows());
 	type_ = type;  rows_ = rows;  cols_ = cols;
-    lBndMat_.resize(rows, cols);  lBndMat_.setZero();  lBndMat_.colwise() = lBnd.block(0,0,rows_,1);
-    uBndMat_.resize(rows, cols);  uBndMat_.setZero();  uBndMat_.colwise() = uBnd.block(0,0,rows_,1);
+    lBndMat_.resize(rows, cols);  lBndMat_.setZero();  lBndMat_.colwise() = lBnd.head(rows_);
+    uBndMat_.resize(rows, cols);  uBndMat_.setZero();  uBndMat_.colwise() = uBnd.head(rows_);
     guessMat_.resize(rows, cols); guessMat_.setZero();
     indexPosition_ = startIndexInOptVec;  startIndexInOptVec += rows*cols;
   }
@@ -70,8 +70,8 @@ namespace solver {
 	assert(rows == guess.rows());   assert(cols == guess.cols());
 	guessValueInitialized_ = true;
     type_ = type;  rows_ = rows;  cols_ = cols;
-    lBndMat_.resize(rows, cols);  lBndMat_.setZero(); lBndMat_.colwise() = lBnd.block(0,0,rows_,1);
-    uBndMat_.resize(rows, cols);  uBndMat_.setZero(); uBndMat_.colwise() = uBnd.block(0,0,rows_,1);
+    lBndMat_.resize(rows, cols);  lBndMat_.setZero(); lBndMat_.colwise() = lBnd.head(rows_);
+    uBndMat_.resize(rows, cols);  uBndMat_.setZero(); uBndMat_.colwise() = uBnd.head(rows_);
     guessMat_.resize(rows, cols); guessMat_ = guess.block(0, 0, rows, cols);;
     indexPosition_ = startIndexInOptVec;  startIndexInOptVec += rows*cols;
   }
-- 
2.43.0


From c0efb1834b799a53f44ce2695e6bb923dc654bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 02/39] fix: LinExpr: adding an expression to itself must
 terminate

---
 solver/src/solver/interface/Exprs.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solver/src/solver/interface/Exprs.cpp b/solver/src/solver/interface/Exprs.cpp
index 8d167f3..db5e6df 100644
--- a/solver/src/solver/interface/Exprs.cpp
+++ b/solver/src/solver/interface/Exprs.cpp
@@ -66,7 +66,8 @@ namespace solver {
 
   LinExpr& LinExpr::operator+=(const LinExpr& rhs) {
     this->getConstant() += rhs.getConstant();
-    for (size_t i=0; i<rhs.size(); i++) {
+    const size_t rhs_size = rhs.size(); // rhs may be *this
+    for (size_t i=0; i<rhs_size; i++) {
     	  this->vars_.push_back(rhs.vars_[i]);
       this->coeffs_.push_back(rhs.coeffs_[i]);
     }
-- 
2.43.0


From 8c9edb66b78d612e0f0348cacc0c0ce2b19055c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 03/39] fix: IPSolver: line search must not read the LP cone
 when there is none

---
 solver/src/solver/optimizer/IPSolver.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/src/solver/optimizer/IPSolver.cpp b/solver/src/solver/optimizer/IPSolver.cpp
index 0ef1bb2..96bd220 100644
--- a/solver/src/solver/optimizer/IPSolver.cpp
+++ b/solver/src/solver/optimizer/IPSolver.cpp
@@ -140,9 +140,9 @@ namespace solver {
     double conicres_lk, conicres_ds, conicres_dz, inv_conicres, factor1, factor2;
 
     // Linear cone
-    double rhomin = ds[0]/lambda[0];
-    double sigmamin = dz[0]/lambda[0];
-    for (int i=1; i<this->getCone().sizeLpc(); i++){
+    double rhomin = 0.0;
+    double sigmamin = 0.0;
+    for (int i=0; i<this->getCone().sizeLpc(); i++){
       if (ds[i]/lambda[i]<rhomin) { rhomin = ds[i]/lambda[i]; }
       if (dz[i]/lambda[i]<sigmamin) { sigmamin = dz[i]/lambda[i]; }
     }
-- 
2.43.0


From c0fa62e6b4ac22dd46330dc8a1b6d4d8bb5b62e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 04/39] fix: branch and bound: bound nodes with the cost in
 problem units, not equilibrated ones

---
 solver/src/solver/optimizer/BnBSolver.cpp     | 6 +++---
 solver/src/solver/optimizer/NcvxBnBSolver.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/solver/src/solver/optimizer/BnBSolver.cpp b/solver/src/solver/optimizer/BnBSolver.cpp
index 9080245..2b6b2d7 100644
--- a/solver/src/solver/optimizer/BnBSolver.cpp
+++ b/solver/src/solver/optimizer/BnBSolver.cpp
@@ -116,7 +116,7 @@ namespace solver {
         opt_status_ == ExitCode::PrimalInf || opt_status_ == ExitCode::PrimalInfInacc ||
         opt_status_ == ExitCode::ReachMaxIters)
     {
-      nodes_[node_id].lower_bound_ = this->getSolver().getStorage().c().dot(this->getSolver().optimalVector().x());
+      nodes_[node_id].lower_bound_ = this->getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
 
       bool is_integer_sol = true;
       for (int var_id=0; var_id<nbin_vars_; var_id++) {
@@ -126,7 +126,7 @@ namespace solver {
 
       if (is_integer_sol) {
         nodes_[node_id].status_ = Status::SolvedNonBranchable;
-        nodes_[node_id].upper_bound_ = this->getSolver().getStorage().c().dot(this->getSolver().optimalVector().x());
+        nodes_[node_id].upper_bound_ = this->getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
       } else {
         this->selectPartitionVariable(nodes_[node_id].partition_id_, nodes_[node_id].partition_val_);
         nodes_[node_id].status_ = Status::SolvedBranchable;
@@ -135,7 +135,7 @@ namespace solver {
         opt_status_ = this->getSolver().optimize();
 
         if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc){
-          nodes_[node_id].upper_bound_ = this->getSolver().getStorage().c().dot(this->getSolver().optimalVector().x());
+          nodes_[node_id].upper_bound_ = this->getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
           is_viable_sol = true;
         }
       }
diff --git a/solver/src/solver/optimizer/NcvxBnBSolver.cpp b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
index df1ecfa..3f12330 100644
--- a/solver/src/solver/optimizer/NcvxBnBSolver.cpp
+++ b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
@@ -113,7 +113,7 @@ namespace solver {
         opt_status_ == ExitCode::PrimalInf || opt_status_ == ExitCode::PrimalInfInacc ||
         opt_status_ == ExitCode::ReachMaxIters)
     {
-      nodes_[node_id].lower_bound_ = this->getProblem().getStorage().c().dot(this->getProblem().getSolver().optimalVector().x());
+      nodes_[node_id].lower_bound_ = this->getProblem().getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
 
       bool is_integer_sol = true;
       for (int var_id=0; var_id<nbin_vars_; var_id++) {
@@ -123,7 +123,7 @@ namespace solver {
 
       if (is_integer_sol) {
         nodes_[node_id].status_ = Status::SolvedNonBranchable;
-        nodes_[node_id].upper_bound_ = this->getProblem().getStorage().c().dot(this->getProblem().getSolver().optimalVector().x());
+        nodes_[node_id].upper_bound_ = this->getProblem().getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
       } else {
         this->selectPartitionVariable(nodes_[node_id].partition_id_, nodes_[node_id].partition_val_);
         nodes_[node_id].status_ = Status::SolvedBranchable;
@@ -132,7 +132,7 @@ namespace solver {
         opt_status_ = this->getProblem().optimize();
 
         if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc){
-          nodes_[node_id].upper_bound_ = this->getProblem().getStorage().c().dot(this->getProblem().getSolver().optimalVector().x());
+          nodes_[node_id].upper_bound_ = this->getProblem().getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
           is_viable_sol = true;
         }
       }
-- 
2.43.0


From 8f8dbe9f63df69198e34fdfaf99f00ae52fca85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 05/39] fix: branch and bound: a node proved infeasible holds
 no solution

---
 solver/src/solver/optimizer/BnBSolver.cpp     | 1 -
 solver/src/solver/optimizer/NcvxBnBSolver.cpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/solver/src/solver/optimizer/BnBSolver.cpp b/solver/src/solver/optimizer/BnBSolver.cpp
index 2b6b2d7..e9200f6 100644
--- a/solver/src/solver/optimizer/BnBSolver.cpp
+++ b/solver/src/solver/optimizer/BnBSolver.cpp
@@ -113,7 +113,6 @@ namespace solver {
 
     if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc ||
         opt_status_ == ExitCode::DualInf || opt_status_ == ExitCode::DualInfInacc ||
-        opt_status_ == ExitCode::PrimalInf || opt_status_ == ExitCode::PrimalInfInacc ||
         opt_status_ == ExitCode::ReachMaxIters)
     {
       nodes_[node_id].lower_bound_ = this->getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
diff --git a/solver/src/solver/optimizer/NcvxBnBSolver.cpp b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
index 3f12330..53ffeb1 100644
--- a/solver/src/solver/optimizer/NcvxBnBSolver.cpp
+++ b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
@@ -110,7 +110,6 @@ namespace solver {
 
     if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc ||
         opt_status_ == ExitCode::DualInf || opt_status_ == ExitCode::DualInfInacc ||
-        opt_status_ == ExitCode::PrimalInf || opt_status_ == ExitCode::PrimalInfInacc ||
         opt_status_ == ExitCode::ReachMaxIters)
     {
       nodes_[node_id].lower_bound_ = this->getProblem().getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
-- 
2.43.0


From 6b6bf8d10974ffff6eae8630f5cd7482db2d7eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:28 +0000
Subject: [PATCH 06/39] fix: ConicProblem: a second objective replaces the
 first one's cone variables

---
 solver/src/solver/interface/ConicProblem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/src/solver/interface/ConicProblem.cpp b/solver/src/solver/interface/ConicProblem.cpp
index 9919f92..64c01c2 100644
--- a/solver/src/solver/interface/ConicProblem.cpp
+++ b/solver/src/solver/interface/ConicProblem.cpp
@@ -93,6 +93,7 @@ namespace solver {
     objective_.qexpr() = qexpr.qexpr();
     objective_.coeffs() = qexpr.coeffs();
     objective_.lexpr() = qexpr.lexpr() + lexpr;
+    objective_.extraVars().clear();
     for (int i=0; i<(int)qexpr.coeffs().size(); i++)
       objective_.extraVars().push_back(this->addVar(VarType::Continuous, 0.0, 1.0, 0.5));
   }
-- 
2.43.0


From 6fbf7f4b85086336ea8ef813a06f722e857457df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 07/39] fix: ConicProblem: linear constraints without variables
 are not dropped

---
 solver/src/solver/interface/ConicProblem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/src/solver/interface/ConicProblem.cpp b/solver/src/solver/interface/ConicProblem.cpp
index 64c01c2..7d4e378 100644
--- a/solver/src/solver/interface/ConicProblem.cpp
+++ b/solver/src/solver/interface/ConicProblem.cpp
@@ -131,8 +131,8 @@ namespace solver {
     	    this->getStorage().addCoeff(Eigen::Triplet<double>(row_start+row_id,
 			                        leqcons_[row_id].getVar(var_id).get(SolverIntParam_ColNum),
 						            leqcons_[row_id].getCoeff(var_id)), true);
-	    this->getStorage().b()[row_start+row_id] = -leqcons_[row_id].getConstant();
 	  }
+      this->getStorage().b()[row_start+row_id] = -leqcons_[row_id].getConstant();
     }
 
     // Linear inequality constraints due to integer variables
@@ -150,8 +150,8 @@ namespace solver {
 		this->getStorage().addCoeff(Eigen::Triplet<double>(row_start+row_offset+row_id,
 			                        lineqcons_[row_id].getVar(var_id).get(SolverIntParam_ColNum),
 						            lineqcons_[row_id].getCoeff(var_id)));
-	    this->getStorage().h()[row_start+row_id] = -lineqcons_[row_id].getConstant();
 	  }
+      this->getStorage().h()[row_start+row_id] = -lineqcons_[row_id].getConstant();
     }
     row_start += lineqcons_.size();
 
-- 
2.43.0


From b0ab6b95275d083ee85c4d8997b577f5dcfd1e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:03 +0000
Subject: [PATCH 08/39] fix: OptimizationVector: read-only s and z are not
 exchanged

---
 solver/include/solver/interface/Cone.hpp | 878 +++++++++++------------
 1 file changed, 439 insertions(+), 439 deletions(-)

diff --git a/solver/include/solver/interface/Cone.hpp b/solver/include/solver/interface/Cone.hpp
index 04ab1ba..07f09e0 100644
--- a/solver/include/solver/interface/Cone.hpp
+++ b/solver/include/solver/interface/Cone.hpp
@@ -1,439 +1,439 @@
-/**
- * @file Cone.hpp
- * @author A. Domahidi [domahidi@embotech.com]
- * @license (new license) License BSD-3-Clause
- * @copyright Copyright (c) [2012-2015] Automatic Control Lab, ETH Zurich & embotech GmbH, Zurich, Switzerland.
- * @date 2012-2015
- * @brief ECOS - Embedded Conic Solver
- * 
- * Modified to c++ code by New York University and Max Planck Gesellschaft, 2017 
- */
-
-#pragma once
-
-#include <memory>
-#include <vector>
-#include <iostream>
-#include <Eigen/Sparse>
-#include <solver/interface/SolverSetting.hpp>
-
-namespace solver {
-
-  class Cone;
-  class Vector;
-  class ConicVector;
-  class ExtendedVector;
-  class OptimizationVector;
-
-  class ScalingOperator
-  {
-    public:
-	  ScalingOperator(){}
-	  ~ScalingOperator(){}
-
-	  void initialize(const Cone& cone) { cone_ = &cone; }
-	  ConicVector operator*(const Eigen::Ref<const Eigen::VectorXd>& rhs) const;
-
-    private:
-	  const Cone* cone_;
-  };
-
-  /**
-   * This class performs appropriate scalings of the cone variables.
-   * Details can be found in the paper: Domahidi, A. and Chu, E. and Boyd, S.,
-   *     ECOS: An SOCP solver for embedded systems, ECC 2013, pages 3071-3076
-   */
-  class NesterovToddScaling
-  {
-    public:
-	  friend class Cone;
-
-	  NesterovToddScaling(int conesize);
-	  ~NesterovToddScaling(){}
-
-	  inline double& w() { return w_; }
-	  inline double& d1() { return d1_; }
-	  inline double& u0() { return u0_; }
-	  inline double& u1() { return u1_; }
-	  inline double& v1() { return v1_; }
-	  inline double& eta() { return eta_; }
-	  inline double& etaSquare() { return eta_square_; }
-	  int& indexSoc(int id) { return SOC_id_(id); }
-	  Eigen::VectorXd& scalingSoc() { return wbar_; }
-	  double& scalingSoc(int id) { return wbar_(id); }
-
-	  inline const double& w() const { return w_; }
-	  inline const double& d1() const { return d1_; }
-	  inline const double& u0() const { return u0_; }
-	  inline const double& u1() const { return u1_; }
-	  inline const double& v1() const { return v1_; }
-	  inline const double& eta() const { return eta_; }
-	  inline const double& etaSquare() const { return eta_square_; }
-	  const int& indexSoc(int id) const { return SOC_id_(id); }
-	  const Eigen::VectorXd& scalingSoc() const { return wbar_; }
-	  const double& scalingSoc(int id) const { return wbar_(id); }
-
-    private:
-	  Eigen::VectorXd wbar_;
-	  Eigen::VectorXi SOC_id_;
-	  double w_, d1_, u0_, u1_, v1_, eta_, eta_square_;
-  };
-
-  /**
-   * This class contains all information about the conic optimization
-   * problem, and provides functionality for conic operations, such as
-   * scalings, residuals and sizes.
-   */
-  class Cone
-  {
-    public:
-	  // Cone class
-	  Cone(){}
-	  ~Cone(){}
-
-	  // Setting up problem
-	  void setupLpcone(int size);
-	  void setupSocone(const Eigen::VectorXi& indices);
-	  void initialize(int nvars, int nleq, int nlineq, const Eigen::VectorXi& nsoc);
-
-	  // Getter and setter methods for problem size variables
-	  inline const int& numLeq() const { return neq_; }
-	  inline const int& numSoc() const { return nsoc_; }
-	  inline const int& sizeSoc() const { return ssoc_; }
-	  inline const int& sizeLpc() const { return nineq_; }
-	  inline const int& numVars() const { return nvars_; }
-	  inline const int& sizeCone() const { return sizecone_; }
-	  inline const int& extSizeSoc() const { return extssoc_; }
-	  inline const int& sizeSoc(int id) const { return q_(id); }
-	  inline int numCones() const { return nineq_+nsoc_; }
-	  inline const int& sizeProb() const { return sizeproblem_; }
-	  inline const int& extSizeCone() const { return extsizecone_; }
-	  inline const int& lpConeStart() const { return lpconestart_; }
-	  inline const int& soConeStart() const { return soconestart_; }
-	  inline const int& extSizeProb() const { return extsizeproblem_; }
-	  inline const int& startSoc(int id) const { return SOC_start_(id); }
-	  inline const int& sizeConstraints() const { return sizeconstraints_; }
-	  inline const int& optStartSoc(int id) const { return opt_SOC_start_(id); }
-	  inline const int& extStartSoc(int id) const { return ext_SOC_start_(id); }
-	  static double normSoc(const Eigen::Ref<const Eigen::VectorXd>& v) { return v[0]-v.tail(v.size()-1).norm(); }
-
-	  // Getter and setter methods for variables of linear cone
-	  int& indexLpc(int id) { return LP_id_(id); }
-	  Eigen::VectorXd& scalingLpc() { return LP_scaling_; }
-	  double& scalingLpc(int id) { return LP_scaling_(id); }
-	  Eigen::VectorXd& sqScalingLpc() { return LP_sq_scaling_; }
-	  double& sqScalingLpc(int id) { return LP_sq_scaling_(id); }
-
-	  const int& indexLpc(int id) const { return LP_id_(id); }
-	  const Eigen::VectorXd& scalingLpc() const { return LP_scaling_; }
-	  const double& scalingLpc(int id) const { return LP_scaling_(id); }
-	  const Eigen::VectorXd& sqScalingLpc() const { return LP_sq_scaling_; }
-	  const double& sqScalingLpc(int id) const { return LP_sq_scaling_(id); }
-
-	  // Getter and setter methods for variables of second order cone
-	  NesterovToddScaling& soc(int id) { return soc_[id]; }
-	  const NesterovToddScaling& soc(int id) const { return soc_[id]; }
-	  inline double conicResidual(const double* u, int size) const;
-	  inline double conicResidual(const double* u, const double* v, int size) const;
-	  double conicResidual(const Eigen::Ref<const Eigen::VectorXd>& u) const;
-	  double conicResidual(const Eigen::Ref<const Eigen::VectorXd>& u, const Eigen::Ref<const Eigen::VectorXd>& v) const;
-
-	  // Functions for cones
-	  double safeDivision(double x, double y) const;
-	  void conicProjection(Eigen::Ref<Eigen::VectorXd> s);
-	  void conicNTScaling(const double* z, double* lambda) const;
-	  void conicNTScaling(const Eigen::VectorXd& z, Eigen::Ref<Eigen::VectorXd> lambda) const;
-	  void conicNTScaling2(const Eigen::VectorXd& x, Eigen::Ref<Eigen::VectorXd> y) const;
-	  void conicDivision(const Eigen::Ref<const Eigen::VectorXd>& u, const Eigen::Ref<const Eigen::VectorXd>& w, Eigen::Ref<Eigen::VectorXd> v) const;
-	  double conicProduct(const Eigen::Ref<const Eigen::VectorXd> u, const Eigen::Ref<const Eigen::VectorXd> v, Eigen::Ref<Eigen::VectorXd> w) const;
-	  ConeStatus updateNTScalings(const Eigen::VectorXd& s, const Eigen::VectorXd& z, Eigen::VectorXd& lambda);
-	  void unpermuteSolution(const Eigen::PermutationMatrix<Eigen::Dynamic,Eigen::Dynamic>& Pinv, const Eigen::VectorXd& Px, OptimizationVector& sd) const;
-	  void unpermuteSolution(const Eigen::PermutationMatrix<Eigen::Dynamic,Eigen::Dynamic>& Pinv, const Eigen::VectorXd& Px, OptimizationVector& sd, Eigen::VectorXd& dz) const;
-
-	  // Getter and setter methods for scaling operators
-	  ScalingOperator& W() { return W_scaling_operator_; }
-	  const ScalingOperator& W() const { return W_scaling_operator_; }
-
-    private:
-	  int nvars_;           // number variables
-	  int neq_;             // number linear equality constraints
-	  int nineq_;           // number linear inequality constraints
-	  int nsoc_;            // number second order cone constraints
-	  int ssoc_;            // size second order cone constraints
-	  int extssoc_;         // extended size second order cone constraints
-	  int lpconestart_;     // offset to linear cone start
-	  int soconestart_;     // offset to second order cone start
-	  int sizecone_;        // size of linear and second order cones
-	  int extsizecone_;     // extended size of linear and second order cones
-	  int sizeconstraints_; // size of the constraints
-	  int sizeproblem_;     // size of number of variables plus constraints
-	  int extsizeproblem_;  // size of number of variables plus constraints
-	  Eigen::VectorXi q_;   // sizes of second-order cone constraints
-
-	  // variables of LP cone
-	  Eigen::VectorXi LP_id_;
-	  Eigen::VectorXd LP_scaling_;
-	  Eigen::VectorXd LP_sq_scaling_;
-
-	  // variables of SO cone
-	  Eigen::VectorXd skbar_, zkbar_;
-      std::vector<NesterovToddScaling> soc_;
-	  Eigen::VectorXi SOC_start_, opt_SOC_start_, ext_SOC_start_;
-
-	  // Operators
-	  ScalingOperator W_scaling_operator_;
-  };
-
-  /**
-   * Helper class to work with optimization variables, lay down in normal order.
-   */
-  class Vector : public Eigen::VectorXd
-  {
-    public:
-	  Vector() : Eigen::VectorXd() {}
-	  ~Vector(){}
-
-	  template<typename OtherDerived>
-	  Vector(const Eigen::MatrixBase<OtherDerived>& other) : Eigen::VectorXd(other) {}
-
-	  template<typename OtherDerived>
-	  Vector& operator=(const Eigen::MatrixBase <OtherDerived>& other) {
-	    this->Eigen::VectorXd::operator=(other);
-	    return *this;
-	  }
-
-	  void initialize(const Cone& cone);
-
-	  Eigen::Ref<Eigen::VectorXd> x() { return this->head(cone_->numVars()); }
-	  Eigen::Ref<Eigen::VectorXd> y() { return this->segment(cone_->numVars(), cone_->numLeq()); }
-	  Eigen::Ref<Eigen::VectorXd> z() { return this->segment(cone_->lpConeStart(), cone_->sizeCone()); }
-	  Eigen::Ref<Eigen::VectorXd> yz() { return this->segment(cone_->numVars(), cone_->sizeConstraints()); }
-
-	  Eigen::Ref<Eigen::VectorXd> zLpc() { return this->segment(cone_->lpConeStart(), cone_->sizeLpc()); }
-	  Eigen::Ref<Eigen::VectorXd> zSoc() { return this->segment(cone_->soConeStart(), cone_->sizeSoc()); }
-	  Eigen::Ref<Eigen::VectorXd> zSoc(int id) { return this->segment(cone_->optStartSoc(id), cone_->sizeSoc(id)); }
-
-	  const Eigen::Ref<const Eigen::VectorXd> x() const { return this->head(cone_->numVars()); }
-	  const Eigen::Ref<const Eigen::VectorXd> y() const { return this->segment(cone_->numVars(), cone_->numLeq()); }
-	  const Eigen::Ref<const Eigen::VectorXd> z() const { return this->segment(cone_->lpConeStart(), cone_->sizeCone()); }
-	  const Eigen::Ref<const Eigen::VectorXd> yz() const { return this->segment(cone_->numVars(), cone_->sizeConstraints()); }
-
-	  const Eigen::Ref<const Eigen::VectorXd> zLpc() const { return this->segment(cone_->lpConeStart(), cone_->sizeLpc()); }
-	  const Eigen::Ref<const Eigen::VectorXd> zSoc() const { return this->segment(cone_->soConeStart(), cone_->sizeSoc()); }
-	  const Eigen::Ref<const Eigen::VectorXd> zSoc(int id) const { return this->segment(cone_->optStartSoc(id), cone_->sizeSoc(id)); }
-
-    private:
-	  const Cone* cone_;
-  };
-
-  /**
-   * Helper class to work with variables, which are members of a proper convex cone.
-   */
-  class ConicVector : public Eigen::VectorXd
-  {
-    public:
-	  ConicVector() : Eigen::VectorXd() {}
-	  ConicVector(int size) : Eigen::VectorXd(size) {}
-	  ~ConicVector(){}
-
-	  template<typename OtherDerived>
-	  ConicVector(const Eigen::MatrixBase<OtherDerived>& other) : Eigen::VectorXd(other) {}
-
-	  template<typename OtherDerived>
-	  ConicVector& operator=(const Eigen::MatrixBase <OtherDerived>& other) {
-	    this->Eigen::VectorXd::operator=(other);
-	    return *this;
-	  }
-
-	  ConicVector& operator=(const ConicVector& other) {
-	    this->Eigen::VectorXd::operator=(other);
-	    this->cone_ = other.cone_;
-	    return *this;
-	  }
-
-	  void initialize(const Cone& cone);
-	  ConicVector  operator/ (const ConicVector& rhs) const;
-	  ConicVector  operator* (const ConicVector& rhs) const;
-	  ConicVector  operator+ (const ConicVector& rhs) const;
-	  ConicVector  operator+ (const double& rhs) const;
-	  ConicVector  operator- (const double& rhs) const;
-	  ConicVector& operator+=(const double& rhs);
-	  ConicVector  operator- () const;
-
-	  Eigen::Ref<Eigen::VectorXd> z() { return this->head(cone_->sizeCone()); }
-	  Eigen::Ref<Eigen::VectorXd> zLpc() { return this->head(cone_->sizeLpc()); }
-	  Eigen::Ref<Eigen::VectorXd> zSoc() { return this->segment(cone_->sizeLpc(),cone_->sizeSoc()); }
-	  Eigen::Ref<Eigen::VectorXd> zSoc(int id) { return this->segment(cone_->startSoc(id),cone_->sizeSoc(id)); }
-
-	  const Eigen::Ref<const Eigen::VectorXd> z() const { return this->head(cone_->sizeCone()); }
-	  const Eigen::Ref<const Eigen::VectorXd> zLpc() const { return this->head(cone_->sizeLpc()); }
-	  const Eigen::Ref<const Eigen::VectorXd> zSoc() const { return this->segment(cone_->sizeLpc(),cone_->sizeSoc()); }
-	  const Eigen::Ref<const Eigen::VectorXd> zSoc(int id) const { return this->segment(cone_->startSoc(id),cone_->sizeSoc(id)); }
-
-    private:
-	  const Cone* cone_;
-  };
-
-  /**
-   * Helper class to work with optimization variables, lay down in an extended order.
-   */
-  class ExtendedVector : public Eigen::VectorXd
-  {
-    public:
-	  ExtendedVector() : Eigen::VectorXd() {}
-	  ~ExtendedVector(){}
-
-	  template<typename OtherDerived>
-	  ExtendedVector(const Eigen::MatrixBase<OtherDerived>& other) : Eigen::VectorXd(other) {}
-
-	  template<typename OtherDerived>
-	  ExtendedVector& operator=(const Eigen::MatrixBase <OtherDerived>& other) {
-	    this->Eigen::VectorXd::operator=(other);
-	    return *this;
-	  }
-
-	  void initialize(const Cone& cone);
-
-	  void zRtoE(const Eigen::Ref<const Eigen::VectorXd>& rvec);
-	  Eigen::Ref<Eigen::VectorXd> x() { return this->head(cone_->numVars()); }
-	  Eigen::Ref<Eigen::VectorXd> y() { return this->segment(cone_->numVars(),cone_->numLeq()); }
-	  Eigen::Ref<Eigen::VectorXd> z() { return this->segment(cone_->lpConeStart(),cone_->extSizeCone()); }
-
-	  Eigen::Ref<Eigen::VectorXd> zLpc() { return this->segment(cone_->lpConeStart(),cone_->sizeLpc()); }
-	  Eigen::Ref<Eigen::VectorXd> zSoc() { return this->segment(cone_->soConeStart(),cone_->extSizeSoc()); }
-	  Eigen::Ref<Eigen::VectorXd> zSoc(int id) { return this->segment(cone_->extStartSoc(id),cone_->sizeSoc(id)+2); }
-
-	  const Eigen::Ref<const Eigen::VectorXd> x() const { return this->head(cone_->numVars()); }
-	  const Eigen::Ref<const Eigen::VectorXd> y() const { return this->segment(cone_->numVars(),cone_->numLeq()); }
-	  const Eigen::Ref<const Eigen::VectorXd> z() const { return this->segment(cone_->lpConeStart(),cone_->extSizeCone()); }
-
-	  const Eigen::Ref<const Eigen::VectorXd> zLpc() const { return this->segment(cone_->lpConeStart(),cone_->sizeLpc()); }
-	  const Eigen::Ref<const Eigen::VectorXd> zSoc() const { return this->segment(cone_->soConeStart(),cone_->extSizeSoc()); }
-	  const Eigen::Ref<const Eigen::VectorXd> zSoc(int id) const { return this->segment(cone_->extStartSoc(id),cone_->sizeSoc(id)+2); }
-
-    private:
-	  const Cone* cone_;
-  };
-
-  /**
-   * Helper class to define an optimization vector, including primal and dual
-   * variables, and variables to render the optimization problem homogeneous.
-   */
-  class OptimizationVector : public Eigen::VectorXd
-  {
-    public:
-	  OptimizationVector() : Eigen::VectorXd() {}
-	  ~OptimizationVector(){}
-
-	  template<typename OtherDerived>
-	  OptimizationVector(const Eigen::MatrixBase<OtherDerived>& other) : Eigen::VectorXd(other) {}
-
-	  template<typename OtherDerived>
-	  OptimizationVector& operator=(const Eigen::MatrixBase <OtherDerived>& other) {
-	    this->Eigen::VectorXd::operator=(other);
-	    this->cone_ = other.cone_;
-	    return *this;
-	  }
-
-	  void initialize(const Cone& cone);
-
-	  OptimizationVector operator+(const OptimizationVector& rhs) const;
-
-	  Eigen::Ref<Eigen::VectorXd> x() { return this->head(cone_->numVars()); }
-	  Eigen::Ref<Eigen::VectorXd> y() { return this->segment(cone_->numVars(),cone_->numLeq()); }
-	  Eigen::Ref<Eigen::VectorXd> z() { return this->segment(cone_->lpConeStart(),cone_->sizeCone()); }
-	  Eigen::Ref<Eigen::VectorXd> s() { return this->segment(cone_->sizeProb()+2,cone_->sizeCone()); }
-	  Eigen::Ref<Eigen::VectorXd> yz() { return this->segment(cone_->numVars(),cone_->sizeConstraints()); }
-	  Eigen::Ref<Eigen::VectorXd> yztau() { return this->segment(cone_->numVars(),cone_->sizeConstraints()+1); }
-	  double& tau() { return this->segment<2>(cone_->sizeProb())[0]; }
-	  double& kappa() { return this->segment<2>(cone_->sizeProb())[1]; }
-
-	  const Eigen::Ref<const Eigen::VectorXd> x() const { return this->head(cone_->numVars()); }
-	  const Eigen::Ref<const Eigen::VectorXd> y() const { return this->segment(cone_->numVars(),cone_->numLeq()); }
-	  const Eigen::Ref<const Eigen::VectorXd> s() const { return this->segment(cone_->lpConeStart(),cone_->sizeCone()); }
-	  const Eigen::Ref<const Eigen::VectorXd> z() const { return this->segment(cone_->sizeProb()+2,cone_->sizeCone()); }
-	  const Eigen::Ref<const Eigen::VectorXd> yz() const { return this->segment(cone_->numVars(),cone_->sizeConstraints()); }
-	  const Eigen::Ref<const Eigen::VectorXd> yztau() const { return this->segment(cone_->numVars(),cone_->sizeConstraints()+1); }
-	  double tau() const { return this->segment<2>(cone_->sizeProb())[0]; }
-	  double kappa() const { return this->segment<2>(cone_->sizeProb())[1]; }
-
-	  Eigen::Ref<Eigen::VectorXd> xyz() { return this->head(cone_->sizeProb()); }
-	  Eigen::Ref<Eigen::VectorXd> xyztau() { return this->head(cone_->sizeProb()+1); }
-	  Eigen::Ref<Eigen::VectorXd> zLpc() { return this->segment(cone_->lpConeStart(),cone_->sizeLpc()); }
-	  Eigen::Ref<Eigen::VectorXd> zSoc() { return this->segment(cone_->soConeStart(),cone_->sizeSoc()); }
-	  Eigen::Ref<Eigen::VectorXd> zSoc(int id) { return this->segment(cone_->optStartSoc(id),cone_->sizeSoc(id)); }
-
-	  const Eigen::Ref<const Eigen::VectorXd> xyz() const { return this->head(cone_->sizeProb()); }
-	  const Eigen::Ref<const Eigen::VectorXd> xyztau() const { return this->head(cone_->sizeProb()+1); }
-	  const Eigen::Ref<const Eigen::VectorXd> zLpc() const { return this->segment(cone_->lpConeStart(),cone_->sizeLpc()); }
-	  const Eigen::Ref<const Eigen::VectorXd> zSoc() const { return this->segment(cone_->soConeStart(),cone_->sizeSoc()); }
-	  const Eigen::Ref<const Eigen::VectorXd> zSoc(int id) const { return this->segment(cone_->optStartSoc(id),cone_->sizeSoc(id)); }
-
-    private:
-	  const Cone* cone_;
-  };
-
-  /**
-   * Class that provides storage space for the optimization matrices,
-   * vectors and variables.
-   */
-  class SolverStorage
-  {
-    public:
-	  SolverStorage(){}
-	  ~SolverStorage(){}
-
-	  double& gTh() { return gTh_; }
-	  const double& gTh() const { return gTh_; }
-
-	  Eigen::SparseMatrix<double>& Amatrix() { return A_; }
-	  Eigen::SparseMatrix<double>& Gmatrix() { return G_; }
-	  Eigen::SparseMatrix<double>& Atmatrix() { return At_; }
-	  Eigen::SparseMatrix<double>& Gtmatrix() { return Gt_; }
-	  const Eigen::SparseMatrix<double>& Amatrix() const { return A_; }
-	  const Eigen::SparseMatrix<double>& Gmatrix() const { return G_; }
-	  const Eigen::SparseMatrix<double>& Atmatrix() const { return At_; }
-	  const Eigen::SparseMatrix<double>& Gtmatrix() const { return Gt_; }
-
-	  void initializeMatrices();
-	  void initialize(Cone& cone, SolverSetting& stgs);
-	  void cleanCoeffs() { Acoeffs_.clear(); Gcoeffs_.clear(); }
-	  void addCoeff(const Eigen::Triplet<double>& coeff, bool flag_eq = false);
-
-	  Eigen::Ref<Eigen::VectorXd> cbh() { return cbh_; }
-	  Eigen::Ref<Eigen::VectorXd> c() { return cbh_.x(); }
-	  Eigen::Ref<Eigen::VectorXd> b() { return cbh_.y(); }
-	  Eigen::Ref<Eigen::VectorXd> h() { return cbh_.z(); }
-	  Eigen::Ref<Eigen::VectorXd> bh() { return cbh_.yz(); }
-	  std::vector<Eigen::Triplet<double>>& Acoeffs() { return Acoeffs_; }
-	  std::vector<Eigen::Triplet<double>>& Gcoeffs() { return Gcoeffs_; }
-	  const Eigen::Ref<const Eigen::VectorXd> cbh() const { return cbh_; }
-	  const Eigen::Ref<const Eigen::VectorXd> c() const { return cbh_.x(); }
-	  const Eigen::Ref<const Eigen::VectorXd> b() const { return cbh_.y(); }
-	  const Eigen::Ref<const Eigen::VectorXd> h() const { return cbh_.z(); }
-	  const Eigen::Ref<const Eigen::VectorXd> bh() const { return cbh_.yz(); }
-	  const std::vector<Eigen::Triplet<double>>& Acoeffs() const { return Acoeffs_; }
-	  const std::vector<Eigen::Triplet<double>>& Gcoeffs() const { return Gcoeffs_; }
-
-	  OptimizationVector& u() { return u_opt_; }
-	  OptimizationVector& v() { return v_opt_; }
-	  OptimizationVector& ut() { return u_t_opt_; }
-	  OptimizationVector& uprev() { return u_prev_opt_; }
-	  Vector& cbh_copy() { return cbh_copy_; }
-	  const OptimizationVector& u() const { return u_opt_; }
-	  const OptimizationVector& v() const { return v_opt_; }
-	  const OptimizationVector& ut() const { return u_t_opt_; }
-	  const OptimizationVector& uprev() const { return u_prev_opt_; }
-	  const Vector& cbh_copy() const { return cbh_copy_; }
-
-    private:
-	  double gTh_;
-	  Cone* cone_;
-	  SolverSetting* stgs_;
-	  Vector cbh_, cbh_copy_;
-	  Eigen::SparseMatrix<double> A_, At_, G_, Gt_;
-	  std::vector<Eigen::Triplet<double>> Acoeffs_, Gcoeffs_;
-	  OptimizationVector u_opt_, v_opt_, u_t_opt_, u_prev_opt_;
-  };
-
-}
+/**
+ * @file Cone.hpp
+ * @author A. Domahidi [domahidi@embotech.com]
+ * @license (new license) License BSD-3-Clause
+ * @copyright Copyright (c) [2012-2015] Automatic Control Lab, ETH Zurich & embotech GmbH, Zurich, Switzerland.
+ * @date 2012-2015
+ * @brief ECOS - Embedded Conic Solver
+ * 
+ * Modified to c++ code by New York University and Max Planck Gesellschaft, 2017 
+ */
+
+#pragma once
+
+#include <memory>
+#include <vector>
+#include <iostream>
+#include <Eigen/Sparse>
+#include <solver/interface/SolverSetting.hpp>
+
+namespace solver {
+
+  class Cone;
+  class Vector;
+  class ConicVector;
+  class ExtendedVector;
+  class OptimizationVector;
+
+  class ScalingOperator
+  {
+    public:
+	  ScalingOperator(){}
+	  ~ScalingOperator(){}
+
+	  void initialize(const Cone& cone) { cone_ = &cone; }
+	  ConicVector operator*(const Eigen::Ref<const Eigen::VectorXd>& rhs) const;
+
+    private:
+	  const Cone* cone_;
+  };
+
+  /**
+   * This class performs appropriate scalings of the cone variables.
+   * Details can be found in the paper: Domahidi, A. and Chu, E. and Boyd, S.,
+   *     ECOS: An SOCP solver for embedded systems, ECC 2013, pages 3071-3076
+   */
+  class NesterovToddScaling
+  {
+    public:
+	  friend class Cone;
+
+	  NesterovToddScaling(int conesize);
+	  ~NesterovToddScaling(){}
+
+	  inline double& w() { return w_; }
+	  inline double& d1() { return d1_; }
+	  inline double& u0() { return u0_; }
+	  inline double& u1() { return u1_; }
+	  inline double& v1() { return v1_; }
+	  inline double& eta() { return eta_; }
+	  inline double& etaSquare() { return eta_square_; }
+	  int& indexSoc(int id) { return SOC_id_(id); }
+	  Eigen::VectorXd& scalingSoc() { return wbar_; }
+	  double& scalingSoc(int id) { return wbar_(id); }
+
+	  inline const double& w() const { return w_; }
+	  inline const double& d1() const { return d1_; }
+	  inline const double& u0() const { return u0_; }
+	  inline const double& u1() const { return u1_; }
+	  inline const double& v1() const { return v1_; }
+	  inline const double& eta() const { return eta_; }
+	  inline const double& etaSquare() const { return eta_square_; }
+	  const int& indexSoc(int id) const { return SOC_id_(id); }
+	  const Eigen::VectorXd& scalingSoc() const { return wbar_; }
+	  const double& scalingSoc(int id) const { return wbar_(id); }
+
+    private:
+	  Eigen::VectorXd wbar_;
+	  Eigen::VectorXi SOC_id_;
+	  double w_, d1_, u0_, u1_, v1_, eta_, eta_square_;
+  };
+
+  /**
+   * This class contains all information about the conic optimization
+   * problem, and provides functionality for conic operations, such as
+   * scalings, residuals and sizes.
+   */
+  class Cone
+  {
+    public:
+	  // Cone class
+	  Cone(){}
+	  ~Cone(){}
+
+	  // Setting up problem
+	  void setupLpcone(int size);
+	  void setupSocone(const Eigen::VectorXi& indices);
+	  void initialize(int nvars, int nleq, int nlineq, const Eigen::VectorXi& nsoc);
+
+	  // Getter and setter methods for problem size variables
+	  inline const int& numLeq() const { return neq_; }
+	  inline const int& numSoc() const { return nsoc_; }
+	  inline const int& sizeSoc() const { return ssoc_; }
+	  inline const int& sizeLpc() const { return nineq_; }
+	  inline const int& numVars() const { return nvars_; }
+	  inline const int& sizeCone() const { return sizecone_; }
+	  inline const int& extSizeSoc() const { return extssoc_; }
+	  inline const int& sizeSoc(int id) const { return q_(id); }
+	  inline int numCones() const { return nineq_+nsoc_; }
+	  inline const int& sizeProb() const { return sizeproblem_; }
+	  inline const int& extSizeCone() const { return extsizecone_; }
+	  inline const int& lpConeStart() const { return lpconestart_; }
+	  inline const int& soConeStart() const { return soconestart_; }
+	  inline const int& extSizeProb() const { return extsizeproblem_; }
+	  inline const int& startSoc(int id) const { return SOC_start_(id); }
+	  inline const int& sizeConstraints() const { return sizeconstraints_; }
+	  inline const int& optStartSoc(int id) const { return opt_SOC_start_(id); }
+	  inline const int& extStartSoc(int id) const { return ext_SOC_start_(id); }
+	  static double normSoc(const Eigen::Ref<const Eigen::VectorXd>& v) { return v[0]-v.tail(v.size()-1).norm(); }
+
+	  // Getter and setter methods for variables of linear cone
+	  int& indexLpc(int id) { return LP_id_(id); }
+	  Eigen::VectorXd& scalingLpc() { return LP_scaling_; }
+	  double& scalingLpc(int id) { return LP_scaling_(id); }
+	  Eigen::VectorXd& sqScalingLpc() { return LP_sq_scaling_; }
+	  double& sqScalingLpc(int id) { return LP_sq_scaling_(id); }
+
+	  const int& indexLpc(int id) const { return LP_id_(id); }
+	  const Eigen::VectorXd& scalingLpc() const { return LP_scaling_; }
+	  const double& scalingLpc(int id) const { return LP_scaling_(id); }
+	  const Eigen::VectorXd& sqScalingLpc() const { return LP_sq_scaling_; }
+	  const double& sqScalingLpc(int id) const { return LP_sq_scaling_(id); }
+
+	  // Getter and setter methods for variables of second order cone
+	  NesterovToddScaling& soc(int id) { return soc_[id]; }
+	  const NesterovToddScaling& soc(int id) const { return soc_[id]; }
+	  inline double conicResidual(const double* u, int size) const;
+	  inline double conicResidual(const double* u, const double* v, int size) const;
+	  double conicResidual(const Eigen::Ref<const Eigen::VectorXd>& u) const;
+	  double conicResidual(const Eigen::Ref<const Eigen::VectorXd>& u, const Eigen::Ref<const Eigen::VectorXd>& v) const;
+
+	  // Functions for cones
+	  double safeDivision(double x, double y) const;
+	  void conicProjection(Eigen::Ref<Eigen::VectorXd> s);
+	  void conicNTScaling(const double* z, double* lambda) const;
+	  void conicNTScaling(const Eigen::VectorXd& z, Eigen::Ref<Eigen::VectorXd> lambda) const;
+	  void conicNTScaling2(const Eigen::VectorXd& x, Eigen::Ref<Eigen::VectorXd> y) const;
+	  void conicDivision(const Eigen::Ref<const Eigen::VectorXd>& u, const Eigen::Ref<const Eigen::VectorXd>& w, Eigen::Ref<Eigen::VectorXd> v) const;
+	  double conicProduct(const Eigen::Ref<const Eigen::VectorXd> u, const Eigen::Ref<const Eigen::VectorXd> v, Eigen::Ref<Eigen::VectorXd> w) const;
+	  ConeStatus updateNTScalings(const Eigen::VectorXd& s, const Eigen::VectorXd& z, Eigen::VectorXd& lambda);
+	  void unpermuteSolution(const Eigen::PermutationMatrix<Eigen::Dynamic,Eigen::Dynamic>& Pinv, const Eigen::VectorXd& Px, OptimizationVector& sd) const;
+	  void unpermuteSolution(const Eigen::PermutationMatrix<Eigen::Dynamic,Eigen::Dynamic>& Pinv, const Eigen::VectorXd& Px, OptimizationVector& sd, Eigen::VectorXd& dz) const;
+
+	  // Getter and setter methods for scaling operators
+	  ScalingOperator& W() { return W_scaling_operator_; }
+	  const ScalingOperator& W() const { return W_scaling_operator_; }
+
+    private:
+	  int nvars_;           // number variables
+	  int neq_;             // number linear equality constraints
+	  int nineq_;           // number linear inequality constraints
+	  int nsoc_;            // number second order cone constraints
+	  int ssoc_;            // size second order cone constraints
+	  int extssoc_;         // extended size second order cone constraints
+	  int lpconestart_;     // offset to linear cone start
+	  int soconestart_;     // offset to second order cone start
+	  int sizecone_;        // size of linear and second order cones
+	  int extsizecone_;     // extended size of linear and second order cones
+	  int sizeconstraints_; // size of the constraints
+	  int sizeproblem_;     // size of number of variables plus constraints
+	  int extsizeproblem_;  // size of number of variables plus constraints
+	  Eigen::VectorXi q_;   // sizes of second-order cone constraints
+
+	  // variables of LP cone
+	  Eigen::VectorXi LP_id_;
+	  Eigen::VectorXd LP_scaling_;
+	  Eigen::VectorXd LP_sq_scaling_;
+
+	  // variables of SO cone
+	  Eigen::VectorXd skbar_, zkbar_;
+      std::vector<NesterovToddScaling> soc_;
+	  Eigen::VectorXi SOC_start_, opt_SOC_start_, ext_SOC_start_;
+
+	  // Operators
+	  ScalingOperator W_scaling_operator_;
+  };
+
+  /**
+   * Helper class to work with optimization variables, lay down in normal order.
+   */
+  class Vector : public Eigen::VectorXd
+  {
+    public:
+	  Vector() : Eigen::VectorXd() {}
+	  ~Vector(){}
+
+	  template<typename OtherDerived>
+	  Vector(const Eigen::MatrixBase<OtherDerived>& other) : Eigen::VectorXd(other) {}
+
+	  template<typename OtherDerived>
+	  Vector& operator=(const Eigen::MatrixBase <OtherDerived>& other) {
+	    this->Eigen::VectorXd::operator=(other);
+	    return *this;
+	  }
+
+	  void initialize(const Cone& cone);
+
+	  Eigen::Ref<Eigen::VectorXd> x() { return this->head(cone_->numVars()); }
+	  Eigen::Ref<Eigen::VectorXd> y() { return this->segment(cone_->numVars(), cone_->numLeq()); }
+	  Eigen::Ref<Eigen::VectorXd> z() { return this->segment(cone_->lpConeStart(), cone_->sizeCone()); }
+	  Eigen::Ref<Eigen::VectorXd> yz() { return this->segment(cone_->numVars(), cone_->sizeConstraints()); }
+
+	  Eigen::Ref<Eigen::VectorXd> zLpc() { return this->segment(cone_->lpConeStart(), cone_->sizeLpc()); }
+	  Eigen::Ref<Eigen::VectorXd> zSoc() { return this->segment(cone_->soConeStart(), cone_->sizeSoc()); }
+	  Eigen::Ref<Eigen::VectorXd> zSoc(int id) { return this->segment(cone_->optStartSoc(id), cone_->sizeSoc(id)); }
+
+	  const Eigen::Ref<const Eigen::VectorXd> x() const { return this->head(cone_->numVars()); }
+	  const Eigen::Ref<const Eigen::VectorXd> y() const { return this->segment(cone_->numVars(), cone_->numLeq()); }
+	  const Eigen::Ref<const Eigen::VectorXd> z() const { return this->segment(cone_->lpConeStart(), cone_->sizeCone()); }
+	  const Eigen::Ref<const Eigen::VectorXd> yz() const { return this->segment(cone_->numVars(), cone_->sizeConstraints()); }
+
+	  const Eigen::Ref<const Eigen::VectorXd> zLpc() const { return this->segment(cone_->lpConeStart(), cone_->sizeLpc()); }
+	  const Eigen::Ref<const Eigen::VectorXd> zSoc() const { return this->segment(cone_->soConeStart(), cone_->sizeSoc()); }
+	  const Eigen::Ref<const Eigen::VectorXd> zSoc(int id) const { return this->segment(cone_->optStartSoc(id), cone_->sizeSoc(id)); }
+
+    private:
+	  const Cone* cone_;
+  };
+
+  /**
+   * Helper class to work with variables, which are members of a proper convex cone.
+   */
+  class ConicVector : public Eigen::VectorXd
+  {
+    public:
+	  ConicVector() : Eigen::VectorXd() {}
+	  ConicVector(int size) : Eigen::VectorXd(size) {}
+	  ~ConicVector(){}
+
+	  template<typename OtherDerived>
+	  ConicVector(const Eigen::MatrixBase<OtherDerived>& other) : Eigen::VectorXd(other) {}
+
+	  template<typename OtherDerived>
+	  ConicVector& operator=(const Eigen::MatrixBase <OtherDerived>& other) {
+	    this->Eigen::VectorXd::operator=(other);
+	    return *this;
+	  }
+
+	  ConicVector& operator=(const ConicVector& other) {
+	    this->Eigen::VectorXd::operator=(other);
+	    this->cone_ = other.cone_;
+	    return *this;
+	  }
+
+	  void initialize(const Cone& cone);
+	  ConicVector  operator/ (const ConicVector& rhs) const;
+	  ConicVector  operator* (const ConicVector& rhs) const;
+	  ConicVector  operator+ (const ConicVector& rhs) const;
+	  ConicVector  operator+ (const double& rhs) const;
+	  ConicVector  operator- (const double& rhs) const;
+	  ConicVector& operator+=(const double& rhs);
+	  ConicVector  operator- () const;
+
+	  Eigen::Ref<Eigen::VectorXd> z() { return this->head(cone_->sizeCone()); }
+	  Eigen::Ref<Eigen::VectorXd> zLpc() { return this->head(cone_->sizeLpc()); }
+	  Eigen::Ref<Eigen::VectorXd> zSoc() { return this->segment(cone_->sizeLpc(),cone_->sizeSoc()); }
+	  Eigen::Ref<Eigen::VectorXd> zSoc(int id) { return this->segment(cone_->startSoc(id),cone_->sizeSoc(id)); }
+
+	  const Eigen::Ref<const Eigen::VectorXd> z() const { return this->head(cone_->sizeCone()); }
+	  const Eigen::Ref<const Eigen::VectorXd> zLpc() const { return this->head(cone_->sizeLpc()); }
+	  const Eigen::Ref<const Eigen::VectorXd> zSoc() const { return this->segment(cone_->sizeLpc(),cone_->sizeSoc()); }
+	  const Eigen::Ref<const Eigen::VectorXd> zSoc(int id) const { return this->segment(cone_->startSoc(id),cone_->sizeSoc(id)); }
+
+    private:
+	  const Cone* cone_;
+  };
+
+  /**
+   * Helper class to work with optimization variables, lay down in an extended order.
+   */
+  class ExtendedVector : public Eigen::VectorXd
+  {
+    public:
+	  ExtendedVector() : Eigen::VectorXd() {}
+	  ~ExtendedVector(){}
+
+	  template<typename OtherDerived>
+	  ExtendedVector(const Eigen::MatrixBase<OtherDerived>& other) : Eigen::VectorXd(other) {}
+
+	  template<typename OtherDerived>
+	  ExtendedVector& operator=(const Eigen::MatrixBase <OtherDerived>& other) {
+	    this->Eigen::VectorXd::operator=(other);
+	    return *this;
+	  }
+
+	  void initialize(const Cone& cone);
+
+	  void zRtoE(const Eigen::Ref<const Eigen::VectorXd>& rvec);
+	  Eigen::Ref<Eigen::VectorXd> x() { return this->head(cone_->numVars()); }
+	  Eigen::Ref<Eigen::VectorXd> y() { return this->segment(cone_->numVars(),cone_->numLeq()); }
+	  Eigen::Ref<Eigen::VectorXd> z() { return this->segment(cone_->lpConeStart(),cone_->extSizeCone()); }
+
+	  Eigen::Ref<Eigen::VectorXd> zLpc() { return this->segment(cone_->lpConeStart(),cone_->sizeLpc()); }
+	  Eigen::Ref<Eigen::VectorXd> zSoc() { return this->segment(cone_->soConeStart(),cone_->extSizeSoc()); }
+	  Eigen::Ref<Eigen::VectorXd> zSoc(int id) { return this->segment(cone_->extStartSoc(id),cone_->sizeSoc(id)+2); }
+
+	  const Eigen::Ref<const Eigen::VectorXd> x() const { return this->head(cone_->numVars()); }
+	  const Eigen::Ref<const Eigen::VectorXd> y() const { return this->segment(cone_->numVars(),cone_->numLeq()); }
+	  const Eigen::Ref<const Eigen::VectorXd> z() const { return this->segment(cone_->lpConeStart(),cone_->extSizeCone()); }
+
+	  const Eigen::Ref<const Eigen::VectorXd> zLpc() const { return this->segment(cone_->lpConeStart(),cone_->sizeLpc()); }
+	  const Eigen::Ref<const Eigen::VectorXd> zSoc() const { return this->segment(cone_->soConeStart(),cone_->extSizeSoc()); }
+	  const Eigen::Ref<const Eigen::VectorXd> zSoc(int id) const { return this->segment(cone_->extStartSoc(id),cone_->sizeSoc(id)+2); }
+
+    private:
+	  const Cone* cone_;
+  };
+
+  /**
+   * Helper class to define an optimization vector, including primal and dual
+   * variables, and variables to render the optimization problem homogeneous.
+   */
+  class OptimizationVector : public Eigen::VectorXd
+  {
+    public:
+	  OptimizationVector() : Eigen::VectorXd() {}
+	  ~OptimizationVector(){}
+
+	  template<typename OtherDerived>
+	  OptimizationVector(const Eigen::MatrixBase<OtherDerived>& other) : Eigen::VectorXd(other) {}
+
+	  template<typename OtherDerived>
+	  OptimizationVector& operator=(const Eigen::MatrixBase <OtherDerived>& other) {
+	    this->Eigen::VectorXd::operator=(other);
+	    this->cone_ = other.cone_;
+	    return *this;
+	  }
+
+	  void initialize(const Cone& cone);
+
+	  OptimizationVector operator+(const OptimizationVector& rhs) const;
+
+	  Eigen::Ref<Eigen::VectorXd> x() { return this->head(cone_->numVars()); }
+	  Eigen::Ref<Eigen::VectorXd> y() { return this->segment(cone_->numVars(),cone_->numLeq()); }
+	  Eigen::Ref<Eigen::VectorXd> z() { return this->segment(cone_->lpConeStart(),cone_->sizeCone()); }
+	  Eigen::Ref<Eigen::VectorXd> s() { return this->segment(cone_->sizeProb()+2,cone_->sizeCone()); }
+	  Eigen::Ref<Eigen::VectorXd> yz() { return this->segment(cone_->numVars(),cone_->sizeConstraints()); }
+	  Eigen::Ref<Eigen::VectorXd> yztau() { return this->segment(cone_->numVars(),cone_->sizeConstraints()+1); }
+	  double& tau() { return this->segment<2>(cone_->sizeProb())[0]; }
+	  double& kappa() { return this->segment<2>(cone_->sizeProb())[1]; }
+
+	  const Eigen::Ref<const Eigen::VectorXd> x() const { return this->head(cone_->numVars()); }
+	  const Eigen::Ref<const Eigen::VectorXd> y() const { return this->segment(cone_->numVars(),cone_->numLeq()); }
+	  const Eigen::Ref<const Eigen::VectorXd> z() const { return this->segment(cone_->lpConeStart(),cone_->sizeCone()); }
+	  const Eigen::Ref<const Eigen::VectorXd> s() const { return this->segment(cone_->sizeProb()+2,cone_->sizeCone()); }
+	  const Eigen::Ref<const Eigen::VectorXd> yz() const { return this->segment(cone_->numVars(),cone_->sizeConstraints()); }
+	  const Eigen::Ref<const Eigen::VectorXd> yztau() const { return this->segment(cone_->numVars(),cone_->sizeConstraints()+1); }
+	  double tau() const { return this->segment<2>(cone_->sizeProb())[0]; }
+	  double kappa() const { return this->segment<2>(cone_->sizeProb())[1]; }
+
+	  Eigen::Ref<Eigen::VectorXd> xyz() { return this->head(cone_->sizeProb()); }
+	  Eigen::Ref<Eigen::VectorXd> xyztau() { return this->head(cone_->sizeProb()+1); }
+	  Eigen::Ref<Eigen::VectorXd> zLpc() { return this->segment(cone_->lpConeStart(),cone_->sizeLpc()); }
+	  Eigen::Ref<Eigen::VectorXd> zSoc() { return this->segment(cone_->soConeStart(),cone_->sizeSoc()); }
+	  Eigen::Ref<Eigen::VectorXd> zSoc(int id) { return this->segment(cone_->optStartSoc(id),cone_->sizeSoc(id)); }
+
+	  const Eigen::Ref<const Eigen::VectorXd> xyz() const { return this->head(cone_->sizeProb()); }
+	  const Eigen::Ref<const Eigen::VectorXd> xyztau() const { return this->head(cone_->sizeProb()+1); }
+	  const Eigen::Ref<const Eigen::VectorXd> zLpc() const { return this->segment(cone_->lpConeStart(),cone_->sizeLpc()); }
+	  const Eigen::Ref<const Eigen::VectorXd> zSoc() const { return this->segment(cone_->soConeStart(),cone_->sizeSoc()); }
+	  const Eigen::Ref<const Eigen::VectorXd> zSoc(int id) const { return this->segment(cone_->optStartSoc(id),cone_->sizeSoc(id)); }
+
+    private:
+	  const Cone* cone_;
+  };
+
+  /**
+   * Class that provides storage space for the optimization matrices,
+   * vectors and variables.
+   */
+  class SolverStorage
+  {
+    public:
+	  SolverStorage(){}
+	  ~SolverStorage(){}
+
+	  double& gTh() { return gTh_; }
+	  const double& gTh() const { return gTh_; }
+
+	  Eigen::SparseMatrix<double>& Amatrix() { return A_; }
+	  Eigen::SparseMatrix<double>& Gmatrix() { return G_; }
+	  Eigen::SparseMatrix<double>& Atmatrix() { return At_; }
+	  Eigen::SparseMatrix<double>& Gtmatrix() { return Gt_; }
+	  const Eigen::SparseMatrix<double>& Amatrix() const { return A_; }
+	  const Eigen::SparseMatrix<double>& Gmatrix() const { return G_; }
+	  const Eigen::SparseMatrix<double>& Atmatrix() const { return At_; }
+	  const Eigen::SparseMatrix<double>& Gtmatrix() const { return Gt_; }
+
+	  void initializeMatrices();
+	  void initialize(Cone& cone, SolverSetting& stgs);
+	  void cleanCoeffs() { Acoeffs_.clear(); Gcoeffs_.clear(); }
+	  void addCoeff(const Eigen::Triplet<double>& coeff, bool flag_eq = false);
+
+	  Eigen::Ref<Eigen::VectorXd> cbh() { return cbh_; }
+	  Eigen::Ref<Eigen::VectorXd> c() { return cbh_.x(); }
+	  Eigen::Ref<Eigen::VectorXd> b() { return cbh_.y(); }
+	  Eigen::Ref<Eigen::VectorXd> h() { return cbh_.z(); }
+	  Eigen::Ref<Eigen::VectorXd> bh() { return cbh_.yz(); }
+	  std::vector<Eigen::Triplet<double>>& Acoeffs() { return Acoeffs_; }
+	  std::vector<Eigen::Triplet<double>>& Gcoeffs() { return Gcoeffs_; }
+	  const Eigen::Ref<const Eigen::VectorXd> cbh() const { return cbh_; }
+	  const Eigen::Ref<const Eigen::VectorXd> c() const { return cbh_.x(); }
+	  const Eigen::Ref<const Eigen::VectorXd> b() const { return cbh_.y(); }
+	  const Eigen::Ref<const Eigen::VectorXd> h() const { return cbh_.z(); }
+	  const Eigen::Ref<const Eigen::VectorXd> bh() const { return cbh_.yz(); }
+	  const std::vector<Eigen::Triplet<double>>& Acoeffs() const { return Acoeffs_; }
+	  const std::vector<Eigen::Triplet<double>>& Gcoeffs() const { return Gcoeffs_; }
+
+	  OptimizationVector& u() { return u_opt_; }
+	  OptimizationVector& v() { return v_opt_; }
+	  OptimizationVector& ut() { return u_t_opt_; }
+	  OptimizationVector& uprev() { return u_prev_opt_; }
+	  Vector& cbh_copy() { return cbh_copy_; }
+	  const OptimizationVector& u() const { return u_opt_; }
+	  const OptimizationVector& v() const { return v_opt_; }
+	  const OptimizationVector& ut() const { return u_t_opt_; }
+	  const OptimizationVector& uprev() const { return u_prev_opt_; }
+	  const Vector& cbh_copy() const { return cbh_copy_; }
+
+    private:
+	  double gTh_;
+	  Cone* cone_;
+	  SolverSetting* stgs_;
+	  Vector cbh_, cbh_copy_;
+	  Eigen::SparseMatrix<double> A_, At_, G_, Gt_;
+	  std::vector<Eigen::Triplet<double>> Acoeffs_, Gcoeffs_;
+	  OptimizationVector u_opt_, v_opt_, u_t_opt_, u_prev_opt_;
+  };
+
+}
-- 
2.43.0


From 7fa365fdf235cae5a731da56b6b32e972f5925d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:14 +0000
Subject: [PATCH 09/39] fix: L-BFGS: extrapolate past the trial step when the
 cubic has no minimum there

Case 3 of the More-Thuente step selects the far end of the trial interval in
the direction of the trial step; selecting by the sign of theta jumped back to
the best step, and the next interpolation divided by zero.
---
 solver/src/solver/optimizer/LbfgsSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/src/solver/optimizer/LbfgsSolver.cpp b/solver/src/solver/optimizer/LbfgsSolver.cpp
index 925cc4a..54a87d3 100644
--- a/solver/src/solver/optimizer/LbfgsSolver.cpp
+++ b/solver/src/solver/optimizer/LbfgsSolver.cpp
@@ -798,7 +798,7 @@ namespace solver {
     r = p / q; \
     if (r < 0. && gamma != 0.) { \
         (cm) = (v) - r * d; \
-    } else if (a < 0) { \
+    } else if (d > 0.) { \
         (cm) = (xmax); \
     } else { \
         (cm) = (xmin); \
-- 
2.43.0


From f99611e803e9137c13617e37e488eaeaf19325d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:14 +0000
Subject: [PATCH 10/39] fix: L-BFGS: after a failed line search report the cost
 of the point returned

---
 solver/src/solver/optimizer/LbfgsSolver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/solver/src/solver/optimizer/LbfgsSolver.cpp b/solver/src/solver/optimizer/LbfgsSolver.cpp
index 54a87d3..4abf8a8 100644
--- a/solver/src/solver/optimizer/LbfgsSolver.cpp
+++ b/solver/src/solver/optimizer/LbfgsSolver.cpp
@@ -203,7 +203,7 @@ namespace solver {
     iteration_data_t *lm = NULL, *it = NULL;
     double ys, yy;
     double xnorm, gnorm, beta;
-    double fx = 0.;
+    double fx = 0., fxp = 0.;
     double rate = 0.;
     line_search_proc linesearch = line_search_morethuente;
 
@@ -335,6 +335,7 @@ namespace solver {
       /* Store the current position and gradient vectors. */
       veccpy(xp, x, n);
       veccpy(gp, g, n);
+      fxp = fx;
 
       /* Search for an optimal step. */
       ls = linesearch(n, x, &fx, g, d, &step, xp, gp, w, &cd, &param);
@@ -342,6 +343,7 @@ namespace solver {
         /* Revert to the previous point. */
         veccpy(x, xp, n);
         veccpy(g, gp, n);
+        fx = fxp;
         ret = ls;
         goto lbfgs_exit;
       }
-- 
2.43.0


From e6325b87b08352704e7e55313e32ad3bcef46406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 11/39] fix: L-BFGS: a backtracking line search does not accept
 an undefined cost

Two equal gradients make the quasi-Newton direction 0/0; the comparison with a
NaN cost was false and the search accepted the point, without end when no
iteration limit is set.
---
 solver/src/solver/optimizer/LbfgsSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/src/solver/optimizer/LbfgsSolver.cpp b/solver/src/solver/optimizer/LbfgsSolver.cpp
index 4abf8a8..a3783fc 100644
--- a/solver/src/solver/optimizer/LbfgsSolver.cpp
+++ b/solver/src/solver/optimizer/LbfgsSolver.cpp
@@ -522,7 +522,7 @@ namespace solver {
 
       ++count;
 
-      if (*f > finit + *stp * dgtest) {
+      if (!(*f <= finit + *stp * dgtest)) {
         width = dec;
       } else {
         /* The sufficient decrease condition (Armijo condition). */
-- 
2.43.0


From 9b4f9236f949d080441a6d02d6ca68646c98e1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:11 +0000
Subject: [PATCH 12/39] fix: hierarchical QP: relax violated inequalities of
 previous tasks by their violation once, ignore rounding noise of fixed
 equalities

- the violation of the previous task was added after clamping, which let lower
  priorities violate the inequality by as much again
- the violation of an earlier task was added once more when a task without
  inequalities followed
- equalities implied by previous tasks left a nullspace map of rounding noise,
  which took away degrees of freedom of the following tasks
---
 solver/include/solver/rt_optimizer/RtHQPSolver.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/solver/include/solver/rt_optimizer/RtHQPSolver.h b/solver/include/solver/rt_optimizer/RtHQPSolver.h
index 79fc283..37eaa0f 100644
--- a/solver/include/solver/rt_optimizer/RtHQPSolver.h
+++ b/solver/include/solver/rt_optimizer/RtHQPSolver.h
@@ -144,12 +144,12 @@ namespace rt_solver {
         if (Ahat_.cols() != zopt_.rows()) { assert(Ahat_.cols() == zopt_.rows()); }
       #endif
       ahat_ += Ahat_ * zopt_;
+      if (wopt_.rows() != 0) //previous task had inequality constraints
+        ahat_.bottomRows(wopt_.rows()) += wopt_;
+
       for (int id=0; id<ahat_.size(); id++)
         if(ahat_[id] >= -inequality_relaxation_)
           ahat_[id] = -inequality_relaxation_;
-
-      if (wopt_.rows() != 0) //previous task had inequality constraints
-        ahat_.bottomRows(wopt_.rows()) += wopt_;
     }
 
     /*
@@ -178,6 +178,8 @@ namespace rt_solver {
     if (eq_mat.rows() != 0)
     {
       B_Nprev_ = eq_mat * Nprev_;
+      // equalities already fixed by previous tasks leave only rounding noise, which constrains nothing
+      if (B_Nprev_.norm() * eq_condition_threash_ <= eq_mat.norm()) { B_Nprev_.setZero(); }
       RtQuadraticUtils::addFromNorm(qp_solver_interface_.objectiveQuadPart().topLeftCorner(dim_z, dim_z),
                                     qp_solver_interface_.objectiveLinPart().topRows(dim_z), B_Nprev_,
                                     eq_vec + eq_mat * xopt_);
@@ -250,6 +252,8 @@ namespace rt_solver {
       } else {
         RtVectorUtils::setZero(wopt_, dim_w);
       }
+    } else {
+      RtVectorUtils::resize(wopt_, 0);
     }
 
     return qp_solver_interface_.isOptimized() || !apply_ineq_slacks_;
-- 
2.43.0


From 7acd5c4c90f60ad83c87469ae85498eb24644a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 13/39] fix: removeZeroRows: consider the first row, and size
 the selector for the rows

The matrix form did not compile when used, ignored the first row, and the
selector had room for as many columns as the matrix instead of rows
---
 solver/include/solver/rt_optimizer/RtMatrix.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/solver/include/solver/rt_optimizer/RtMatrix.hpp b/solver/include/solver/rt_optimizer/RtMatrix.hpp
index 44f5f07..ed42ed4 100644
--- a/solver/include/solver/rt_optimizer/RtMatrix.hpp
+++ b/solver/include/solver/rt_optimizer/RtMatrix.hpp
@@ -93,7 +93,7 @@ namespace rt_solver {
         squared_norms = mat.rowwise().squaredNorm();
         const double normed_threash = squared_norms.size() * threshold * threshold;
         int num_valids = 0;
-        for (int row_id=1; row_id<squared_norms.size(); row_id++)
+        for (int row_id=0; row_id<squared_norms.size(); row_id++)
           if(squared_norms[row_id] > normed_threash)
             ++num_valids;
 
@@ -101,8 +101,8 @@ namespace rt_solver {
         else if (num_valids == 0) { RtMatrixUtils::resize(mat, 0, mat.cols()); }
         else
         {
-          typename RtMatrix<MaxRows, MaxCols>::d selector_mat;
-          createSelectorMat(selector_mat, squared_norms, num_valids, normed_threash); // create selector matrix to prune zero rows
+          typename RtMatrix<MaxRows, MaxRows>::d selector_mat;
+          createSelectorMat<MaxRows, MaxRows>(selector_mat, squared_norms, num_valids, normed_threash); // create selector matrix to prune zero rows
           mat = selector_mat * mat;
         }
       }
@@ -492,8 +492,8 @@ namespace rt_solver {
           RtVectorUtils::resize(vec, 0);
           RtMatrixUtils::resize(mat, 0, mat.cols());
         } else {
-          typename RtMatrix<MaxRows, MaxCols>::d selector_mat;
-          RtMatrixUtils::createSelectorMat<MaxRows, MaxCols>(selector_mat, squared_norms, num_valids, normed_thresh);
+          typename RtMatrix<MaxRows, MaxRows>::d selector_mat;
+          RtMatrixUtils::createSelectorMat<MaxRows, MaxRows>(selector_mat, squared_norms, num_valids, normed_thresh);
           mat = selector_mat * mat;
           vec = selector_mat * vec;
         }
-- 
2.43.0


From f1bbf98a94c4a4b21040a5ef481589ada9c21941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:20 +0000
Subject: [PATCH 14/39] Revert "fix: L-BFGS: after a failed line search report
 the cost of the point returned"

This reverts commit f99611e803e9137c13617e37e488eaeaf19325d0.
---
 solver/src/solver/optimizer/LbfgsSolver.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/solver/src/solver/optimizer/LbfgsSolver.cpp b/solver/src/solver/optimizer/LbfgsSolver.cpp
index a3783fc..024d161 100644
--- a/solver/src/solver/optimizer/LbfgsSolver.cpp
+++ b/solver/src/solver/optimizer/LbfgsSolver.cpp
@@ -203,7 +203,7 @@ namespace solver {
     iteration_data_t *lm = NULL, *it = NULL;
     double ys, yy;
     double xnorm, gnorm, beta;
-    double fx = 0., fxp = 0.;
+    double fx = 0.;
     double rate = 0.;
     line_search_proc linesearch = line_search_morethuente;
 
@@ -335,7 +335,6 @@ namespace solver {
       /* Store the current position and gradient vectors. */
       veccpy(xp, x, n);
       veccpy(gp, g, n);
-      fxp = fx;
 
       /* Search for an optimal step. */
       ls = linesearch(n, x, &fx, g, d, &step, xp, gp, w, &cd, &param);
@@ -343,7 +342,6 @@ namespace solver {
         /* Revert to the previous point. */
         veccpy(x, xp, n);
         veccpy(g, gp, n);
-        fx = fxp;
         ret = ls;
         goto lbfgs_exit;
       }
-- 
2.43.0


From e119ff180174a561fc0ef64bcd7d00c56e668a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:20 +0000
Subject: [PATCH 15/39] Revert "fix: L-BFGS: extrapolate past the trial step
 when the cubic has no minimum there"

This reverts commit 7fa365fdf235cae5a731da56b6b32e972f5925d8.
---
 solver/src/solver/optimizer/LbfgsSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/src/solver/optimizer/LbfgsSolver.cpp b/solver/src/solver/optimizer/LbfgsSolver.cpp
index 024d161..bf40065 100644
--- a/solver/src/solver/optimizer/LbfgsSolver.cpp
+++ b/solver/src/solver/optimizer/LbfgsSolver.cpp
@@ -798,7 +798,7 @@ namespace solver {
     r = p / q; \
     if (r < 0. && gamma != 0.) { \
         (cm) = (v) - r * d; \
-    } else if (d > 0.) { \
+    } else if (a < 0) { \
         (cm) = (xmax); \
     } else { \
         (cm) = (xmin); \
-- 
2.43.0


From 7fc5d3130a0319b80a2f5bd984c4ed66e7d7e6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:34 +0000
Subject: [PATCH 16/39] fix: the box-constrained control step of the iLQR
 minimises 1/2 u'Hu + g'u, not u'Hu + g'u

---
 solver_lqr/src/solver_lqr/BackwardPass.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver_lqr/src/solver_lqr/BackwardPass.cpp b/solver_lqr/src/solver_lqr/BackwardPass.cpp
index 01608c6..6cd38c5 100644
--- a/solver_lqr/src/solver_lqr/BackwardPass.cpp
+++ b/solver_lqr/src/solver_lqr/BackwardPass.cpp
@@ -120,7 +120,7 @@ namespace solverlqr
       lin_expr_ = 0.0;
       for (int row_id=0; row_id<udim_; row_id++)
         lin_expr_ += chol_hessian(row_id,col_id)*vars_[row_id];
-      quad_expr_.addQuaTerm(1.0, lin_expr_);
+      quad_expr_.addQuaTerm(0.5, lin_expr_);
       quad_expr_.addLinTerm(gradient[col_id]*vars_[col_id]);
     }
     model_.setObjective(quad_expr_, 0.0);
-- 
2.43.0


From 07d65c8743de09bb41da886cbe1a8198b580ea5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:34 +0000
Subject: [PATCH 17/39] fix: the value function of the iLQR is that of the
 controller within the limits

---
 solver_lqr/src/solver_lqr/BackwardPass.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/solver_lqr/src/solver_lqr/BackwardPass.cpp b/solver_lqr/src/solver_lqr/BackwardPass.cpp
index 6cd38c5..74721d4 100644
--- a/solver_lqr/src/solver_lqr/BackwardPass.cpp
+++ b/solver_lqr/src/solver_lqr/BackwardPass.cpp
@@ -84,8 +84,11 @@ namespace solverlqr
       control_seq_.control(time).feedback() = L;
       control_seq_.control(time).feedforward() = l;
 
-      if (this->getLqrSetting().get(SolverLqrBoolParam_HasControlLimits))
+      if (this->getLqrSetting().get(SolverLqrBoolParam_HasControlLimits)) {
         this->findConstrainedControls(time, llt_.matrixL(), g);
+        l = control_seq_.control(time).feedforward();
+        L = control_seq_.control(time).feedback();
+      }
 
       // Computing quadratic approximation of the value function
       Eigen::MatrixXd Sxxn(xdim_, xdim_);
-- 
2.43.0


From b99a16a5e50f66643f05c411ce1fcac728193952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:34 +0000
Subject: [PATCH 18/39] fix: StateSequence::resize replaces the states instead
 of appending

---
 solver_lqr/src/solver_lqr/OcpDescription.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver_lqr/src/solver_lqr/OcpDescription.cpp b/solver_lqr/src/solver_lqr/OcpDescription.cpp
index 05e3444..489f29d 100644
--- a/solver_lqr/src/solver_lqr/OcpDescription.cpp
+++ b/solver_lqr/src/solver_lqr/OcpDescription.cpp
@@ -66,6 +66,7 @@ namespace solverlqr
   // StateSequence functions
   void StateSequence::resize(int tdim, int xdim)
   {
+	stateseq_.clear();
 	StateBase state(xdim);
 	for (int time=0; time<tdim; time++)
 	  stateseq_.push_back(state);
-- 
2.43.0


From 76b57d670b836cb27af06b275f974280d51a502c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:34 +0000
Subject: [PATCH 19/39] fix: a horizon of N time steps has N time steps despite
 rounding

---
 solver_lqr/src/solver_lqr/SolverLqrSetting.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver_lqr/src/solver_lqr/SolverLqrSetting.cpp b/solver_lqr/src/solver_lqr/SolverLqrSetting.cpp
index 3ecbd32..a8d81e7 100644
--- a/solver_lqr/src/solver_lqr/SolverLqrSetting.cpp
+++ b/solver_lqr/src/solver_lqr/SolverLqrSetting.cpp
@@ -53,7 +53,7 @@ namespace solverlqr {
       state_dimension_ = stgs_vars["state_dimension"].as<int>();
       control_dimension_ = stgs_vars["control_dimension"].as<int>();
       initial_state_ = stgs_vars["initial_state"].as<Eigen::VectorXd>();
-      time_dimension_ = std::floor(time_horizon_/time_step_);
+      time_dimension_ = std::floor(time_horizon_/time_step_ + 1e-6);
 
       has_control_limits_ = stgs_vars["has_control_limits"].as<bool>();
       if (has_control_limits_) {
-- 
2.43.0


From aeea5880b98fe11e41d2a2ed86ffe8fb1edbcd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:45 +0000
Subject: [PATCH 20/39] fix: keep the line endings of Cone.hpp as they were

---
 solver/include/solver/interface/Cone.hpp | 878 +++++++++++------------
 1 file changed, 439 insertions(+), 439 deletions(-)

diff --git a/solver/include/solver/interface/Cone.hpp b/solver/include/solver/interface/Cone.hpp
index 07f09e0..18768e4 100644
--- a/solver/include/solver/interface/Cone.hpp
+++ b/solver/include/solver/interface/Cone.hpp
@@ -1,439 +1,439 @@
-/**
- * @file Cone.hpp
- * @author A. Domahidi [domahidi@embotech.com]
- * @license (new license) License BSD-3-Clause
- * @copyright Copyright (c) [2012-2015] Automatic Control Lab, ETH Zurich & embotech GmbH, Zurich, Switzerland.
- * @date 2012-2015
- * @brief ECOS - Embedded Conic Solver
- * 
- * Modified to c++ code by New York University and Max Planck Gesellschaft, 2017 
- */
-
-#pragma once
-
-#include <memory>
-#include <vector>
-#include <iostream>
-#include <Eigen/Sparse>
-#include <solver/interface/SolverSetting.hpp>
-
-namespace solver {
-
-  class Cone;
-  class Vector;
-  class ConicVector;
-  class ExtendedVector;
-  class OptimizationVector;
-
-  class ScalingOperator
-  {
-    public:
-	  ScalingOperator(){}
-	  ~ScalingOperator(){}
-
-	  void initialize(const Cone& cone) { cone_ = &cone; }
-	  ConicVector operator*(const Eigen::Ref<const Eigen::VectorXd>& rhs) const;
-
-    private:
-	  const Cone* cone_;
-  };
-
-  /**
-   * This class performs appropriate scalings of the cone variables.
-   * Details can be found in the paper: Domahidi, A. and Chu, E. and Boyd, S.,
-   *     ECOS: An SOCP solver for embedded systems, ECC 2013, pages 3071-3076
-   */
-  class NesterovToddScaling
-  {
-    public:
-	  friend class Cone;
-
-	  NesterovToddScaling(int conesize);
-	  ~NesterovToddScaling(){}
-
-	  inline double& w() { return w_; }
-	  inline double& d1() { return d1_; }
-	  inline double& u0() { return u0_; }
-	  inline double& u1() { return u1_; }
-	  inline double& v1() { return v1_; }
-	  inline double& eta() { return eta_; }
-	  inline double& etaSquare() { return eta_square_; }
-	  int& indexSoc(int id) { return SOC_id_(id); }
-	  Eigen::VectorXd& scalingSoc() { return wbar_; }
-	  double& scalingSoc(int id) { return wbar_(id); }
-
-	  inline const double& w() const { return w_; }
-	  inline const double& d1() const { return d1_; }
-	  inline const double& u0() const { return u0_; }
-	  inline const double& u1() const { return u1_; }
-	  inline const double& v1() const { return v1_; }
-	  inline const double& eta() const { return eta_; }
-	  inline const double& etaSquare() const { return eta_square_; }
-	  const int& indexSoc(int id) const { return SOC_id_(id); }
-	  const Eigen::VectorXd& scalingSoc() const { return wbar_; }
-	  const double& scalingSoc(int id) const { return wbar_(id); }
-
-    private:
-	  Eigen::VectorXd wbar_;
-	  Eigen::VectorXi SOC_id_;
-	  double w_, d1_, u0_, u1_, v1_, eta_, eta_square_;
-  };
-
-  /**
-   * This class contains all information about the conic optimization
-   * problem, and provides functionality for conic operations, such as
-   * scalings, residuals and sizes.
-   */
-  class Cone
-  {
-    public:
-	  // Cone class
-	  Cone(){}
-	  ~Cone(){}
-
-	  // Setting up problem
-	  void setupLpcone(int size);
-	  void setupSocone(const Eigen::VectorXi& indices);
-	  void initialize(int nvars, int nleq, int nlineq, const Eigen::VectorXi& nsoc);
-
-	  // Getter and setter methods for problem size variables
-	  inline const int& numLeq() const { return neq_; }
-	  inline const int& numSoc() const { return nsoc_; }
-	  inline const int& sizeSoc() const { return ssoc_; }
-	  inline const int& sizeLpc() const { return nineq_; }
-	  inline const int& numVars() const { return nvars_; }
-	  inline const int& sizeCone() const { return sizecone_; }
-	  inline const int& extSizeSoc() const { return extssoc_; }
-	  inline const int& sizeSoc(int id) const { return q_(id); }
-	  inline int numCones() const { return nineq_+nsoc_; }
-	  inline const int& sizeProb() const { return sizeproblem_; }
-	  inline const int& extSizeCone() const { return extsizecone_; }
-	  inline const int& lpConeStart() const { return lpconestart_; }
-	  inline const int& soConeStart() const { return soconestart_; }
-	  inline const int& extSizeProb() const { return extsizeproblem_; }
-	  inline const int& startSoc(int id) const { return SOC_start_(id); }
-	  inline const int& sizeConstraints() const { return sizeconstraints_; }
-	  inline const int& optStartSoc(int id) const { return opt_SOC_start_(id); }
-	  inline const int& extStartSoc(int id) const { return ext_SOC_start_(id); }
-	  static double normSoc(const Eigen::Ref<const Eigen::VectorXd>& v) { return v[0]-v.tail(v.size()-1).norm(); }
-
-	  // Getter and setter methods for variables of linear cone
-	  int& indexLpc(int id) { return LP_id_(id); }
-	  Eigen::VectorXd& scalingLpc() { return LP_scaling_; }
-	  double& scalingLpc(int id) { return LP_scaling_(id); }
-	  Eigen::VectorXd& sqScalingLpc() { return LP_sq_scaling_; }
-	  double& sqScalingLpc(int id) { return LP_sq_scaling_(id); }
-
-	  const int& indexLpc(int id) const { return LP_id_(id); }
-	  const Eigen::VectorXd& scalingLpc() const { return LP_scaling_; }
-	  const double& scalingLpc(int id) const { return LP_scaling_(id); }
-	  const Eigen::VectorXd& sqScalingLpc() const { return LP_sq_scaling_; }
-	  const double& sqScalingLpc(int id) const { return LP_sq_scaling_(id); }
-
-	  // Getter and setter methods for variables of second order cone
-	  NesterovToddScaling& soc(int id) { return soc_[id]; }
-	  const NesterovToddScaling& soc(int id) const { return soc_[id]; }
-	  inline double conicResidual(const double* u, int size) const;
-	  inline double conicResidual(const double* u, const double* v, int size) const;
-	  double conicResidual(const Eigen::Ref<const Eigen::VectorXd>& u) const;
-	  double conicResidual(const Eigen::Ref<const Eigen::VectorXd>& u, const Eigen::Ref<const Eigen::VectorXd>& v) const;
-
-	  // Functions for cones
-	  double safeDivision(double x, double y) const;
-	  void conicProjection(Eigen::Ref<Eigen::VectorXd> s);
-	  void conicNTScaling(const double* z, double* lambda) const;
-	  void conicNTScaling(const Eigen::VectorXd& z, Eigen::Ref<Eigen::VectorXd> lambda) const;
-	  void conicNTScaling2(const Eigen::VectorXd& x, Eigen::Ref<Eigen::VectorXd> y) const;
-	  void conicDivision(const Eigen::Ref<const Eigen::VectorXd>& u, const Eigen::Ref<const Eigen::VectorXd>& w, Eigen::Ref<Eigen::VectorXd> v) const;
-	  double conicProduct(const Eigen::Ref<const Eigen::VectorXd> u, const Eigen::Ref<const Eigen::VectorXd> v, Eigen::Ref<Eigen::VectorXd> w) const;
-	  ConeStatus updateNTScalings(const Eigen::VectorXd& s, const Eigen::VectorXd& z, Eigen::VectorXd& lambda);
-	  void unpermuteSolution(const Eigen::PermutationMatrix<Eigen::Dynamic,Eigen::Dynamic>& Pinv, const Eigen::VectorXd& Px, OptimizationVector& sd) const;
-	  void unpermuteSolution(const Eigen::PermutationMatrix<Eigen::Dynamic,Eigen::Dynamic>& Pinv, const Eigen::VectorXd& Px, OptimizationVector& sd, Eigen::VectorXd& dz) const;
-
-	  // Getter and setter methods for scaling operators
-	  ScalingOperator& W() { return W_scaling_operator_; }
-	  const ScalingOperator& W() const { return W_scaling_operator_; }
-
-    private:
-	  int nvars_;           // number variables
-	  int neq_;             // number linear equality constraints
-	  int nineq_;           // number linear inequality constraints
-	  int nsoc_;            // number second order cone constraints
-	  int ssoc_;            // size second order cone constraints
-	  int extssoc_;         // extended size second order cone constraints
-	  int lpconestart_;     // offset to linear cone start
-	  int soconestart_;     // offset to second order cone start
-	  int sizecone_;        // size of linear and second order cones
-	  int extsizecone_;     // extended size of linear and second order cones
-	  int sizeconstraints_; // size of the constraints
-	  int sizeproblem_;     // size of number of variables plus constraints
-	  int extsizeproblem_;  // size of number of variables plus constraints
-	  Eigen::VectorXi q_;   // sizes of second-order cone constraints
-
-	  // variables of LP cone
-	  Eigen::VectorXi LP_id_;
-	  Eigen::VectorXd LP_scaling_;
-	  Eigen::VectorXd LP_sq_scaling_;
-
-	  // variables of SO cone
-	  Eigen::VectorXd skbar_, zkbar_;
-      std::vector<NesterovToddScaling> soc_;
-	  Eigen::VectorXi SOC_start_, opt_SOC_start_, ext_SOC_start_;
-
-	  // Operators
-	  ScalingOperator W_scaling_operator_;
-  };
-
-  /**
-   * Helper class to work with optimization variables, lay down in normal order.
-   */
-  class Vector : public Eigen::VectorXd
-  {
-    public:
-	  Vector() : Eigen::VectorXd() {}
-	  ~Vector(){}
-
-	  template<typename OtherDerived>
-	  Vector(const Eigen::MatrixBase<OtherDerived>& other) : Eigen::VectorXd(other) {}
-
-	  template<typename OtherDerived>
-	  Vector& operator=(const Eigen::MatrixBase <OtherDerived>& other) {
-	    this->Eigen::VectorXd::operator=(other);
-	    return *this;
-	  }
-
-	  void initialize(const Cone& cone);
-
-	  Eigen::Ref<Eigen::VectorXd> x() { return this->head(cone_->numVars()); }
-	  Eigen::Ref<Eigen::VectorXd> y() { return this->segment(cone_->numVars(), cone_->numLeq()); }
-	  Eigen::Ref<Eigen::VectorXd> z() { return this->segment(cone_->lpConeStart(), cone_->sizeCone()); }
-	  Eigen::Ref<Eigen::VectorXd> yz() { return this->segment(cone_->numVars(), cone_->sizeConstraints()); }
-
-	  Eigen::Ref<Eigen::VectorXd> zLpc() { return this->segment(cone_->lpConeStart(), cone_->sizeLpc()); }
-	  Eigen::Ref<Eigen::VectorXd> zSoc() { return this->segment(cone_->soConeStart(), cone_->sizeSoc()); }
-	  Eigen::Ref<Eigen::VectorXd> zSoc(int id) { return this->segment(cone_->optStartSoc(id), cone_->sizeSoc(id)); }
-
-	  const Eigen::Ref<const Eigen::VectorXd> x() const { return this->head(cone_->numVars()); }
-	  const Eigen::Ref<const Eigen::VectorXd> y() const { return this->segment(cone_->numVars(), cone_->numLeq()); }
-	  const Eigen::Ref<const Eigen::VectorXd> z() const { return this->segment(cone_->lpConeStart(), cone_->sizeCone()); }
-	  const Eigen::Ref<const Eigen::VectorXd> yz() const { return this->segment(cone_->numVars(), cone_->sizeConstraints()); }
-
-	  const Eigen::Ref<const Eigen::VectorXd> zLpc() const { return this->segment(cone_->lpConeStart(), cone_->sizeLpc()); }
-	  const Eigen::Ref<const Eigen::VectorXd> zSoc() const { return this->segment(cone_->soConeStart(), cone_->sizeSoc()); }
-	  const Eigen::Ref<const Eigen::VectorXd> zSoc(int id) const { return this->segment(cone_->optStartSoc(id), cone_->sizeSoc(id)); }
-
-    private:
-	  const Cone* cone_;
-  };
-
-  /**
-   * Helper class to work with variables, which are members of a proper convex cone.
-   */
-  class ConicVector : public Eigen::VectorXd
-  {
-    public:
-	  ConicVector() : Eigen::VectorXd() {}
-	  ConicVector(int size) : Eigen::VectorXd(size) {}
-	  ~ConicVector(){}
-
-	  template<typename OtherDerived>
-	  ConicVector(const Eigen::MatrixBase<OtherDerived>& other) : Eigen::VectorXd(other) {}
-
-	  template<typename OtherDerived>
-	  ConicVector& operator=(const Eigen::MatrixBase <OtherDerived>& other) {
-	    this->Eigen::VectorXd::operator=(other);
-	    return *this;
-	  }
-
-	  ConicVector& operator=(const ConicVector& other) {
-	    this->Eigen::VectorXd::operator=(other);
-	    this->cone_ = other.cone_;
-	    return *this;
-	  }
-
-	  void initialize(const Cone& cone);
-	  ConicVector  operator/ (const ConicVector& rhs) const;
-	  ConicVector  operator* (const ConicVector& rhs) const;
-	  ConicVector  operator+ (const ConicVector& rhs) const;
-	  ConicVector  operator+ (const double& rhs) const;
-	  ConicVector  operator- (const double& rhs) const;
-	  ConicVector& operator+=(const double& rhs);
-	  ConicVector  operator- () const;
-
-	  Eigen::Ref<Eigen::VectorXd> z() { return this->head(cone_->sizeCone()); }
-	  Eigen::Ref<Eigen::VectorXd> zLpc() { return this->head(cone_->sizeLpc()); }
-	  Eigen::Ref<Eigen::VectorXd> zSoc() { return this->segment(cone_->sizeLpc(),cone_->sizeSoc()); }
-	  Eigen::Ref<Eigen::VectorXd> zSoc(int id) { return this->segment(cone_->startSoc(id),cone_->sizeSoc(id)); }
-
-	  const Eigen::Ref<const Eigen::VectorXd> z() const { return this->head(cone_->sizeCone()); }
-	  const Eigen::Ref<const Eigen::VectorXd> zLpc() const { return this->head(cone_->sizeLpc()); }
-	  const Eigen::Ref<const Eigen::VectorXd> zSoc() const { return this->segment(cone_->sizeLpc(),cone_->sizeSoc()); }
-	  const Eigen::Ref<const Eigen::VectorXd> zSoc(int id) const { return this->segment(cone_->startSoc(id),cone_->sizeSoc(id)); }
-
-    private:
-	  const Cone* cone_;
-  };
-
-  /**
-   * Helper class to work with optimization variables, lay down in an extended order.
-   */
-  class ExtendedVector : public Eigen::VectorXd
-  {
-    public:
-	  ExtendedVector() : Eigen::VectorXd() {}
-	  ~ExtendedVector(){}
-
-	  template<typename OtherDerived>
-	  ExtendedVector(const Eigen::MatrixBase<OtherDerived>& other) : Eigen::VectorXd(other) {}
-
-	  template<typename OtherDerived>
-	  ExtendedVector& operator=(const Eigen::MatrixBase <OtherDerived>& other) {
-	    this->Eigen::VectorXd::operator=(other);
-	    return *this;
-	  }
-
-	  void initialize(const Cone& cone);
-
-	  void zRtoE(const Eigen::Ref<const Eigen::VectorXd>& rvec);
-	  Eigen::Ref<Eigen::VectorXd> x() { return this->head(cone_->numVars()); }
-	  Eigen::Ref<Eigen::VectorXd> y() { return this->segment(cone_->numVars(),cone_->numLeq()); }
-	  Eigen::Ref<Eigen::VectorXd> z() { return this->segment(cone_->lpConeStart(),cone_->extSizeCone()); }
-
-	  Eigen::Ref<Eigen::VectorXd> zLpc() { return this->segment(cone_->lpConeStart(),cone_->sizeLpc()); }
-	  Eigen::Ref<Eigen::VectorXd> zSoc() { return this->segment(cone_->soConeStart(),cone_->extSizeSoc()); }
-	  Eigen::Ref<Eigen::VectorXd> zSoc(int id) { return this->segment(cone_->extStartSoc(id),cone_->sizeSoc(id)+2); }
-
-	  const Eigen::Ref<const Eigen::VectorXd> x() const { return this->head(cone_->numVars()); }
-	  const Eigen::Ref<const Eigen::VectorXd> y() const { return this->segment(cone_->numVars(),cone_->numLeq()); }
-	  const Eigen::Ref<const Eigen::VectorXd> z() const { return this->segment(cone_->lpConeStart(),cone_->extSizeCone()); }
-
-	  const Eigen::Ref<const Eigen::VectorXd> zLpc() const { return this->segment(cone_->lpConeStart(),cone_->sizeLpc()); }
-	  const Eigen::Ref<const Eigen::VectorXd> zSoc() const { return this->segment(cone_->soConeStart(),cone_->extSizeSoc()); }
-	  const Eigen::Ref<const Eigen::VectorXd> zSoc(int id) const { return this->segment(cone_->extStartSoc(id),cone_->sizeSoc(id)+2); }
-
-    private:
-	  const Cone* cone_;
-  };
-
-  /**
-   * Helper class to define an optimization vector, including primal and dual
-   * variables, and variables to render the optimization problem homogeneous.
-   */
-  class OptimizationVector : public Eigen::VectorXd
-  {
-    public:
-	  OptimizationVector() : Eigen::VectorXd() {}
-	  ~OptimizationVector(){}
-
-	  template<typename OtherDerived>
-	  OptimizationVector(const Eigen::MatrixBase<OtherDerived>& other) : Eigen::VectorXd(other) {}
-
-	  template<typename OtherDerived>
-	  OptimizationVector& operator=(const Eigen::MatrixBase <OtherDerived>& other) {
-	    this->Eigen::VectorXd::operator=(other);
-	    this->cone_ = other.cone_;
-	    return *this;
-	  }
-
-	  void initialize(const Cone& cone);
-
-	  OptimizationVector operator+(const OptimizationVector& rhs) const;
-
-	  Eigen::Ref<Eigen::VectorXd> x() { return this->head(cone_->numVars()); }
-	  Eigen::Ref<Eigen::VectorXd> y() { return this->segment(cone_->numVars(),cone_->numLeq()); }
-	  Eigen::Ref<Eigen::VectorXd> z() { return this->segment(cone_->lpConeStart(),cone_->sizeCone()); }
-	  Eigen::Ref<Eigen::VectorXd> s() { return this->segment(cone_->sizeProb()+2,cone_->sizeCone()); }
-	  Eigen::Ref<Eigen::VectorXd> yz() { return this->segment(cone_->numVars(),cone_->sizeConstraints()); }
-	  Eigen::Ref<Eigen::VectorXd> yztau() { return this->segment(cone_->numVars(),cone_->sizeConstraints()+1); }
-	  double& tau() { return this->segment<2>(cone_->sizeProb())[0]; }
-	  double& kappa() { return this->segment<2>(cone_->sizeProb())[1]; }
-
-	  const Eigen::Ref<const Eigen::VectorXd> x() const { return this->head(cone_->numVars()); }
-	  const Eigen::Ref<const Eigen::VectorXd> y() const { return this->segment(cone_->numVars(),cone_->numLeq()); }
-	  const Eigen::Ref<const Eigen::VectorXd> z() const { return this->segment(cone_->lpConeStart(),cone_->sizeCone()); }
-	  const Eigen::Ref<const Eigen::VectorXd> s() const { return this->segment(cone_->sizeProb()+2,cone_->sizeCone()); }
-	  const Eigen::Ref<const Eigen::VectorXd> yz() const { return this->segment(cone_->numVars(),cone_->sizeConstraints()); }
-	  const Eigen::Ref<const Eigen::VectorXd> yztau() const { return this->segment(cone_->numVars(),cone_->sizeConstraints()+1); }
-	  double tau() const { return this->segment<2>(cone_->sizeProb())[0]; }
-	  double kappa() const { return this->segment<2>(cone_->sizeProb())[1]; }
-
-	  Eigen::Ref<Eigen::VectorXd> xyz() { return this->head(cone_->sizeProb()); }
-	  Eigen::Ref<Eigen::VectorXd> xyztau() { return this->head(cone_->sizeProb()+1); }
-	  Eigen::Ref<Eigen::VectorXd> zLpc() { return this->segment(cone_->lpConeStart(),cone_->sizeLpc()); }
-	  Eigen::Ref<Eigen::VectorXd> zSoc() { return this->segment(cone_->soConeStart(),cone_->sizeSoc()); }
-	  Eigen::Ref<Eigen::VectorXd> zSoc(int id) { return this->segment(cone_->optStartSoc(id),cone_->sizeSoc(id)); }
-
-	  const Eigen::Ref<const Eigen::VectorXd> xyz() const { return this->head(cone_->sizeProb()); }
-	  const Eigen::Ref<const Eigen::VectorXd> xyztau() const { return this->head(cone_->sizeProb()+1); }
-	  const Eigen::Ref<const Eigen::VectorXd> zLpc() const { return this->segment(cone_->lpConeStart(),cone_->sizeLpc()); }
-	  const Eigen::Ref<const Eigen::VectorXd> zSoc() const { return this->segment(cone_->soConeStart(),cone_->sizeSoc()); }
-	  const Eigen::Ref<const Eigen::VectorXd> zSoc(int id) const { return this->segment(cone_->optStartSoc(id),cone_->sizeSoc(id)); }
-
-    private:
-	  const Cone* cone_;
-  };
-
-  /**
-   * Class that provides storage space for the optimization matrices,
-   * vectors and variables.
-   */
-  class SolverStorage
-  {
-    public:
-	  SolverStorage(){}
-	  ~SolverStorage(){}
-
-	  double& gTh() { return gTh_; }
-	  const double& gTh() const { return gTh_; }
-
-	  Eigen::SparseMatrix<double>& Amatrix() { return A_; }
-	  Eigen::SparseMatrix<double>& Gmatrix() { return G_; }
-	  Eigen::SparseMatrix<double>& Atmatrix() { return At_; }
-	  Eigen::SparseMatrix<double>& Gtmatrix() { return Gt_; }
-	  const Eigen::SparseMatrix<double>& Amatrix() const { return A_; }
-	  const Eigen::SparseMatrix<double>& Gmatrix() const { return G_; }
-	  const Eigen::SparseMatrix<double>& Atmatrix() const { return At_; }
-	  const Eigen::SparseMatrix<double>& Gtmatrix() const { return Gt_; }
-
-	  void initializeMatrices();
-	  void initialize(Cone& cone, SolverSetting& stgs);
-	  void cleanCoeffs() { Acoeffs_.clear(); Gcoeffs_.clear(); }
-	  void addCoeff(const Eigen::Triplet<double>& coeff, bool flag_eq = false);
-
-	  Eigen::Ref<Eigen::VectorXd> cbh() { return cbh_; }
-	  Eigen::Ref<Eigen::VectorXd> c() { return cbh_.x(); }
-	  Eigen::Ref<Eigen::VectorXd> b() { return cbh_.y(); }
-	  Eigen::Ref<Eigen::VectorXd> h() { return cbh_.z(); }
-	  Eigen::Ref<Eigen::VectorXd> bh() { return cbh_.yz(); }
-	  std::vector<Eigen::Triplet<double>>& Acoeffs() { return Acoeffs_; }
-	  std::vector<Eigen::Triplet<double>>& Gcoeffs() { return Gcoeffs_; }
-	  const Eigen::Ref<const Eigen::VectorXd> cbh() const { return cbh_; }
-	  const Eigen::Ref<const Eigen::VectorXd> c() const { return cbh_.x(); }
-	  const Eigen::Ref<const Eigen::VectorXd> b() const { return cbh_.y(); }
-	  const Eigen::Ref<const Eigen::VectorXd> h() const { return cbh_.z(); }
-	  const Eigen::Ref<const Eigen::VectorXd> bh() const { return cbh_.yz(); }
-	  const std::vector<Eigen::Triplet<double>>& Acoeffs() const { return Acoeffs_; }
-	  const std::vector<Eigen::Triplet<double>>& Gcoeffs() const { return Gcoeffs_; }
-
-	  OptimizationVector& u() { return u_opt_; }
-	  OptimizationVector& v() { return v_opt_; }
-	  OptimizationVector& ut() { return u_t_opt_; }
-	  OptimizationVector& uprev() { return u_prev_opt_; }
-	  Vector& cbh_copy() { return cbh_copy_; }
-	  const OptimizationVector& u() const { return u_opt_; }
-	  const OptimizationVector& v() const { return v_opt_; }
-	  const OptimizationVector& ut() const { return u_t_opt_; }
-	  const OptimizationVector& uprev() const { return u_prev_opt_; }
-	  const Vector& cbh_copy() const { return cbh_copy_; }
-
-    private:
-	  double gTh_;
-	  Cone* cone_;
-	  SolverSetting* stgs_;
-	  Vector cbh_, cbh_copy_;
-	  Eigen::SparseMatrix<double> A_, At_, G_, Gt_;
-	  std::vector<Eigen::Triplet<double>> Acoeffs_, Gcoeffs_;
-	  OptimizationVector u_opt_, v_opt_, u_t_opt_, u_prev_opt_;
-  };
-
-}
+/**
+ * @file Cone.hpp
+ * @author A. Domahidi [domahidi@embotech.com]
+ * @license (new license) License BSD-3-Clause
+ * @copyright Copyright (c) [2012-2015] Automatic Control Lab, ETH Zurich & embotech GmbH, Zurich, Switzerland.
+ * @date 2012-2015
+ * @brief ECOS - Embedded Conic Solver
+ * 
+ * Modified to c++ code by New York University and Max Planck Gesellschaft, 2017 
+ */
+
+#pragma once
+
+#include <memory>
+#include <vector>
+#include <iostream>
+#include <Eigen/Sparse>
+#include <solver/interface/SolverSetting.hpp>
+
+namespace solver {
+
+  class Cone;
+  class Vector;
+  class ConicVector;
+  class ExtendedVector;
+  class OptimizationVector;
+
+  class ScalingOperator
+  {
+    public:
+	  ScalingOperator(){}
+	  ~ScalingOperator(){}
+
+	  void initialize(const Cone& cone) { cone_ = &cone; }
+	  ConicVector operator*(const Eigen::Ref<const Eigen::VectorXd>& rhs) const;
+
+    private:
+	  const Cone* cone_;
+  };
+
+  /**
+   * This class performs appropriate scalings of the cone variables.
+   * Details can be found in the paper: Domahidi, A. and Chu, E. and Boyd, S.,
+   *     ECOS: An SOCP solver for embedded systems, ECC 2013, pages 3071-3076
+   */
+  class NesterovToddScaling
+  {
+    public:
+	  friend class Cone;
+
+	  NesterovToddScaling(int conesize);
+	  ~NesterovToddScaling(){}
+
+	  inline double& w() { return w_; }
+	  inline double& d1() { return d1_; }
+	  inline double& u0() { return u0_; }
+	  inline double& u1() { return u1_; }
+	  inline double& v1() { return v1_; }
+	  inline double& eta() { return eta_; }
+	  inline double& etaSquare() { return eta_square_; }
+	  int& indexSoc(int id) { return SOC_id_(id); }
+	  Eigen::VectorXd& scalingSoc() { return wbar_; }
+	  double& scalingSoc(int id) { return wbar_(id); }
+
+	  inline const double& w() const { return w_; }
+	  inline const double& d1() const { return d1_; }
+	  inline const double& u0() const { return u0_; }
+	  inline const double& u1() const { return u1_; }
+	  inline const double& v1() const { return v1_; }
+	  inline const double& eta() const { return eta_; }
+	  inline const double& etaSquare() const { return eta_square_; }
+	  const int& indexSoc(int id) const { return SOC_id_(id); }
+	  const Eigen::VectorXd& scalingSoc() const { return wbar_; }
+	  const double& scalingSoc(int id) const { return wbar_(id); }
+
+    private:
+	  Eigen::VectorXd wbar_;
+	  Eigen::VectorXi SOC_id_;
+	  double w_, d1_, u0_, u1_, v1_, eta_, eta_square_;
+  };
+
+  /**
+   * This class contains all information about the conic optimization
+   * problem, and provides functionality for conic operations, such as
+   * scalings, residuals and sizes.
+   */
+  class Cone
+  {
+    public:
+	  // Cone class
+	  Cone(){}
+	  ~Cone(){}
+
+	  // Setting up problem
+	  void setupLpcone(int size);
+	  void setupSocone(const Eigen::VectorXi& indices);
+	  void initialize(int nvars, int nleq, int nlineq, const Eigen::VectorXi& nsoc);
+
+	  // Getter and setter methods for problem size variables
+	  inline const int& numLeq() const { return neq_; }
+	  inline const int& numSoc() const { return nsoc_; }
+	  inline const int& sizeSoc() const { return ssoc_; }
+	  inline const int& sizeLpc() const { return nineq_; }
+	  inline const int& numVars() const { return nvars_; }
+	  inline const int& sizeCone() const { return sizecone_; }
+	  inline const int& extSizeSoc() const { return extssoc_; }
+	  inline const int& sizeSoc(int id) const { return q_(id); }
+	  inline int numCones() const { return nineq_+nsoc_; }
+	  inline const int& sizeProb() const { return sizeproblem_; }
+	  inline const int& extSizeCone() const { return extsizecone_; }
+	  inline const int& lpConeStart() const { return lpconestart_; }
+	  inline const int& soConeStart() const { return soconestart_; }
+	  inline const int& extSizeProb() const { return extsizeproblem_; }
+	  inline const int& startSoc(int id) const { return SOC_start_(id); }
+	  inline const int& sizeConstraints() const { return sizeconstraints_; }
+	  inline const int& optStartSoc(int id) const { return opt_SOC_start_(id); }
+	  inline const int& extStartSoc(int id) const { return ext_SOC_start_(id); }
+	  static double normSoc(const Eigen::Ref<const Eigen::VectorXd>& v) { return v[0]-v.tail(v.size()-1).norm(); }
+
+	  // Getter and setter methods for variables of linear cone
+	  int& indexLpc(int id) { return LP_id_(id); }
+	  Eigen::VectorXd& scalingLpc() { return LP_scaling_; }
+	  double& scalingLpc(int id) { return LP_scaling_(id); }
+	  Eigen::VectorXd& sqScalingLpc() { return LP_sq_scaling_; }
+	  double& sqScalingLpc(int id) { return LP_sq_scaling_(id); }
+
+	  const int& indexLpc(int id) const { return LP_id_(id); }
+	  const Eigen::VectorXd& scalingLpc() const { return LP_scaling_; }
+	  const double& scalingLpc(int id) const { return LP_scaling_(id); }
+	  const Eigen::VectorXd& sqScalingLpc() const { return LP_sq_scaling_; }
+	  const double& sqScalingLpc(int id) const { return LP_sq_scaling_(id); }
+
+	  // Getter and setter methods for variables of second order cone
+	  NesterovToddScaling& soc(int id) { return soc_[id]; }
+	  const NesterovToddScaling& soc(int id) const { return soc_[id]; }
+	  inline double conicResidual(const double* u, int size) const;
+	  inline double conicResidual(const double* u, const double* v, int size) const;
+	  double conicResidual(const Eigen::Ref<const Eigen::VectorXd>& u) const;
+	  double conicResidual(const Eigen::Ref<const Eigen::VectorXd>& u, const Eigen::Ref<const Eigen::VectorXd>& v) const;
+
+	  // Functions for cones
+	  double safeDivision(double x, double y) const;
+	  void conicProjection(Eigen::Ref<Eigen::VectorXd> s);
+	  void conicNTScaling(const double* z, double* lambda) const;
+	  void conicNTScaling(const Eigen::VectorXd& z, Eigen::Ref<Eigen::VectorXd> lambda) const;
+	  void conicNTScaling2(const Eigen::VectorXd& x, Eigen::Ref<Eigen::VectorXd> y) const;
+	  void conicDivision(const Eigen::Ref<const Eigen::VectorXd>& u, const Eigen::Ref<const Eigen::VectorXd>& w, Eigen::Ref<Eigen::VectorXd> v) const;
+	  double conicProduct(const Eigen::Ref<const Eigen::VectorXd> u, const Eigen::Ref<const Eigen::VectorXd> v, Eigen::Ref<Eigen::VectorXd> w) const;
+	  ConeStatus updateNTScalings(const Eigen::VectorXd& s, const Eigen::VectorXd& z, Eigen::VectorXd& lambda);
+	  void unpermuteSolution(const Eigen::PermutationMatrix<Eigen::Dynamic,Eigen::Dynamic>& Pinv, const Eigen::VectorXd& Px, OptimizationVector& sd) const;
+	  void unpermuteSolution(const Eigen::PermutationMatrix<Eigen::Dynamic,Eigen::Dynamic>& Pinv, const Eigen::VectorXd& Px, OptimizationVector& sd, Eigen::VectorXd& dz) const;
+
+	  // Getter and setter methods for scaling operators
+	  ScalingOperator& W() { return W_scaling_operator_; }
+	  const ScalingOperator& W() const { return W_scaling_operator_; }
+
+    private:
+	  int nvars_;           // number variables
+	  int neq_;             // number linear equality constraints
+	  int nineq_;           // number linear inequality constraints
+	  int nsoc_;            // number second order cone constraints
+	  int ssoc_;            // size second order cone constraints
+	  int extssoc_;         // extended size second order cone constraints
+	  int lpconestart_;     // offset to linear cone start
+	  int soconestart_;     // offset to second order cone start
+	  int sizecone_;        // size of linear and second order cones
+	  int extsizecone_;     // extended size of linear and second order cones
+	  int sizeconstraints_; // size of the constraints
+	  int sizeproblem_;     // size of number of variables plus constraints
+	  int extsizeproblem_;  // size of number of variables plus constraints
+	  Eigen::VectorXi q_;   // sizes of second-order cone constraints
+
+	  // variables of LP cone
+	  Eigen::VectorXi LP_id_;
+	  Eigen::VectorXd LP_scaling_;
+	  Eigen::VectorXd LP_sq_scaling_;
+
+	  // variables of SO cone
+	  Eigen::VectorXd skbar_, zkbar_;
+      std::vector<NesterovToddScaling> soc_;
+	  Eigen::VectorXi SOC_start_, opt_SOC_start_, ext_SOC_start_;
+
+	  // Operators
+	  ScalingOperator W_scaling_operator_;
+  };
+
+  /**
+   * Helper class to work with optimization variables, lay down in normal order.
+   */
+  class Vector : public Eigen::VectorXd
+  {
+    public:
+	  Vector() : Eigen::VectorXd() {}
+	  ~Vector(){}
+
+	  template<typename OtherDerived>
+	  Vector(const Eigen::MatrixBase<OtherDerived>& other) : Eigen::VectorXd(other) {}
+
+	  template<typename OtherDerived>
+	  Vector& operator=(const Eigen::MatrixBase <OtherDerived>& other) {
+	    this->Eigen::VectorXd::operator=(other);
+	    return *this;
+	  }
+
+	  void initialize(const Cone& cone);
+
+	  Eigen::Ref<Eigen::VectorXd> x() { return this->head(cone_->numVars()); }
+	  Eigen::Ref<Eigen::VectorXd> y() { return this->segment(cone_->numVars(), cone_->numLeq()); }
+	  Eigen::Ref<Eigen::VectorXd> z() { return this->segment(cone_->lpConeStart(), cone_->sizeCone()); }
+	  Eigen::Ref<Eigen::VectorXd> yz() { return this->segment(cone_->numVars(), cone_->sizeConstraints()); }
+
+	  Eigen::Ref<Eigen::VectorXd> zLpc() { return this->segment(cone_->lpConeStart(), cone_->sizeLpc()); }
+	  Eigen::Ref<Eigen::VectorXd> zSoc() { return this->segment(cone_->soConeStart(), cone_->sizeSoc()); }
+	  Eigen::Ref<Eigen::VectorXd> zSoc(int id) { return this->segment(cone_->optStartSoc(id), cone_->sizeSoc(id)); }
+
+	  const Eigen::Ref<const Eigen::VectorXd> x() const { return this->head(cone_->numVars()); }
+	  const Eigen::Ref<const Eigen::VectorXd> y() const { return this->segment(cone_->numVars(), cone_->numLeq()); }
+	  const Eigen::Ref<const Eigen::VectorXd> z() const { return this->segment(cone_->lpConeStart(), cone_->sizeCone()); }
+	  const Eigen::Ref<const Eigen::VectorXd> yz() const { return this->segment(cone_->numVars(), cone_->sizeConstraints()); }
+
+	  const Eigen::Ref<const Eigen::VectorXd> zLpc() const { return this->segment(cone_->lpConeStart(), cone_->sizeLpc()); }
+	  const Eigen::Ref<const Eigen::VectorXd> zSoc() const { return this->segment(cone_->soConeStart(), cone_->sizeSoc()); }
+	  const Eigen::Ref<const Eigen::VectorXd> zSoc(int id) const { return this->segment(cone_->optStartSoc(id), cone_->sizeSoc(id)); }
+
+    private:
+	  const Cone* cone_;
+  };
+
+  /**
+   * Helper class to work with variables, which are members of a proper convex cone.
+   */
+  class ConicVector : public Eigen::VectorXd
+  {
+    public:
+	  ConicVector() : Eigen::VectorXd() {}
+	  ConicVector(int size) : Eigen::VectorXd(size) {}
+	  ~ConicVector(){}
+
+	  template<typename OtherDerived>
+	  ConicVector(const Eigen::MatrixBase<OtherDerived>& other) : Eigen::VectorXd(other) {}
+
+	  template<typename OtherDerived>
+	  ConicVector& operator=(const Eigen::MatrixBase <OtherDerived>& other) {
+	    this->Eigen::VectorXd::operator=(other);
+	    return *this;
+	  }
+
+	  ConicVector& operator=(const ConicVector& other) {
+	    this->Eigen::VectorXd::operator=(other);
+	    this->cone_ = other.cone_;
+	    return *this;
+	  }
+
+	  void initialize(const Cone& cone);
+	  ConicVector  operator/ (const ConicVector& rhs) const;
+	  ConicVector  operator* (const ConicVector& rhs) const;
+	  ConicVector  operator+ (const ConicVector& rhs) const;
+	  ConicVector  operator+ (const double& rhs) const;
+	  ConicVector  operator- (const double& rhs) const;
+	  ConicVector& operator+=(const double& rhs);
+	  ConicVector  operator- () const;
+
+	  Eigen::Ref<Eigen::VectorXd> z() { return this->head(cone_->sizeCone()); }
+	  Eigen::Ref<Eigen::VectorXd> zLpc() { return this->head(cone_->sizeLpc()); }
+	  Eigen::Ref<Eigen::VectorXd> zSoc() { return this->segment(cone_->sizeLpc(),cone_->sizeSoc()); }
+	  Eigen::Ref<Eigen::VectorXd> zSoc(int id) { return this->segment(cone_->startSoc(id),cone_->sizeSoc(id)); }
+
+	  const Eigen::Ref<const Eigen::VectorXd> z() const { return this->head(cone_->sizeCone()); }
+	  const Eigen::Ref<const Eigen::VectorXd> zLpc() const { return this->head(cone_->sizeLpc()); }
+	  const Eigen::Ref<const Eigen::VectorXd> zSoc() const { return this->segment(cone_->sizeLpc(),cone_->sizeSoc()); }
+	  const Eigen::Ref<const Eigen::VectorXd> zSoc(int id) const { return this->segment(cone_->startSoc(id),cone_->sizeSoc(id)); }
+
+    private:
+	  const Cone* cone_;
+  };
+
+  /**
+   * Helper class to work with optimization variables, lay down in an extended order.
+   */
+  class ExtendedVector : public Eigen::VectorXd
+  {
+    public:
+	  ExtendedVector() : Eigen::VectorXd() {}
+	  ~ExtendedVector(){}
+
+	  template<typename OtherDerived>
+	  ExtendedVector(const Eigen::MatrixBase<OtherDerived>& other) : Eigen::VectorXd(other) {}
+
+	  template<typename OtherDerived>
+	  ExtendedVector& operator=(const Eigen::MatrixBase <OtherDerived>& other) {
+	    this->Eigen::VectorXd::operator=(other);
+	    return *this;
+	  }
+
+	  void initialize(const Cone& cone);
+
+	  void zRtoE(const Eigen::Ref<const Eigen::VectorXd>& rvec);
+	  Eigen::Ref<Eigen::VectorXd> x() { return this->head(cone_->numVars()); }
+	  Eigen::Ref<Eigen::VectorXd> y() { return this->segment(cone_->numVars(),cone_->numLeq()); }
+	  Eigen::Ref<Eigen::VectorXd> z() { return this->segment(cone_->lpConeStart(),cone_->extSizeCone()); }
+
+	  Eigen::Ref<Eigen::VectorXd> zLpc() { return this->segment(cone_->lpConeStart(),cone_->sizeLpc()); }
+	  Eigen::Ref<Eigen::VectorXd> zSoc() { return this->segment(cone_->soConeStart(),cone_->extSizeSoc()); }
+	  Eigen::Ref<Eigen::VectorXd> zSoc(int id) { return this->segment(cone_->extStartSoc(id),cone_->sizeSoc(id)+2); }
+
+	  const Eigen::Ref<const Eigen::VectorXd> x() const { return this->head(cone_->numVars()); }
+	  const Eigen::Ref<const Eigen::VectorXd> y() const { return this->segment(cone_->numVars(),cone_->numLeq()); }
+	  const Eigen::Ref<const Eigen::VectorXd> z() const { return this->segment(cone_->lpConeStart(),cone_->extSizeCone()); }
+
+	  const Eigen::Ref<const Eigen::VectorXd> zLpc() const { return this->segment(cone_->lpConeStart(),cone_->sizeLpc()); }
+	  const Eigen::Ref<const Eigen::VectorXd> zSoc() const { return this->segment(cone_->soConeStart(),cone_->extSizeSoc()); }
+	  const Eigen::Ref<const Eigen::VectorXd> zSoc(int id) const { return this->segment(cone_->extStartSoc(id),cone_->sizeSoc(id)+2); }
+
+    private:
+	  const Cone* cone_;
+  };
+
+  /**
+   * Helper class to define an optimization vector, including primal and dual
+   * variables, and variables to render the optimization problem homogeneous.
+   */
+  class OptimizationVector : public Eigen::VectorXd
+  {
+    public:
+	  OptimizationVector() : Eigen::VectorXd() {}
+	  ~OptimizationVector(){}
+
+	  template<typename OtherDerived>
+	  OptimizationVector(const Eigen::MatrixBase<OtherDerived>& other) : Eigen::VectorXd(other) {}
+
+	  template<typename OtherDerived>
+	  OptimizationVector& operator=(const Eigen::MatrixBase <OtherDerived>& other) {
+	    this->Eigen::VectorXd::operator=(other);
+	    this->cone_ = other.cone_;
+	    return *this;
+	  }
+
+	  void initialize(const Cone& cone);
+
+	  OptimizationVector operator+(const OptimizationVector& rhs) const;
+
+	  Eigen::Ref<Eigen::VectorXd> x() { return this->head(cone_->numVars()); }
+	  Eigen::Ref<Eigen::VectorXd> y() { return this->segment(cone_->numVars(),cone_->numLeq()); }
+	  Eigen::Ref<Eigen::VectorXd> z() { return this->segment(cone_->lpConeStart(),cone_->sizeCone()); }
+	  Eigen::Ref<Eigen::VectorXd> s() { return this->segment(cone_->sizeProb()+2,cone_->sizeCone()); }
+	  Eigen::Ref<Eigen::VectorXd> yz() { return this->segment(cone_->numVars(),cone_->sizeConstraints()); }
+	  Eigen::Ref<Eigen::VectorXd> yztau() { return this->segment(cone_->numVars(),cone_->sizeConstraints()+1); }
+	  double& tau() { return this->segment<2>(cone_->sizeProb())[0]; }
+	  double& kappa() { return this->segment<2>(cone_->sizeProb())[1]; }
+
+	  const Eigen::Ref<const Eigen::VectorXd> x() const { return this->head(cone_->numVars()); }
+	  const Eigen::Ref<const Eigen::VectorXd> y() const { return this->segment(cone_->numVars(),cone_->numLeq()); }
+	  const Eigen::Ref<const Eigen::VectorXd> z() const { return this->segment(cone_->lpConeStart(),cone_->sizeCone()); }
+	  const Eigen::Ref<const Eigen::VectorXd> s() const { return this->segment(cone_->sizeProb()+2,cone_->sizeCone()); }
+	  const Eigen::Ref<const Eigen::VectorXd> yz() const { return this->segment(cone_->numVars(),cone_->sizeConstraints()); }
+	  const Eigen::Ref<const Eigen::VectorXd> yztau() const { return this->segment(cone_->numVars(),cone_->sizeConstraints()+1); }
+	  double tau() const { return this->segment<2>(cone_->sizeProb())[0]; }
+	  double kappa() const { return this->segment<2>(cone_->sizeProb())[1]; }
+
+	  Eigen::Ref<Eigen::VectorXd> xyz() { return this->head(cone_->sizeProb()); }
+	  Eigen::Ref<Eigen::VectorXd> xyztau() { return this->head(cone_->sizeProb()+1); }
+	  Eigen::Ref<Eigen::VectorXd> zLpc() { return this->segment(cone_->lpConeStart(),cone_->sizeLpc()); }
+	  Eigen::Ref<Eigen::VectorXd> zSoc() { return this->segment(cone_->soConeStart(),cone_->sizeSoc()); }
+	  Eigen::Ref<Eigen::VectorXd> zSoc(int id) { return this->segment(cone_->optStartSoc(id),cone_->sizeSoc(id)); }
+
+	  const Eigen::Ref<const Eigen::VectorXd> xyz() const { return this->head(cone_->sizeProb()); }
+	  const Eigen::Ref<const Eigen::VectorXd> xyztau() const { return this->head(cone_->sizeProb()+1); }
+	  const Eigen::Ref<const Eigen::VectorXd> zLpc() const { return this->segment(cone_->lpConeStart(),cone_->sizeLpc()); }
+	  const Eigen::Ref<const Eigen::VectorXd> zSoc() const { return this->segment(cone_->soConeStart(),cone_->sizeSoc()); }
+	  const Eigen::Ref<const Eigen::VectorXd> zSoc(int id) const { return this->segment(cone_->optStartSoc(id),cone_->sizeSoc(id)); }
+
+    private:
+	  const Cone* cone_;
+  };
+
+  /**
+   * Class that provides storage space for the optimization matrices,
+   * vectors and variables.
+   */
+  class SolverStorage
+  {
+    public:
+	  SolverStorage(){}
+	  ~SolverStorage(){}
+
+	  double& gTh() { return gTh_; }
+	  const double& gTh() const { return gTh_; }
+
+	  Eigen::SparseMatrix<double>& Amatrix() { return A_; }
+	  Eigen::SparseMatrix<double>& Gmatrix() { return G_; }
+	  Eigen::SparseMatrix<double>& Atmatrix() { return At_; }
+	  Eigen::SparseMatrix<double>& Gtmatrix() { return Gt_; }
+	  const Eigen::SparseMatrix<double>& Amatrix() const { return A_; }
+	  const Eigen::SparseMatrix<double>& Gmatrix() const { return G_; }
+	  const Eigen::SparseMatrix<double>& Atmatrix() const { return At_; }
+	  const Eigen::SparseMatrix<double>& Gtmatrix() const { return Gt_; }
+
+	  void initializeMatrices();
+	  void initialize(Cone& cone, SolverSetting& stgs);
+	  void cleanCoeffs() { Acoeffs_.clear(); Gcoeffs_.clear(); }
+	  void addCoeff(const Eigen::Triplet<double>& coeff, bool flag_eq = false);
+
+	  Eigen::Ref<Eigen::VectorXd> cbh() { return cbh_; }
+	  Eigen::Ref<Eigen::VectorXd> c() { return cbh_.x(); }
+	  Eigen::Ref<Eigen::VectorXd> b() { return cbh_.y(); }
+	  Eigen::Ref<Eigen::VectorXd> h() { return cbh_.z(); }
+	  Eigen::Ref<Eigen::VectorXd> bh() { return cbh_.yz(); }
+	  std::vector<Eigen::Triplet<double>>& Acoeffs() { return Acoeffs_; }
+	  std::vector<Eigen::Triplet<double>>& Gcoeffs() { return Gcoeffs_; }
+	  const Eigen::Ref<const Eigen::VectorXd> cbh() const { return cbh_; }
+	  const Eigen::Ref<const Eigen::VectorXd> c() const { return cbh_.x(); }
+	  const Eigen::Ref<const Eigen::VectorXd> b() const { return cbh_.y(); }
+	  const Eigen::Ref<const Eigen::VectorXd> h() const { return cbh_.z(); }
+	  const Eigen::Ref<const Eigen::VectorXd> bh() const { return cbh_.yz(); }
+	  const std::vector<Eigen::Triplet<double>>& Acoeffs() const { return Acoeffs_; }
+	  const std::vector<Eigen::Triplet<double>>& Gcoeffs() const { return Gcoeffs_; }
+
+	  OptimizationVector& u() { return u_opt_; }
+	  OptimizationVector& v() { return v_opt_; }
+	  OptimizationVector& ut() { return u_t_opt_; }
+	  OptimizationVector& uprev() { return u_prev_opt_; }
+	  Vector& cbh_copy() { return cbh_copy_; }
+	  const OptimizationVector& u() const { return u_opt_; }
+	  const OptimizationVector& v() const { return v_opt_; }
+	  const OptimizationVector& ut() const { return u_t_opt_; }
+	  const OptimizationVector& uprev() const { return u_prev_opt_; }
+	  const Vector& cbh_copy() const { return cbh_copy_; }
+
+    private:
+	  double gTh_;
+	  Cone* cone_;
+	  SolverSetting* stgs_;
+	  Vector cbh_, cbh_copy_;
+	  Eigen::SparseMatrix<double> A_, At_, G_, Gt_;
+	  std::vector<Eigen::Triplet<double>> Acoeffs_, Gcoeffs_;
+	  OptimizationVector u_opt_, v_opt_, u_t_opt_, u_prev_opt_;
+  };
+
+}
-- 
2.43.0


From 39bbc5d411fd3affbc72ddda70837537e96e13a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:53 +0000
Subject: [PATCH 21/39] fix: store the momentum of a time step in that time
 step

storeSolution wrote center of mass and momenta to dynamicsState(time_id+1):
one step behind the forces, and past the end of the sequence at the last one.
---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index e150484..ab17ce1 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -625,17 +625,16 @@ namespace momentumopt {
   void DynamicsOptimizer::storeSolution()
   {
 	com_.getGuessValue(mat_guess_);
-  dynamicsSequence().dynamicsState(0).centerOfMass() = Eigen::Vector3d(mat_guess_.block<3,1>(0,0));
     for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++)
-      dynamicsSequence().dynamicsState(time_id+1).centerOfMass() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
+      dynamicsSequence().dynamicsState(time_id).centerOfMass() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
 
 	lmom_.getGuessValue(mat_guess_);
     for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++)
-      dynamicsSequence().dynamicsState(time_id+1).linearMomentum() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
+      dynamicsSequence().dynamicsState(time_id).linearMomentum() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
 
 	amom_.getGuessValue(mat_guess_);
     for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++)
-      dynamicsSequence().dynamicsState(time_id+1).angularMomentum() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
+      dynamicsSequence().dynamicsState(time_id).angularMomentum() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
 
     if (this->getSetting().heuristic() == Heuristic::TimeOptimization) {
   	  dt_.getGuessValue(mat_guess_);
-- 
2.43.0


From a9cb752803c372fcb4f9b3afbfe52a51a37ca590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:53 +0000
Subject: [PATCH 22/39] fix: do not look up the contact of an end-effector that
 has none

The friction cone loop and the height constraint indexed the contact list
with contact id -1 for end-effectors not in contact.
---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index ab17ce1..6e02645 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -258,8 +258,9 @@ namespace momentumopt {
       model_.setObjective(quad_objective_, 0.0);
 
       // center of mass above endeffector positions
+      double ref_height = dynamicsSequence().dynamicsState(0).endeffectorActivation(0) ? this->contactLocation(0, 0, 2) : ini_state_.endeffectorPosition(0).z();
       for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) {
-        model_.addLinConstr(LinExpr(vars_[com_.id(2,time_id)]) - LinExpr(this->contactLocation(0, 0, 2)), ">", this->getSetting().get(PlannerDoubleParam_MinRelHeight));
+        model_.addLinConstr(LinExpr(vars_[com_.id(2,time_id)]) - LinExpr(ref_height), ">", this->getSetting().get(PlannerDoubleParam_MinRelHeight));
         //for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++) {
         //  if (dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id)) {
         //      model_.addLinConstr(vars_[com_.id(2,time_id)] - this->contactLocation(time_id, eff_id, 2), ">", this->getSetting().get(PlannerDoubleParam_MinRelHeight));
@@ -296,8 +297,8 @@ namespace momentumopt {
       // friction cone constraints
       for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) {
         for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++) {
-          if (this->contactType(time_id, eff_id) != ContactType::FullContact) {
-            if (dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id)) {
+          if (dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id)) {
+            if (this->contactType(time_id, eff_id) != ContactType::FullContact) {
               Eigen::Matrix3d eff_rotation = this->contactRotation(time_id, eff_id);
               if (this->getSetting().get(PlannerBoolParam_IsFrictionConeLinear)) {  // using a linear representation
                 Eigen::Matrix<double,4,3> rotated_cone_matrix_ = cone_matrix_*eff_rotation.transpose();
-- 
2.43.0


From efdcdc1b44c4f7464c612a126873912eb23a64ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 23/39] fix: make the remaining second order gains accessible
 for writing

The non-const getter threw for six of the parameters the const one handles,
which is the one a user with a mutable setting (and the python binding) gets.
---
 momentumopt/src/momentumopt/setting/PlannerSetting.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/momentumopt/src/momentumopt/setting/PlannerSetting.cpp b/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
index dd7386a..7baef68 100644
--- a/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
+++ b/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
@@ -585,6 +585,12 @@ namespace momentumopt {
       case PlannerDoubleParam_WeightEndEffTracking_Second : { return w_endeff_tracking_second_; }
       case PlannerDoubleParam_PGainEndEffTracking_Second : { return p_endeff_tracking_second_; }
       case PlannerDoubleParam_PGainComTracking_Second : { return p_com_tracking_second_; }
+      case PlannerDoubleParam_WeightJointReg_Second : { return w_joint_regularization_second_; }
+      case PlannerDoubleParam_DGainEndEffTracking_Second : { return d_endeff_tracking_second_; }
+      case PlannerDoubleParam_PGainBaseOrientationTracking_Second : { return p_orient_tracking_second_; }
+      case PlannerDoubleParam_DGainBaseOrientationTracking_Second : { return d_orient_tracking_second_; }
+      case PlannerDoubleParam_PGainJointRegularization_Second : { return p_joint_regularization_second_; }
+      case PlannerDoubleParam_DGainJointRegularization_Second : { return d_joint_regularization_second_; }
 
       // Not handled parameters
       default: { throw std::runtime_error("PlannerSetting::set PlannerDoubleParam invalid"); break; }
-- 
2.43.0


From ebe0bf80d685005c2f9ca8da51429ee7ce6d6272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 24/39] fix: no NaN velocity and acceleration at time zero

0*pow(0,-1) is not a number; the constant has no velocity to add.
---
 momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp b/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
index db578a4..e008f19 100644
--- a/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
+++ b/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
@@ -59,8 +59,8 @@ namespace momentumopt
     position = velocity = acceleration = 0.0;
     for (int i=0; i<cons_size_; i++) {
       position += regression_coeffs_(i)*std::pow(query_time, double(i));
-      velocity += regression_coeffs_(i)*std::pow(query_time, i-1.0)*double(i);
-      acceleration += regression_coeffs_(i)*std::pow(query_time, i-2.0)*double(i)*double(i-1.0);
+      if (i>=1) { velocity += regression_coeffs_(i)*std::pow(query_time, i-1.0)*double(i); }
+      if (i>=2) { acceleration += regression_coeffs_(i)*std::pow(query_time, i-2.0)*double(i)*double(i-1.0); }
     }
   }
 
-- 
2.43.0


From 2deb46544f14102d015d02033dc4fd820a0467a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 25/39] fix: fit the polynomial in time since the start of the
 trajectory

In absolute time the regression matrix is singular to working precision for
a short swing late in a plan, and the trajectory misses its way-points.
---
 .../src/momentumopt/utilities/TrajectoryGenerator.cpp     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp b/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
index e008f19..62b87d6 100644
--- a/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
+++ b/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
@@ -27,7 +27,7 @@ namespace momentumopt
 
 	int row_start = 0;
 	for (int row=0; row<pos_des.rows(); row++) {
-	  double time = pos_des(row,0);
+	  double time = pos_des(row,0) - time_span_[0];
 	  regression_vector_(row_start+row) = pos_des(row,1);
 	  for (int col=0; col<cons_size_; col++)
 		regression_matrix_(row_start+row,col) = std::pow(time,double(col));
@@ -35,7 +35,7 @@ namespace momentumopt
 
 	row_start += pos_des.rows();
 	for (int row=0; row<vel_des.rows(); row++) {
-	  double time = vel_des(row,0);
+	  double time = vel_des(row,0) - time_span_[0];
 	  regression_vector_(row_start+row) = vel_des(row,1);
 	  for (int col=1; col<cons_size_; col++)
 		regression_matrix_(row_start+row,col) = col*std::pow(time,col-1.0);
@@ -43,7 +43,7 @@ namespace momentumopt
 
 	row_start += vel_des.rows();
 	for (int row=0; row<acc_des.rows(); row++) {
-	  double time = acc_des(row,0);
+	  double time = acc_des(row,0) - time_span_[0];
 	  regression_vector_(row_start+row) = acc_des(row,1);
 	  for (int col=2; col<cons_size_; col++)
 		regression_matrix_(row_start+row,col) = col*(col-1)*std::pow(time,col-2.0);
@@ -54,7 +54,7 @@ namespace momentumopt
 
   void Interpolator::interpolate(const double time, double& position, double& velocity, double& acceleration)
   {
-    double query_time = std::min(std::max(time, time_span_[0]), time_span_[1]);
+    double query_time = std::min(std::max(time, time_span_[0]), time_span_[1]) - time_span_[0];
 
     position = velocity = acceleration = 0.0;
     for (int i=0; i<cons_size_; i++) {
-- 
2.43.0


From 6e89b26e9e1c3179c1186c3eb01c239634c4b86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 26/39] fix: a planning horizon of N time steps has N time
 steps despite rounding

---
 momentumopt/src/momentumopt/setting/PlannerSetting.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/src/momentumopt/setting/PlannerSetting.cpp b/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
index 7baef68..7f75a56 100644
--- a/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
+++ b/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
@@ -221,7 +221,7 @@ namespace momentumopt {
       num_act_dofs_ = active_dofs_.size();
       mass_times_gravity_ = robot_mass_ * gravity_;
       gravity_vector_ = Eigen::Vector3d(0., 0., -gravity_);
-      num_timesteps_ = std::floor(time_horizon_/time_step_);
+      num_timesteps_ = std::floor(time_horizon_/time_step_ + 1e-6);
       num_extended_act_dofs_ = extended_active_dofs_.size();
     }
     catch (std::runtime_error& e)
-- 
2.43.0


From 7a6994492400f7f715a827859a80933fddcf9db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 27/39] fix: angular velocities are those of the rotation, in
 world or body coordinates

The rotation between the orientations was taken for a change of the rotation
vector of the current orientation; away from the identity both the required
angular velocity and its integration were wrong.
---
 .../momentumopt/utilities/OrientationUtils.cpp    | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp b/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp
index 2d704b5..221d87d 100644
--- a/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp
+++ b/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp
@@ -116,11 +116,8 @@ namespace momentumopt {
     Eigen::Quaternion<double> q_current = current_orientation;    q_current.normalize();
     if (q_current.dot(q_desired) < 0.0) { q_current.w() *= -1.0; q_current.vec() *= -1.0; }
 
-    Eigen::Quaternion<double> delta_quaternion = q_desired*q_current.inverse();
-    Eigen::Vector3d delta_rotation = logarithmicMap(delta_quaternion);
-    Eigen::Vector3d current_rotation = logarithmicMap(q_current);
-
-    return toAngularVelocity(current_rotation, delta_rotation/time_step, in_body_coordinates);
+    if (!in_body_coordinates) { return logarithmicMap(q_desired*q_current.inverse())/time_step; }
+    else                      { return logarithmicMap(q_current.inverse()*q_desired)/time_step; }
   }
 
   // integration of current orientation given an angular velocity and a time interval
@@ -129,13 +126,9 @@ namespace momentumopt {
                                                      const double& time_step, bool in_body_coordinates)
   {
     Eigen::Quaternion<double> q_current = current_orientation;    q_current.normalize();
-    if (q_current.w() < 0.0) { q_current.w() *= -1.0; q_current.vec() *= -1.0; }
-
-    Eigen::Vector3d current_rotation = logarithmicMap(q_current);
-    Eigen::Vector3d current_rotation_rate = fromAngularVelocity(current_rotation, angular_velocity, in_body_coordinates);
 
-    // return exponentialMap(current_rotation + current_rotation_rate*time_step);
-    return exponentialMap(current_rotation_rate*time_step) * current_orientation;
+    if (!in_body_coordinates) { return exponentialMap(angular_velocity*time_step) * q_current; }
+    else                      { return q_current * exponentialMap(angular_velocity*time_step); }
   }
 
   // error in the orientation between current and desired orientation
-- 
2.43.0


From f4b07267120d451259ec26851a20914e4667defe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 28/39] fix: contacts of an earlier plan do not stay in the
 dynamics sequence

---
 momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp b/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
index 2914989..a4cd421 100644
--- a/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
+++ b/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
@@ -21,6 +21,12 @@ namespace momentumopt {
 	// configuration of end-effectors during contact
     dynamics_sequence.activeEndeffectorSteps().setZero();
     for (int eff_id=0; eff_id<Problem::n_endeffs_; eff_id++) {
+      for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) {
+        dynamics_sequence.dynamicsState(time_id).endeffectorActivation(eff_id) = false;
+        dynamics_sequence.dynamicsState(time_id).endeffectorContactId(eff_id) = -1;
+        dynamics_sequence.dynamicsState(time_id).endeffectorActivationId(eff_id) = 0;
+      }
+
       int counter = 0;
       int ini_id = 0, end_id = contact_sequence_.endeffectorContacts(eff_id).size();
       for (int cnt_id=ini_id; cnt_id<end_id; cnt_id++) {
-- 
2.43.0


From d98b1c2d7295913732b9ca0938a5f5b20af3213d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 29/39] fix: a swing without via-point goes through the middle
 of its end points

The via-point was left over from another swing, or not initialised at all.
---
 momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp b/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
index a4cd421..4e39754 100644
--- a/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
+++ b/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
@@ -63,6 +63,7 @@ namespace momentumopt {
           if (!ini_state.endeffectorActivation(eff_id)) {
             ini_id = 0;
             end_id = findMakeContactId(dynamics_sequence, ini_id, eff_id);
+            viapoint_position = 0.5*(ini_state.endeffectorPosition(eff_id) + contact_sequence_.endeffectorContacts(eff_id)[0].contactPosition());
             this->findActiveViapoints(viapoint_position, eff_id, -1);
             sw_traj_.initialize(this->mapIdToContactTime(dynamics_sequence, ini_id+1), ini_state.endeffectorPosition(eff_id),
                                 this->mapIdToContactTime(dynamics_sequence, end_id+1), contact_sequence_.endeffectorContacts(eff_id)[0].contactPosition(),
@@ -74,6 +75,7 @@ namespace momentumopt {
           for (int cnt_id=0; cnt_id<contact_sequence_.numEndeffectorContacts(eff_id)-1; cnt_id++) {
             ini_id = findBreakContactId(dynamics_sequence, end_id, eff_id);
             end_id = findMakeContactId(dynamics_sequence, ini_id, eff_id);
+            viapoint_position = 0.5*(contact_sequence_.endeffectorContacts(eff_id)[cnt_id].contactPosition() + contact_sequence_.endeffectorContacts(eff_id)[cnt_id+1].contactPosition());
             this->findActiveViapoints(viapoint_position, eff_id, cnt_id);
             sw_traj_.initialize(this->mapIdToContactTime(dynamics_sequence, ini_id+1), contact_sequence_.endeffectorContacts(eff_id)[cnt_id].contactPosition(),
                                 this->mapIdToContactTime(dynamics_sequence, end_id+1), contact_sequence_.endeffectorContacts(eff_id)[cnt_id+1].contactPosition(),
@@ -85,6 +87,7 @@ namespace momentumopt {
           if (!dynamics_sequence.dynamicsState(this->getSetting().get(PlannerIntParam_NumTimesteps)-1).endeffectorActivation(eff_id)) {
             ini_id = findBreakContactId(dynamics_sequence, end_id, eff_id);
             end_id = this->getSetting().get(PlannerIntParam_NumTimesteps)-1;
+            viapoint_position = 0.5*(contact_sequence_.endeffectorContacts(eff_id).back().contactPosition() + ini_state.endeffectorPosition(eff_id)+this->getSetting().get(PlannerVectorParam_CenterOfMassMotion));
             this->findActiveViapoints(viapoint_position, eff_id, contact_sequence_.numEndeffectorContacts(eff_id)-1);
             sw_traj_.initialize(this->mapIdToContactTime(dynamics_sequence, ini_id+1), contact_sequence_.endeffectorContacts(eff_id).back().contactPosition(),
                                 this->mapIdToContactTime(dynamics_sequence, end_id+1), ini_state.endeffectorPosition(eff_id)+this->getSetting().get(PlannerVectorParam_CenterOfMassMotion),
-- 
2.43.0


From 136992ab5d6ad1d540c880fa5444a1109a983b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:27 +0000
Subject: [PATCH 30/39] fix: no control cost at the final time, which has no
 time step

---
 momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
index f3c7f90..d217808 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
@@ -65,9 +65,11 @@ namespace momentumopt {
 	}
 
 	double objective = 0.0;
-    for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++)
-      if (this->dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id))
-        objective += control.feedforward().segment<3>(3*eff_id).dot( control_cost_*(control.feedforward().segment<3>(3*eff_id)) );
+    if (!is_final_timestep) {
+      for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++)
+        if (this->dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id))
+          objective += control.feedforward().segment<3>(3*eff_id).dot( control_cost_*(control.feedforward().segment<3>(3*eff_id)) );
+    }
 
     if (time_id>0) {
       objective += (state.stateVector().segment<3>(0)-this->dynamicsSequence().dynamicsState(time_id-1).centerOfMass()).dot( com_tracking*(state.stateVector().segment<3>(0)-this->dynamicsSequence().dynamicsState(time_id-1).centerOfMass()) );
-- 
2.43.0


From eb204a025e2d02e6522223c9cfca36b9cdf9e956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:39 +0000
Subject: [PATCH 31/39] fix: pymomentum: importable with current pybind11,
 setEffTorque sets the torque

---
 momentumopt/srcpy/momentumopt/cntopt/PyContacts.cpp | 9 ++++++---
 momentumopt/srcpy/momentumopt/dynopt/PyDynamics.cpp | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/momentumopt/srcpy/momentumopt/cntopt/PyContacts.cpp b/momentumopt/srcpy/momentumopt/cntopt/PyContacts.cpp
index 7b6960d..32077d1 100644
--- a/momentumopt/srcpy/momentumopt/cntopt/PyContacts.cpp
+++ b/momentumopt/srcpy/momentumopt/cntopt/PyContacts.cpp
@@ -30,13 +30,16 @@ void init_contacts(py::module &m)
     .value("FullContact", ContactType::FullContact)
     .export_values();
 
-  py::enum_<Problem::EffId>(m, "EffId")
+  py::enum_<Problem::EffId> eff_id(m, "EffId");
+  eff_id
     .value("right_foot", Problem::EffId::id_right_foot)
     .value("left_foot", Problem::EffId::id_left_foot)
     .value("right_hand", Problem::EffId::id_right_hand)
     .value("left_hand", Problem::EffId::id_left_hand)
-    .export_values()
-    .def("value",   [](const Problem::EffId& id) { return static_cast<int>(id); });
+    .export_values();
+  // pybind11 enums already have a property "value", which def() refuses to overload
+  eff_id.attr("value") = py::cpp_function([](const Problem::EffId& id) { return static_cast<int>(id); },
+    py::name("value"), py::is_method(eff_id));
  
   // binding of contacts state
   py::class_<ContactState>(m, "ContactState")
diff --git a/momentumopt/srcpy/momentumopt/dynopt/PyDynamics.cpp b/momentumopt/srcpy/momentumopt/dynopt/PyDynamics.cpp
index 9cad0c6..8990be2 100644
--- a/momentumopt/srcpy/momentumopt/dynopt/PyDynamics.cpp
+++ b/momentumopt/srcpy/momentumopt/dynopt/PyDynamics.cpp
@@ -26,7 +26,7 @@ static void setEffForce(DynamicsState& self, const int effId, const Eigen::Vecto
   self.endeffectorForce(effId) = force;
 }
 static void setEffTorque(DynamicsState& self, const int effId, const Eigen::Vector3d& torque){
-  self.endeffectorPosition(effId) = torque;
+  self.endeffectorTorque(effId) = torque;
 }
 static void setEffActivation(DynamicsState& self, const int effId, const bool activation){
   self.endeffectorActivation(effId) = activation;
-- 
2.43.0


From 8fdd9d43b6348c31bf2eb2a19ae9aef85b740f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:39 +0000
Subject: [PATCH 32/39] fix: end-effector trajectories: contacts that last
 until the end, feet that start in the air or never touch the ground

---
 .../kinoptpy/momentum_kinematics_optimizer.py | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
index a8309fe..548e17d 100644
--- a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
+++ b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
@@ -47,19 +47,21 @@ class EndeffectorTrajectoryGenerator(object):
         contact_plan = {}
         for i, eff in enumerate(mom_kin_optimizer.eff_names):
             contact_plan[eff] = []
-            start_time = 0.
-            count = 1
-            for it in range(mom_kin_optimizer.num_time_steps-1):
-                current_contact_activation = mom_kin_optimizer.dynamic_sequence.dynamics_states[it].effActivation(i)
-                last_contact_activation = mom_kin_optimizer.dynamic_sequence.dynamics_states[it+1].effActivation(i)
-                if not current_contact_activation == last_contact_activation:
-                    if (count%2 == 0):
-                        start_time = it+1
-                    elif (count%2 == 1 or it == mom_kin_optimizer.num_time_steps-1):
-                        end_time = it
-                        plan = [start_time, end_time, mom_kin_optimizer.dynamic_sequence.dynamics_states[it].eff(i)]
-                        contact_plan[eff].append(plan)
-                    count += 1
+            start_time = None
+            for it in range(mom_kin_optimizer.num_time_steps):
+                dynamics_state = mom_kin_optimizer.dynamic_sequence.dynamics_states[it]
+                if dynamics_state.effActivation(i):
+                    if start_time is None:
+                        start_time = it
+                    # The contact ends with the motion, if not before.
+                    if it == mom_kin_optimizer.num_time_steps-1 or \
+                       not mom_kin_optimizer.dynamic_sequence.dynamics_states[it+1].effActivation(i):
+                        contact_plan[eff].append([start_time, it, dynamics_state.eff(i)])
+                        start_time = None
+            if not contact_plan[eff]:
+                # Never in contact: stay where the endeffector is.
+                contact_plan[eff].append([0, mom_kin_optimizer.num_time_steps-1,
+                    mom_kin_optimizer.dynamic_sequence.dynamics_states[0].eff(i)])
         return contact_plan
 
 
-- 
2.43.0


From ec43140f2931c4158ad2e77389445350c59028de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:44 +0000
Subject: [PATCH 33/39] fix: second order inverse kinematics: current momentum
 in feedback and drift, inner steps that fill the time step

---
 momentumopt/python/momentumopt/kinoptpy/second_order_ik.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py b/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py
index b3fae41..6f9693f 100644
--- a/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py
+++ b/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py
@@ -117,6 +117,9 @@ class SecondOrderInverseKinematics(object):
         self.robot.forwardKinematics(q, dq)
         self.robot.computeJointJacobians(q)
         self.robot.framesForwardKinematics(q)
+        # The momentum feedback and the drift of the centroidal map read the
+        # momentum (hg) and com velocity (vcom) stored in data.
+        self.robot.centroidalMomentum(q, dq)
         pin.computeJointJacobiansTimeVariation(self.robot.model, self.robot.data, q, dq)
         pin.computeCentroidalMapTimeVariation(self.robot.model, self.robot.data, q, dq)
 
@@ -195,8 +198,8 @@ class SecondOrderInverseKinematics(object):
         dq_kin = np.zeros([num_time_steps,dq_init.shape[0]])
         ddq_kin = np.zeros_like(dq_kin)
 
-        inner_steps = int(dt/0.001)
-        inner_dt = 0.001
+        inner_steps = max(1, int(round(dt/0.001)))
+        inner_dt = dt / inner_steps
         time = np.linspace(0., (num_time_steps-1)*dt, num_time_steps)
         splined_com_ref = CubicSpline(time, com_ref)
         splined_lmom_ref = CubicSpline(time, lmom_ref)
-- 
2.43.0


From 15f1b9695fbfe3f0cdbe6fcbf3001fdea7bf074f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:44 +0000
Subject: [PATCH 34/39] fix: end-effector velocities of the kinematic plan
 belong to its postures

---
 .../momentumopt/kinoptpy/momentum_kinematics_optimizer.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
index 548e17d..c51e6c9 100644
--- a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
+++ b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
@@ -253,7 +253,7 @@ class MomentumKinematicsOptimizer(object):
 
         # The endeffector informations as well.
         self.motion_eff['trajectory'][it] = framesPos(self.inv_kin.endeff_ids)
-        self.motion_eff['velocity'][it] = self.inv_kin.J[6:(self.inv_kin.ne + 2) * 3].dot(dq).T
+        self.motion_eff['velocity'][it] = framesVel(self.inv_kin.endeff_ids)
 
         self.motion_eff['trajectory_wrt_base'][it] = \
             self.motion_eff['trajectory'][it] - framesPos(self.hip_ids)
-- 
2.43.0


From f00464f63764b27469ef19904cc318486a684211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:44 +0000
Subject: [PATCH 35/39] fix: quadruped_velocities.dat holds the joint
 velocities

---
 momentumopt/python/momentumopt/kinoptpy/create_data_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/create_data_file.py b/momentumopt/python/momentumopt/kinoptpy/create_data_file.py
index 49bcc7a..5537abf 100644
--- a/momentumopt/python/momentumopt/kinoptpy/create_data_file.py
+++ b/momentumopt/python/momentumopt/kinoptpy/create_data_file.py
@@ -177,7 +177,7 @@ def create_qp_files(time_vector, optimized_motion_eff, optimized_sequence, optim
 
         print("saving trajectories....")
         np.savetxt("quadruped_positions.dat", desired_joint_positions)
-        np.savetxt("quadruped_velocities.dat", des_velocities_final)
+        np.savetxt("quadruped_velocities.dat", desired_joint_velocities)
         np.savetxt("quadruped_positions_eff.dat", des_positions_final)
         np.savetxt("quadruped_velocities_eff.dat", des_velocities_final)
         np.savetxt("quadruped_com.dat", des_com)
-- 
2.43.0


From df46615c9432593b177763e707729e4fddd96229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:02 +0000
Subject: [PATCH 36/39] fix: centroidal LQR: sign of the dynamics derivatives,
 drift of the perturbation in the cost Hessian

---
 .../python/momentumopt/kinoptpy/lqr_gain_manifold.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
index a570e15..b463ef3 100644
--- a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
+++ b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
@@ -229,14 +229,14 @@ class CentroidalLqr:
         for i in range(self.nx): 
             dx[i] = self.eps 
             fp = self.integrate_step(t, self.increment_x(x,dx), u)
-            fx[:,i] = self.diff_x(fp, f0)
+            fx[:,i] = self.diff_x(f0, fp)
             dx[i] = 0. 
         fx /= self.eps 
         du = np.zeros(self.m)
         for i in range(self.m): 
             du[i] = self.eps 
             fp = self.integrate_step(t, x, u+du)
-            fu[:,i] = self.diff_x(fp, f0)
+            fu[:,i] = self.diff_x(f0, fp)
             du[i] = 0.
         fu /= self.eps 
         return fx, fu  
@@ -292,7 +292,7 @@ class CentroidalLqr:
                 spp = self.cost(t, self.increment_x(x,dx1), u)
                 dx1[col] -= 2*self.eps 
                 spm = self.cost(t, self.increment_x(x,dx1), u)
-                dx1[col] -= self.eps 
+                dx1[col] += self.eps 
                 # 
                 dx2[col] += self.eps
                 smp = self.cost(t, self.increment_x(x,dx2), u)
-- 
2.43.0


From 673b614a6b93f399721be8fd5e8555ada48b67c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:13 +0000
Subject: [PATCH 37/39] fix: save the joint velocities and accelerations of
 robots with inactive joints

---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index 6e02645..418d7b2 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -700,7 +700,7 @@ namespace momentumopt {
         for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) { mat_guess_.col(time_id) = kin_sequence.kinematicsState(time_id).angularMomentum(); } qcqp_cfg["dynopt_params"]["ang_mom_ref"] = mat_guess_;
 
         // building sequences of joint velocities and accelerations
-        mat_guess_.resize(this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs), this->getSetting().get(PlannerIntParam_NumTimesteps));    mat_guess_.setZero();
+        mat_guess_.resize(kin_sequence.kinematicsState(0).robotVelocity().generalizedJointVelocities().size(), this->getSetting().get(PlannerIntParam_NumTimesteps));    mat_guess_.setZero();
         for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) { mat_guess_.col(time_id) = kin_sequence.kinematicsState(time_id).robotVelocity().generalizedJointVelocities();  } qcqp_cfg["dynopt_params"]["jnt_vel"] = mat_guess_;
         for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) { mat_guess_.col(time_id) = kin_sequence.kinematicsState(time_id).robotAcceleration().generalizedJointAccelerations();  } qcqp_cfg["dynopt_params"]["jnt_acc"] = mat_guess_;
 
-- 
2.43.0


From ff0a221b19ddd416140ff228e390f9877c1f6d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:47 +0000
Subject: [PATCH 38/39] fix: the time horizon flag of the planner settings was
 undefined without time optimisation

---
 momentumopt/src/momentumopt/setting/PlannerSetting.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/momentumopt/src/momentumopt/setting/PlannerSetting.cpp b/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
index 7f75a56..2cc124b 100644
--- a/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
+++ b/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
@@ -90,6 +90,7 @@ namespace momentumopt {
       YAML::ReadParameter(planner_vars, "torque_range", torque_range_);
       YAML::ReadParameter(planner_vars, "friction_coeff", friction_coeff_);
       YAML::ReadParameter(planner_vars, "max_eef_lengths", max_eef_lengths_);
+      is_time_horizon_fixed_ = false;
       if (heuristic_ == Heuristic::TimeOptimization) {
         YAML::ReadParameter(planner_vars, "time_range", time_range_);
         YAML::ReadParameter(planner_vars, "is_time_horizon_fixed", is_time_horizon_fixed_);
-- 
2.43.0


From df0073a0b0a03fc6d7b6bb9364292d70b1dd34dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:32 +0000
Subject: [PATCH 39/39] fix: NcvxBnBSolver used the cone of a problem that was
 not yet built

---
 solver/src/solver/optimizer/NcvxBnBSolver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/solver/src/solver/optimizer/NcvxBnBSolver.cpp b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
index 53ffeb1..4167f9a 100644
--- a/solver/src/solver/optimizer/NcvxBnBSolver.cpp
+++ b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
@@ -95,9 +95,11 @@ namespace solver {
     opt_ = this->getProblem().getSolver().optimalVector();
   }
 
-  //! Loads back the solution of the node with best statistics
+  //! Loads back the solution of the node with best statistics, if any node had one
   void NcvxBnBSolver::loadSolution()
   {
+    if (prob_upper_bound_ == SolverSetting::inf) { return; }
+
     this->getProblem().getSolver().getInfo() = this->getInfo();
     this->getProblem().getSolver().optimalVector() = opt_;
   }
@@ -222,7 +224,6 @@ namespace solver {
     conic_problem_ = &conic_problem;
 
     nbin_vars_ = this->getProblem().problemBinaryVariables().size();
-    opt_.initialize(this->getProblem().getCone());
     prob_upper_bound_ = SolverSetting::inf;
     nodes_.resize(this->getProblem().getSetting().get(SolverIntParam_BnBMaxIters));
     binvars_mat_id_.resize(nbin_vars_, this->getProblem().getSetting().get(SolverIntParam_BnBMaxIters));
-- 
2.43.0

