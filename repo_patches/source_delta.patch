From 8e045b7d315e5753e6b9367ad15ba2b1bffe9c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:03 +0000
Subject: [PATCH 01/86] fix: CompressedColumnMatrix::clear() keeps the columns,
 and no stale diagonal flag

clear() sized the column pointers by the number of rows, so a matrix with
more columns than rows was read out of bounds afterwards, and clear(),
fromDenseTolerance() and fromCholmodSparse() kept the flag that says a
diagonal block is appended.
---
 .../backend/implementation/CompressedColumnMatrix.hpp        | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp
index 1263f48..5482044 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp
@@ -133,7 +133,8 @@ namespace aslam {
     {
       _values.clear();
       _row_ind.clear();
-      _col_ptr.assign(_rows + 1, (index_t)0);
+      _col_ptr.assign(_cols + 1, (index_t)0);
+      _hasDiagonalAppended = false;
     }
 
 
@@ -416,6 +417,7 @@ namespace aslam {
     {
       _rows = M.rows();
       _cols = M.cols();
+      _hasDiagonalAppended = false;
       _values.clear();
       _row_ind.clear();
       _col_ptr.resize(1);
@@ -462,6 +464,7 @@ namespace aslam {
         return;
       _rows = cs->nrow;
       _cols = cs->ncol;
+      _hasDiagonalAppended = false;
       const I* row_ind = reinterpret_cast<const I*>(cs->i);
       const I* col_ptr = reinterpret_cast<const I*>(cs->p);
       const double* values = reinterpret_cast<const double*>(cs->x);
-- 
2.43.0


From fd23fbf80d92e7f6ee1532b50c92bcfba89fa328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:39 +0000
Subject: [PATCH 02/86] fix: BlockCholesky solver restores the Hessian after a
 conditioned solve

The diagonal was augmented by the squared conditioner but only the
conditioner itself was subtracted again, so every solve after the first
used a different Hessian.
---
 .../src/BlockCholeskyLinearSystemSolver.cpp            | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp b/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
index 3dc73cf..e48998f 100644
--- a/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
+++ b/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
@@ -73,6 +73,7 @@ namespace aslam {
 
     bool BlockCholeskyLinearSystemSolver::solveSystem(Eigen::VectorXd& outDx)
     {
+      Eigen::VectorXd diagonal(_H._M.rows());
       if (_useDiagonalConditioner) {
         Eigen::VectorXd d = _diagonalConditioner.cwiseProduct(_diagonalConditioner);
         // Augment the diagonal
@@ -80,6 +81,7 @@ namespace aslam {
         for (int i = 0; i < _H._M.bRows(); ++i) {
           Eigen::MatrixXd& block = *_H._M.block(i, i, true);
           SM_ASSERT_EQ_DBG(Exception, block.rows(), block.cols(), "Diagonal blocks are square...right?");
+          diagonal.segment(rowBase, block.rows()) = block.diagonal();
           block.diagonal() += d.segment(rowBase, block.rows());
           rowBase += block.rows();
         }
@@ -92,7 +94,7 @@ namespace aslam {
         int rowBase = 0;
         for (int i = 0; i < _H._M.bRows(); ++i) {
           Eigen::MatrixXd& block = *_H._M.block(i, i, true);
-          block.diagonal() -= _diagonalConditioner.segment(rowBase, block.rows());
+          block.diagonal() = diagonal.segment(rowBase, block.rows());
           rowBase += block.rows();
         }
       }
@@ -123,6 +125,7 @@ namespace aslam {
     {
       // Not sure why I have to do this.
       //_solver->init();
+      Eigen::VectorXd diagonal(_H._M.rows());
       if (_useDiagonalConditioner) {
         Eigen::VectorXd d = _diagonalConditioner.cwiseProduct(_diagonalConditioner);
         // Augment the diagonal
@@ -130,21 +133,22 @@ namespace aslam {
         for (int i = 0; i < _H._M.bRows(); ++i) {
           Eigen::MatrixXd& block = *_H._M.block(i, i, true);
           SM_ASSERT_EQ_DBG(Exception, block.rows(), block.cols(), "Diagonal blocks are square...right?");
+          diagonal.segment(rowBase, block.rows()) = block.diagonal();
           block.diagonal() += d.segment(rowBase, block.rows());
           rowBase += block.rows();
         }
       }
       bool success = _solver->solvePattern(outP, blockIndices, _H._M);
-      SM_ASSERT_TRUE(Exception, success, "Unable to retrieve covariance");
       if (_useDiagonalConditioner) {
         // Un-augment the diagonal
         int rowBase = 0;
         for (int i = 0; i < _H._M.bRows(); ++i) {
           Eigen::MatrixXd& block = *_H._M.block(i, i, true);
-          block.diagonal() -= _diagonalConditioner.segment(rowBase, block.rows());
+          block.diagonal() = diagonal.segment(rowBase, block.rows());
           rowBase += block.rows();
         }
       }
+      SM_ASSERT_TRUE(Exception, success, "Unable to retrieve covariance");
     }
 
     void BlockCholeskyLinearSystemSolver::copyHessian(SparseBlockMatrix& H)
-- 
2.43.0


From c59a8451b5def51d4618d908fe5b848a3998cdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:39 +0000
Subject: [PATCH 03/86] fix: DenseQr solver uses its conditioner flag and the
 errors of the system it built

The flag was never stored, so whether the diagonal conditioner was applied
depended on uninitialised memory, and after a rejected step the system was
solved with the errors of the rejected state.
---
 .../aslam_backend/src/DenseQrLinearSystemSolver.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp b/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp
index 580e199..4bfa21c 100644
--- a/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp
+++ b/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp
@@ -24,8 +24,9 @@ namespace aslam {
       return &_J;
     }
 
-  void DenseQrLinearSystemSolver::initMatrixStructureImplementation(const std::vector<DesignVariable*>& /* dvs */, const std::vector<ErrorTerm*>& /* errors */, bool /* useDiagonalConditioner */)
+  void DenseQrLinearSystemSolver::initMatrixStructureImplementation(const std::vector<DesignVariable*>& /* dvs */, const std::vector<ErrorTerm*>& /* errors */, bool useDiagonalConditioner)
     {
+      _useDiagonalConditioner = useDiagonalConditioner;
       // \todo Verify that this is similar to the "reserve()" feature in a standard vector.
       _J._M.resize(_JRows, _JCols);
     }
@@ -35,24 +36,26 @@ namespace aslam {
       _J._M.setZero();
       setupThreadedJob(boost::bind(&DenseQrLinearSystemSolver::evaluateJacobians, this, _1, _2, _3, _4), nThreads, useMEstimator);
       _rhs = _J._M.transpose() * _e;
+      // The errors may be re-evaluated elsewhere before the system is solved.
+      _truncated_e = _e;
     }
 
 
     bool DenseQrLinearSystemSolver::solveSystem(Eigen::VectorXd& outDx)
     {
+      Eigen::VectorXd e = _truncated_e;
       if (_useDiagonalConditioner) {
         // Append the diagonal. Thanks to the ceres developers for this trick.
         _J._M.conservativeResize(_JRows + _JCols, Eigen::NoChange);
         _J._M.bottomRows(_JCols) = _diagonalConditioner.asDiagonal();
         // Append zeros to make the sizes match.
-        _e.conservativeResize(_JRows + _JCols);
-        _e.tail(_JCols) = Eigen::VectorXd::Zero(_JCols);
+        e.conservativeResize(_JRows + _JCols);
+        e.tail(_JCols) = Eigen::VectorXd::Zero(_JCols);
       }
-      outDx = _J._M.colPivHouseholderQr().solve(_e);
+      outDx = _J._M.colPivHouseholderQr().solve(e);
       if (_useDiagonalConditioner) {
         // Remove the diagonal
         _J._M.conservativeResize(_JRows, Eigen::NoChange);
-        _e.conservativeResize(_JRows);
       }
       return true;
     }
-- 
2.43.0


From 2dfff81864a444cf978a89a05cfcee3a64b616f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:39 +0000
Subject: [PATCH 04/86] fix: Optimizer2 rejects a step whose cost is not a
 number

---
 .../aslam_backend/src/Optimizer2.cpp          | 833 +++++++++---------
 1 file changed, 417 insertions(+), 416 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/Optimizer2.cpp b/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
index 2feb50f..954999b 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
@@ -1,416 +1,417 @@
-#include <aslam_backend/backend/Optimizer2.hpp>
-// std::partial_sum
-#include <numeric>
-#include <aslam_backend/backend/ErrorTerm.hpp>
-// M.inverse()
-#include <Eigen/Dense>
-#include <sm_eigen/assert_macros.hpp>
-#include <aslam_sparse_block_matrix/linear_solver_dense.h>
-#include <aslam_sparse_block_matrix/linear_solver_cholmod.h>
-#ifndef QRSOLVER_DISABLED
-#include <aslam_sparse_block_matrix/linear_solver_spqr.h>
-#include <aslam_backend/backend/SparseQrLinearSystemSolver.hpp>
-#endif
-#include <aslam_backend/backend/sparse_matrix_functions.hpp>
-#include <aslam_backend/backend/BlockCholeskyLinearSystemSolver.hpp>
-#include <aslam_backend/backend/SparseCholeskyLinearSystemSolver.hpp>
-#include <aslam_backend/backend/DenseQrLinearSystemSolver.hpp>
-#include <sm_property_tree/PropertyTree.hpp>
-
-
-namespace aslam {
-    namespace backend {
-
-
-        Optimizer2::Optimizer2(const Optimizer2Options& options) :
-            _options(options)
-        {
-            initializeLinearSolver();
-            initializeTrustRegionPolicy();
-        }
-
-        Optimizer2::Optimizer2(const sm::PropertyTree& config, boost::shared_ptr<LinearSystemSolver> linearSystemSolver, boost::shared_ptr<TrustRegionPolicy> trustRegionPolicy) {
-          Optimizer2Options options;
-          options.convergenceDeltaJ = config.getDouble("convergenceDeltaJ", options.convergenceDeltaJ);
-          options.convergenceDeltaX = config.getDouble("convergenceDeltaX", options.convergenceDeltaX);
-          options.maxIterations = config.getInt("maxIterations", options.maxIterations);
-          options.doSchurComplement = config.getBool("doSchurComplement", options.doSchurComplement);
-          options.verbose = config.getBool("verbose", options.verbose);
-          options.linearSolverMaximumFails = config.getInt("linearSolverMaximumFails", options.linearSolverMaximumFails);
-          options.nThreads = config.getInt("nThreads", options.nThreads);
-          options.linearSystemSolver = linearSystemSolver;
-          options.trustRegionPolicy = trustRegionPolicy;
-          _options = options;
-          initializeLinearSolver();
-          initializeTrustRegionPolicy();
-          // USING C++11 would allow to do constructor delegation and more elegant code, i.e., directly call the upper constructor
-        }
-
-        Optimizer2::~Optimizer2()
-        {
-        }
-
-
-        /// \brief Set up to work on the optimization problem.
-        void Optimizer2::setProblem(boost::shared_ptr<OptimizationProblemBase> problem)
-        {
-            _problem = problem;
-        }
-
-        void Optimizer2::initializeTrustRegionPolicy()
-        {
-          if( !_options.trustRegionPolicy ) {
-            _options.verbose && std::cout << "No trust region policy set in the options. Defaulting to levenberg_marquardt\n";
-            _trustRegionPolicy.reset( new LevenbergMarquardtTrustRegionPolicy() );
-          } else {
-            _trustRegionPolicy = _options.trustRegionPolicy;
-          }
-
-
-          // \todo remove this check when the sparse qr solver supports an augmented diagonal
-          if(_solver->name() == "sparse_qr" && _trustRegionPolicy->name() == "levenberg_marquardt") {
-            _options.verbose && std::cout << "The sparse_qr solver is not compatible with levenberg_marquardt. Changing to the dog_leg trust region policy\n";
-            _trustRegionPolicy.reset( new DogLegTrustRegionPolicy() );
-          }
-
-          _options.verbose && std::cout << "Using the " << _trustRegionPolicy->name() << " trust region policy\n";
-
-        }
-
-
-        void Optimizer2::initializeLinearSolver()
-        {
-          if( ! _options.linearSystemSolver ) {
-            _options.verbose && std::cout << "No linear system solver set in the options. Defaulting to the sparse_cholesky solver\n";
-            _solver.reset(new SparseCholeskyLinearSystemSolver());
-          } else {
-            _solver = _options.linearSystemSolver;
-          }
-
-          _options.verbose && std::cout << "Using the " << _solver->name() << " linear system solver\n";
-        }
-
-        /// \brief initialize the optimizer to run on an optimization problem.
-        ///        This should be called before calling optimize()
-        void Optimizer2::initialize()
-        {
-          initializeLinearSolver();
-          initializeTrustRegionPolicy();
-
-          SM_ASSERT_FALSE(Exception, _problem.get() == NULL, "No optimization problem has been set");
-            _options.verbose && std::cout << "Initializing\n";
-            Timer init("Optimizer2: Initialize Total");
-            _designVariables.clear();
-            _designVariables.reserve(_problem->numDesignVariables());
-            _errorTerms.clear();
-            _errorTerms.reserve(_problem->numErrorTerms());
-            Timer initDv("Optimizer2: Initialize---Design Variables");
-            // Run through all design variables adding active ones to an active list.
-            // std::cout << "dvloop 1\n";
-            for (size_t i = 0; i < _problem->numDesignVariables(); ++i) {
-                DesignVariable* dv = _problem->designVariable(i);
-                if (dv->isActive())
-                    _designVariables.push_back(dv);
-            }
-            SM_ASSERT_FALSE(Exception, _designVariables.empty(), "It is illegal to run the optimizer with all marginalized design variables.");
-            // Assign block indices to the design variables.
-            // "blocks" will hold the structure of the left-hand-side of Gauss-Newton
-            int columnBase = 0;
-            // std::cout << "dvloop 2\n";
-            for (size_t i = 0; i < _designVariables.size(); ++i) {
-                _designVariables[i]->setBlockIndex(i);
-                _designVariables[i]->setColumnBase(columnBase);
-                columnBase += _designVariables[i]->minimalDimensions();
-            }
-            initDv.stop();
-            Timer initEt("Optimizer2: Initialize---Error Terms");
-            // Get all of the error terms that work on these design variables.
-            int dim = 0;
-            // std::cout << "eloop 1\n";
-            for (unsigned i = 0; i < _problem->numErrorTerms(); ++i) {
-                ErrorTerm* e = _problem->errorTerm(i);
-                _errorTerms.push_back(e);
-                e->setRowBase(dim);
-                dim += e->dimension();
-            }
-            initEt.stop();
-            SM_ASSERT_FALSE(Exception, _errorTerms.empty(), "It is illegal to run the optimizer with no error terms.");
-            Timer initMx("Optimizer2: Initialize---Matrices");
-            // Set up the block matrix structure.
-            // std::cout << "init structure\n";
-            //      initializeLinearSolver();
-            _solver->initMatrixStructure(_designVariables, _errorTerms, _trustRegionPolicy->requiresAugmentedDiagonal());
-            initMx.stop();
-            _options.verbose && std::cout << "Optimization problem initialized with " << _designVariables.size() << " design variables and " << _errorTerms.size() << " error terms\n";
-            // \todo Say how big the problem is.
-            _options.verbose && std::cout << "The Jacobian matrix is " << dim << " x " << columnBase << std::endl;
-
-
-            // \todo initialize the trust region stuff.
-
-        }
-
-
-        /*
-        // returns true of stop!
-        bool Optimizer2::evaluateStoppingCriterion(int iterations)
-        {
-
-        // as we have analytic Jacobians we can assume the precision to be:
-        double epsilon = std::numeric_limits<double>::epsilon();
-
-        double x_norm = ...;
-
-        // the gradient: is simply the right hand side of GN:
-        double grad_norm = _rhs.norm();
-        double abs_J = fabs(_J);
-
-        // the first condition:
-        bool crit1 = grad_norm < sqrt(epsilon) * (1 + abs_J);
-
-        bool crit2 = _dx.norm() < sqrt(epsilon) * (1 + x_norm);
-
-        bool crit3 = fabs(_J - _p_J) < epsilon * (1 + abs_J);
-
-        bool crit4 = iterations < _options.maxIterations;
-
-        return (crit1 && crit2 && crit3) || crit4;
-
-        }*/
-
-
-
-        SolutionReturnValue Optimizer2::optimize()
-        {
-            Timer timeGn("Optimizer2: build Hessian", true);
-            Timer timeErr("Optimizer2: evaluate error", true);
-            Timer timeSchur("Optimizer2: Schur complement", true);
-            Timer timeBackSub("Optimizer2: Back substitution", true);
-            Timer timeSolve("Optimizer2: Solve linear system", true);
-            // Select the design variables and (eventually) the error terms involved in the optimization.
-            initialize();
-            SolutionReturnValue srv;
-            _p_J = 0.0;
-
-            //std::cout << "Evaluate error for the first time\n";
-            // This sets _J
-            timeErr.start();
-            evaluateError(true);
-            timeErr.stop();
-            _p_J = _J;
-            srv.JStart = _p_J;
-            // *** while not done
-            _options.verbose && std::cout << "[" << srv.iterations << ".0]: J: " << _J << std::endl;
-            // Set up the estimation problem.
-            double deltaX = _options.convergenceDeltaX + 1.0;
-            double deltaJ = _options.convergenceDeltaJ + 1.0;
-            bool previousIterationFailed = false;
-            bool linearSolverFailure = false;
-
-            SM_ASSERT_TRUE(Exception, _solver.get() != NULL, "The solver is null");
-            _trustRegionPolicy->setSolver(_solver);
-            _trustRegionPolicy->optimizationStarting(_J);
-
-            // Loop until convergence
-            while (srv.iterations <  _options.maxIterations &&
-                   srv.failedIterations < _options.maxIterations &&
-                   ((deltaX > _options.convergenceDeltaX &&
-                     fabs(deltaJ) > _options.convergenceDeltaJ) ||
-                    linearSolverFailure)) {
-
-                timeSolve.start();
-                bool solutionSuccess = _trustRegionPolicy->solveSystem(_J, previousIterationFailed, _options.nThreads, _dx);
-                timeSolve.stop();
-
-                if (!solutionSuccess) {
-                    _options.verbose && std::cout << "[WARNING] System solution failed\n";
-                    previousIterationFailed = true;
-                    linearSolverFailure = true;
-                    srv.failedIterations++;
-                } else {
-                    /// Apply the state update. _A, _b, _dx, and _H are passed in implicitly.
-                    timeBackSub.start();
-                    deltaX = applyStateUpdate();
-                    timeBackSub.stop();
-                    // This sets _J
-                    timeErr.start();
-                    evaluateError(true);
-                    timeErr.stop();
-                    deltaJ = _p_J - _J;
-                    // This was a regression.
-                    if( _trustRegionPolicy->revertOnFailure() )
-                    {
-                        if(deltaJ < 0.0)
-                        {
-                            _options.verbose && std::cout << "Last step was a regression. Reverting\n";
-                            revertLastStateUpdate();
-                            srv.failedIterations++;
-                            previousIterationFailed = true;
-                        }
-                        else
-                        {
-                            _p_J = _J;
-                            previousIterationFailed = false;
-                        }
-                    }
-                    else
-                    {
-                        _p_J = _J;
-                    }
-                    srv.iterations++;
-
-                    _options.verbose && std::cout << "[" << srv.iterations << "]: J: " << _J << ", dJ: " << deltaJ << ", deltaX: " << deltaX << ", ";
-                    _options.verbose && _trustRegionPolicy->printState(std::cout);
-                    _options.verbose && std::cout << std::endl;
-                } // if the linear solver failed / else
-            }
-
-            srv.JFinal = _p_J;
-            srv.dXFinal = deltaX;
-            srv.dJFinal = deltaJ;
-            srv.linearSolverFailure = linearSolverFailure;
-            return srv;
-        }
-
-
-            DesignVariable* Optimizer2::designVariable(size_t i)
-            {
-                SM_ASSERT_LT_DBG(Exception, i, _designVariables.size(), "index out of bounds");
-                return _designVariables[i];
-            }
-
-
-
-            size_t Optimizer2::numDesignVariables() const
-            {
-                return _designVariables.size();
-            }
-
-
-            double Optimizer2::applyStateUpdate()
-            {
-                // Apply the update to the dense state.
-                int startIdx = 0;
-                for (size_t i = 0; i < numDesignVariables(); i++) {
-                    DesignVariable* d = _designVariables[i];
-                    const int dbd = d->minimalDimensions();
-                    Eigen::VectorXd dxS = _dx.segment(startIdx, dbd);
-                    dxS *= d->scaling();
-                    if(dbd > 0)
-                        d->update(&dxS[0], dbd);
-                    startIdx += dbd;
-                }
-                // Track the maximum delta
-                // \todo: should this be some other metric?
-                double deltaX = _dx.array().abs().maxCoeff();
-                return deltaX;
-            }
-
-
-
-
-
-            void Optimizer2::revertLastStateUpdate()
-            {
-                for (size_t i = 0; i < _designVariables.size(); i++) {
-                    _designVariables[i]->revertUpdate();
-                }
-            }
-
-
-            Optimizer2Options& Optimizer2::options()
-            {
-                return _options;
-            }
-
-
-            double Optimizer2::evaluateError(bool useMEstimator)
-            {
-                SM_ASSERT_TRUE(Exception, _solver.get() != NULL, "The solver is null");
-                _J = _solver->evaluateError(_options.nThreads, useMEstimator);
-                return _J;
-            }
-
-
-            /// \brief return the reduced system dx
-            const Eigen::VectorXd& Optimizer2::dx() const
-            {
-                return _dx;
-            }
-
-            /// The value of the objective function.
-            double Optimizer2::J() const
-            {
-                return _J;
-            }
-
-            void Optimizer2::printTiming() const
-            {
-                sm::timing::Timing::print(std::cout);
-            }
-
-
-
-
-
-
-
-            void Optimizer2::checkProblemSetup()
-            {
-                // Check that all error terms are hooked up to design variables.
-            }
-
-
-
-            void Optimizer2::computeDiagonalCovariances(SparseBlockMatrix& outP, double lambda)
-            {
-                SM_THROW(Exception, "Broken");
-
-                std::vector<std::pair<int, int> > blockIndices;
-                for (size_t i = 0; i < _designVariables.size(); ++i) {
-                    blockIndices.push_back(std::make_pair(i, i));
-                }
-                computeCovarianceBlocks(blockIndices, outP, lambda);
-            }
-
-    void Optimizer2::computeCovarianceBlocks(const std::vector<std::pair<int, int> > & /* blockIndices */, SparseBlockMatrix& /* outP */, double /* lambda */)
-            {
-                SM_THROW(Exception, "Broken");
-
-            }
-
-
-    void Optimizer2::computeCovariances(SparseBlockMatrix& /* outP */, double /* lambda */)
-            {
-                SM_THROW(Exception, "Broken");
-
-            }
-
-        void Optimizer2::computeHessian(SparseBlockMatrix& outH, double lambda)
-            {
-
-              boost::shared_ptr<BlockCholeskyLinearSystemSolver> solver_sp;
-              solver_sp.reset(new BlockCholeskyLinearSystemSolver());
-              // True here for creating the diagonal conditioning.
-              solver_sp->initMatrixStructure(_designVariables, _errorTerms, true);
-
-              _options.verbose && std::cout << "Setting the diagonal conditioner to: " << lambda << ".\n";
-              evaluateError(false);
-              solver_sp->setConstantConditioner(lambda);
-              solver_sp->buildSystem(_options.nThreads, false);
-              solver_sp->copyHessian(outH);
-            }
-
-      const LinearSystemSolver * Optimizer2::getBaseSolver() const {
-          return _solver.get();
-      }
-
-
-
-        const Matrix * Optimizer2::getJacobian() const {
-            return _solver->Jacobian();
-        }
-
-
-        } // namespace backend
-    } // namespace aslam
+#include <aslam_backend/backend/Optimizer2.hpp>
+// std::partial_sum
+#include <numeric>
+#include <aslam_backend/backend/ErrorTerm.hpp>
+// M.inverse()
+#include <Eigen/Dense>
+#include <sm_eigen/assert_macros.hpp>
+#include <aslam_sparse_block_matrix/linear_solver_dense.h>
+#include <aslam_sparse_block_matrix/linear_solver_cholmod.h>
+#ifndef QRSOLVER_DISABLED
+#include <aslam_sparse_block_matrix/linear_solver_spqr.h>
+#include <aslam_backend/backend/SparseQrLinearSystemSolver.hpp>
+#endif
+#include <aslam_backend/backend/sparse_matrix_functions.hpp>
+#include <aslam_backend/backend/BlockCholeskyLinearSystemSolver.hpp>
+#include <aslam_backend/backend/SparseCholeskyLinearSystemSolver.hpp>
+#include <aslam_backend/backend/DenseQrLinearSystemSolver.hpp>
+#include <sm_property_tree/PropertyTree.hpp>
+
+
+namespace aslam {
+    namespace backend {
+
+
+        Optimizer2::Optimizer2(const Optimizer2Options& options) :
+            _options(options)
+        {
+            initializeLinearSolver();
+            initializeTrustRegionPolicy();
+        }
+
+        Optimizer2::Optimizer2(const sm::PropertyTree& config, boost::shared_ptr<LinearSystemSolver> linearSystemSolver, boost::shared_ptr<TrustRegionPolicy> trustRegionPolicy) {
+          Optimizer2Options options;
+          options.convergenceDeltaJ = config.getDouble("convergenceDeltaJ", options.convergenceDeltaJ);
+          options.convergenceDeltaX = config.getDouble("convergenceDeltaX", options.convergenceDeltaX);
+          options.maxIterations = config.getInt("maxIterations", options.maxIterations);
+          options.doSchurComplement = config.getBool("doSchurComplement", options.doSchurComplement);
+          options.verbose = config.getBool("verbose", options.verbose);
+          options.linearSolverMaximumFails = config.getInt("linearSolverMaximumFails", options.linearSolverMaximumFails);
+          options.nThreads = config.getInt("nThreads", options.nThreads);
+          options.linearSystemSolver = linearSystemSolver;
+          options.trustRegionPolicy = trustRegionPolicy;
+          _options = options;
+          initializeLinearSolver();
+          initializeTrustRegionPolicy();
+          // USING C++11 would allow to do constructor delegation and more elegant code, i.e., directly call the upper constructor
+        }
+
+        Optimizer2::~Optimizer2()
+        {
+        }
+
+
+        /// \brief Set up to work on the optimization problem.
+        void Optimizer2::setProblem(boost::shared_ptr<OptimizationProblemBase> problem)
+        {
+            _problem = problem;
+        }
+
+        void Optimizer2::initializeTrustRegionPolicy()
+        {
+          if( !_options.trustRegionPolicy ) {
+            _options.verbose && std::cout << "No trust region policy set in the options. Defaulting to levenberg_marquardt\n";
+            _trustRegionPolicy.reset( new LevenbergMarquardtTrustRegionPolicy() );
+          } else {
+            _trustRegionPolicy = _options.trustRegionPolicy;
+          }
+
+
+          // \todo remove this check when the sparse qr solver supports an augmented diagonal
+          if(_solver->name() == "sparse_qr" && _trustRegionPolicy->name() == "levenberg_marquardt") {
+            _options.verbose && std::cout << "The sparse_qr solver is not compatible with levenberg_marquardt. Changing to the dog_leg trust region policy\n";
+            _trustRegionPolicy.reset( new DogLegTrustRegionPolicy() );
+          }
+
+          _options.verbose && std::cout << "Using the " << _trustRegionPolicy->name() << " trust region policy\n";
+
+        }
+
+
+        void Optimizer2::initializeLinearSolver()
+        {
+          if( ! _options.linearSystemSolver ) {
+            _options.verbose && std::cout << "No linear system solver set in the options. Defaulting to the sparse_cholesky solver\n";
+            _solver.reset(new SparseCholeskyLinearSystemSolver());
+          } else {
+            _solver = _options.linearSystemSolver;
+          }
+
+          _options.verbose && std::cout << "Using the " << _solver->name() << " linear system solver\n";
+        }
+
+        /// \brief initialize the optimizer to run on an optimization problem.
+        ///        This should be called before calling optimize()
+        void Optimizer2::initialize()
+        {
+          initializeLinearSolver();
+          initializeTrustRegionPolicy();
+
+          SM_ASSERT_FALSE(Exception, _problem.get() == NULL, "No optimization problem has been set");
+            _options.verbose && std::cout << "Initializing\n";
+            Timer init("Optimizer2: Initialize Total");
+            _designVariables.clear();
+            _designVariables.reserve(_problem->numDesignVariables());
+            _errorTerms.clear();
+            _errorTerms.reserve(_problem->numErrorTerms());
+            Timer initDv("Optimizer2: Initialize---Design Variables");
+            // Run through all design variables adding active ones to an active list.
+            // std::cout << "dvloop 1\n";
+            for (size_t i = 0; i < _problem->numDesignVariables(); ++i) {
+                DesignVariable* dv = _problem->designVariable(i);
+                if (dv->isActive())
+                    _designVariables.push_back(dv);
+            }
+            SM_ASSERT_FALSE(Exception, _designVariables.empty(), "It is illegal to run the optimizer with all marginalized design variables.");
+            // Assign block indices to the design variables.
+            // "blocks" will hold the structure of the left-hand-side of Gauss-Newton
+            int columnBase = 0;
+            // std::cout << "dvloop 2\n";
+            for (size_t i = 0; i < _designVariables.size(); ++i) {
+                _designVariables[i]->setBlockIndex(i);
+                _designVariables[i]->setColumnBase(columnBase);
+                columnBase += _designVariables[i]->minimalDimensions();
+            }
+            initDv.stop();
+            Timer initEt("Optimizer2: Initialize---Error Terms");
+            // Get all of the error terms that work on these design variables.
+            int dim = 0;
+            // std::cout << "eloop 1\n";
+            for (unsigned i = 0; i < _problem->numErrorTerms(); ++i) {
+                ErrorTerm* e = _problem->errorTerm(i);
+                _errorTerms.push_back(e);
+                e->setRowBase(dim);
+                dim += e->dimension();
+            }
+            initEt.stop();
+            SM_ASSERT_FALSE(Exception, _errorTerms.empty(), "It is illegal to run the optimizer with no error terms.");
+            Timer initMx("Optimizer2: Initialize---Matrices");
+            // Set up the block matrix structure.
+            // std::cout << "init structure\n";
+            //      initializeLinearSolver();
+            _solver->initMatrixStructure(_designVariables, _errorTerms, _trustRegionPolicy->requiresAugmentedDiagonal());
+            initMx.stop();
+            _options.verbose && std::cout << "Optimization problem initialized with " << _designVariables.size() << " design variables and " << _errorTerms.size() << " error terms\n";
+            // \todo Say how big the problem is.
+            _options.verbose && std::cout << "The Jacobian matrix is " << dim << " x " << columnBase << std::endl;
+
+
+            // \todo initialize the trust region stuff.
+
+        }
+
+
+        /*
+        // returns true of stop!
+        bool Optimizer2::evaluateStoppingCriterion(int iterations)
+        {
+
+        // as we have analytic Jacobians we can assume the precision to be:
+        double epsilon = std::numeric_limits<double>::epsilon();
+
+        double x_norm = ...;
+
+        // the gradient: is simply the right hand side of GN:
+        double grad_norm = _rhs.norm();
+        double abs_J = fabs(_J);
+
+        // the first condition:
+        bool crit1 = grad_norm < sqrt(epsilon) * (1 + abs_J);
+
+        bool crit2 = _dx.norm() < sqrt(epsilon) * (1 + x_norm);
+
+        bool crit3 = fabs(_J - _p_J) < epsilon * (1 + abs_J);
+
+        bool crit4 = iterations < _options.maxIterations;
+
+        return (crit1 && crit2 && crit3) || crit4;
+
+        }*/
+
+
+
+        SolutionReturnValue Optimizer2::optimize()
+        {
+            Timer timeGn("Optimizer2: build Hessian", true);
+            Timer timeErr("Optimizer2: evaluate error", true);
+            Timer timeSchur("Optimizer2: Schur complement", true);
+            Timer timeBackSub("Optimizer2: Back substitution", true);
+            Timer timeSolve("Optimizer2: Solve linear system", true);
+            // Select the design variables and (eventually) the error terms involved in the optimization.
+            initialize();
+            SolutionReturnValue srv;
+            _p_J = 0.0;
+
+            //std::cout << "Evaluate error for the first time\n";
+            // This sets _J
+            timeErr.start();
+            evaluateError(true);
+            timeErr.stop();
+            _p_J = _J;
+            srv.JStart = _p_J;
+            // *** while not done
+            _options.verbose && std::cout << "[" << srv.iterations << ".0]: J: " << _J << std::endl;
+            // Set up the estimation problem.
+            double deltaX = _options.convergenceDeltaX + 1.0;
+            double deltaJ = _options.convergenceDeltaJ + 1.0;
+            bool previousIterationFailed = false;
+            bool linearSolverFailure = false;
+
+            SM_ASSERT_TRUE(Exception, _solver.get() != NULL, "The solver is null");
+            _trustRegionPolicy->setSolver(_solver);
+            _trustRegionPolicy->optimizationStarting(_J);
+
+            // Loop until convergence
+            while (srv.iterations <  _options.maxIterations &&
+                   srv.failedIterations < _options.maxIterations &&
+                   ((deltaX > _options.convergenceDeltaX &&
+                     fabs(deltaJ) > _options.convergenceDeltaJ) ||
+                    linearSolverFailure)) {
+
+                timeSolve.start();
+                bool solutionSuccess = _trustRegionPolicy->solveSystem(_J, previousIterationFailed, _options.nThreads, _dx);
+                timeSolve.stop();
+
+                if (!solutionSuccess) {
+                    _options.verbose && std::cout << "[WARNING] System solution failed\n";
+                    previousIterationFailed = true;
+                    linearSolverFailure = true;
+                    srv.failedIterations++;
+                } else {
+                    /// Apply the state update. _A, _b, _dx, and _H are passed in implicitly.
+                    timeBackSub.start();
+                    deltaX = applyStateUpdate();
+                    timeBackSub.stop();
+                    // This sets _J
+                    timeErr.start();
+                    evaluateError(true);
+                    timeErr.stop();
+                    deltaJ = _p_J - _J;
+                    // This was a regression.
+                    if( _trustRegionPolicy->revertOnFailure() )
+                    {
+                        // (a cost that is not a number is not an improvement either)
+                        if(!(deltaJ >= 0.0))
+                        {
+                            _options.verbose && std::cout << "Last step was a regression. Reverting\n";
+                            revertLastStateUpdate();
+                            srv.failedIterations++;
+                            previousIterationFailed = true;
+                        }
+                        else
+                        {
+                            _p_J = _J;
+                            previousIterationFailed = false;
+                        }
+                    }
+                    else
+                    {
+                        _p_J = _J;
+                    }
+                    srv.iterations++;
+
+                    _options.verbose && std::cout << "[" << srv.iterations << "]: J: " << _J << ", dJ: " << deltaJ << ", deltaX: " << deltaX << ", ";
+                    _options.verbose && _trustRegionPolicy->printState(std::cout);
+                    _options.verbose && std::cout << std::endl;
+                } // if the linear solver failed / else
+            }
+
+            srv.JFinal = _p_J;
+            srv.dXFinal = deltaX;
+            srv.dJFinal = deltaJ;
+            srv.linearSolverFailure = linearSolverFailure;
+            return srv;
+        }
+
+
+            DesignVariable* Optimizer2::designVariable(size_t i)
+            {
+                SM_ASSERT_LT_DBG(Exception, i, _designVariables.size(), "index out of bounds");
+                return _designVariables[i];
+            }
+
+
+
+            size_t Optimizer2::numDesignVariables() const
+            {
+                return _designVariables.size();
+            }
+
+
+            double Optimizer2::applyStateUpdate()
+            {
+                // Apply the update to the dense state.
+                int startIdx = 0;
+                for (size_t i = 0; i < numDesignVariables(); i++) {
+                    DesignVariable* d = _designVariables[i];
+                    const int dbd = d->minimalDimensions();
+                    Eigen::VectorXd dxS = _dx.segment(startIdx, dbd);
+                    dxS *= d->scaling();
+                    if(dbd > 0)
+                        d->update(&dxS[0], dbd);
+                    startIdx += dbd;
+                }
+                // Track the maximum delta
+                // \todo: should this be some other metric?
+                double deltaX = _dx.array().abs().maxCoeff();
+                return deltaX;
+            }
+
+
+
+
+
+            void Optimizer2::revertLastStateUpdate()
+            {
+                for (size_t i = 0; i < _designVariables.size(); i++) {
+                    _designVariables[i]->revertUpdate();
+                }
+            }
+
+
+            Optimizer2Options& Optimizer2::options()
+            {
+                return _options;
+            }
+
+
+            double Optimizer2::evaluateError(bool useMEstimator)
+            {
+                SM_ASSERT_TRUE(Exception, _solver.get() != NULL, "The solver is null");
+                _J = _solver->evaluateError(_options.nThreads, useMEstimator);
+                return _J;
+            }
+
+
+            /// \brief return the reduced system dx
+            const Eigen::VectorXd& Optimizer2::dx() const
+            {
+                return _dx;
+            }
+
+            /// The value of the objective function.
+            double Optimizer2::J() const
+            {
+                return _J;
+            }
+
+            void Optimizer2::printTiming() const
+            {
+                sm::timing::Timing::print(std::cout);
+            }
+
+
+
+
+
+
+
+            void Optimizer2::checkProblemSetup()
+            {
+                // Check that all error terms are hooked up to design variables.
+            }
+
+
+
+            void Optimizer2::computeDiagonalCovariances(SparseBlockMatrix& outP, double lambda)
+            {
+                SM_THROW(Exception, "Broken");
+
+                std::vector<std::pair<int, int> > blockIndices;
+                for (size_t i = 0; i < _designVariables.size(); ++i) {
+                    blockIndices.push_back(std::make_pair(i, i));
+                }
+                computeCovarianceBlocks(blockIndices, outP, lambda);
+            }
+
+    void Optimizer2::computeCovarianceBlocks(const std::vector<std::pair<int, int> > & /* blockIndices */, SparseBlockMatrix& /* outP */, double /* lambda */)
+            {
+                SM_THROW(Exception, "Broken");
+
+            }
+
+
+    void Optimizer2::computeCovariances(SparseBlockMatrix& /* outP */, double /* lambda */)
+            {
+                SM_THROW(Exception, "Broken");
+
+            }
+
+        void Optimizer2::computeHessian(SparseBlockMatrix& outH, double lambda)
+            {
+
+              boost::shared_ptr<BlockCholeskyLinearSystemSolver> solver_sp;
+              solver_sp.reset(new BlockCholeskyLinearSystemSolver());
+              // True here for creating the diagonal conditioning.
+              solver_sp->initMatrixStructure(_designVariables, _errorTerms, true);
+
+              _options.verbose && std::cout << "Setting the diagonal conditioner to: " << lambda << ".\n";
+              evaluateError(false);
+              solver_sp->setConstantConditioner(lambda);
+              solver_sp->buildSystem(_options.nThreads, false);
+              solver_sp->copyHessian(outH);
+            }
+
+      const LinearSystemSolver * Optimizer2::getBaseSolver() const {
+          return _solver.get();
+      }
+
+
+
+        const Matrix * Optimizer2::getJacobian() const {
+            return _solver->Jacobian();
+        }
+
+
+        } // namespace backend
+    } // namespace aslam
-- 
2.43.0


From a0203eddfc1e0429a2539b54d90d9727598a3fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:39 +0000
Subject: [PATCH 05/86] fix: DogLeg policy does not use a Gauss-Newton step it
 failed to compute

After a failure of the linear solver the step was taken as computed.
---
 .../aslam_backend/backend/DogLegTrustRegionPolicy.hpp     | 1 +
 .../aslam_backend/src/DogLegTrustRegionPolicy.cpp         | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DogLegTrustRegionPolicy.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DogLegTrustRegionPolicy.hpp
index abe6a57..96a6fae 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DogLegTrustRegionPolicy.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DogLegTrustRegionPolicy.hpp
@@ -41,6 +41,7 @@ namespace aslam {
             double _delta;
             double _p_delta;
             std::string _stepType;
+            bool _gnComputed;
 
         };
 
diff --git a/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp b/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
index bfed369..432b99d 100644
--- a/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
+++ b/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
@@ -18,6 +18,7 @@ namespace aslam {
             std::string _stepType;
             _delta  = 0;
             _p_delta = 0;
+            _gnComputed = false;
 
         }
 
@@ -57,7 +58,6 @@ namespace aslam {
                         _delta /= 2.0;
                 }
             }
-            bool gnComputed = true;
             // successful step:
             // rebuild system and recalculate sd-solution
             if(!previousIterationFailed) {
@@ -75,7 +75,7 @@ namespace aslam {
                 _dx_sd_norm = _dx_sd.norm();
 
                 // invalidate GN solution
-                gnComputed = false;
+                _gnComputed = false;
             }
 
             // Trust Region smaller than SD:
@@ -89,14 +89,14 @@ namespace aslam {
             else
             {
                 // calculate the GN step.
-                if(!gnComputed)
+                if(!_gnComputed)
                 {
                     solutionSuccess = _solver->solveSystem(_dx_gn);
 
                     if(!solutionSuccess)
                         return solutionSuccess;
 
-                    gnComputed = true;  // now we have it!
+                    _gnComputed = true;  // now we have it!
                     // and calculate the norm:
                     _dx_gn_norm = _dx_gn.norm();
                 }
-- 
2.43.0


From 0d4d2be570e9ab3b440c450afad08d66ccc74561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:39 +0000
Subject: [PATCH 06/86] fix: Optimizer reports the cost of the state it ends in

After a rejected step the reported final cost was the one of the rejected
state, a step with a cost that is not a number was kept, and a failure of
the linear solver undid an update that had already been accepted.
---
 aslam_optimizer/aslam_backend/src/Optimizer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/Optimizer.cpp b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
index 20c8113..c7475e9 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
@@ -520,9 +520,8 @@ namespace aslam {
         if (!solutionSuccess) {
           // \todo do something better
           //SM_ASSERT_TRUE(Exception, solutionSuccess, "The linear solution failed");
+          // No update was applied, so there is nothing to revert.
           isLmRegression = true;
-          // **** if J is a regression
-          revertLastStateUpdate();
           // ***** Update lambda
           // _lambda *= 1000;
           _lambda *= mu;
@@ -542,10 +541,11 @@ namespace aslam {
             // update rho:
             double rho = getLmRho();
             // if(_J > _p_J)
-            if (rho <= 0) {
+            if (!(rho > 0)) {
               isLmRegression = true;
               // **** if J is a regression
               revertLastStateUpdate();
+              _J = _p_J;
               // ***** Update lambda
               // _lambda *= 1000;
               _lambda *= mu;
-- 
2.43.0


From 51442f01cd95e518c9f78965b1247db7612de819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:37 +0000
Subject: [PATCH 07/86] fix: Optimizer::setInitialLambda reads the diagonal it
 compares

Element (i, j) was read with the block number i as the row, which is outside
of small blocks.
---
 aslam_optimizer/aslam_backend/src/Optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/Optimizer.cpp b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
index c7475e9..602dcde 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
@@ -149,7 +149,7 @@ namespace aslam {
           if (H) {
             for (int j = 0; j < H->rows(); j++) {
               if (fabs((*H)(j, j)) > maximum)
-                maximum = fabs((*H)(i, j));
+                maximum = fabs((*H)(j, j));
             }
           }
         }
-- 
2.43.0


From b91b22dc8f71cf0932e643824361628c115d3e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:39 +0000
Subject: [PATCH 08/86] fix: BlockCholesky rhsJtJrhs uses the whole Hessian

Only the upper block triangle is stored; the product with it alone is not
the curvature along the right-hand side when there are several blocks.
---
 .../src/BlockCholeskyLinearSystemSolver.cpp      | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp b/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
index e48998f..96e2ffa 100644
--- a/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
+++ b/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
@@ -174,9 +174,19 @@ namespace aslam {
       
       
     double BlockCholeskyLinearSystemSolver::rhsJtJrhs() {
-        Eigen::VectorXd JtJrhs;
-        _H.rightMultiply(_rhs, JtJrhs);
-        return _rhs.dot(JtJrhs);
+        // Only the upper block triangle of the Hessian is stored.
+        Eigen::VectorXd upper;
+        _H.rightMultiply(_rhs, upper);
+        double diagonal = 0.0;
+        int rowBase = 0;
+        for (int i = 0; i < _H._M.bRows(); ++i) {
+          const int n = _H._M.rowsOfBlock(i);
+          const Eigen::MatrixXd* block = _H._M.block(i, i);
+          if (block)
+            diagonal += _rhs.segment(rowBase, n).dot(*block * _rhs.segment(rowBase, n));
+          rowBase += n;
+        }
+        return 2.0 * _rhs.dot(upper) - diagonal;
     }
       
 
-- 
2.43.0


From 2475054ad607885aff96ad16c45c8de599305880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 09/86] fix: OptimizationProblem::addErrorTerm checks before it
 adds

---
 aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp b/aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp
index 6c0e392..7510159 100644
--- a/aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp
+++ b/aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp
@@ -58,11 +58,13 @@ namespace aslam {
     /// \brief Add an error term to the problem
     void OptimizationProblem::addErrorTerm(const boost::shared_ptr<ErrorTerm> & et)
     {
+      for (size_t i = 0; i < et->numDesignVariables(); ++i) {
+        SM_ASSERT_TRUE_DBG(aslam::InvalidArgumentException, isDesignVariableInProblem(et->designVariable(i)), "It is illegal to add an error term that contains a missing design variable. Add the design variables to the problem before adding the error terms.");
+      }
       _errorTerms.push_back(et);
       // add this error term to the multi-map
       for (size_t i = 0; i < et->numDesignVariables(); ++i) {
         DesignVariable* dv = et->designVariable(i);
-        SM_ASSERT_TRUE_DBG(aslam::InvalidArgumentException, isDesignVariableInProblem(dv), "It is illegal to add an error term that contains a missing design variable. Add the design variables to the problem before adding the error terms.");
         _errorTermMap.insert(std::make_pair(dv, et.get()));
       }
     }
-- 
2.43.0


From 3f44d4f41c65ba5f82eee1031d8ec7f1728a0892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 10/86] fix: removing a design variable removes each of its
 error terms once

---
 .../aslam_backend/src/OptimizationProblem.cpp            | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp b/aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp
index 7510159..7bf46da 100644
--- a/aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp
+++ b/aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp
@@ -164,12 +164,13 @@ namespace aslam {
       // Remove any error terms from the project
       error_map_t::iterator it, it2, it_end;
       boost::tie(it, it_end) = _errorTermMap.equal_range(const_cast<DesignVariable*>(dv));
-      std::vector<ErrorTerm*> terms;
+      // A set: an error term may refer to the design variable more than once.
+      std::set<ErrorTerm*> terms;
       for (; it != it_end; ++it) {
-        terms.push_back(it->second);
+        terms.insert(it->second);
       }
-      for (size_t i = 0; i < terms.size(); ++i) {
-        removeErrorTerm(terms[i]);
+      for (ErrorTerm* term : terms) {
+        removeErrorTerm(term);
       }
       // Now remove the design variable itself.
       std::vector< boost::shared_ptr<DesignVariable> >::iterator dit = _designVariables.begin();
-- 
2.43.0


From c37aa17b9d44fe6ab33ed46f4f58ba2d3ef652a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 11/86] fix: IncrementalOptimizationProblem::add changes
 nothing when it refuses

---
 .../core/IncrementalOptimizationProblem.cpp   | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp b/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
index e5e6748..bedfee6 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
@@ -188,6 +188,20 @@ namespace aslam {
       if (!problem)
         throw NullPointerException("problem", __FILE__, __LINE__,
           __PRETTY_FUNCTION__);
+      // refuse what does not fit before changing anything
+      for (size_t i = 0; i < problem->numDesignVariables(); ++i) {
+        const DesignVariable* dv = problem->designVariable(i);
+        if (isDesignVariableInProblem(dv) &&
+            getGroupId(dv) != problem->getGroupId(dv))
+          throw InvalidOperationException("group mismatch", __FILE__,
+            __LINE__, __PRETTY_FUNCTION__);
+      }
+      for (size_t i = 0; i < problem->numErrorTerms(); ++i) {
+        if (isErrorTermInProblem(problem->errorTerm(i)))
+          throw InvalidOperationException("error term already in the problem",
+            __FILE__, __LINE__, __PRETTY_FUNCTION__);
+      }
+
       // update design variable counts, grouping, and storing
       const size_t numDV = problem->numDesignVariables();
       _designVariablesCounts.reserve(_designVariablesCounts.size() + numDV);
@@ -201,21 +215,8 @@ namespace aslam {
             std::make_pair(1, groupId)));
           _designVariables[groupId].push_back(dv);
         }
-        else {
-          if (getGroupId(dv) != groupId)
-            throw InvalidOperationException("group mismatch", __FILE__,
-              __LINE__, __PRETTY_FUNCTION__);
+        else
           _designVariablesCounts[dv].first++;
-        }
-      }
-
-      // keep trace of the error terms of this problem
-      const size_t numET = problem->numErrorTerms();
-      for (size_t i = 0; i < numET; ++i) {
-        const ErrorTerm* et = problem->errorTerm(i);
-        if (isErrorTermInProblem(et))
-          throw InvalidOperationException("error term already in the problem",
-            __FILE__, __LINE__, __PRETTY_FUNCTION__);
       }
 
       // insert the problem
-- 
2.43.0


From 9a1e439e5aea478e119fb8464c5382fc7bc3d773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 12/86] fix: clearing an incremental problem clears its backup
 too

---
 .../src/core/IncrementalOptimizationProblem.cpp                  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp b/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
index bedfee6..d15d834 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
@@ -271,6 +271,7 @@ namespace aslam {
       _designVariablesCounts.clear();
       _designVariables.clear();
       _groupsOrdering.clear();
+      _designVariablesBackup.clear();
     }
 
     size_t IncrementalOptimizationProblem::
-- 
2.43.0


From b5621997ab3e9d4ffa824e3edb24ba46c5983188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 13/86] fix: permute checks the permutation before it moves
 anything

---
 .../aslam_incremental_calibration/algorithms/permute.tpp       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/algorithms/permute.tpp b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/algorithms/permute.tpp
index e3110c3..33b7a73 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/algorithms/permute.tpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/algorithms/permute.tpp
@@ -33,11 +33,12 @@ namespace aslam {
         throw OutOfBoundException<I>(permutation.size(), container.size(),
           "permutation vector must match container size",
           __FILE__, __LINE__, __PRETTY_FUNCTION__);
-      for (I i = 0; i < container.size(); ++i) {
+      for (I i = 0; i < container.size(); ++i)
         if (permutation[i] >= static_cast<I>(container.size()))
           throw OutOfBoundException<I>(permutation[i], static_cast<I>(
             container.size()), "permutation vector index out of bound",
             __FILE__, __LINE__, __PRETTY_FUNCTION__);
+      for (I i = 0; i < container.size(); ++i) {
         I k = permutation[i];
         while (k < i)
           k = permutation[k];
-- 
2.43.0


From 782fb35f41078441d9f51e189f4811afc3a20e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 14/86] fix: marginalize inverts the square part of R

---
 aslam_optimizer/aslam_backend/src/Marginalizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/Marginalizer.cpp b/aslam_optimizer/aslam_backend/src/Marginalizer.cpp
index 29ca601..493ee86 100644
--- a/aslam_optimizer/aslam_backend/src/Marginalizer.cpp
+++ b/aslam_optimizer/aslam_backend/src/Marginalizer.cpp
@@ -145,7 +145,7 @@ void marginalize(
 			  sm::timing::Timer myTimer("QR Decomposition");
               Eigen::HouseholderQR<Eigen::MatrixXd> qr(jacobian);
 			  Eigen::MatrixXd Q = qr.householderQ();
-			  Eigen::MatrixXd R = qr.matrixQR().triangularView<Eigen::Upper>();
+			  Eigen::MatrixXd R = qr.matrixQR().topRows(jcols).triangularView<Eigen::Upper>();
 			  Eigen::VectorXd d = Q.transpose()*b;
 			  myTimer.stop();
 
-- 
2.43.0


From aa303aba8eec7be484af587bad2ee64998537a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 15/86] fix: marginalize yields a prior in the units of the
 design variables

---
 aslam_optimizer/aslam_backend/src/Marginalizer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aslam_optimizer/aslam_backend/src/Marginalizer.cpp b/aslam_optimizer/aslam_backend/src/Marginalizer.cpp
index 493ee86..529cc29 100644
--- a/aslam_optimizer/aslam_backend/src/Marginalizer.cpp
+++ b/aslam_optimizer/aslam_backend/src/Marginalizer.cpp
@@ -147,6 +147,10 @@ void marginalize(
 			  Eigen::MatrixXd Q = qr.householderQ();
 			  Eigen::MatrixXd R = qr.matrixQR().topRows(jcols).triangularView<Eigen::Upper>();
 			  Eigen::VectorXd d = Q.transpose()*b;
+			  // The columns of the Jacobian are multiplied by the scaling of the design variables, the prior is not.
+			  for (size_t i = 0; i < inDesignVariables.size(); ++i) {
+			      R.middleCols(inDesignVariables[i]->columnBase(), inDesignVariables[i]->minimalDimensions()) /= inDesignVariables[i]->scaling();
+			  }
 			  myTimer.stop();
 
 			  if(numTopRowsInCov > 0)
-- 
2.43.0


From de10672ed17ced337a7503518dff2c739f2123a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 16/86] fix: ErrorTermEuclidean implements the Jacobian method
 of its base class

---
 .../include/aslam_backend_expressions/ErrorTermEuclidean.hpp    | 2 +-
 .../aslam_backend_expressions/src/ErrorTermEuclidean.cpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ErrorTermEuclidean.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ErrorTermEuclidean.hpp
index 8b6fd3f..6306802 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ErrorTermEuclidean.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ErrorTermEuclidean.hpp
@@ -41,7 +41,7 @@ namespace aslam {
       virtual double evaluateErrorImplementation();
 
       /// \brief evaluate the jacobian
-      virtual void evaluateJacobiansImplementation(JacobianContainer & J);
+      virtual void evaluateJacobiansImplementation(JacobianContainer & J) const;
 
     private:
       aslam::backend::EuclideanExpression _t;
diff --git a/aslam_optimizer/aslam_backend_expressions/src/ErrorTermEuclidean.cpp b/aslam_optimizer/aslam_backend_expressions/src/ErrorTermEuclidean.cpp
index c476aa5..ce2d32d 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/ErrorTermEuclidean.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/ErrorTermEuclidean.cpp
@@ -59,7 +59,7 @@ namespace aslam {
 
 
   /// \brief evaluate the jacobians
-  void ErrorTermEuclidean::evaluateJacobiansImplementation(JacobianContainer & _jacobians)
+  void ErrorTermEuclidean::evaluateJacobiansImplementation(JacobianContainer & _jacobians) const
   {
      _t.evaluateJacobians(_jacobians);
   }
-- 
2.43.0


From c199027cd999e75c330943a41dcdc8593d9e4a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 17/86] fix: the minimal difference of a mapped design variable
 is that of its current value, with a finite Jacobian at zero

---
 .../implementation/DesignVariableMappedVector.hpp           | 2 +-
 .../aslam_backend_expressions/src/HomogeneousPoint.cpp      | 2 +-
 .../aslam_backend_expressions/src/MappedEuclideanPoint.cpp  | 2 +-
 .../src/MappedHomogeneousPoint.cpp                          | 6 +++---
 .../src/MappedRotationQuaternion.cpp                        | 6 +++---
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/DesignVariableMappedVector.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/DesignVariableMappedVector.hpp
index 4f9edfa..4653cf8 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/DesignVariableMappedVector.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/DesignVariableMappedVector.hpp
@@ -115,7 +115,7 @@ namespace aslam {
     void DesignVariableMappedVector<D>::minimalDifferenceImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference) const
     {
     	SM_ASSERT_TRUE(aslam::Exception, (xHat.rows() == D)&&(xHat.cols() == 1), "Dimension mismatch!");
-    	outDifference = _p_v - xHat;
+    	outDifference = _v - xHat;
     }
 
     template<int D>
diff --git a/aslam_optimizer/aslam_backend_expressions/src/HomogeneousPoint.cpp b/aslam_optimizer/aslam_backend_expressions/src/HomogeneousPoint.cpp
index a716dae..419eae3 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/HomogeneousPoint.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/HomogeneousPoint.cpp
@@ -85,7 +85,7 @@ namespace aslam {
      // compute the evaluation point:
      Eigen::Vector4d quatHat; quatHat(0) = xHat(0,0); quatHat(1) = xHat(1,0); quatHat(2) = xHat(2,0); quatHat(3) = xHat(3,0);
      Eigen::Vector4d evalPoint= sm::kinematics::qplus(_p, sm::kinematics::quatInv(quatHat));
-     outJacobian = sm::kinematics::quatLogJacobian(evalPoint)*sm::kinematics::quatJacobian(evalPoint);
+     outJacobian = sm::kinematics::quatLogJacobian2(evalPoint)*sm::kinematics::quatJacobian(evalPoint);
     }
 
   } // namespace backend
diff --git a/aslam_optimizer/aslam_backend_expressions/src/MappedEuclideanPoint.cpp b/aslam_optimizer/aslam_backend_expressions/src/MappedEuclideanPoint.cpp
index 81e116b..81d88fc 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/MappedEuclideanPoint.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/MappedEuclideanPoint.cpp
@@ -76,7 +76,7 @@ namespace aslam {
     void MappedEuclideanPoint::minimalDifferenceImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference) const
     {
      SM_ASSERT_TRUE(aslam::InvalidArgumentException, (xHat.rows() == 3) && (xHat.cols() == 1), "xHat has incompatible dimensions");
-     outDifference = _p_p - xHat;
+     outDifference = _p - xHat;
     }
 
     void MappedEuclideanPoint::minimalDifferenceAndJacobianImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference, Eigen::MatrixXd& outJacobian) const
diff --git a/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp b/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
index 4361364..122eb1c 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
@@ -76,7 +76,7 @@ namespace aslam {
     void MappedHomogeneousPoint::minimalDifferenceImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference) const
     {
      SM_ASSERT_TRUE(aslam::InvalidArgumentException, (xHat.rows() == 4)&&(xHat.cols() == 1), "The dimension of xHat does not conform to a 4x1 quaternion vector");
-     outDifference = sm::kinematics::qlog(sm::kinematics::qplus(_p_p, sm::kinematics::quatInv(xHat)));
+     outDifference = sm::kinematics::qlog(sm::kinematics::qplus(_p, sm::kinematics::quatInv(xHat)));
     }
 
     void MappedHomogeneousPoint::minimalDifferenceAndJacobianImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference, Eigen::MatrixXd& outJacobian) const
@@ -84,8 +84,8 @@ namespace aslam {
      minimalDifferenceImplementation(xHat, outDifference);
      // compute the evaluation point:
      Eigen::Vector4d quatHat; quatHat(0) = xHat(0,0); quatHat(1) = xHat(1,0); quatHat(2) = xHat(2,0); quatHat(3) = xHat(3,0);
-     Eigen::Vector4d evalPoint= sm::kinematics::qplus(_p_p, sm::kinematics::quatInv(quatHat));
-     outJacobian = sm::kinematics::quatLogJacobian(evalPoint)*sm::kinematics::quatJacobian(evalPoint);
+     Eigen::Vector4d evalPoint= sm::kinematics::qplus(_p, sm::kinematics::quatInv(quatHat));
+     outJacobian = sm::kinematics::quatLogJacobian2(evalPoint)*sm::kinematics::quatJacobian(evalPoint);
     }
 
   } // namespace backend
diff --git a/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp b/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
index 52d7d61..6794b7a 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
@@ -74,7 +74,7 @@ namespace aslam {
     void MappedRotationQuaternion::minimalDifferenceImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference) const
     {
      SM_ASSERT_TRUE(aslam::InvalidArgumentException, (xHat.rows() == 4)&&(xHat.cols() == 1), "The dimension of xHat does not conform to a 4x1 quaternion vector");
-     outDifference = sm::kinematics::qlog(sm::kinematics::qplus(_p_q, sm::kinematics::quatInv(xHat)));
+     outDifference = sm::kinematics::qlog(sm::kinematics::qplus(_q, sm::kinematics::quatInv(xHat)));
     }
 
     void MappedRotationQuaternion::minimalDifferenceAndJacobianImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference, Eigen::MatrixXd& outJacobian) const
@@ -82,8 +82,8 @@ namespace aslam {
      minimalDifferenceImplementation(xHat, outDifference);
      // compute the evaluation point:
      Eigen::Vector4d quatHat(xHat(0,0),xHat(1,0),xHat(2,0),xHat(3,0));
-     Eigen::Vector4d evalPoint= sm::kinematics::qplus(_p_q, sm::kinematics::quatInv(quatHat));
-     outJacobian = sm::kinematics::quatLogJacobian(evalPoint)*sm::kinematics::quatJacobian(evalPoint); //???
+     Eigen::Vector4d evalPoint= sm::kinematics::qplus(_q, sm::kinematics::quatInv(quatHat));
+     outJacobian = sm::kinematics::quatLogJacobian2(evalPoint)*sm::kinematics::quatJacobian(evalPoint); //???
     }
 
   } // namespace backend
-- 
2.43.0


From ec408419fac97a080a515d2c9aa0667472b59c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 18/86] fix: the series of axisAngle2quat and arcSinXOverX
 close to zero

---
 Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp b/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
index 09e85eb..e9bed3f 100755
--- a/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
@@ -209,7 +209,7 @@ namespace sm { namespace kinematics {
             if(isLessThenEpsilons4thRoot(theta))
             {
                 static const double one_over_48 = 1.0/48.0;
-                na = 0.5 + (theta * theta) * one_over_48;
+                na = 0.5 - (theta * theta) * one_over_48;
             }
             else
             {
@@ -228,7 +228,7 @@ namespace sm { namespace kinematics {
         template <typename Scalar_>
         inline Scalar_ arcSinXOverX(Scalar_ x) {
           if(isLessThenEpsilons4thRoot(fabs(x))){
-            return Scalar_(1.0) + x * x * Scalar_(1/6);
+            return Scalar_(1.0) + x * x * Scalar_(1.0/6.0);
           }
           return asin(x) / x;
         }
-- 
2.43.0


From 9606daedb2bf9f70e62f582729e27fc9863bc410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 19/86] fix: quat2AxisAngle of (0,0,0,-1) is zero, not NaN

---
 Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp b/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
index e9bed3f..ca2a351 100755
--- a/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
@@ -240,6 +240,9 @@ namespace sm { namespace kinematics {
           const Eigen::Matrix<Scalar_, 3, 1> a = qeps(q);
           const Scalar_ na = a.norm(), eta = qeta(q);
           Scalar_ scale;
+          if(na == Scalar_(0)){ // no rotation, whatever the sign of eta
+            return Eigen::Matrix<Scalar_, 3, 1>::Zero();
+          }
           if(fabs(eta) < na){ // use eta because it is more precise than na to calculate the scale. No singularities here.
             scale = acos(eta) / na;
           } else {
-- 
2.43.0


From 7ee1d7ab65091b1b295f9dabfbeb81d79d4744af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 20/86] fix: Euler angles of a rotation whose sine is rounded
 above one

---
 Schweizer-Messer/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp | 2 +-
 Schweizer-Messer/sm_kinematics/src/EulerAnglesZXY.cpp          | 2 +-
 Schweizer-Messer/sm_kinematics/src/EulerAnglesZYX.cpp          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Schweizer-Messer/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp b/Schweizer-Messer/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp
index fc61189..bcabc97 100755
--- a/Schweizer-Messer/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp
@@ -36,7 +36,7 @@ namespace sm { namespace kinematics {
 
     Eigen::Vector3d EulerAnglesYawPitchRoll::rotationMatrixToParameters(const Eigen::Matrix3d & rotationMatrix) const
     {
-      double phi = asin(-rotationMatrix(2,0));
+      double phi = asin(std::max(-1.0, std::min(-rotationMatrix(2,0), 1.0)));
       double theta = atan2(rotationMatrix(2,1),rotationMatrix(2,2));
       double psi = atan2(rotationMatrix(1,0), rotationMatrix(0,0));
     
diff --git a/Schweizer-Messer/sm_kinematics/src/EulerAnglesZXY.cpp b/Schweizer-Messer/sm_kinematics/src/EulerAnglesZXY.cpp
index 1f0d7d7..73da704 100644
--- a/Schweizer-Messer/sm_kinematics/src/EulerAnglesZXY.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/EulerAnglesZXY.cpp
@@ -67,7 +67,7 @@ namespace sm {
     Eigen::Vector3d EulerAnglesZXY::rotationMatrixToParameters(
         const Eigen::Matrix3d& rotationMatrix) const {
       const double sx = rotationMatrix(2, 1);
-      const double r_x = asin(sx);
+      const double r_x = asin(std::max(-1.0, std::min(sx, 1.0)));
       const double r_y = atan2(-rotationMatrix(2, 0), rotationMatrix(2, 2));
       const double r_z = atan2(-rotationMatrix(0, 1), rotationMatrix(1, 1));
       return Eigen::Vector3d(r_z, r_x, r_y);
diff --git a/Schweizer-Messer/sm_kinematics/src/EulerAnglesZYX.cpp b/Schweizer-Messer/sm_kinematics/src/EulerAnglesZYX.cpp
index c253681..2a93a8a 100755
--- a/Schweizer-Messer/sm_kinematics/src/EulerAnglesZYX.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/EulerAnglesZYX.cpp
@@ -36,7 +36,7 @@ namespace sm { namespace kinematics {
 
     Eigen::Vector3d EulerAnglesZYX::rotationMatrixToParameters(const Eigen::Matrix3d & rotationMatrix) const
     {
-      double phi = asin(rotationMatrix(2,0));
+      double phi = asin(std::max(-1.0, std::min(rotationMatrix(2,0), 1.0)));
       double theta = atan2(rotationMatrix(2,1),rotationMatrix(2,2));
       double psi = atan2(rotationMatrix(1,0), rotationMatrix(0,0));
     
-- 
2.43.0


From f102374082b8adb0e83221d1f59a72bb304455eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 21/86] fix: EulerRodriguez parameters of a rotation close to
 the identity

---
 .../sm_kinematics/src/EulerRodriguez.cpp          | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/Schweizer-Messer/sm_kinematics/src/EulerRodriguez.cpp b/Schweizer-Messer/sm_kinematics/src/EulerRodriguez.cpp
index cf73658..00dafff 100755
--- a/Schweizer-Messer/sm_kinematics/src/EulerRodriguez.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/EulerRodriguez.cpp
@@ -27,23 +27,12 @@ namespace sm { namespace kinematics {
     Eigen::Vector3d EulerRodriguez::rotationMatrixToParameters(const Eigen::Matrix3d & C) const
     {
       Eigen::Vector3d p;
-      double a = acos( (C(0,0) + C(1,1) + C(2,2) - double(1)) * double(0.5));
-
-      if(fabs(a) < 1e-14){
-	return Eigen::Vector3d::Zero();
-      }
-      
       p[0] = (C(2,1) - C(1,2));
       p[1] = (C(0,2) - C(2,0));
       p[2] = (C(1,0) - C(0,1));
       
-      double n2 = p.norm();
-      if(n2 < 1e-14)
-	{
-	  return Eigen::Vector3d::Zero();
-	}
-            
-      double scale = -tan(0.5*a)/n2;
+      // tan(a/2) / (2 sin(a)) = 1 / (2 (1 + cos(a))) = 1 / (1 + trace(C))
+      double scale = -1.0/(1.0 + C.trace());
       p = scale * p;
 
 
-- 
2.43.0


From dbc73152e4c0af639869e302c3583af69b453373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 22/86] fix: rotation vectors of rotations by angles close to 0
 and to pi

---
 .../sm_kinematics/src/RotationVector.cpp      | 37 ++-----------------
 .../sm_kinematics/src/rotations.cpp           | 35 ++++--------------
 2 files changed, 11 insertions(+), 61 deletions(-)

diff --git a/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp b/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp
index e074df3..625a40b 100755
--- a/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp
@@ -1,4 +1,5 @@
 #include <sm_kinematics/RotationVector.hpp>
+#include <sm_kinematics/quaternion_algebra.hpp>
 
 namespace sm { namespace kinematics {
 
@@ -56,27 +57,7 @@ namespace sm { namespace kinematics {
 
         Eigen::Vector3d RotationVector::rotationMatrixToParameters(const Eigen::Matrix3d & C) const
         {
-            Eigen::Vector3d p;
-            // Sometimes, because of roundoff error, the value of tr ends up outside
-            // the valid range of arccos. Truncate to the valid range.
-            double tr = std::max(-1.0, std::min( (C(0,0) + C(1,1) + C(2,2) - 1.0) * 0.5, 1.0));
-            double a = acos( tr ) ;
-
-            if(fabs(a) < 1e-14){
-                return Eigen::Vector3d::Zero();
-            }
-      
-            p[0] = (C(2,1) - C(1,2));
-            p[1] = (C(0,2) - C(2,0));
-            p[2] = (C(1,0) - C(0,1));
-            double n2 = p.norm();
-            if(fabs(n2) < 1e-14)
-                return Eigen::Vector3d::Zero();
-      
-            double scale = -a/n2;
-            p = scale * p;
-
-            return p;
+            return R2AxisAngle(C);
         }
 
         Eigen::Matrix3d RotationVector::parametersToSMatrix(const Eigen::Vector3d & parameters) const
@@ -185,19 +166,7 @@ namespace sm { namespace kinematics {
 
         Eigen::Matrix3d RotationVector::parametersToInverseSMatrix(const Eigen::Vector3d & parameters) const
         {
-            double phi = std::sqrt(parameters.transpose()*parameters);
-            Eigen::Matrix3d invS;
-            if(phi == 0)
-            {
-                invS = Eigen::Matrix3d::Identity();
-            }
-            else
-            {
-                double cot = - std::sin(phi)/(std::cos(phi)-1);
-                double a1 = 1/(phi*phi) * (1- 0.5*phi*cot);
-                invS = Eigen::Matrix3d::Identity() + 0.5*crossMx(parameters) + a1*crossMx(parameters)*crossMx(parameters);
-            }
-            return invS;
+            return logDiffMat(parameters);
         }
 
 
diff --git a/Schweizer-Messer/sm_kinematics/src/rotations.cpp b/Schweizer-Messer/sm_kinematics/src/rotations.cpp
index 6837d61..20b04dd 100755
--- a/Schweizer-Messer/sm_kinematics/src/rotations.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/rotations.cpp
@@ -1,4 +1,5 @@
 #include <sm_kinematics/rotations.hpp>
+#include <sm_kinematics/quaternion_algebra.hpp>
 #include <sm_common/assert_macros.hpp>
 #include <boost/math/special_functions/fpclassify.hpp>
 #include <boost/math/special_functions/round.hpp>
@@ -60,7 +61,7 @@ namespace sm { namespace kinematics {
   }
 
   Eigen::Vector3d R2rph(Eigen::Matrix3d const & C){
-    double phi = asin(C(2,0));
+    double phi = asin(std::max(-1.0, std::min(C(2,0), 1.0)));
     double theta = atan2(C(2,1),C(2,2));
     double psi = atan2(C(1,0), C(0,0));
     
@@ -96,7 +97,7 @@ namespace sm { namespace kinematics {
 	
     SM_ASSERT_LT_DBG(std::runtime_error,fabs(sqrt(ax*ax + ay*ay + az*az) - 1.0), 1e-4, "The axis is not a unit vector. ||a|| = " << (sqrt(ax*ax + ay*ay + az*az)));
 		
-    if(a < 1e-12)
+    if(fabs(a) < 1e-12)
       return Eigen::Matrix3d::Identity();
     // e = [ax ay az]
     // e*(e') + (eye(3) - e*(e'))*cos(a) - crossMx(e) * sin(a) = 
@@ -131,29 +132,9 @@ namespace sm { namespace kinematics {
   }
 	
   Eigen::Vector3d R2AxisAngle(Eigen::Matrix3d const & C){
-    // Sometimes, because of roundoff error, the value of tr ends up outside
-    // the valid range of arccos. Truncate to the valid range.
-    double tr = std::max(-1.0, std::min( (C(0,0) + C(1,1) + C(2,2) - 1.0) * 0.5, 1.0));
-    double a = acos( tr ) ;
-
-    Eigen::Vector3d axis;
-
-    if(fabs(a) < 1e-10) {
-      return Eigen::Vector3d::Zero();
-    }
-		
-    axis[0] = (C(2,1) - C(1,2));
-    axis[1] = (C(0,2) - C(2,0));
-    axis[2] = (C(1,0) - C(0,1));
-    double n2 = axis.norm();
-    if(fabs(n2) < 1e-10)
-      return Eigen::Vector3d::Zero();
-		
-    double scale = -a/n2;
-    axis = scale * axis;
-
-    return axis;
-
+    // By way of the quaternion: the trace loses the angle close to 0, the
+    // antisymmetric part loses the axis close to pi.
+    return quat2AxisAngle(r2quat(C).normalized());
   }
 
   // Utility functions
@@ -210,7 +191,7 @@ namespace sm { namespace kinematics {
 
      Eigen::Vector3d rph;
 
-     rph[1] = asin(C(2,0));
+     rph[1] = asin(std::max(-1.0, std::min(C(2,0), 1.0)));
      rph[2] = atan2(-C(1,0),C(0,0));
      rph[0] = atan2(-C(2,1),C(2,2));
 
@@ -221,7 +202,7 @@ namespace sm { namespace kinematics {
    {
      Eigen::Vector3d rph;
 
-     rph[1] = asin(C(2,0));
+     rph[1] = asin(std::max(-1.0, std::min(C(2,0), 1.0)));
      rph[2] = atan2(-C(1,0),C(0,0));
      rph[0] = atan2(-C(2,1),C(2,2));
 
-- 
2.43.0


From 17c1b262b4f049c94e6e85a77822af581b49bcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 23/86] fix: the Jacobian of a rotation vector's angular
 velocity near zero

---
 .../sm_kinematics/src/RotationVector.cpp      | 104 +++++++-----------
 1 file changed, 40 insertions(+), 64 deletions(-)

diff --git a/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp b/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp
index 625a40b..aaa42d3 100755
--- a/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/RotationVector.cpp
@@ -89,74 +89,50 @@ namespace sm { namespace kinematics {
 
         Eigen::Vector3d RotationVector::angularVelocityAndJacobian(const Eigen::Vector3d & p, const Eigen::Vector3d & pdot, Eigen::Matrix<double,3,6> * Jacobian) const
         {
-            Eigen::Vector3d omega;
             Eigen::Matrix3d S = parametersToSMatrix(p);
+            Eigen::Vector3d omega = S*pdot;
 
-            omega = S*pdot;
-
-      
             if(Jacobian)
             {
-                *Jacobian = Eigen::Matrix<double,3,6>::Zero();
-
-                //Jacobian->block(0,0,3,3) = Eigen::Matrix3d::Zero();
-                Jacobian->block(0,3,3,3) = S;
-    
-                // LAZY
-                // \todo...redo when there is time and not so lazy.
-                Eigen::Matrix<double,3,6> & J = *Jacobian;
-                double t1 = p[0];
-                double t2 = p[1];
-                double t3 = p[2];
-                double dt1 = pdot[0];
-                double dt2 = pdot[1];
-                double dt3 = pdot[2];
-                double t5 = t1*t1;
-                double t6 = t2*t2;
-                double t7 = t3*t3;
-                double t8 = t5+t6+t7;
-                double t9 = pow(t8,3.0/2.0);
-                double t10 = sqrt(t8);
-                double t11 = sin(t10);
-                double t12 = cos(t10);
-                double t13 = t12*(1.0/2.0);
-                double t14 = t13-1.0/2.0;
-                double t15 = 1.0/pow(t8,5.0/2.0);
-                double t16 = dt3*t14*t9*2.0;
-                double t17 = dt3*t1*t11*t2*t3*3.0;
-                double t18 = dt3*t3*t9;
-                double t19 = dt1*t1*t10*t6*2.0;
-                double t20 = dt2*t11*t2*t5*3.0;
-                double t21 = dt1*t1*t10*t12*t6;
-                double t22 = dt2*t14*t9*2.0;
-                double t23 = dt2*t1*t10*t2*t3*2.0;
-                double t24 = dt2*t1*t10*t12*t2*t3;
-                double t25 = dt1*t14*t9*2.0;
-                double t26 = dt1*t1*t11*t2*t3*3.0;
-                double t27 = dt1*t1*t9;
-                double t28 = dt2*t2*t9;
-                double t29 = dt1*t1*t10*t7*2.0;
-                double t30 = dt2*t10*t2*t7*2.0;
-                double t31 = dt3*t11*t3*t5*3.0;
-                double t32 = dt3*t11*t3*t6*3.0;
-                double t33 = dt2*t1*t11*t3*t8;
-                double t34 = dt2*t1*t10*t14*t3*4.0;
-                double t35 = dt1*t1*t10*t12*t7;
-                double t36 = dt2*t10*t12*t2*t7;
-                double t0  = t15*(t18+t19+t20+t21+t28+t29+t31+t33+t34+t35-dt1*t1*t11*t6*3.0-dt2*t10*t2*t5*2.0-dt1*t1*t11*t7*3.0-dt3*t10*t3*t5*2.0-dt2*t11*t2*t8-dt3*t11*t3*t8-dt3*t1*t10*t14*t2*4.0-dt2*t10*t12*t2*t5-dt3*t10*t12*t3*t5-dt3*t1*t11*t2*t8);
-
-
-                J(0,0) = t0;
-                J(0,1) = t15*(t16+t17+dt2*t1*t9-dt1*t2*t9*2.0-dt2*t1*t10*t6*2.0+dt2*t1*t11*t6*3.0-dt3*t10*t14*t6*4.0+dt1*t10*t2*t6*2.0-dt1*t11*t2*t6*3.0+dt1*t10*t2*t7*2.0-dt1*t11*t2*t7*3.0-dt2*t1*t11*t8+dt1*t11*t2*t8*2.0-dt3*t11*t6*t8-dt3*t1*t10*t2*t3*2.0+dt2*t10*t14*t2*t3*4.0-dt2*t1*t10*t12*t6+dt1*t10*t12*t2*t6+dt1*t10*t12*t2*t7+dt2*t11*t2*t3*t8-dt3*t1*t10*t12*t2*t3);
-                J(0,2) = -t15*(t22+t23+t24-dt3*t1*t9+dt1*t3*t9*2.0+dt3*t1*t10*t7*2.0-dt3*t1*t11*t7*3.0-dt2*t10*t14*t7*4.0-dt1*t10*t3*t6*2.0+dt1*t11*t3*t6*3.0+dt3*t1*t11*t8-dt1*t10*t3*t7*2.0+dt1*t11*t3*t7*3.0-dt1*t11*t3*t8*2.0-dt2*t11*t7*t8-dt2*t1*t11*t2*t3*3.0+dt3*t10*t14*t2*t3*4.0+dt3*t1*t10*t12*t7-dt1*t10*t12*t3*t6-dt1*t10*t12*t3*t7+dt3*t11*t2*t3*t8);
-                J(1,0) = -t15*(t16-t17+dt2*t1*t9*2.0-dt1*t2*t9-dt2*t1*t10*t5*2.0+dt2*t1*t11*t5*3.0-dt3*t10*t14*t5*4.0+dt1*t10*t2*t5*2.0-dt1*t11*t2*t5*3.0-dt2*t1*t10*t7*2.0+dt2*t1*t11*t7*3.0-dt2*t1*t11*t8*2.0+dt1*t11*t2*t8-dt3*t11*t5*t8+dt1*t1*t10*t14*t3*4.0+dt3*t1*t10*t2*t3*2.0-dt2*t1*t10*t12*t5+dt1*t10*t12*t2*t5-dt2*t1*t10*t12*t7+dt1*t1*t11*t3*t8+dt3*t1*t10*t12*t2*t3);
-                J(1,1) = t15*(t18-t19-t20-t21+t27+t30+t32+t36+dt1*t1*t11*t6*3.0+dt2*t10*t2*t5*2.0-dt1*t1*t11*t8-dt2*t11*t2*t7*3.0-dt3*t10*t3*t6*2.0-dt3*t11*t3*t8+dt3*t1*t10*t14*t2*4.0-dt1*t10*t14*t2*t3*4.0+dt2*t10*t12*t2*t5-dt3*t10*t12*t3*t6+dt3*t1*t11*t2*t8-dt1*t11*t2*t3*t8);
-                J(1,2) = t15*(t25+t26+dt3*t2*t9-dt2*t3*t9*2.0+dt2*t10*t3*t5*2.0-dt2*t11*t3*t5*3.0-dt1*t10*t14*t7*4.0-dt3*t10*t2*t7*2.0+dt3*t11*t2*t7*3.0+dt2*t10*t3*t7*2.0-dt2*t11*t3*t7*3.0-dt3*t11*t2*t8+dt2*t11*t3*t8*2.0-dt1*t11*t7*t8+dt3*t1*t10*t14*t3*4.0-dt1*t1*t10*t2*t3*2.0+dt2*t10*t12*t3*t5-dt3*t10*t12*t2*t7+dt2*t10*t12*t3*t7+dt3*t1*t11*t3*t8-dt1*t1*t10*t12*t2*t3);
-                J(2,0) = t15*(t22-t23-t24-dt3*t1*t9*2.0+dt1*t3*t9+dt3*t1*t10*t5*2.0-dt3*t1*t11*t5*3.0-dt2*t10*t14*t5*4.0+dt3*t1*t10*t6*2.0-dt3*t1*t11*t6*3.0-dt1*t10*t3*t5*2.0+dt1*t11*t3*t5*3.0+dt3*t1*t11*t8*2.0-dt1*t11*t3*t8-dt2*t11*t5*t8+dt1*t1*t10*t14*t2*4.0+dt2*t1*t11*t2*t3*3.0+dt3*t1*t10*t12*t5+dt3*t1*t10*t12*t6-dt1*t10*t12*t3*t5+dt1*t1*t11*t2*t8);
-                J(2,1) = -t15*(t25-t26+dt3*t2*t9*2.0-dt2*t3*t9-dt3*t10*t2*t5*2.0+dt3*t11*t2*t5*3.0-dt1*t10*t14*t6*4.0-dt3*t10*t2*t6*2.0+dt3*t11*t2*t6*3.0+dt2*t10*t3*t6*2.0-dt2*t11*t3*t6*3.0-dt3*t11*t2*t8*2.0+dt2*t11*t3*t8-dt1*t11*t6*t8+dt2*t1*t10*t14*t2*4.0+dt1*t1*t10*t2*t3*2.0-dt3*t10*t12*t2*t5-dt3*t10*t12*t2*t6+dt2*t10*t12*t3*t6+dt2*t1*t11*t2*t8+dt1*t1*t10*t12*t2*t3);
-                J(2,2) = t15*(t27+t28-t29-t30-t31-t32-t33-t34-t35-t36+dt1*t1*t11*t7*3.0+dt3*t10*t3*t5*2.0-dt1*t1*t11*t8+dt2*t11*t2*t7*3.0+dt3*t10*t3*t6*2.0-dt2*t11*t2*t8+dt1*t10*t14*t2*t3*4.0+dt3*t10*t12*t3*t5+dt3*t10*t12*t3*t6+dt1*t11*t2*t3*t8);
-
-
+                // omega = pdot - a (p x pdot) + b (p x (p x pdot)) with
+                // a = (1 - cos(phi))/phi^2, b = (phi - sin(phi))/phi^3, phi = |p|;
+                // aPrime = (da/dphi)/phi and bPrime = (db/dphi)/phi.
+                double phi2 = p.squaredNorm();
+                double a, b, aPrime, bPrime;
+                if(phi2 < 0.25)
+                {
+                    // The closed forms lose their digits here, their series converge fast.
+                    a = b = aPrime = bPrime = 0.0;
+                    double ta = 1.0/2.0, tb = 1.0/6.0; // (-1)^k/(2k+2)! and (-1)^k/(2k+3)!
+                    double power = 1.0;                // phi^2k
+                    double powerPrime = 0.0;           // 2k phi^(2k-2)
+                    for(int k = 0; k < 10; ++k)
+                    {
+                        a += ta * power;
+                        b += tb * power;
+                        aPrime += ta * powerPrime;
+                        bPrime += tb * powerPrime;
+                        powerPrime = 2.0 * (k + 1) * power;
+                        power *= phi2;
+                        ta /= -(2.0*k + 3.0) * (2.0*k + 4.0);
+                        tb /= -(2.0*k + 4.0) * (2.0*k + 5.0);
+                    }
+                }
+                else
+                {
+                    double phi = sqrt(phi2);
+                    double c = cos(phi), s = sin(phi);
+                    a = (1.0 - c)/phi2;
+                    b = (phi - s)/(phi2 * phi);
+                    aPrime = (s/phi - 2.0*a)/phi2;
+                    bPrime = (a - 3.0*b)/phi2;
+                }
+                Eigen::Vector3d u = p.cross(pdot);
+                Eigen::Vector3d v = p.cross(u);
+                Jacobian->topLeftCorner<3,3>() = a * crossMx(pdot)
+                    + b * (p * pdot.transpose() + p.dot(pdot) * Eigen::Matrix3d::Identity() - 2.0 * pdot * p.transpose())
+                    - aPrime * u * p.transpose() + bPrime * v * p.transpose();
+                Jacobian->topRightCorner<3,3>() = S;
             }
 
             return omega;
-- 
2.43.0


From 1955a05543dbc08b2b897b13bb00ac3986898b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 24/86] fix: the covariance of sums and differences of
 homogeneous points

---
 .../sm_kinematics/src/HomogeneousPoint.cpp            | 11 +++++++++--
 .../sm_kinematics/src/UncertainHomogeneousPoint.cpp   | 10 +++++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/Schweizer-Messer/sm_kinematics/src/HomogeneousPoint.cpp b/Schweizer-Messer/sm_kinematics/src/HomogeneousPoint.cpp
index 32cbb67..d2f74e3 100755
--- a/Schweizer-Messer/sm_kinematics/src/HomogeneousPoint.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/HomogeneousPoint.cpp
@@ -1,5 +1,6 @@
 #include <sm_kinematics/HomogeneousPoint.hpp>
 #include <sm_kinematics/quaternion_algebra.hpp>
+#include <sm_kinematics/homogeneous_coordinates.hpp>
 #include <sm_kinematics/UncertainHomogeneousPoint.hpp>
 #include <sm_common/serialization_macros.hpp>
 
@@ -51,7 +52,9 @@ namespace sm {
       rval.head<3>() = _ph.head<3>() * rhs._ph[3] + rhs._ph.head<3>() * _ph[3];
       rval[3] = _ph[3] * rhs._ph[3];
       
-      return UncertainHomogeneousPoint(rval, rhs.U4());
+      Eigen::Matrix4d J = toHomogeneousPlus(_ph);
+
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(J * rhs.U4() * J.transpose()));
 
     }
       
@@ -65,7 +68,11 @@ namespace sm {
       rval.head<3>() = _ph.head<3>() * rhs._ph[3] - rhs._ph.head<3>() * _ph[3];
       rval[3] = _ph[3] * rhs._ph[3];
       
-      return UncertainHomogeneousPoint(rval, rhs.U4());
+      // The derivative with respect to the subtracted point.
+      Eigen::Matrix4d J = toHomogeneousPlus(_ph);
+      J.topLeftCorner<3,3>() *= -1.0;
+
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(J * rhs.U4() * J.transpose()));
     }
 
 
diff --git a/Schweizer-Messer/sm_kinematics/src/UncertainHomogeneousPoint.cpp b/Schweizer-Messer/sm_kinematics/src/UncertainHomogeneousPoint.cpp
index b0f0783..d711b14 100755
--- a/Schweizer-Messer/sm_kinematics/src/UncertainHomogeneousPoint.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/UncertainHomogeneousPoint.cpp
@@ -161,7 +161,8 @@ namespace sm {
       rval.head<3>() = _ph.head<3>() * pr[3] + pr.head<3>() * _ph[3];
       rval[3] = _ph[3] * pr[3];
       
-      return UncertainHomogeneousPoint(rval, U4());
+      Eigen::Matrix4d J = toHomogeneousPlus(pr);
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(J * U4() * J.transpose()));
 
     }
     
@@ -175,7 +176,8 @@ namespace sm {
 	rval.head<3>() = _ph.head<3>() * pr[3] - pr.head<3>() * _ph[3];
 	rval[3] = _ph[3] * pr[3];
 	
-	return UncertainHomogeneousPoint(rval, U4());
+	Eigen::Matrix4d J = toHomogeneousMinus(pr);
+	return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(J * U4() * J.transpose()));
 
       }
 
@@ -203,8 +205,10 @@ namespace sm {
 	rval.head<3>() = _ph.head<3>() * rhs._ph[3] - rhs._ph.head<3>() * _ph[3];
 	rval[3] = _ph[3] * rhs._ph[3];
 
+	// The derivatives with respect to the subtracted point and to this one.
 	Eigen::Matrix4d PL = toHomogeneousPlus(_ph);
-	Eigen::Matrix4d PR = toHomogeneousPlus(rhs._ph);
+	PL.topLeftCorner<3,3>() *= -1.0;
+	Eigen::Matrix4d PR = toHomogeneousMinus(rhs._ph);
 	
 	return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PR * U4() * PR.transpose() + PL * rhs.U4() * PL.transpose()));	
 	
-- 
2.43.0


From 57e29818f9660166f8e22cb2bb96d213300af8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:57 +0000
Subject: [PATCH 25/86] fix: BSpline verifies the new knot sequence over its
 own length

---
 aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
index fe08248..55b7802 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
@@ -187,7 +187,7 @@ namespace aslam_bsplines {
 		     << "for a B-spline of order " << splineOrder_ << ". At least " << minimumKnotsRequired() 
 		     << " knots are required");
       
-      for(unsigned i = 1; i < knots_.size(); i++)
+      for(unsigned i = 1; i < knots.size(); i++)
 	{
 	  SM_ASSERT_LE(Exception, knots[i-1], knots[i],
 			 "The knot sequence must be nondecreasing. Knot " << i
-- 
2.43.0


From 0a0b33ac2fbc9fa1ef08fbd467dd9280bd2512fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:57 +0000
Subject: [PATCH 26/86] fix: BSpline::removeCurveSegment drops the basis matrix
 of the removed segment

---
 aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
index 55b7802..46ba76b 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
@@ -742,6 +742,8 @@ Eigen::VectorXi BSpline::segmentVvCoefficientVectorIndices(int segmentIdx) const
       if(knots_.size() > 0 && coefficients_.cols() > 0)
 	{
 	  knots_.erase(knots_.begin());
+	  if(!basisMatrices_.empty())
+	    basisMatrices_.erase(basisMatrices_.begin());
 	  coefficients_ = coefficients_.block(0,1,coefficients_.rows(),coefficients_.cols() - 1).eval();
 	}
     }
-- 
2.43.0


From 44d35bd0504a7155104e232d3e12a9826238ef31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:57 +0000
Subject: [PATCH 27/86] fix: BSpline evaluates the end of the interval on the
 last segment that is not empty

---
 aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
index 46ba76b..15d895d 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
@@ -250,7 +250,8 @@ namespace aslam_bsplines {
 	  // This is a special case to allow us to evaluate the spline at the boundary of the
 	  // interval. This is not stricly correct but it will be useful when we start doing
 	  // estimation and defining knots at our measurement times.
-	  i = knots_.end() - splineOrder_;
+	  // When knots coincide at the end of the interval, this is the last segment that is not empty.
+	  i = std::lower_bound(knots_.begin() + splineOrder_, knots_.end() - splineOrder_, t);
 	}
       else
 	{
-- 
2.43.0


From a33bc4c326e8719c9044319ad0a21c48d1498ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:57 +0000
Subject: [PATCH 28/86] fix: the (cumulative) bi vector of a BSpline has one
 entry per coefficient

---
 .../aslam_bsplines/include/aslam_bsplines/BSpline.hpp         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/include/aslam_bsplines/BSpline.hpp b/aslam_nonparametric_estimation/aslam_bsplines/include/aslam_bsplines/BSpline.hpp
index 9e4c5e6..dce9bba 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/include/aslam_bsplines/BSpline.hpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/include/aslam_bsplines/BSpline.hpp
@@ -565,10 +565,10 @@ namespace aslam_bsplines {
 
 
       Eigen::CwiseNullaryOp <BiVector, Eigen::VectorXd> getBiVector(double t) const {
-	      return Eigen::CwiseNullaryOp <BiVector, Eigen::VectorXd>(numValidTimeSegments(), 1, BiVector(segmentIndex(t), getLocalBiVector(t), 0));
+	      return Eigen::CwiseNullaryOp <BiVector, Eigen::VectorXd>(numVvCoefficients(), 1, BiVector(segmentIndex(t), getLocalBiVector(t), 0));
       }
       Eigen::CwiseNullaryOp <BiVector, Eigen::VectorXd> getCumulativeBiVector(double t) const {
-	      return Eigen::CwiseNullaryOp <BiVector, Eigen::VectorXd>(numValidTimeSegments(), 1, BiVector(segmentIndex(t), getLocalCumulativeBiVector(t), 1));
+	      return Eigen::CwiseNullaryOp <BiVector, Eigen::VectorXd>(numVvCoefficients(), 1, BiVector(segmentIndex(t), getLocalCumulativeBiVector(t), 1));
       }
 
       Eigen::MatrixXd segmentIntegral(int segmentIdx, const Eigen::MatrixXd& W, int derivativeOrder) const;
-- 
2.43.0


From 0ce649fb0e26b6563eff74436589f12e158e4f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:57 +0000
Subject: [PATCH 29/86] fix: addCurveSegment2 counts the fixed coefficients in
 the acceleration it keeps small

---
 aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
index 15d895d..50a7693 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
@@ -1247,12 +1247,12 @@ Eigen::VectorXi BSpline::segmentVvCoefficientVectorIndices(int segmentIdx) const
       // Add regularization constraints (keep the acceleration small)
       P = Phi(t_0,2);
       A.block(brow,bcol,D,coefficientDim) = lambda * P.block(0,phiBlockColumnOffset, D, coefficientDim);
-      b.segment(brow,D) = Eigen::VectorXd::Zero(D);
+      b.segment(brow,D) = -lambda * P.block(0,0,D,phiBlockColumnOffset) * fixedCoefficients;
       brow += D;
 
       P = Phi(t_1,2);
       A.block(brow,bcol,D,coefficientDim) = lambda * P.block(0,phiBlockColumnOffset, D, coefficientDim);
-      b.segment(brow,D) = Eigen::VectorXd::Zero(D);
+      b.segment(brow,D) = -lambda * P.block(0,0,D,phiBlockColumnOffset) * fixedCoefficients;
       brow += D;
 
       //A.block(brow,bcol,coefficientDim,coefficientDim) = 1e-4 * Eigen::MatrixXd::Identity(coefficientDim, coefficientDim);
-- 
2.43.0


From 5483b104eb20739ecfee5f14b32e9e5cde8bfe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 30/86] fix: SimpleSplineError has as many errors as the spline
 has dimensions

---
 .../aslam_splines/include/aslam_splines/SimpleSplineError.hpp | 4 ++--
 .../aslam_splines/implementation/SimpleSplineError.hpp        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/SimpleSplineError.hpp b/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/SimpleSplineError.hpp
index 4834e22..f671764 100644
--- a/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/SimpleSplineError.hpp
+++ b/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/SimpleSplineError.hpp
@@ -13,7 +13,7 @@ namespace aslam {
     // This class derives from ErrorTermFs<1> because the
     // errors are of dimension 1.
     template<class SPLINE_T>
-    class SimpleSplineError : public ErrorTermFs<1>
+    class SimpleSplineError : public ErrorTermFs<SPLINE_T::Dimension>
     {
     public:
       // This is important. The superclass holds some fixed-sized Eigen types
@@ -24,7 +24,7 @@ namespace aslam {
     //  typedef aslam::splines::BSplinePoseDesignVariable spline_t;
       typedef SPLINE_T spline_t;
       typedef aslam_sparse_block_matrix::SparseBlockMatrix<Eigen::MatrixXd> sbm_t;
-      typedef ErrorTermFs< 1 > parent_t;
+      typedef ErrorTermFs<SPLINE_T::Dimension> parent_t;
       typedef aslam::backend::VectorExpression<spline_t::Dimension> expression_t;
         
 
diff --git a/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/SimpleSplineError.hpp b/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/SimpleSplineError.hpp
index 98521f0..79caf2f 100644
--- a/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/SimpleSplineError.hpp
+++ b/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/SimpleSplineError.hpp
@@ -16,7 +16,7 @@ namespace aslam {
                 //	dvV.push_back(_splineExpression->designVariable(i));
                 //}
         	_splineExpression->getDesignVariables(dvV);
-            setDesignVariablesIterator(dvV.begin(), dvV.end());
+            parent_t::setDesignVariablesIterator(dvV.begin(), dvV.end());
             
         }
 
-- 
2.43.0


From 7a31df23719c558329382a3a65baa3e29747871d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:33 +0000
Subject: [PATCH 31/86] fix: BSplineMotionError fills the upper triangle of the
 Hessian for every order of the blocks

---
 .../aslam_splines/implementation/BSplineMotionError.hpp    | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/BSplineMotionError.hpp b/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/BSplineMotionError.hpp
index 910fddb..09084ba 100644
--- a/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/BSplineMotionError.hpp
+++ b/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/BSplineMotionError.hpp
@@ -144,8 +144,11 @@ namespace aslam {
             				if (Qblock) { // check if block exists
             					// get the Hessian Block
             					const bool allocateIfMissing = true;
-            					Eigen::MatrixXd *Hblock = outHessian.block(rowBlockIndex, colBlockIndex, allocateIfMissing);
-            					*Hblock += *Qblock;  // insert!
+            					// only the upper triangle of the Hessian is used, whatever the order of the blocks
+            					if (rowBlockIndex <= colBlockIndex)
+            						*outHessian.block(rowBlockIndex, colBlockIndex, allocateIfMissing) += *Qblock;  // insert!
+            					else
+            						*outHessian.block(colBlockIndex, rowBlockIndex, allocateIfMissing) += Qblock->transpose();
             				}
             			}
 
-- 
2.43.0


From 51042ecd069cae2bc0ddbebe697191337ec1e0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:50 +0000
Subject: [PATCH 32/86] fix: BSplinePose::angularVelocityAndJacobian returns
 the angular velocity, not its negative

---
 .../aslam_bsplines/src/BSplinePose.cpp                         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
index b771999..4c5d35c 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
@@ -273,7 +273,8 @@ namespace aslam_bsplines {
       //std::cout << "Jpdot\n" << Jpdot << std::endl;
 
       Eigen::Matrix<double,3,6> Jo;
-      omega = rotation_->angularVelocityAndJacobian(p,pdot,&Jo);
+      omega = -rotation_->angularVelocityAndJacobian(p,pdot,&Jo);
+      Jo = -Jo;
       
       //std::cout << "Jo:\n" << Jo << std::endl;
       if(J)
-- 
2.43.0


From 61bc3f366c857bbb7e970ba711136eb4ea6f825d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:39 +0000
Subject: [PATCH 33/86] fix: BSplinePose::angularAccelerationAndJacobian has
 the sign of angularAccelerationBodyFrame

---
 .../aslam_bsplines/src/BSplinePose.cpp                         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
index 4c5d35c..df9a854 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
@@ -350,7 +350,8 @@ namespace aslam_bsplines {
     	Jpdot.block(0,0,3,Jpdot.cols()) = Jp.block(3,0,3,Jp.cols());
 
     	Eigen::Matrix<double,3,6> Jo;
-    	omega = rotation_->angularVelocityAndJacobian(p,pdot,&Jo);
+    	omega = -rotation_->angularVelocityAndJacobian(p,pdot,&Jo);
+    	Jo = -Jo;
     	if(J)
     	{
     		*J = Jo * Jpdot;
-- 
2.43.0


From 64a9881a6f9f1ff21cbdc37543d8c10d8b7f0e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:59 +0000
Subject: [PATCH 34/86] fix: the Jacobian of the spline expression of the
 acceleration in the body frame

---
 .../aslam_splines/src/BSplineExpressions.cpp  | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp b/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
index 4f8e95c..451c868 100644
--- a/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
+++ b/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
@@ -1,5 +1,6 @@
 #include <aslam_splines/BSplineExpressions.hpp>
 #include <aslam_splines/BSplinePoseDesignVariable.hpp>
+#include <sm_kinematics/rotations.hpp>
 
 namespace aslam {
     namespace splines {
@@ -292,6 +293,18 @@ namespace aslam {
 
         }
 
+    /// The Jacobian of C_b_w(t) * a_w(t) by the local coefficients.
+    static Eigen::MatrixXd accelerationBodyFrameJacobian(
+        const aslam_bsplines::BSplinePose& spline, double time) {
+      Eigen::MatrixXd Ja, Jr;
+      const Eigen::Vector3d a_w =
+        spline.linearAccelerationAndJacobian(time, &Ja, NULL);
+      const Eigen::Matrix3d C_b_w =
+        spline.inverseOrientationAndJacobian(time, &Jr, NULL);
+      const Eigen::Vector3d a_b = C_b_w * a_w;
+      return C_b_w * Ja + sm::kinematics::crossMx(a_b) * Jr;
+    }
+
     BSplineAccelerationBodyFrameExpressionNode::
         BSplineAccelerationBodyFrameExpressionNode(
         aslam_bsplines::BSplinePose* spline,
@@ -312,9 +325,8 @@ namespace aslam {
     void BSplineAccelerationBodyFrameExpressionNode::
         evaluateJacobiansImplementation(aslam::backend::JacobianContainer&
         outJacobians) const {
-      Eigen::MatrixXd J;
-      _spline->evalDAndJacobian(_time, 2, &J, NULL);
-      SM_ASSERT_EQ_DBG(aslam::Exception, J.rows(), 6, "Bad");
+      Eigen::MatrixXd J = accelerationBodyFrameJacobian(*_spline, _time);
+      SM_ASSERT_EQ_DBG(aslam::Exception, J.rows(), 3, "Bad");
       SM_ASSERT_EQ_DBG(aslam::Exception, J.cols(),
         6 * (int)_designVariables.size(), "Bad");
       for (size_t i = 0; i < _designVariables.size(); ++i)
@@ -326,9 +338,8 @@ namespace aslam {
         outJacobians, const Eigen::MatrixXd & applyChainRule) const {
       SM_ASSERT_EQ_DBG(aslam::Exception, applyChainRule.cols(), 3,
         "The chain rule matrix is the wrong size");
-      Eigen::MatrixXd J;
-      _spline->evalDAndJacobian(_time, 2, &J, NULL);
-      SM_ASSERT_EQ_DBG(aslam::Exception, J.rows(), 6, "Bad");
+      Eigen::MatrixXd J = accelerationBodyFrameJacobian(*_spline, _time);
+      SM_ASSERT_EQ_DBG(aslam::Exception, J.rows(), 3, "Bad");
       SM_ASSERT_EQ_DBG(aslam::Exception, J.cols(),
         6 * (int)_designVariables.size(), "Bad");
       for (size_t i = 0; i < _designVariables.size(); ++i)
-- 
2.43.0


From e8058a9ea03e52fa6348ec20bf772f4ad3740cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 35/86] fix: the Jacobian of a pose at a variable time takes
 the block of each coefficient

---
 .../aslam_splines/src/BSplineExpressions.cpp                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp b/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
index 451c868..c4f8162 100644
--- a/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
+++ b/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
@@ -490,7 +490,7 @@ namespace aslam {
             {
             	// nonzero Jacobian
             	if(_localCoefficientIndices[i] >= minIdx && _localCoefficientIndices[i] <= maxIdx )
-            		outJacobians.add(_spline->designVariable(_localCoefficientIndices[i]), J.block<6,6>(0,(i-minIdx)*6) );
+            		outJacobians.add(_spline->designVariable(_localCoefficientIndices[i]), J.block<6,6>(0,(_localCoefficientIndices[i]-minIdx)*6) );
             	// zero Jacobian:
             	else
             		outJacobians.add(_spline->designVariable(_localCoefficientIndices[i]), Eigen::Matrix<double, 6,6>::Zero());
-- 
2.43.0


From f6d30feccc28688c0e03f50cb0f307afa6963fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 36/86] fix: Optimizer2.cpp keeps its line endings

---
 .../aslam_backend/src/Optimizer2.cpp          | 834 +++++++++---------
 1 file changed, 417 insertions(+), 417 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/Optimizer2.cpp b/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
index 954999b..9e4a94f 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
@@ -1,417 +1,417 @@
-#include <aslam_backend/backend/Optimizer2.hpp>
-// std::partial_sum
-#include <numeric>
-#include <aslam_backend/backend/ErrorTerm.hpp>
-// M.inverse()
-#include <Eigen/Dense>
-#include <sm_eigen/assert_macros.hpp>
-#include <aslam_sparse_block_matrix/linear_solver_dense.h>
-#include <aslam_sparse_block_matrix/linear_solver_cholmod.h>
-#ifndef QRSOLVER_DISABLED
-#include <aslam_sparse_block_matrix/linear_solver_spqr.h>
-#include <aslam_backend/backend/SparseQrLinearSystemSolver.hpp>
-#endif
-#include <aslam_backend/backend/sparse_matrix_functions.hpp>
-#include <aslam_backend/backend/BlockCholeskyLinearSystemSolver.hpp>
-#include <aslam_backend/backend/SparseCholeskyLinearSystemSolver.hpp>
-#include <aslam_backend/backend/DenseQrLinearSystemSolver.hpp>
-#include <sm_property_tree/PropertyTree.hpp>
-
-
-namespace aslam {
-    namespace backend {
-
-
-        Optimizer2::Optimizer2(const Optimizer2Options& options) :
-            _options(options)
-        {
-            initializeLinearSolver();
-            initializeTrustRegionPolicy();
-        }
-
-        Optimizer2::Optimizer2(const sm::PropertyTree& config, boost::shared_ptr<LinearSystemSolver> linearSystemSolver, boost::shared_ptr<TrustRegionPolicy> trustRegionPolicy) {
-          Optimizer2Options options;
-          options.convergenceDeltaJ = config.getDouble("convergenceDeltaJ", options.convergenceDeltaJ);
-          options.convergenceDeltaX = config.getDouble("convergenceDeltaX", options.convergenceDeltaX);
-          options.maxIterations = config.getInt("maxIterations", options.maxIterations);
-          options.doSchurComplement = config.getBool("doSchurComplement", options.doSchurComplement);
-          options.verbose = config.getBool("verbose", options.verbose);
-          options.linearSolverMaximumFails = config.getInt("linearSolverMaximumFails", options.linearSolverMaximumFails);
-          options.nThreads = config.getInt("nThreads", options.nThreads);
-          options.linearSystemSolver = linearSystemSolver;
-          options.trustRegionPolicy = trustRegionPolicy;
-          _options = options;
-          initializeLinearSolver();
-          initializeTrustRegionPolicy();
-          // USING C++11 would allow to do constructor delegation and more elegant code, i.e., directly call the upper constructor
-        }
-
-        Optimizer2::~Optimizer2()
-        {
-        }
-
-
-        /// \brief Set up to work on the optimization problem.
-        void Optimizer2::setProblem(boost::shared_ptr<OptimizationProblemBase> problem)
-        {
-            _problem = problem;
-        }
-
-        void Optimizer2::initializeTrustRegionPolicy()
-        {
-          if( !_options.trustRegionPolicy ) {
-            _options.verbose && std::cout << "No trust region policy set in the options. Defaulting to levenberg_marquardt\n";
-            _trustRegionPolicy.reset( new LevenbergMarquardtTrustRegionPolicy() );
-          } else {
-            _trustRegionPolicy = _options.trustRegionPolicy;
-          }
-
-
-          // \todo remove this check when the sparse qr solver supports an augmented diagonal
-          if(_solver->name() == "sparse_qr" && _trustRegionPolicy->name() == "levenberg_marquardt") {
-            _options.verbose && std::cout << "The sparse_qr solver is not compatible with levenberg_marquardt. Changing to the dog_leg trust region policy\n";
-            _trustRegionPolicy.reset( new DogLegTrustRegionPolicy() );
-          }
-
-          _options.verbose && std::cout << "Using the " << _trustRegionPolicy->name() << " trust region policy\n";
-
-        }
-
-
-        void Optimizer2::initializeLinearSolver()
-        {
-          if( ! _options.linearSystemSolver ) {
-            _options.verbose && std::cout << "No linear system solver set in the options. Defaulting to the sparse_cholesky solver\n";
-            _solver.reset(new SparseCholeskyLinearSystemSolver());
-          } else {
-            _solver = _options.linearSystemSolver;
-          }
-
-          _options.verbose && std::cout << "Using the " << _solver->name() << " linear system solver\n";
-        }
-
-        /// \brief initialize the optimizer to run on an optimization problem.
-        ///        This should be called before calling optimize()
-        void Optimizer2::initialize()
-        {
-          initializeLinearSolver();
-          initializeTrustRegionPolicy();
-
-          SM_ASSERT_FALSE(Exception, _problem.get() == NULL, "No optimization problem has been set");
-            _options.verbose && std::cout << "Initializing\n";
-            Timer init("Optimizer2: Initialize Total");
-            _designVariables.clear();
-            _designVariables.reserve(_problem->numDesignVariables());
-            _errorTerms.clear();
-            _errorTerms.reserve(_problem->numErrorTerms());
-            Timer initDv("Optimizer2: Initialize---Design Variables");
-            // Run through all design variables adding active ones to an active list.
-            // std::cout << "dvloop 1\n";
-            for (size_t i = 0; i < _problem->numDesignVariables(); ++i) {
-                DesignVariable* dv = _problem->designVariable(i);
-                if (dv->isActive())
-                    _designVariables.push_back(dv);
-            }
-            SM_ASSERT_FALSE(Exception, _designVariables.empty(), "It is illegal to run the optimizer with all marginalized design variables.");
-            // Assign block indices to the design variables.
-            // "blocks" will hold the structure of the left-hand-side of Gauss-Newton
-            int columnBase = 0;
-            // std::cout << "dvloop 2\n";
-            for (size_t i = 0; i < _designVariables.size(); ++i) {
-                _designVariables[i]->setBlockIndex(i);
-                _designVariables[i]->setColumnBase(columnBase);
-                columnBase += _designVariables[i]->minimalDimensions();
-            }
-            initDv.stop();
-            Timer initEt("Optimizer2: Initialize---Error Terms");
-            // Get all of the error terms that work on these design variables.
-            int dim = 0;
-            // std::cout << "eloop 1\n";
-            for (unsigned i = 0; i < _problem->numErrorTerms(); ++i) {
-                ErrorTerm* e = _problem->errorTerm(i);
-                _errorTerms.push_back(e);
-                e->setRowBase(dim);
-                dim += e->dimension();
-            }
-            initEt.stop();
-            SM_ASSERT_FALSE(Exception, _errorTerms.empty(), "It is illegal to run the optimizer with no error terms.");
-            Timer initMx("Optimizer2: Initialize---Matrices");
-            // Set up the block matrix structure.
-            // std::cout << "init structure\n";
-            //      initializeLinearSolver();
-            _solver->initMatrixStructure(_designVariables, _errorTerms, _trustRegionPolicy->requiresAugmentedDiagonal());
-            initMx.stop();
-            _options.verbose && std::cout << "Optimization problem initialized with " << _designVariables.size() << " design variables and " << _errorTerms.size() << " error terms\n";
-            // \todo Say how big the problem is.
-            _options.verbose && std::cout << "The Jacobian matrix is " << dim << " x " << columnBase << std::endl;
-
-
-            // \todo initialize the trust region stuff.
-
-        }
-
-
-        /*
-        // returns true of stop!
-        bool Optimizer2::evaluateStoppingCriterion(int iterations)
-        {
-
-        // as we have analytic Jacobians we can assume the precision to be:
-        double epsilon = std::numeric_limits<double>::epsilon();
-
-        double x_norm = ...;
-
-        // the gradient: is simply the right hand side of GN:
-        double grad_norm = _rhs.norm();
-        double abs_J = fabs(_J);
-
-        // the first condition:
-        bool crit1 = grad_norm < sqrt(epsilon) * (1 + abs_J);
-
-        bool crit2 = _dx.norm() < sqrt(epsilon) * (1 + x_norm);
-
-        bool crit3 = fabs(_J - _p_J) < epsilon * (1 + abs_J);
-
-        bool crit4 = iterations < _options.maxIterations;
-
-        return (crit1 && crit2 && crit3) || crit4;
-
-        }*/
-
-
-
-        SolutionReturnValue Optimizer2::optimize()
-        {
-            Timer timeGn("Optimizer2: build Hessian", true);
-            Timer timeErr("Optimizer2: evaluate error", true);
-            Timer timeSchur("Optimizer2: Schur complement", true);
-            Timer timeBackSub("Optimizer2: Back substitution", true);
-            Timer timeSolve("Optimizer2: Solve linear system", true);
-            // Select the design variables and (eventually) the error terms involved in the optimization.
-            initialize();
-            SolutionReturnValue srv;
-            _p_J = 0.0;
-
-            //std::cout << "Evaluate error for the first time\n";
-            // This sets _J
-            timeErr.start();
-            evaluateError(true);
-            timeErr.stop();
-            _p_J = _J;
-            srv.JStart = _p_J;
-            // *** while not done
-            _options.verbose && std::cout << "[" << srv.iterations << ".0]: J: " << _J << std::endl;
-            // Set up the estimation problem.
-            double deltaX = _options.convergenceDeltaX + 1.0;
-            double deltaJ = _options.convergenceDeltaJ + 1.0;
-            bool previousIterationFailed = false;
-            bool linearSolverFailure = false;
-
-            SM_ASSERT_TRUE(Exception, _solver.get() != NULL, "The solver is null");
-            _trustRegionPolicy->setSolver(_solver);
-            _trustRegionPolicy->optimizationStarting(_J);
-
-            // Loop until convergence
-            while (srv.iterations <  _options.maxIterations &&
-                   srv.failedIterations < _options.maxIterations &&
-                   ((deltaX > _options.convergenceDeltaX &&
-                     fabs(deltaJ) > _options.convergenceDeltaJ) ||
-                    linearSolverFailure)) {
-
-                timeSolve.start();
-                bool solutionSuccess = _trustRegionPolicy->solveSystem(_J, previousIterationFailed, _options.nThreads, _dx);
-                timeSolve.stop();
-
-                if (!solutionSuccess) {
-                    _options.verbose && std::cout << "[WARNING] System solution failed\n";
-                    previousIterationFailed = true;
-                    linearSolverFailure = true;
-                    srv.failedIterations++;
-                } else {
-                    /// Apply the state update. _A, _b, _dx, and _H are passed in implicitly.
-                    timeBackSub.start();
-                    deltaX = applyStateUpdate();
-                    timeBackSub.stop();
-                    // This sets _J
-                    timeErr.start();
-                    evaluateError(true);
-                    timeErr.stop();
-                    deltaJ = _p_J - _J;
-                    // This was a regression.
-                    if( _trustRegionPolicy->revertOnFailure() )
-                    {
-                        // (a cost that is not a number is not an improvement either)
-                        if(!(deltaJ >= 0.0))
-                        {
-                            _options.verbose && std::cout << "Last step was a regression. Reverting\n";
-                            revertLastStateUpdate();
-                            srv.failedIterations++;
-                            previousIterationFailed = true;
-                        }
-                        else
-                        {
-                            _p_J = _J;
-                            previousIterationFailed = false;
-                        }
-                    }
-                    else
-                    {
-                        _p_J = _J;
-                    }
-                    srv.iterations++;
-
-                    _options.verbose && std::cout << "[" << srv.iterations << "]: J: " << _J << ", dJ: " << deltaJ << ", deltaX: " << deltaX << ", ";
-                    _options.verbose && _trustRegionPolicy->printState(std::cout);
-                    _options.verbose && std::cout << std::endl;
-                } // if the linear solver failed / else
-            }
-
-            srv.JFinal = _p_J;
-            srv.dXFinal = deltaX;
-            srv.dJFinal = deltaJ;
-            srv.linearSolverFailure = linearSolverFailure;
-            return srv;
-        }
-
-
-            DesignVariable* Optimizer2::designVariable(size_t i)
-            {
-                SM_ASSERT_LT_DBG(Exception, i, _designVariables.size(), "index out of bounds");
-                return _designVariables[i];
-            }
-
-
-
-            size_t Optimizer2::numDesignVariables() const
-            {
-                return _designVariables.size();
-            }
-
-
-            double Optimizer2::applyStateUpdate()
-            {
-                // Apply the update to the dense state.
-                int startIdx = 0;
-                for (size_t i = 0; i < numDesignVariables(); i++) {
-                    DesignVariable* d = _designVariables[i];
-                    const int dbd = d->minimalDimensions();
-                    Eigen::VectorXd dxS = _dx.segment(startIdx, dbd);
-                    dxS *= d->scaling();
-                    if(dbd > 0)
-                        d->update(&dxS[0], dbd);
-                    startIdx += dbd;
-                }
-                // Track the maximum delta
-                // \todo: should this be some other metric?
-                double deltaX = _dx.array().abs().maxCoeff();
-                return deltaX;
-            }
-
-
-
-
-
-            void Optimizer2::revertLastStateUpdate()
-            {
-                for (size_t i = 0; i < _designVariables.size(); i++) {
-                    _designVariables[i]->revertUpdate();
-                }
-            }
-
-
-            Optimizer2Options& Optimizer2::options()
-            {
-                return _options;
-            }
-
-
-            double Optimizer2::evaluateError(bool useMEstimator)
-            {
-                SM_ASSERT_TRUE(Exception, _solver.get() != NULL, "The solver is null");
-                _J = _solver->evaluateError(_options.nThreads, useMEstimator);
-                return _J;
-            }
-
-
-            /// \brief return the reduced system dx
-            const Eigen::VectorXd& Optimizer2::dx() const
-            {
-                return _dx;
-            }
-
-            /// The value of the objective function.
-            double Optimizer2::J() const
-            {
-                return _J;
-            }
-
-            void Optimizer2::printTiming() const
-            {
-                sm::timing::Timing::print(std::cout);
-            }
-
-
-
-
-
-
-
-            void Optimizer2::checkProblemSetup()
-            {
-                // Check that all error terms are hooked up to design variables.
-            }
-
-
-
-            void Optimizer2::computeDiagonalCovariances(SparseBlockMatrix& outP, double lambda)
-            {
-                SM_THROW(Exception, "Broken");
-
-                std::vector<std::pair<int, int> > blockIndices;
-                for (size_t i = 0; i < _designVariables.size(); ++i) {
-                    blockIndices.push_back(std::make_pair(i, i));
-                }
-                computeCovarianceBlocks(blockIndices, outP, lambda);
-            }
-
-    void Optimizer2::computeCovarianceBlocks(const std::vector<std::pair<int, int> > & /* blockIndices */, SparseBlockMatrix& /* outP */, double /* lambda */)
-            {
-                SM_THROW(Exception, "Broken");
-
-            }
-
-
-    void Optimizer2::computeCovariances(SparseBlockMatrix& /* outP */, double /* lambda */)
-            {
-                SM_THROW(Exception, "Broken");
-
-            }
-
-        void Optimizer2::computeHessian(SparseBlockMatrix& outH, double lambda)
-            {
-
-              boost::shared_ptr<BlockCholeskyLinearSystemSolver> solver_sp;
-              solver_sp.reset(new BlockCholeskyLinearSystemSolver());
-              // True here for creating the diagonal conditioning.
-              solver_sp->initMatrixStructure(_designVariables, _errorTerms, true);
-
-              _options.verbose && std::cout << "Setting the diagonal conditioner to: " << lambda << ".\n";
-              evaluateError(false);
-              solver_sp->setConstantConditioner(lambda);
-              solver_sp->buildSystem(_options.nThreads, false);
-              solver_sp->copyHessian(outH);
-            }
-
-      const LinearSystemSolver * Optimizer2::getBaseSolver() const {
-          return _solver.get();
-      }
-
-
-
-        const Matrix * Optimizer2::getJacobian() const {
-            return _solver->Jacobian();
-        }
-
-
-        } // namespace backend
-    } // namespace aslam
+#include <aslam_backend/backend/Optimizer2.hpp>
+// std::partial_sum
+#include <numeric>
+#include <aslam_backend/backend/ErrorTerm.hpp>
+// M.inverse()
+#include <Eigen/Dense>
+#include <sm_eigen/assert_macros.hpp>
+#include <aslam_sparse_block_matrix/linear_solver_dense.h>
+#include <aslam_sparse_block_matrix/linear_solver_cholmod.h>
+#ifndef QRSOLVER_DISABLED
+#include <aslam_sparse_block_matrix/linear_solver_spqr.h>
+#include <aslam_backend/backend/SparseQrLinearSystemSolver.hpp>
+#endif
+#include <aslam_backend/backend/sparse_matrix_functions.hpp>
+#include <aslam_backend/backend/BlockCholeskyLinearSystemSolver.hpp>
+#include <aslam_backend/backend/SparseCholeskyLinearSystemSolver.hpp>
+#include <aslam_backend/backend/DenseQrLinearSystemSolver.hpp>
+#include <sm_property_tree/PropertyTree.hpp>
+
+
+namespace aslam {
+    namespace backend {
+
+
+        Optimizer2::Optimizer2(const Optimizer2Options& options) :
+            _options(options)
+        {
+            initializeLinearSolver();
+            initializeTrustRegionPolicy();
+        }
+
+        Optimizer2::Optimizer2(const sm::PropertyTree& config, boost::shared_ptr<LinearSystemSolver> linearSystemSolver, boost::shared_ptr<TrustRegionPolicy> trustRegionPolicy) {
+          Optimizer2Options options;
+          options.convergenceDeltaJ = config.getDouble("convergenceDeltaJ", options.convergenceDeltaJ);
+          options.convergenceDeltaX = config.getDouble("convergenceDeltaX", options.convergenceDeltaX);
+          options.maxIterations = config.getInt("maxIterations", options.maxIterations);
+          options.doSchurComplement = config.getBool("doSchurComplement", options.doSchurComplement);
+          options.verbose = config.getBool("verbose", options.verbose);
+          options.linearSolverMaximumFails = config.getInt("linearSolverMaximumFails", options.linearSolverMaximumFails);
+          options.nThreads = config.getInt("nThreads", options.nThreads);
+          options.linearSystemSolver = linearSystemSolver;
+          options.trustRegionPolicy = trustRegionPolicy;
+          _options = options;
+          initializeLinearSolver();
+          initializeTrustRegionPolicy();
+          // USING C++11 would allow to do constructor delegation and more elegant code, i.e., directly call the upper constructor
+        }
+
+        Optimizer2::~Optimizer2()
+        {
+        }
+
+
+        /// \brief Set up to work on the optimization problem.
+        void Optimizer2::setProblem(boost::shared_ptr<OptimizationProblemBase> problem)
+        {
+            _problem = problem;
+        }
+
+        void Optimizer2::initializeTrustRegionPolicy()
+        {
+          if( !_options.trustRegionPolicy ) {
+            _options.verbose && std::cout << "No trust region policy set in the options. Defaulting to levenberg_marquardt\n";
+            _trustRegionPolicy.reset( new LevenbergMarquardtTrustRegionPolicy() );
+          } else {
+            _trustRegionPolicy = _options.trustRegionPolicy;
+          }
+
+
+          // \todo remove this check when the sparse qr solver supports an augmented diagonal
+          if(_solver->name() == "sparse_qr" && _trustRegionPolicy->name() == "levenberg_marquardt") {
+            _options.verbose && std::cout << "The sparse_qr solver is not compatible with levenberg_marquardt. Changing to the dog_leg trust region policy\n";
+            _trustRegionPolicy.reset( new DogLegTrustRegionPolicy() );
+          }
+
+          _options.verbose && std::cout << "Using the " << _trustRegionPolicy->name() << " trust region policy\n";
+
+        }
+
+
+        void Optimizer2::initializeLinearSolver()
+        {
+          if( ! _options.linearSystemSolver ) {
+            _options.verbose && std::cout << "No linear system solver set in the options. Defaulting to the sparse_cholesky solver\n";
+            _solver.reset(new SparseCholeskyLinearSystemSolver());
+          } else {
+            _solver = _options.linearSystemSolver;
+          }
+
+          _options.verbose && std::cout << "Using the " << _solver->name() << " linear system solver\n";
+        }
+
+        /// \brief initialize the optimizer to run on an optimization problem.
+        ///        This should be called before calling optimize()
+        void Optimizer2::initialize()
+        {
+          initializeLinearSolver();
+          initializeTrustRegionPolicy();
+
+          SM_ASSERT_FALSE(Exception, _problem.get() == NULL, "No optimization problem has been set");
+            _options.verbose && std::cout << "Initializing\n";
+            Timer init("Optimizer2: Initialize Total");
+            _designVariables.clear();
+            _designVariables.reserve(_problem->numDesignVariables());
+            _errorTerms.clear();
+            _errorTerms.reserve(_problem->numErrorTerms());
+            Timer initDv("Optimizer2: Initialize---Design Variables");
+            // Run through all design variables adding active ones to an active list.
+            // std::cout << "dvloop 1\n";
+            for (size_t i = 0; i < _problem->numDesignVariables(); ++i) {
+                DesignVariable* dv = _problem->designVariable(i);
+                if (dv->isActive())
+                    _designVariables.push_back(dv);
+            }
+            SM_ASSERT_FALSE(Exception, _designVariables.empty(), "It is illegal to run the optimizer with all marginalized design variables.");
+            // Assign block indices to the design variables.
+            // "blocks" will hold the structure of the left-hand-side of Gauss-Newton
+            int columnBase = 0;
+            // std::cout << "dvloop 2\n";
+            for (size_t i = 0; i < _designVariables.size(); ++i) {
+                _designVariables[i]->setBlockIndex(i);
+                _designVariables[i]->setColumnBase(columnBase);
+                columnBase += _designVariables[i]->minimalDimensions();
+            }
+            initDv.stop();
+            Timer initEt("Optimizer2: Initialize---Error Terms");
+            // Get all of the error terms that work on these design variables.
+            int dim = 0;
+            // std::cout << "eloop 1\n";
+            for (unsigned i = 0; i < _problem->numErrorTerms(); ++i) {
+                ErrorTerm* e = _problem->errorTerm(i);
+                _errorTerms.push_back(e);
+                e->setRowBase(dim);
+                dim += e->dimension();
+            }
+            initEt.stop();
+            SM_ASSERT_FALSE(Exception, _errorTerms.empty(), "It is illegal to run the optimizer with no error terms.");
+            Timer initMx("Optimizer2: Initialize---Matrices");
+            // Set up the block matrix structure.
+            // std::cout << "init structure\n";
+            //      initializeLinearSolver();
+            _solver->initMatrixStructure(_designVariables, _errorTerms, _trustRegionPolicy->requiresAugmentedDiagonal());
+            initMx.stop();
+            _options.verbose && std::cout << "Optimization problem initialized with " << _designVariables.size() << " design variables and " << _errorTerms.size() << " error terms\n";
+            // \todo Say how big the problem is.
+            _options.verbose && std::cout << "The Jacobian matrix is " << dim << " x " << columnBase << std::endl;
+
+
+            // \todo initialize the trust region stuff.
+
+        }
+
+
+        /*
+        // returns true of stop!
+        bool Optimizer2::evaluateStoppingCriterion(int iterations)
+        {
+
+        // as we have analytic Jacobians we can assume the precision to be:
+        double epsilon = std::numeric_limits<double>::epsilon();
+
+        double x_norm = ...;
+
+        // the gradient: is simply the right hand side of GN:
+        double grad_norm = _rhs.norm();
+        double abs_J = fabs(_J);
+
+        // the first condition:
+        bool crit1 = grad_norm < sqrt(epsilon) * (1 + abs_J);
+
+        bool crit2 = _dx.norm() < sqrt(epsilon) * (1 + x_norm);
+
+        bool crit3 = fabs(_J - _p_J) < epsilon * (1 + abs_J);
+
+        bool crit4 = iterations < _options.maxIterations;
+
+        return (crit1 && crit2 && crit3) || crit4;
+
+        }*/
+
+
+
+        SolutionReturnValue Optimizer2::optimize()
+        {
+            Timer timeGn("Optimizer2: build Hessian", true);
+            Timer timeErr("Optimizer2: evaluate error", true);
+            Timer timeSchur("Optimizer2: Schur complement", true);
+            Timer timeBackSub("Optimizer2: Back substitution", true);
+            Timer timeSolve("Optimizer2: Solve linear system", true);
+            // Select the design variables and (eventually) the error terms involved in the optimization.
+            initialize();
+            SolutionReturnValue srv;
+            _p_J = 0.0;
+
+            //std::cout << "Evaluate error for the first time\n";
+            // This sets _J
+            timeErr.start();
+            evaluateError(true);
+            timeErr.stop();
+            _p_J = _J;
+            srv.JStart = _p_J;
+            // *** while not done
+            _options.verbose && std::cout << "[" << srv.iterations << ".0]: J: " << _J << std::endl;
+            // Set up the estimation problem.
+            double deltaX = _options.convergenceDeltaX + 1.0;
+            double deltaJ = _options.convergenceDeltaJ + 1.0;
+            bool previousIterationFailed = false;
+            bool linearSolverFailure = false;
+
+            SM_ASSERT_TRUE(Exception, _solver.get() != NULL, "The solver is null");
+            _trustRegionPolicy->setSolver(_solver);
+            _trustRegionPolicy->optimizationStarting(_J);
+
+            // Loop until convergence
+            while (srv.iterations <  _options.maxIterations &&
+                   srv.failedIterations < _options.maxIterations &&
+                   ((deltaX > _options.convergenceDeltaX &&
+                     fabs(deltaJ) > _options.convergenceDeltaJ) ||
+                    linearSolverFailure)) {
+
+                timeSolve.start();
+                bool solutionSuccess = _trustRegionPolicy->solveSystem(_J, previousIterationFailed, _options.nThreads, _dx);
+                timeSolve.stop();
+
+                if (!solutionSuccess) {
+                    _options.verbose && std::cout << "[WARNING] System solution failed\n";
+                    previousIterationFailed = true;
+                    linearSolverFailure = true;
+                    srv.failedIterations++;
+                } else {
+                    /// Apply the state update. _A, _b, _dx, and _H are passed in implicitly.
+                    timeBackSub.start();
+                    deltaX = applyStateUpdate();
+                    timeBackSub.stop();
+                    // This sets _J
+                    timeErr.start();
+                    evaluateError(true);
+                    timeErr.stop();
+                    deltaJ = _p_J - _J;
+                    // This was a regression.
+                    if( _trustRegionPolicy->revertOnFailure() )
+                    {
+                        // (a cost that is not a number is not an improvement either)
+                        if(!(deltaJ >= 0.0))
+                        {
+                            _options.verbose && std::cout << "Last step was a regression. Reverting\n";
+                            revertLastStateUpdate();
+                            srv.failedIterations++;
+                            previousIterationFailed = true;
+                        }
+                        else
+                        {
+                            _p_J = _J;
+                            previousIterationFailed = false;
+                        }
+                    }
+                    else
+                    {
+                        _p_J = _J;
+                    }
+                    srv.iterations++;
+
+                    _options.verbose && std::cout << "[" << srv.iterations << "]: J: " << _J << ", dJ: " << deltaJ << ", deltaX: " << deltaX << ", ";
+                    _options.verbose && _trustRegionPolicy->printState(std::cout);
+                    _options.verbose && std::cout << std::endl;
+                } // if the linear solver failed / else
+            }
+
+            srv.JFinal = _p_J;
+            srv.dXFinal = deltaX;
+            srv.dJFinal = deltaJ;
+            srv.linearSolverFailure = linearSolverFailure;
+            return srv;
+        }
+
+
+            DesignVariable* Optimizer2::designVariable(size_t i)
+            {
+                SM_ASSERT_LT_DBG(Exception, i, _designVariables.size(), "index out of bounds");
+                return _designVariables[i];
+            }
+
+
+
+            size_t Optimizer2::numDesignVariables() const
+            {
+                return _designVariables.size();
+            }
+
+
+            double Optimizer2::applyStateUpdate()
+            {
+                // Apply the update to the dense state.
+                int startIdx = 0;
+                for (size_t i = 0; i < numDesignVariables(); i++) {
+                    DesignVariable* d = _designVariables[i];
+                    const int dbd = d->minimalDimensions();
+                    Eigen::VectorXd dxS = _dx.segment(startIdx, dbd);
+                    dxS *= d->scaling();
+                    if(dbd > 0)
+                        d->update(&dxS[0], dbd);
+                    startIdx += dbd;
+                }
+                // Track the maximum delta
+                // \todo: should this be some other metric?
+                double deltaX = _dx.array().abs().maxCoeff();
+                return deltaX;
+            }
+
+
+
+
+
+            void Optimizer2::revertLastStateUpdate()
+            {
+                for (size_t i = 0; i < _designVariables.size(); i++) {
+                    _designVariables[i]->revertUpdate();
+                }
+            }
+
+
+            Optimizer2Options& Optimizer2::options()
+            {
+                return _options;
+            }
+
+
+            double Optimizer2::evaluateError(bool useMEstimator)
+            {
+                SM_ASSERT_TRUE(Exception, _solver.get() != NULL, "The solver is null");
+                _J = _solver->evaluateError(_options.nThreads, useMEstimator);
+                return _J;
+            }
+
+
+            /// \brief return the reduced system dx
+            const Eigen::VectorXd& Optimizer2::dx() const
+            {
+                return _dx;
+            }
+
+            /// The value of the objective function.
+            double Optimizer2::J() const
+            {
+                return _J;
+            }
+
+            void Optimizer2::printTiming() const
+            {
+                sm::timing::Timing::print(std::cout);
+            }
+
+
+
+
+
+
+
+            void Optimizer2::checkProblemSetup()
+            {
+                // Check that all error terms are hooked up to design variables.
+            }
+
+
+
+            void Optimizer2::computeDiagonalCovariances(SparseBlockMatrix& outP, double lambda)
+            {
+                SM_THROW(Exception, "Broken");
+
+                std::vector<std::pair<int, int> > blockIndices;
+                for (size_t i = 0; i < _designVariables.size(); ++i) {
+                    blockIndices.push_back(std::make_pair(i, i));
+                }
+                computeCovarianceBlocks(blockIndices, outP, lambda);
+            }
+
+    void Optimizer2::computeCovarianceBlocks(const std::vector<std::pair<int, int> > & /* blockIndices */, SparseBlockMatrix& /* outP */, double /* lambda */)
+            {
+                SM_THROW(Exception, "Broken");
+
+            }
+
+
+    void Optimizer2::computeCovariances(SparseBlockMatrix& /* outP */, double /* lambda */)
+            {
+                SM_THROW(Exception, "Broken");
+
+            }
+
+        void Optimizer2::computeHessian(SparseBlockMatrix& outH, double lambda)
+            {
+
+              boost::shared_ptr<BlockCholeskyLinearSystemSolver> solver_sp;
+              solver_sp.reset(new BlockCholeskyLinearSystemSolver());
+              // True here for creating the diagonal conditioning.
+              solver_sp->initMatrixStructure(_designVariables, _errorTerms, true);
+
+              _options.verbose && std::cout << "Setting the diagonal conditioner to: " << lambda << ".\n";
+              evaluateError(false);
+              solver_sp->setConstantConditioner(lambda);
+              solver_sp->buildSystem(_options.nThreads, false);
+              solver_sp->copyHessian(outH);
+            }
+
+      const LinearSystemSolver * Optimizer2::getBaseSolver() const {
+          return _solver.get();
+      }
+
+
+
+        const Matrix * Optimizer2::getJacobian() const {
+            return _solver->Jacobian();
+        }
+
+
+        } // namespace backend
+    } // namespace aslam
-- 
2.43.0


From aee807ffaa871dcf0467a9e7864018157b4af886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 37/86] fix: a keypoint outside the mask image is masked, not
 read out of bounds

---
 .../include/aslam_cameras/cameras/ImageMask.hpp       | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/ImageMask.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/ImageMask.hpp
index fc311f3..2432a27 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/ImageMask.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/ImageMask.hpp
@@ -33,10 +33,13 @@ class ImageMask {
 
   template<typename DERIVED>
   bool isValid(const DERIVED & k) const {
-    int k1 = k(1, 0) * _scale;
-    int k0 = k(0, 0) * _scale;
-//     // \todo fix this when it is initialized properly
-    return !_mask.data || (_mask.at<unsigned char>(k1, k0) > 0);
+    if (!_mask.data)
+      return true;
+    double k1 = k(1, 0) * _scale;
+    double k0 = k(0, 0) * _scale;
+    if (!(k1 > -1.0 && k1 < _mask.rows && k0 > -1.0 && k0 < _mask.cols))
+      return false;
+    return _mask.at<unsigned char>((int) k1, (int) k0) > 0;
   }
 
   // is the mask set? (i.e. mask data != NULL)
-- 
2.43.0


From 400171d1c8ab260413f050927d6c86d768e85bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 38/86] fix: the intrinsics Jacobian of a Euclidean point has
 its distortion columns beside the projection's

---
 .../aslam_cameras/cameras/implementation/CameraGeometry.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
index 56a06ff..fe8e3c9 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
@@ -679,14 +679,14 @@ namespace aslam {
       if (estimateProjection) {
         Eigen::MatrixXd J;
         _projection.euclideanToKeypointIntrinsicsJacobian(p, J);
-        outJi.block(col, 0, KeypointDimension, _projection.minimalDimensions()) = J;
+        outJi.block(0, col, KeypointDimension, _projection.minimalDimensions()) = J;
         col += _projection.minimalDimensions();
       }
 
       if (estimateDistortion) {
         Eigen::MatrixXd J;
         _projection.euclideanToKeypointDistortionJacobian(p, J);
-        outJi.block(col, 0, KeypointDimension,
+        outJi.block(0, col, KeypointDimension,
                     _projection.distortion().minimalDimensions()) = J;
         col += _projection.distortion().minimalDimensions();
       }
-- 
2.43.0


From b3aca698ea087f1920c1df32356fd489962d9590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 39/86] fix: the virtual visibility tests respect the mask

---
 .../aslam_cameras/cameras/implementation/CameraGeometry.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
index fe8e3c9..7aed6c8 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
@@ -121,13 +121,13 @@ namespace aslam {
     template<typename P, typename S, typename M>
     bool CameraGeometry<P, S, M>::vsIsEuclideanVisible(
         const Eigen::Vector3d & p) const {
-      return _projection.isEuclideanVisible(p);
+      return isEuclideanVisible(p);
     }
 
     template<typename P, typename S, typename M>
     bool CameraGeometry<P, S, M>::vsIsHomogeneousVisible(
         const Eigen::Vector4d & ph) const {
-      return _projection.isHomogeneousVisible(ph);
+      return isHomogeneousVisible(ph);
     }
 
     // The amount of time elapsed between the start of the image and the
-- 
2.43.0


From 90db977db610ebd82fcb19412a8a22f9361e4a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 40/86] fix: the pinhole Jacobian of a homogeneous point
 respects the sign of its scale

---
 .../cameras/implementation/PinholeProjection.hpp              | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
index 232d2aa..379beda 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
@@ -179,10 +179,6 @@ bool PinholeProjection<DISTORTION_T>::homogeneousToKeypoint(
   J.derived().resize(KeypointDimension, 4);
   J.setZero();
 
-  // hope this works... (required to have valid static asserts)
-  return euclideanToKeypoint(ph.derived().template head<3>(), outKeypoint,
-                             J.derived().template topLeftCorner<2, 3>());
-
   if (ph[3] < 0) {
     bool success = euclideanToKeypoint(
         -ph.derived().template head<3>(), outKeypoint,
-- 
2.43.0


From cc5a3b8c09486bc0e093a032120e47049c26aab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 41/86] fix: the pinhole back-projection Jacobian scales the
 columns of the distortion's

---
 .../cameras/implementation/PinholeProjection.hpp          | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
index 379beda..b4783f5 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
@@ -257,10 +257,10 @@ bool PinholeProjection<DISTORTION_T>::keypointToEuclidean(
   //J.derived()(0,0) = 1.0;
   //J.derived()(1,1) = _fu_over_fv;
 
-  J.derived()(0, 0) = _recip_fu;
-  J.derived()(1, 1) = _recip_fv;
-
-  J *= Jd;
+  J.derived()(0, 0) = Jd(0, 0) * _recip_fu;
+  J.derived()(0, 1) = Jd(0, 1) * _recip_fv;
+  J.derived()(1, 0) = Jd(1, 0) * _recip_fu;
+  J.derived()(1, 1) = Jd(1, 1) * _recip_fv;
 
   return isValid(keypoint);
 
-- 
2.43.0


From 24fd045a6a7d1954fdefa3836d4f75600bcb4db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 42/86] fix: the extended unified intrinsics Jacobian uses fv
 for v

---
 .../cameras/implementation/ExtendedUnifiedProjection.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
index 751bf31..32ff534 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
@@ -432,7 +432,7 @@ void ExtendedUnifiedProjection<DISTORTION_T>::euclideanToKeypointIntrinsicsJacob
   J.setZero();
 
   const double tmp_x = -_fu * x * norm_inv2;
-  const double tmp_y = -_fu * y * norm_inv2;
+  const double tmp_y = -_fv * y * norm_inv2;
 
   const double tmp4 = (d - z);
   const double tmp5 = 0.5 * _alpha * r2 * d_inv;
-- 
2.43.0


From aded49e0fe611406e72618bec1abb25731936546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:18 +0000
Subject: [PATCH 43/86] fix: the back-projections with Jacobian size their
 outputs

---
 .../cameras/implementation/DoubleSphereProjection.hpp            | 1 +
 .../cameras/implementation/ExtendedUnifiedProjection.hpp         | 1 +
 .../aslam_cameras/cameras/implementation/OmniProjection.hpp      | 1 +
 .../aslam_cameras/cameras/implementation/PinholeProjection.hpp   | 1 +
 4 files changed, 4 insertions(+)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/DoubleSphereProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/DoubleSphereProjection.hpp
index dbb1999..41048f0 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/DoubleSphereProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/DoubleSphereProjection.hpp
@@ -375,6 +375,7 @@ bool DoubleSphereProjection<DISTORTION_T>::keypointToEuclidean(
   DERIVED_JK & mbJk =
       const_cast<DERIVED_JK &>(outJk);
   DERIVED_JK & Jk = mbJk.derived();
+  Jk.resize(3, 2);
 
   Jk(0, 0) = _recip_fu * (mx * d_k_d_mx + k);
   Jk(1, 0) = _recip_fu * my * d_k_d_mx;
diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
index 32ff534..a153241 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
@@ -330,6 +330,7 @@ bool ExtendedUnifiedProjection<DISTORTION_T>::keypointToEuclidean(
   DERIVED_JK & mbJk =
       const_cast<DERIVED_JK &>(outJk);
   DERIVED_JK & Jk = mbJk.derived();
+  Jk.resize(3, 2);
   
   Jk(0, 0) = (norm_inv + 2 * mx * mx * d_norm_inv_d_r2) * _recip_fu;
   Jk(1, 0) = (2 * my * mx * d_norm_inv_d_r2) * _recip_fu;
diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/OmniProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/OmniProjection.hpp
index 796becb..1f12129 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/OmniProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/OmniProjection.hpp
@@ -298,6 +298,7 @@ bool OmniProjection<DISTORTION_T>::keypointToEuclidean(
   DERIVED_JK & mbJk =
       const_cast<DERIVED_JK &>(outJk);
   DERIVED_JK & Jk = mbJk.derived();
+  Jk.resize(3, 2);
 
   double r0 = outPoint[0];
   double r1 = outPoint[1];
diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
index b4783f5..675a334 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
@@ -306,6 +306,7 @@ bool PinholeProjection<DISTORTION_T>::keypointToHomogeneous(
 
   DERIVED_P & p =
       const_cast<DERIVED_P &>(outPoint);
+  p.derived().resize(4);
   p[3] = 0.0;
 
   return keypointToEuclidean(keypoint, p.template head<3>(),
-- 
2.43.0


From 0e1e5c481fbb6e6e98c814ec5e44b0367cd932e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:09 +0000
Subject: [PATCH 44/86] fix: the field-of-view parameter Jacobian near the
 centre is proportional to the point

---
 .../aslam_cameras/cameras/implementation/FovDistortion.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/FovDistortion.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/FovDistortion.hpp
index 94db759..f72a4a2 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/FovDistortion.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/FovDistortion.hpp
@@ -154,7 +154,7 @@ void FovDistortion::distortParameterJacobian(
     J.setZero();
   }
   else if (r_u * r_u < 1e-5) {
-    J.setOnes();
+    J << u, v;
     J *= (_w - sin(_w)) / (_w * _w * cos(_w / 2) * cos(_w / 2));
   } else {
     const double dxd_d_w = (2 * u * (tanwhalfsq / 2 + 0.5))
-- 
2.43.0


From 0ec6d725f65d2a5b46c10e94e838281e5dceddca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:23 +0000
Subject: [PATCH 45/86] fix: the equidistant distortion is differentiable and
 invertible at the centre

---
 .../cameras/implementation/EquidistantDistortion.hpp   | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/EquidistantDistortion.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/EquidistantDistortion.hpp
index c7bda6b..17a79e2 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/EquidistantDistortion.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/EquidistantDistortion.hpp
@@ -50,6 +50,11 @@ void EquidistantDistortion::distort(
 
   double r, theta, theta2, theta4, theta6, theta8, thetad, scaling;
 
+  if (sqrt(y[0] * y[0] + y[1] * y[1]) <= 1e-8) {
+    J.setIdentity();
+    return;
+  }
+
   //MATLAB generated Jacobian
   J(0, 0) = atan(sqrt(y[0] * y[0] + y[1] * y[1])) * 1.0
       / sqrt(y[0] * y[0] + y[1] * y[1])
@@ -204,7 +209,7 @@ void EquidistantDistortion::undistort(
     theta = thetad
         / (1 + _k1 * theta2 + _k2 * theta4 + _k3 * theta6 + _k4 * theta8);
   }
-  scaling = tan(theta) / thetad;
+  scaling = (thetad > 1e-8) ? tan(theta) / thetad : 1.0;
 
   y[0] *= scaling;
   y[1] *= scaling;
@@ -255,6 +260,9 @@ void EquidistantDistortion::distortParameterJacobian(
   J.derived().resize(2, 4);
   J.setZero();
 
+  if (sqrt(y[0] * y[0] + y[1] * y[1]) <= 1e-8)
+    return;
+
   J(0, 0) = y[0] * pow(atan(sqrt(y[0] * y[0] + y[1] * y[1])), 3.0) * 1.0
       / sqrt(y[0] * y[0] + y[1] * y[1]);
   J(0, 1) = y[0] * pow(atan(sqrt(y[0] * y[0] + y[1] * y[1])), 5.0) * 1.0
-- 
2.43.0


From 35007fecf805a10aa7ebcfb41c32d21b226bfeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:58 +0000
Subject: [PATCH 46/86] fix: the temporal offset Jacobian of a global shutter
 has no columns

---
 .../include/aslam_cameras/cameras/GlobalShutter.hpp             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/GlobalShutter.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/GlobalShutter.hpp
index 425cea6..556ea16 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/GlobalShutter.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/GlobalShutter.hpp
@@ -38,7 +38,7 @@ class GlobalShutter {
       const DERIVED_J & outJ) const {
       DERIVED_J & J =
         const_cast<DERIVED_J &>(outJ);
-      J.resize(0, 0);
+      J.resize(1, 0);
 
   }
 
-- 
2.43.0


From 3819f7589158aca8c2ed71e3ef950e08e56cb459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 47/86] fix: a full second of nanoseconds is carried in a
 duration

---
 aslam_cv/aslam_time/src/duration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_time/src/duration.cpp b/aslam_cv/aslam_time/src/duration.cpp
index 92cfa63..0bb8e31 100644
--- a/aslam_cv/aslam_time/src/duration.cpp
+++ b/aslam_cv/aslam_time/src/duration.cpp
@@ -7,7 +7,7 @@ void normalizeSecNSecSigned(int64_t& sec, int64_t& nsec) {
   int64_t nsec_part = nsec;
   int64_t sec_part = sec;
 
-  while (nsec_part > 1000000000L) {
+  while (nsec_part >= 1000000000L) {
     nsec_part -= 1000000000L;
     ++sec_part;
   }
-- 
2.43.0


From 72b523eb4e361e591535c83bfe97fd7c0b16e523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 48/86] fix: a duration made from seconds is normalised and
 refused out of range

---
 .../aslam_time/implementation/Duration.hpp    | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp b/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
index 5cd6611..e4dc1ff 100644
--- a/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
+++ b/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
@@ -36,6 +36,9 @@
 
 #include <aslam_time/Duration.hpp>
 //#include <ros/rate.h>
+#include <cmath>
+#include <stdexcept>
+#include <boost/math/special_functions/round.hpp>
 #include <boost/date_time/posix_time/posix_time_types.hpp>
 
 namespace aslam {
@@ -51,17 +54,17 @@ DurationBase<T>::DurationBase(int32_t _sec, int32_t _nsec)
 
 template<class T>
 T& DurationBase<T>::fromSec(double d) {
-#ifdef HAVE_TRUNC
-  sec = (int32_t)trunc(d);
-#else
-  // (morgan: why doesn't win32 provide trunc? argh. hacked this together
-  // without much thought. need to test this conversion.
-  if (d >= 0.0)
-    sec = (int32_t) floor(d);
-  else
-    sec = (int32_t) floor(d) + 1;
-#endif
-  nsec = (int32_t)((d - (double) sec) * 1000000000);
+  if (!(d >= -2147483648.0 && d < 2147483648.0))
+    throw std::runtime_error("Duration is out of dual 32-bit range");
+
+  int64_t sec64 = (int64_t) floor(d);
+  int64_t nsec64 = (int64_t) boost::math::round((d - (double) sec64) * 1e9);
+
+  // the fraction may round up to a full second
+  normalizeSecNSecSigned(sec64, nsec64);
+
+  sec = (int32_t) sec64;
+  nsec = (int32_t) nsec64;
   return *static_cast<T*>(this);
 }
 
-- 
2.43.0


From 23282d52d7ebf8f6235e7b199635141d9755df80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 49/86] fix: a time made from seconds is normalised and refused
 out of range

---
 aslam_cv/aslam_time/include/aslam_time/Time.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/aslam_cv/aslam_time/include/aslam_time/Time.hpp b/aslam_cv/aslam_time/include/aslam_time/Time.hpp
index 647a676..17b5a79 100644
--- a/aslam_cv/aslam_time/include/aslam_time/Time.hpp
+++ b/aslam_cv/aslam_time/include/aslam_time/Time.hpp
@@ -59,6 +59,8 @@
 #include <cmath>
 //#include <ros/exception.h>
 #include "Duration.hpp"
+#include <cmath>
+#include <stdexcept>
 #include <boost/math/special_functions/round.hpp>
 //#include "rostime_decl.h"
 //#include <aslam_backend/Exceptions.hpp>
@@ -153,8 +155,17 @@ class TimeBase {
   }
   ;
   T& fromSec(double t) {
-    sec = (uint32_t) floor(t);
-    nsec = (uint32_t) boost::math::round((t - sec) * 1e9);
+    if (!(t >= 0.0 && t < 4294967296.0))
+      throw std::runtime_error("Time is out of dual 32-bit range");
+
+    int64_t sec64 = (int64_t) floor(t);
+    int64_t nsec64 = (int64_t) boost::math::round((t - (double) sec64) * 1e9);
+
+    // the fraction may round up to a full second
+    normalizeSecNSecUnsigned(sec64, nsec64);
+
+    sec = (uint32_t) sec64;
+    nsec = (uint32_t) nsec64;
     return *static_cast<T*>(this);
   }
 
-- 
2.43.0


From 353e5ebe0feb51b96951a0807f29e3c1a50cb2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 50/86] fix: times after 2038 can be added to and subtracted
 from

---
 aslam_cv/aslam_time/src/time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_time/src/time.cpp b/aslam_cv/aslam_time/src/time.cpp
index 42a5527..fb15cba 100644
--- a/aslam_cv/aslam_time/src/time.cpp
+++ b/aslam_cv/aslam_time/src/time.cpp
@@ -379,7 +379,7 @@ void normalizeSecNSecUnsigned(int64_t& sec, int64_t& nsec) {
     --sec_part;
   }
 
-  if (sec_part < 0 || sec_part > INT_MAX)
+  if (sec_part < 0 || sec_part > UINT_MAX)
     throw std::runtime_error("Time is out of dual 32-bit range");
 
   sec = sec_part;
-- 
2.43.0


From 19dbc8807dc10a931dd5af101584dc5706ae3f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 51/86] fix: a time beyond the 32-bit seconds is refused and
 does not wrap around

---
 .../include/aslam_time/implementation/Time.hpp         | 10 +++++++---
 aslam_cv/aslam_time/src/time.cpp                       |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/aslam_cv/aslam_time/include/aslam_time/implementation/Time.hpp b/aslam_cv/aslam_time/include/aslam_time/implementation/Time.hpp
index 6d49211..20f7a7b 100644
--- a/aslam_cv/aslam_time/include/aslam_time/implementation/Time.hpp
+++ b/aslam_cv/aslam_time/include/aslam_time/implementation/Time.hpp
@@ -60,10 +60,14 @@ namespace aslam {
 
 template<class T, class D>
 T& TimeBase<T, D>::fromNSec(uint64_t t) {
-  sec = (int32_t)(t / 1000000000);
-  nsec = (int32_t)(t % 1000000000);
+  uint64_t sec64 = 0;
+  uint64_t nsec64 = t;
 
-  normalizeSecNSec(sec, nsec);
+  // Throws an exception if we go out of 32-bit range
+  normalizeSecNSec(sec64, nsec64);
+
+  sec = (uint32_t) sec64;
+  nsec = (uint32_t) nsec64;
 
   return *static_cast<T*>(this);
 }
diff --git a/aslam_cv/aslam_time/src/time.cpp b/aslam_cv/aslam_time/src/time.cpp
index fb15cba..69cb03c 100644
--- a/aslam_cv/aslam_time/src/time.cpp
+++ b/aslam_cv/aslam_time/src/time.cpp
@@ -349,7 +349,7 @@ void normalizeSecNSec(uint64_t& sec, uint64_t& nsec) {
   uint64_t nsec_part = nsec % 1000000000UL;
   uint64_t sec_part = nsec / 1000000000UL;
 
-  if (sec_part > UINT_MAX)
+  if (sec + sec_part > UINT_MAX)
     throw std::runtime_error("Time is out of dual 32-bit range");
 
   sec += sec_part;
-- 
2.43.0


From df32cf285562e7fe4f6b37ad66d1e22f3d8e6127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 52/86] fix: durations beyond the 32-bit seconds are refused
 and do not wrap around

---
 .../aslam_time/implementation/Duration.hpp    | 34 +++++++++++++++----
 .../aslam_time/implementation/Time.hpp        |  9 +++--
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp b/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
index e4dc1ff..7139112 100644
--- a/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
+++ b/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
@@ -70,17 +70,27 @@ T& DurationBase<T>::fromSec(double d) {
 
 template<class T>
 T& DurationBase<T>::fromNSec(int64_t t) {
-  sec = (int32_t)(t / 1000000000);
-  nsec = (int32_t)(t % 1000000000);
+  int64_t sec64 = t / 1000000000;
+  int64_t nsec64 = t % 1000000000;
 
-  normalizeSecNSecSigned(sec, nsec);
+  // Throws an exception if we go out of 32-bit range
+  normalizeSecNSecSigned(sec64, nsec64);
+
+  sec = (int32_t) sec64;
+  nsec = (int32_t) nsec64;
 
   return *static_cast<T*>(this);
 }
 
 template<class T>
 T DurationBase<T>::operator+(const T &rhs) const {
-  return T(sec + rhs.sec, nsec + rhs.nsec);
+  int64_t sec_sum = (int64_t) sec + (int64_t) rhs.sec;
+  int64_t nsec_sum = (int64_t) nsec + (int64_t) rhs.nsec;
+
+  // Throws an exception if we go out of 32-bit range
+  normalizeSecNSecSigned(sec_sum, nsec_sum);
+
+  return T((int32_t) sec_sum, (int32_t) nsec_sum);
 }
 
 template<class T>
@@ -90,12 +100,24 @@ T DurationBase<T>::operator*(double scale) const {
 
 template<class T>
 T DurationBase<T>::operator-(const T &rhs) const {
-  return T(sec - rhs.sec, nsec - rhs.nsec);
+  int64_t sec_diff = (int64_t) sec - (int64_t) rhs.sec;
+  int64_t nsec_diff = (int64_t) nsec - (int64_t) rhs.nsec;
+
+  // Throws an exception if we go out of 32-bit range
+  normalizeSecNSecSigned(sec_diff, nsec_diff);
+
+  return T((int32_t) sec_diff, (int32_t) nsec_diff);
 }
 
 template<class T>
 T DurationBase<T>::operator-() const {
-  return T(-sec, -nsec);
+  int64_t sec_neg = -(int64_t) sec;
+  int64_t nsec_neg = -(int64_t) nsec;
+
+  // Throws an exception if we go out of 32-bit range
+  normalizeSecNSecSigned(sec_neg, nsec_neg);
+
+  return T((int32_t) sec_neg, (int32_t) nsec_neg);
 }
 
 template<class T>
diff --git a/aslam_cv/aslam_time/include/aslam_time/implementation/Time.hpp b/aslam_cv/aslam_time/include/aslam_time/implementation/Time.hpp
index 20f7a7b..766a1bb 100644
--- a/aslam_cv/aslam_time/include/aslam_time/implementation/Time.hpp
+++ b/aslam_cv/aslam_time/include/aslam_time/implementation/Time.hpp
@@ -74,8 +74,13 @@ T& TimeBase<T, D>::fromNSec(uint64_t t) {
 
 template<class T, class D>
 D TimeBase<T, D>::operator-(const T &rhs) const {
-  return D((int32_t) sec - (int32_t) rhs.sec,
-           (int32_t) nsec - (int32_t) rhs.nsec);  // carry handled in ctor
+  int64_t sec_diff = (int64_t) sec - (int64_t) rhs.sec;
+  int64_t nsec_diff = (int64_t) nsec - (int64_t) rhs.nsec;
+
+  // Throws an exception if we go out of 32-bit range
+  normalizeSecNSecSigned(sec_diff, nsec_diff);
+
+  return D((int32_t) sec_diff, (int32_t) nsec_diff);
 }
 
 template<class T, class D>
-- 
2.43.0


From 2cf032f8c2d70565a5a12c2a34ef74f83496707f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 53/86] fix: negative durations are printed with their value

---
 aslam_cv/aslam_time/src/time.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/aslam_cv/aslam_time/src/time.cpp b/aslam_cv/aslam_time/src/time.cpp
index 69cb03c..80d735b 100644
--- a/aslam_cv/aslam_time/src/time.cpp
+++ b/aslam_cv/aslam_time/src/time.cpp
@@ -256,9 +256,23 @@ std::ostream& operator<<(std::ostream& os, const Time &rhs) {
   return os;
 }
 
+// Prints a duration: the nanoseconds count up from the (negative) seconds.
+template<class D>
+static void printDuration(std::ostream& os, const D& rhs) {
+  int64_t sec = rhs.sec;
+  int64_t nsec = rhs.nsec;
+  if (sec < 0 && nsec > 0) {
+    ++sec;
+    nsec = 1000000000L - nsec;
+    if (sec == 0)
+      os << "-";
+  }
+  os << sec << "." << std::setw(9) << std::setfill('0') << nsec;
+}
+
 std::ostream& operator<<(std::ostream& os, const Duration& rhs) {
   boost::io::ios_all_saver s(os);
-  os << rhs.sec << "." << std::setw(9) << std::setfill('0') << rhs.nsec;
+  printDuration(os, rhs);
   return os;
 }
 
@@ -337,7 +351,7 @@ WallTime WallTime::now() {
 
 std::ostream &operator<<(std::ostream& os, const WallDuration& rhs) {
   boost::io::ios_all_saver s(os);
-  os << rhs.sec << "." << std::setw(9) << std::setfill('0') << rhs.nsec;
+  printDuration(os, rhs);
   return os;
 }
 
-- 
2.43.0


From 4339ce2f7ec0dd45782f10072b674c50e0d41f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 54/86] fix: a hull that shrinks to two points has its only
 segment over the middle

---
 .../include/sm_timing/implementation/TimestampCorrector.hpp      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp b/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp
index a795242..abc7732 100755
--- a/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp
+++ b/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp
@@ -57,6 +57,7 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::correctTimestamp(c
   }
   else
   {
+    _midpointSegmentIndex = 0;
     // and if there aren't enough data points, just return the sampled local time.
     return localTime;
   }
-- 
2.43.0


From 773ddb23ae0fdc4c1def03d89025cccc96ec570c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 55/86] fix: the clock corrector does not overflow on integer
 nanoseconds

---
 .../sm_timing/implementation/TimestampCorrector.hpp       | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp b/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp
index abc7732..cad4bd2 100755
--- a/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp
+++ b/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp
@@ -44,7 +44,7 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::correctTimestamp(c
   // Update the midpoint pointer...
   if(_convexHull.size() >= 3)
   {
-    T midpoint = (_convexHull[0].x + remoteTime) / 2.0;
+    T midpoint = _convexHull[0].x + (remoteTime - _convexHull[0].x) / 2;
 	  
     typename convex_hull_t::iterator lbit = std::lower_bound(_convexHull.begin(), _convexHull.end(), midpoint);
     _midpointSegmentIndex = lbit - _convexHull.begin() - 1;
@@ -101,7 +101,8 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::getLocalTime(const
   const Point & l2 = _convexHull[_midpointSegmentIndex + 1];
 
   // look up the local timestamp
-  return  l1.y + ((remoteTime - l1.x) * (l2.y - l1.y) / (l2.x - l1.x) ); 
+  // the product of integer times does not fit into their type
+  return  l1.y + time_t( (long double) (remoteTime - l1.x) * (l2.y - l1.y) / (l2.x - l1.x) ); 
 }
 
 template<typename T>
@@ -125,7 +126,8 @@ bool TimestampCorrector<T>::isAboveLine(const Point & l1, const Point & l2, cons
   Point v1 = l2 - l1;
   Point v2 = p - l1;
       
-  T determinant = v1.x * v2.y - v1.y * v2.x;
+  // the products of integer times do not fit into their type
+  long double determinant = (long double) v1.x * v2.y - (long double) v1.y * v2.x;
 
   return determinant >= 0.0;
 }
-- 
2.43.0


From 595d77cee6a66a384f4f5f427c6daba241506682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 56/86] fix: the data of every target point can be reached

---
 aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp b/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp
index 2fbb2ce..2e36d3e 100644
--- a/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp
+++ b/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp
@@ -36,7 +36,7 @@ Eigen::Vector3d GridCalibrationTargetBase::gridPoint(size_t r, size_t c) const {
 }
 
 double * GridCalibrationTargetBase::getPointDataPointer(size_t i) {
-  SM_ASSERT_LT(Exception, size()-1, i, "Grid has less points than the requested idx!")
+  SM_ASSERT_LT(Exception, i, size(), "Grid has less points than the requested idx!")
   return &_points(i, 0);
 }
 
-- 
2.43.0


From 2c10434c113f267ce116cf33c2d4cffa549854c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 57/86] fix: a target that is set again forgets the pose

---
 aslam_cv/aslam_cameras/src/GridCalibrationTargetObservation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aslam_cv/aslam_cameras/src/GridCalibrationTargetObservation.cpp b/aslam_cv/aslam_cameras/src/GridCalibrationTargetObservation.cpp
index 4c479b5..46751a5 100644
--- a/aslam_cv/aslam_cameras/src/GridCalibrationTargetObservation.cpp
+++ b/aslam_cv/aslam_cameras/src/GridCalibrationTargetObservation.cpp
@@ -33,6 +33,8 @@ void GridCalibrationTargetObservation::setTarget(
   _points = Eigen::MatrixXd::Zero(target->size(), 2);
   _success.clear();
   _success.resize(target->size(), false);
+  // the pose belonged to the points just dropped
+  _T_t_c_isSet = false;
 }
 
 /// \brief get all (observed) corners in image coordinates
-- 
2.43.0


From 047be3919cc0acaf6e27b69adbab7e8ab07223fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 58/86] fix: grid coordinates are the row and the column

---
 aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp b/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp
index 2e36d3e..9a79a0a 100644
--- a/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp
+++ b/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp
@@ -21,7 +21,7 @@ Eigen::Vector3d GridCalibrationTargetBase::point(size_t i) const {
 
 /// \brief get the grid coordinates for a point
 std::pair<size_t, size_t> GridCalibrationTargetBase::pointToGridCoordinates(size_t i) const {
-  return std::pair<size_t, size_t>(i % cols(), (int) i / cols());
+  return std::pair<size_t, size_t>(i / cols(), i % cols());
 }
 
 /// \brief get the point index from the grid coordinates
-- 
2.43.0


From 0c6e12d6fae8f390d6dd66134c1a8a98064f2ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:16 +0000
Subject: [PATCH 59/86] fix: asking whether a key exists finds it or says no

---
 .../sm_property_tree/src/BoostPropertyTreeImplementation.cpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/Schweizer-Messer/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index be7c99f..b23e019 100755
--- a/Schweizer-Messer/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/Schweizer-Messer/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -86,7 +86,7 @@ namespace sm {
 
   bool BoostPropertyTreeImplementation::doesKeyExist(const std::string & key) const
   {
-    boost::optional<std::string> val = _ptree.get<std::string>(boost::property_tree::ptree::path_type(key.c_str(),'/'));
+    boost::optional<std::string> val = _ptree.get_optional<std::string>(boost::property_tree::ptree::path_type(key.substr(1),'/'));
     
     return (bool)val;
   }
-- 
2.43.0


From 50bc285f922be403e3decc0985a0409943dbc2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:17 +0000
Subject: [PATCH 60/86] fix: a value of the wrong type is neither hidden nor
 overwritten by a default

---
 .../BoostPropertyTreeImplementation.hpp             | 13 +++++++++++++
 .../src/BoostPropertyTreeImplementation.cpp         |  8 ++++++++
 2 files changed, 21 insertions(+)

diff --git a/Schweizer-Messer/sm_property_tree/include/sm_property_tree/BoostPropertyTreeImplementation.hpp b/Schweizer-Messer/sm_property_tree/include/sm_property_tree/BoostPropertyTreeImplementation.hpp
index 5ac332c..1262fd4 100755
--- a/Schweizer-Messer/sm_property_tree/include/sm_property_tree/BoostPropertyTreeImplementation.hpp
+++ b/Schweizer-Messer/sm_property_tree/include/sm_property_tree/BoostPropertyTreeImplementation.hpp
@@ -70,6 +70,9 @@ namespace sm {
 
     template<typename T>
     void set(const std::string & key, const T & value);
+
+    // Is there something other than the empty string stored under the key?
+    bool hasValue(const std::string & key) const;
     
     // Make this a shared pointer so the datastructure can be easily copied around.
     // and refer to the same tree underneath.
@@ -106,6 +109,11 @@ namespace sm {
       {
 	return *val;
       }
+    else if(hasValue(key))
+      {
+	// there is a value, but not of this type
+	return get<T>(key);
+      }
     else
       {
 	return defaultValue;
@@ -120,6 +128,11 @@ namespace sm {
       {
 	return *val;
       }
+    else if(hasValue(key))
+      {
+	// there is a value, but not of this type
+	return get<T>(key);
+      }
     else
       {
 	set(key,defaultValue);
diff --git a/Schweizer-Messer/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/Schweizer-Messer/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index b23e019..2b3d876 100755
--- a/Schweizer-Messer/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/Schweizer-Messer/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -92,6 +92,14 @@ namespace sm {
   }
 
 
+  bool BoostPropertyTreeImplementation::hasValue(const std::string & key) const
+  {
+    boost::optional<std::string> val = _ptree.get_optional<std::string>(boost::property_tree::ptree::path_type(key.substr(1),'/'));
+
+    return val && !val->empty();
+  }
+
+
   void BoostPropertyTreeImplementation::loadXml(const boost::filesystem::path & fileName)
   {
     boost::property_tree::read_xml(fileName.string(), _ptree);
-- 
2.43.0


From 7ac1f1d9c7748e18269dc33040d04456ccb71aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:22 +0000
Subject: [PATCH 61/86] fix: reading a constant property tree with a default
 does not write it

---
 Schweizer-Messer/sm_property_tree/src/PropertyTree.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Schweizer-Messer/sm_property_tree/src/PropertyTree.cpp b/Schweizer-Messer/sm_property_tree/src/PropertyTree.cpp
index b1d4f88..805758f 100755
--- a/Schweizer-Messer/sm_property_tree/src/PropertyTree.cpp
+++ b/Schweizer-Messer/sm_property_tree/src/PropertyTree.cpp
@@ -59,7 +59,7 @@ namespace sm {
   double PropertyTree::getDouble(const std::string & key, double defaultValue) const
   {
       SM_ASSERT_TRUE(Exception, _imp, "The implementation is NULL");
-      return _imp->getDouble(buildQualifiedKeyName(key), defaultValue);
+      return boost::shared_ptr<const PropertyTreeImplementation>(_imp)->getDouble(buildQualifiedKeyName(key), defaultValue);
   }
 
   double PropertyTree::getDouble(const std::string & key, double defaultValue)
@@ -77,7 +77,7 @@ namespace sm {
   int PropertyTree::getInt(const std::string & key, int defaultValue) const
   {
       SM_ASSERT_TRUE(Exception, _imp, "The implementation is NULL");
-    return _imp->getInt(buildQualifiedKeyName(key),defaultValue);
+    return boost::shared_ptr<const PropertyTreeImplementation>(_imp)->getInt(buildQualifiedKeyName(key),defaultValue);
   }
 
   int PropertyTree::getInt(const std::string & key, int defaultValue)
@@ -95,7 +95,7 @@ namespace sm {
   bool PropertyTree::getBool(const std::string & key, bool defaultValue) const
   {
       SM_ASSERT_TRUE(Exception, _imp, "The implementation is NULL");
-    return _imp->getBool(buildQualifiedKeyName(key), defaultValue);
+    return boost::shared_ptr<const PropertyTreeImplementation>(_imp)->getBool(buildQualifiedKeyName(key), defaultValue);
   }
 
   bool PropertyTree::getBool(const std::string & key, bool defaultValue) 
@@ -114,7 +114,7 @@ namespace sm {
   std::string PropertyTree::getString(const std::string & key, const std::string & defaultValue) const
   {
       SM_ASSERT_TRUE(Exception, _imp, "The implementation is NULL");
-    return _imp->getString(buildQualifiedKeyName(key), defaultValue);
+    return boost::shared_ptr<const PropertyTreeImplementation>(_imp)->getString(buildQualifiedKeyName(key), defaultValue);
   }
 
   std::string PropertyTree::getString(const std::string & key, const std::string & defaultValue) 
-- 
2.43.0


From 079720b141a66f0e5950da9117096d8f14b7ea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 62/86] fix: clearing an entry of a matrix archive clears
 strings too

---
 Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
index a9e8508..5f718d3 100644
--- a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
@@ -32,7 +32,7 @@ namespace sm
   void MatrixArchive::clear(std::string const & entryName)
   {
     m_values.erase(entryName);
-    m_values.erase(entryName);
+    m_strings.erase(entryName);
   }
 
   void MatrixArchive::setScalar(std::string const & scalarName, double scalar)
-- 
2.43.0


From 3289db4a5561d7f0da13574e535419a77e7a0132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 63/86] fix: a matrix archive counts its matrices

---
 Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
index 5f718d3..4c673f0 100644
--- a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
@@ -175,7 +175,7 @@ namespace sm
   }
   size_t MatrixArchive::sizeMatrices() const
   {
-    return m_strings.size();
+    return m_values.size();
   }
 
   MatrixArchive::matrix_map_t::const_iterator MatrixArchive::begin() const
-- 
2.43.0


From db62eff3895db74bbfbefbe919d2975c1f0ec127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 64/86] fix: appending to a matrix archive writes the entries

---
 Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
index 4c673f0..21479d9 100644
--- a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
@@ -436,10 +436,14 @@ namespace sm
 
   }
 
-  void MatrixArchive::append(boost::filesystem::path const & amaFilePath, std::set<std::string> const & /* validNames */) const
+  void MatrixArchive::append(boost::filesystem::path const & amaFilePath, std::set<std::string> const & validNames) const
   {
     std::ofstream fout(amaFilePath.string().c_str(), std::ios::binary | std::ios::app);
     SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Unable to open file " << amaFilePath.string() << " for writing");
+
+    save(fout, validNames);
+
+    fout.close();
   }
 
   size_t MatrixArchive::maxNameSize()
-- 
2.43.0


From 7be1a90744236fdd9356101e6cdd302dc724816e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 65/86] fix: a name in a matrix archive stands for one entry

---
 .../include/sm_matrix_archive/MatrixArchive.hpp              | 1 +
 Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp     | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/Schweizer-Messer/sm_matrix_archive/include/sm_matrix_archive/MatrixArchive.hpp b/Schweizer-Messer/sm_matrix_archive/include/sm_matrix_archive/MatrixArchive.hpp
index 5aec5ba..879e5a0 100644
--- a/Schweizer-Messer/sm_matrix_archive/include/sm_matrix_archive/MatrixArchive.hpp
+++ b/Schweizer-Messer/sm_matrix_archive/include/sm_matrix_archive/MatrixArchive.hpp
@@ -133,6 +133,7 @@ namespace sm {
     {
       SM_ASSERT_EQ(MatrixArchiveException, vector.cols(),1, "The input must be a column vector");
       validateName(vectorName, SM_SOURCE_FILE_POS);
+      m_strings.erase(vectorName);
       m_values[vectorName] = vector;
     }
 
diff --git a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
index 21479d9..e27ceda 100644
--- a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
@@ -38,6 +38,7 @@ namespace sm
   void MatrixArchive::setScalar(std::string const & scalarName, double scalar)
   {
     validateName(scalarName,SM_SOURCE_FILE_POS);
+    m_strings.erase(scalarName);
     Eigen::MatrixXd & M = m_values[scalarName];
     M.resize(1,1);
     M(0,0) = scalar;
@@ -73,6 +74,8 @@ namespace sm
       }
     }
 
+    validateName(matrixName, SM_SOURCE_FILE_POS);
+    m_strings.erase(matrixName);
     Eigen::MatrixXd & val = m_values[matrixName];
     m_values[matrixName].resize(rows, cols);
     return val;
@@ -424,9 +427,11 @@ namespace sm
         validateName(name,SM_SOURCE_FILE_POS);
         switch(blockType){
           case MATRIX:
+            m_strings.erase(name);
             m_values[name] = matrix;
             break;
           case STRING:
+            m_values.erase(name);
             m_strings[name] = valueString;
             break;
         }
-- 
2.43.0


From 0325a524c482ad704d50f66c960c8487434f8133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 66/86] fix: a truncated or damaged matrix archive is refused

---
 .../sm_matrix_archive/src/MatrixArchive.cpp   | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
index e27ceda..67f6bb9 100644
--- a/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp
@@ -235,6 +235,20 @@ namespace sm
     SM_THROW(MatrixArchiveException, "Not Implemented");
   }
   
+  namespace {
+    // The number of bytes in count1 * count2 elements. Throws if the stream does not hold that many.
+    std::streamsize checkedSize(std::istream & fin, boost::uint64_t count1, boost::uint64_t count2, boost::uint64_t elementSize)
+    {
+      const std::istream::pos_type here = fin.tellg();
+      fin.seekg(0, std::ios::end);
+      const boost::uint64_t left = fin.tellg() - here;
+      fin.seekg(here);
+      SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "Unable to find the size of the archive");
+      SM_ASSERT_TRUE(MatrixArchiveException, count2 == 0 || count1 <= left / elementSize / count2, "The block is truncated");
+      return count1 * count2 * elementSize;
+    }
+  }
+
   void MatrixArchive::readMatrix(std::istream & fin, Eigen::MatrixXd & matrix) const
   {
     // 4 byte rows
@@ -244,10 +258,11 @@ namespace sm
     boost::uint32_t cols;
     fin.read(reinterpret_cast<char *>(&cols),4);
     
-    // data
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "The matrix block is truncated");
 
+    // data
+    std::streamsize dataSize = checkedSize(fin, rows, cols, sizeof(double));
     matrix.resize(rows,cols);
-    std::streamsize dataSize = rows * cols * sizeof(double);
     //std::cout << "Reading matrix \"" << name << "\", size: " << rows << "x" << cols << ", dataSize: " << dataSize << std::endl; 
     fin.read(reinterpret_cast<char *>(matrix.data()),dataSize);
   }
@@ -274,8 +289,10 @@ namespace sm
     // 4 byte rows
     boost::uint32_t stringSize;
     fin.read(reinterpret_cast<char *>(&stringSize),4);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "The string block is truncated");
 
     // data
+    checkedSize(fin, stringSize, 1, 1);
     stringValue.resize(stringSize);
     fin.read(&stringValue[0], stringSize);
   }
@@ -298,6 +315,7 @@ namespace sm
     char nameBuffer[s_fixedNameSize + 1];
     nameBuffer[s_fixedNameSize] = '\0';
     fin.read(nameBuffer,(std::streamsize)s_fixedNameSize);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "The name of the block is truncated");
     name = nameBuffer;
     boost::trim(name);
 
@@ -312,6 +330,7 @@ namespace sm
 
     // end character
     fin.read(&end,1);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "The matrix block is truncated");
     SM_ASSERT_EQ(MatrixArchiveException, end, s_magicCharEnd, "The matrix block didn't end with the expected character");
     return blockType;
   }
-- 
2.43.0


From 1ee3d3153d1567ba5a751fd60fabb30fc071038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:44 +0000
Subject: [PATCH 67/86] fix: a matrix of fixed height and no columns is read
 back

---
 Schweizer-Messer/sm_eigen/include/sm_eigen/serialization.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_eigen/include/sm_eigen/serialization.hpp b/Schweizer-Messer/sm_eigen/include/sm_eigen/serialization.hpp
index 22b3283..b877d07 100755
--- a/Schweizer-Messer/sm_eigen/include/sm_eigen/serialization.hpp
+++ b/Schweizer-Messer/sm_eigen/include/sm_eigen/serialization.hpp
@@ -142,7 +142,10 @@ namespace boost { namespace serialization {
       SM_ASSERT_EQ(sm::eigen::SerializationException,rows,A,"Unexpected number of rows found for fixed-sized type");
     
       M.resize(Eigen::NoChange,cols);
-      ar >> make_nvp("data",make_array(&M(0,0),M.rows()*M.cols()));
+      if(rows > 0 && cols > 0)
+	{
+	  ar >> make_nvp("data",make_array(&M(0,0),M.rows()*M.cols()));
+	}
 
     }
 
-- 
2.43.0


From 3b7a17ae53ac0ab224aa807335ab914c1662286c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 68/86] fix: one row of a larger image is written and read back
 as that row

---
 .../sm_opencv/include/sm_opencv/serialization.hpp             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp b/Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp
index 00ac0ac..b60662d 100755
--- a/Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp
+++ b/Schweizer-Messer/sm_opencv/include/sm_opencv/serialization.hpp
@@ -123,7 +123,7 @@ namespace boost
       ar & make_nvp("rows",mat_.rows);
       ar & make_nvp("cols",mat_.cols);
       ar & make_nvp("type",type);
-      ar & make_nvp("data",boost::serialization::make_binary_object(mat_.data, mat_.step*mat_.rows));
+      ar & make_nvp("data",boost::serialization::make_binary_object(mat_.data, mat_.total()*mat_.elemSize()));
     }
  
     template<class Archive>
@@ -134,7 +134,7 @@ namespace boost
       ar & make_nvp("cols",cols);
       ar & make_nvp("type",type);
       mat.create(rows, cols, type);
-      ar & make_nvp("data",boost::serialization::make_binary_object(mat.data, mat.step*mat.rows));
+      ar & make_nvp("data",boost::serialization::make_binary_object(mat.data, mat.total()*mat.elemSize()));
     }
  
   }} // namespace boost::serialization.
-- 
2.43.0


From cc372467e4a419a94537dad50a4788d92d7ac284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:25 +0000
Subject: [PATCH 69/86] fix: a locked mutex is not given to a second thread
 that only tries

---
 .../aslam_incremental_calibration/src/base/Condition.cpp        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/src/base/Condition.cpp b/aslam_incremental_calibration/aslam_incremental_calibration/src/base/Condition.cpp
index 072b55f..df82b3b 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/src/base/Condition.cpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/src/base/Condition.cpp
@@ -88,6 +88,8 @@ namespace aslam {
         result = safeEternalWait(mutex);
       else if (seconds > 0.0)
         result = safeWaitUntil(mutex, Timestamp(Timestamp::now() + seconds));
+      else
+        result = !mutex.mNumLocks;
       if (self) {
         if (&mutex == &self->mMutex)
           self->safeSetState(threadState);
-- 
2.43.0


From ef32a003fa91ed975ab64ef96efb90f8631d3a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:25 +0000
Subject: [PATCH 70/86] fix: waiting for a free mutex to be unlocked returns

---
 .../aslam_incremental_calibration/src/base/Mutex.cpp            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/src/base/Mutex.cpp b/aslam_incremental_calibration/aslam_incremental_calibration/src/base/Mutex.cpp
index 4c6adfc..e848ef1 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/src/base/Mutex.cpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/src/base/Mutex.cpp
@@ -112,7 +112,7 @@ namespace aslam {
       int ret = pthread_mutex_lock(&mIdentifier);
       if (ret)
         throw SystemException(ret, "Mutex::waitUnlock()::pthread_mutex_lock()");
-      const bool result = safeWait(*this, seconds);
+      const bool result = !mNumLocks || safeWait(*this, seconds);
       if (result)
         ((Mutex*)this)->signal();
       ret = pthread_mutex_unlock(&mIdentifier);
-- 
2.43.0


From 5281cf665863fcd2656d6a831f03cba1ab3da4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:25 +0000
Subject: [PATCH 71/86] fix: a thread interrupted during its work does not wait
 for a trigger

---
 .../aslam_incremental_calibration/src/base/Thread.cpp          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_incremental_calibration/aslam_incremental_calibration/src/base/Thread.cpp b/aslam_incremental_calibration/aslam_incremental_calibration/src/base/Thread.cpp
index fc9dff3..1566a71 100644
--- a/aslam_incremental_calibration/aslam_incremental_calibration/src/base/Thread.cpp
+++ b/aslam_incremental_calibration/aslam_incremental_calibration/src/base/Thread.cpp
@@ -334,7 +334,8 @@ namespace aslam {
         mTimer.start();
         process();
         mMutex.lock();
-        mTrigger.wait(mMutex, mTimer.getLeft(mCycle));
+        if (!mCancel)
+          mTrigger.wait(mMutex, mTimer.getLeft(mCycle));
         mMutex.unlock();
         mTimer.stop();
         mMutex.lock();
-- 
2.43.0


From 20fd77ccc5c65387bb00345d6c615348816dcc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:25 +0000
Subject: [PATCH 72/86] fix: the order to stop a job queue is given under its
 lock

---
 Schweizer-Messer/sm_boost/src/JobQueue.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Schweizer-Messer/sm_boost/src/JobQueue.cpp b/Schweizer-Messer/sm_boost/src/JobQueue.cpp
index 4efc256..74ed6f1 100644
--- a/Schweizer-Messer/sm_boost/src/JobQueue.cpp
+++ b/Schweizer-Messer/sm_boost/src/JobQueue.cpp
@@ -30,7 +30,9 @@ namespace sm {
     }
 
     void JobQueue::stop() {
+        boost::mutex::scoped_lock lck(mutex_);
         killWorkers_ = true;
+        condition_.notify_all(); // wake the sleeping worker thread(s)
     }
 
     void JobQueue::join()
-- 
2.43.0


From c4774c69e5f3501978e4044b2258f10d376d857f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:28 +0000
Subject: [PATCH 73/86] fix: a job queue that was never started can be joined

---
 Schweizer-Messer/sm_boost/src/JobQueue.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_boost/src/JobQueue.cpp b/Schweizer-Messer/sm_boost/src/JobQueue.cpp
index 74ed6f1..db3a12b 100644
--- a/Schweizer-Messer/sm_boost/src/JobQueue.cpp
+++ b/Schweizer-Messer/sm_boost/src/JobQueue.cpp
@@ -39,7 +39,8 @@ namespace sm {
     {
         stop();
         condition_.notify_all();
-        work_->join_all();
+        if(work_)
+            work_->join_all();
     }
 
     bool JobQueue::empty()
-- 
2.43.0


From 68ad2cacc5f1f339e696c5ed1043be365461a19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:28 +0000
Subject: [PATCH 74/86] fix: a job queue is not destroyed before workers that
 have yet to begin

---
 Schweizer-Messer/sm_boost/src/JobQueue.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_boost/src/JobQueue.cpp b/Schweizer-Messer/sm_boost/src/JobQueue.cpp
index db3a12b..67ecc70 100644
--- a/Schweizer-Messer/sm_boost/src/JobQueue.cpp
+++ b/Schweizer-Messer/sm_boost/src/JobQueue.cpp
@@ -19,12 +19,14 @@ namespace sm {
     }
 
     void JobQueue::start(int nThreads) {
+        boost::mutex::scoped_lock lck(mutex_);
         if(!work_)
         {
             work_.reset(new boost::thread_group);
             for(int i = 0; i < nThreads; ++i)
             {
                 work_->create_thread(boost::bind(&JobQueue::exec_loop,this));
+                ++threadsInPool_; // counted here: the thread may not run for a while
             }
         }
     }
@@ -60,7 +62,6 @@ namespace sm {
 
     void JobQueue::exec_loop() {
         boost::mutex::scoped_lock lck(mutex_);
-        ++threadsInPool_;
         while (true) {
             while ((q_.empty()) && !killWorkers_)
                 condition_.wait(lck); // wait for a job to be added to queue
-- 
2.43.0


From 2b7a1eb55c4dbaa2d2eb5470996099a8979b00bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:51 +0000
Subject: [PATCH 75/86] fix: truncating a dataset keeps the messages that lie
 in the span

---
 .../kalibr/python/kalibr_common/ImageDatasetReader.py           | 2 +-
 .../kalibr/python/kalibr_common/ImuDatasetReader.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py
index 3dbd5e6..e916350 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py
@@ -93,7 +93,7 @@ class BagImageDatasetReader(object):
 
     # find the valid timestamps
     valid_indices = []
-    for idx, timestamp in enumerate(timestamps):
+    for idx, timestamp in zip(indices, timestamps):
       if timestamp >= (bagstart + bag_from_to[0]) and timestamp <= (bagstart + bag_from_to[1]):
         valid_indices.append(idx)
     sm_python.logWarn(
diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py
index 0f7fccc..b3109a8 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py
@@ -85,7 +85,7 @@ class BagImuDatasetReader(object):
 
         #find the valid timestamps
         valid_indices = []
-        for idx, timestamp in enumerate(timestamps):
+        for idx, timestamp in zip(indices, timestamps):
              if timestamp>=(bagstart+bag_from_to[0]) and timestamp<=(bagstart+bag_from_to[1]):
                  valid_indices.append(idx)  
         sm_python.logWarn("BagImuDatasetReader: truncated {0} / {1} messages.".format(len(indices)-len(valid_indices), len(indices)))
-- 
2.43.0


From 66dd4ac1ad30d788d0d66bc2dc44f45171b61973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:51 +0000
Subject: [PATCH 76/86] fix: a shuffled reading of a dataset leaves the order
 of the dataset alone

---
 .../kalibr/python/kalibr_common/ImageDatasetReader.py           | 2 +-
 .../kalibr/python/kalibr_common/ImuDatasetReader.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py
index e916350..588a34a 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py
@@ -108,7 +108,7 @@ class BagImageDatasetReader(object):
     return BagImageDatasetReaderIterator(self, self.indices)
 
   def readDatasetShuffle(self):
-    indices = self.indices
+    indices = list(self.indices)
     np.random.shuffle(indices)
     return BagImageDatasetReaderIterator(self, indices)
 
diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py
index b3109a8..03bc79d 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py
@@ -100,7 +100,7 @@ class BagImuDatasetReader(object):
         return BagImuDatasetReaderIterator(self, self.indices)
 
     def readDatasetShuffle(self):
-        indices = self.indices
+        indices = list(self.indices)
         np.random.shuffle(indices)
         return BagImuDatasetReaderIterator(self,indices)
 
-- 
2.43.0


From 4094906f939a0de2c14355766ba51d1c80aa3ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:51 +0000
Subject: [PATCH 77/86] fix: a dataset has the messages of every connection of
 its topic

---
 .../kalibr/python/kalibr_common/ImageDatasetReader.py       | 6 +++---
 .../kalibr/python/kalibr_common/ImuDatasetReader.py         | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py
index 588a34a..50c709b 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ImageDatasetReader.py
@@ -41,9 +41,9 @@ class BagImageDatasetReader(object):
     conx = self.bag._get_connections(topics=imagetopic)
     indices = self.bag._get_indexes(conx)
 
-    try:
-      self.index = next(indices)
-    except:
+    # there is one index per connection (publisher) of the topic
+    self.index = sorted((entry for index in indices for entry in index), key=lambda entry: entry.time)
+    if not self.index:
       raise RuntimeError("Could not find topic {0} in {1}.".format(imagetopic, self.bagfile))
 
     self.indices = np.arange(len(self.index))
diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py
index 03bc79d..6bb0cac 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ImuDatasetReader.py
@@ -33,9 +33,9 @@ class BagImuDatasetReader(object):
         conx = self.bag._get_connections(topics=imutopic)
         indices = self.bag._get_indexes(conx)
         
-        try:
-            self.index = next(indices)
-        except:
+        #there is one index per connection (publisher) of the topic
+        self.index = sorted((entry for index in indices for entry in index), key=lambda entry: entry.time)
+        if not self.index:
             raise RuntimeError("Could not find topic {0} in {1}.".format(imutopic, self.bagfile))
         
         self.indices = np.arange(len(self.index))
-- 
2.43.0


From f1c7d32a54bf18b21321fa9b18bb80e0fd16488f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:51 +0000
Subject: [PATCH 78/86] fix: an extraction process that dies is reported, not
 read as missing views

---
 .../kalibr/python/kalibr_common/TargetExtractor.py              | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/TargetExtractor.py b/aslam_offline_calibration/kalibr/python/kalibr_common/TargetExtractor.py
index eaa5f36..c75c99c 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/TargetExtractor.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/TargetExtractor.py
@@ -68,6 +68,8 @@ def extractCornersFromDataset(dataset, detector, multithreading=False, numProces
                     iProgress.sample(done-last_done)
                 last_done = done
                 time.sleep(0.5)
+            if any([p.exitcode != 0 for p in plist]):
+                raise RuntimeError("an extraction process ended early")
             resultq.put('STOP')
         except Exception as e:
             raise RuntimeError("Exception during multithreaded extraction: {0}".format(e))
-- 
2.43.0


From 9be30adfce9e0468b67c142525f77e0d82bd8eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:39 +0000
Subject: [PATCH 79/86] fix: an illegal calibration target is refused with the
 reasons

---
 .../kalibr/python/kalibr_common/ConfigReader.py               | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
index c38559d..154af9d 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
@@ -548,6 +548,7 @@ class CalibrationTargetParameters(ParametersBase):
     def getTargetParams(self):
         #read target specidic data
         targetType = self.getTargetType()
+        errList = []
         
         if targetType == 'checkerboard':
             try:
@@ -621,6 +622,9 @@ class CalibrationTargetParameters(ParametersBase):
                             'tagSpacing': tagSpacing,
                             'targetType': targetType}
             
+        if errList:
+            self.raiseError("; ".join(errList))
+            
         return targetParams
         
     ###################################################
-- 
2.43.0


From 944de90f19ed0955e876486fb747a50b99d07d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:39 +0000
Subject: [PATCH 80/86] fix: a pinhole camera without distortion has its
 geometry

---
 .../kalibr/python/kalibr_common/ConfigReader.py                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
index 154af9d..35555df 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
@@ -64,7 +64,7 @@ class AslamCamera(object):
                                             principalPoint[0], principalPoint[1], 
                                             resolution[0], resolution[1])
                 
-                self.camera = cv.PinholeCameraGeometry(proj)
+                self.geometry = cv.PinholeCameraGeometry(proj)
                 
                 self.frameType = cv.PinholeFrame
                 self.keypointType = cv.Keypoint2
-- 
2.43.0


From 32d809a9b66af04389b8aabf0a284d17f1990a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:39 +0000
Subject: [PATCH 81/86] fix: a pinhole camera with an unknown distortion model
 is refused with an error

---
 .../kalibr/python/kalibr_common/ConfigReader.py                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
index 35555df..6b4c333 100644
--- a/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
+++ b/aslam_offline_calibration/kalibr/python/kalibr_common/ConfigReader.py
@@ -70,7 +70,7 @@ class AslamCamera(object):
                 self.keypointType = cv.Keypoint2
                 self.reprojectionErrorType = cvb.PinholeReprojectionErrorSimple
             else:
-                self.raiseError("pinhole camera model does not support distortion model '{}'".format(dist_model))
+                raise RuntimeError("pinhole camera model does not support distortion model '{}'".format(dist_model))
                 
         elif camera_model == 'omni':
             xi_omni = intrinsics[0]
-- 
2.43.0


From 77bcd2d4a39f96640a51b82c8fc651e3c31b99ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:44 +0000
Subject: [PATCH 82/86] fix: AprilTag detector reads images whose rows are not
 contiguous

---
 aslam_offline_calibration/aslam_apriltag2/src/TagDetector.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aslam_offline_calibration/aslam_apriltag2/src/TagDetector.cc b/aslam_offline_calibration/aslam_apriltag2/src/TagDetector.cc
index d49cea6..870c010 100644
--- a/aslam_offline_calibration/aslam_apriltag2/src/TagDetector.cc
+++ b/aslam_offline_calibration/aslam_apriltag2/src/TagDetector.cc
@@ -41,11 +41,10 @@ namespace AprilTags {
     int width = image.cols;
     int height = image.rows;
     AprilTags::FloatImage fimOrig(width, height);
-    int i = 0;
     for (int y=0; y<height; y++) {
+      const unsigned char* row = image.ptr<unsigned char>(y); // rows need not be contiguous
       for (int x=0; x<width; x++) {
-        fimOrig.set(x, y, image.data[i]/255.);
-        i++;
+        fimOrig.set(x, y, row[x]/255.);
       }
     }
     std::pair<int,int> opticalCenter(width/2, height/2);
-- 
2.43.0


From d84385f286ec2f25d1754dfc3e38f3b773d8a7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:44 +0000
Subject: [PATCH 83/86] fix: AprilTag grid forgets the corners observed in an
 earlier image

---
 .../aslam_cameras_april/src/GridCalibrationTargetAprilgrid.cpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras_april/src/GridCalibrationTargetAprilgrid.cpp b/aslam_cv/aslam_cameras_april/src/GridCalibrationTargetAprilgrid.cpp
index daf77c5..bec6491 100644
--- a/aslam_cv/aslam_cameras_april/src/GridCalibrationTargetAprilgrid.cpp
+++ b/aslam_cv/aslam_cameras_april/src/GridCalibrationTargetAprilgrid.cpp
@@ -275,7 +275,7 @@ bool GridCalibrationTargetAprilgrid::computeObservation(
   ///   ^      0-------1  2-------3
   ///   |-->x
 
-  outCornerObserved.resize(size(), false);
+  outCornerObserved.assign(size(), false);
   outImagePoints.resize(size(), 2);
 
   for (unsigned int i = 0; i < detections.size(); i++) {
-- 
2.43.0


From 1af783a06c2d9c5bfe034169a9a094b4fbf43954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:44 +0000
Subject: [PATCH 84/86] fix: Gaussian convolution of a part of an array takes
 the borders of that part

---
 aslam_offline_calibration/aslam_apriltag2/src/Gaussian.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_offline_calibration/aslam_apriltag2/src/Gaussian.cc b/aslam_offline_calibration/aslam_apriltag2/src/Gaussian.cc
index 8bd60a9..ad8e37d 100644
--- a/aslam_offline_calibration/aslam_apriltag2/src/Gaussian.cc
+++ b/aslam_offline_calibration/aslam_apriltag2/src/Gaussian.cc
@@ -40,7 +40,7 @@ void Gaussian::convolveSymmetricCentered(const std::vector<float>& a, unsigned i
   for (size_t i = f.size()/2; i < f.size(); i++) {
     double acc = 0;
     for (size_t j = 0; j < f.size(); j++) {
-      if ((aoff + i) < j || (aoff + i) >= (alen + j))
+      if (i < j || i >= alen + j)
 	acc += a[aoff] * f[j];
       else
 	acc += a[aoff + i - j] * f[j];
@@ -59,7 +59,7 @@ void Gaussian::convolveSymmetricCentered(const std::vector<float>& a, unsigned i
   for (size_t i = alen; i < alen + f.size()/2; i++) {
     double acc = 0;
     for (size_t j = 0; j < f.size(); j++) {
-      if ((aoff + i) >= (alen + j) || (aoff + i) < j)
+      if (i >= alen + j || i < j)
 	acc += a[aoff + alen - 1] * f[j];
       else
 	acc += a[aoff + i - j] * f[j];
-- 
2.43.0


From c32f9a0bf93e5c43da2e8954380d8dedb9627e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:20 +0000
Subject: [PATCH 85/86] fix: exceptions of error terms reach the caller from a
 threaded build of the Jacobian

---
 .../CompressedColumnJacobianTransposeBuilder.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnJacobianTransposeBuilder.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnJacobianTransposeBuilder.hpp
index 1783df7..49bc809 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnJacobianTransposeBuilder.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnJacobianTransposeBuilder.hpp
@@ -1,5 +1,6 @@
 #include <aslam_backend/backend/CompressedColumnJacobianTransposeBuilder.hpp>
 #include <boost/thread.hpp>
+#include <exception>
 
 namespace aslam {
   namespace backend {
@@ -71,10 +72,23 @@ namespace aslam {
         indices.back() = _jacobianPointers.size();
         // Build a thread pool and evaluate the jacobians.
         boost::thread_group threads;
+        std::vector<std::exception_ptr> failures(nThreads);
         for (unsigned i = 0; i < nThreads; ++i) {
-          threads.create_thread(boost::bind(ptr, this, i, indices[i], indices[i + 1], useMEstimator));
+          threads.create_thread([this, ptr, i, useMEstimator, &indices, &failures]() {
+            try {
+              (this->*ptr)(i, indices[i], indices[i + 1], useMEstimator);
+            } catch (...) {
+              failures[i] = std::current_exception();
+            }
+          });
         }
         threads.join_all();
+        // Now go through and look for exceptions.
+        for (size_t i = 0; i < failures.size(); ++i) {
+          if (failures[i]) {
+            std::rethrow_exception(failures[i]);
+          }
+        }
       }
     }
 
-- 
2.43.0


From 5bc037a8712f9138cb7867afe11d788aeb35a5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:30 +0000
Subject: [PATCH 86/86] fix: SparseQr solver uses the errors of the system it
 built

---
 .../aslam_backend/backend/SparseQrLinearSystemSolver.hpp      | 2 ++
 .../aslam_backend/src/SparseQrLinearSystemSolver.cpp          | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/SparseQrLinearSystemSolver.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/SparseQrLinearSystemSolver.hpp
index 3e4f794..7b9abce 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/SparseQrLinearSystemSolver.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/SparseQrLinearSystemSolver.hpp
@@ -65,6 +65,8 @@ namespace aslam {
       Cholmod<index_t> _cholmod;
       cholmod_sparse _cholmodLhs;
       cholmod_dense  _cholmodRhs;
+      /// \brief The errors the system was built with.
+      Eigen::VectorXd _systemErrors;
 #ifndef QRSOLVER_DISABLED
       SuiteSparseQR_factorization<double>* _factor;
       CompressedColumnMatrix<index_t> _R;
diff --git a/aslam_optimizer/aslam_backend/src/SparseQrLinearSystemSolver.cpp b/aslam_optimizer/aslam_backend/src/SparseQrLinearSystemSolver.cpp
index a54ab3c..a5ccae6 100644
--- a/aslam_optimizer/aslam_backend/src/SparseQrLinearSystemSolver.cpp
+++ b/aslam_optimizer/aslam_backend/src/SparseQrLinearSystemSolver.cpp
@@ -57,6 +57,8 @@ namespace aslam {
       _jacobianBuilder.buildSystem(nThreads, useMEstimator);
       CompressedColumnMatrix<SuiteSparse_long>& J_transpose = _jacobianBuilder.J_transpose();
       J_transpose.rightMultiply(_e, _rhs);
+      // The errors may be re-evaluated elsewhere before the system is solved.
+      _systemErrors = _e;
       //std::cout << "build system complete\n";
       _R.clear();
     }
@@ -68,7 +70,7 @@ namespace aslam {
         J_transpose.pushDiagonalBlock(_diagonalConditioner);
       }
       J_transpose.getView(&_cholmodLhs);
-      _cholmod.view(_e, &_cholmodRhs);
+      _cholmod.view(_systemErrors, &_cholmodRhs);
       //std::cout << "solve system\n";
       if (!_factor) {
         //std::cout << "\tAnalyze system\n";
-- 
2.43.0

