#!/usr/bin/env python3
"""Writes properties.jsonl.  The properties are kept here because JSON lines are hard to edit."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, state, mech, observe, hook=False):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))

OB = "aslam_optimizer/aslam_backend/"
prop("C01", "Optimization never raises the cost and reports what it did",
 "An optimization run (Optimizer2 or Optimizer, with Gauss-Newton, Levenberg-Marquardt or dog-leg) with cost checks on ends with every active design variable in the state of the best cost it reports, never with a higher cost than it started from: a step that raised the cost is undone exactly. "
 "The returned record is truthful: the initial and final cost are the weighted squared error of the problem at the initial and final state, the iteration and failed-iteration counts are those that happened and respect the limits, and inactive design variables are never moved. "
 "On a linear least squares problem Gauss-Newton reaches the minimiser.",
 ["histories", "inputs", "configurations"], "every problem, start point, option set and accept/reject sequence",
 "Unit tests run a few convergent problems; whether a rejected step is rolled back exactly, at any iteration and for any policy, shows only on the histories that reject steps.",
 [OB+"src/Optimizer2.cpp", OB+"src/Optimizer.cpp", OB+"src/LevenbergMarquardtTrustRegionPolicy.cpp", OB+"src/DogLegTrustRegionPolicy.cpp", OB+"src/GaussNewtonTrustRegionPolicy.cpp", OB+"src/TrustRegionPolicy.cpp", OB+"src/DesignVariable.cpp"],
 [("_p_J, _J", "last accepted and current cost", OB+"src/Optimizer2.cpp"), ("design variable values", "the point of the search", OB+"src/DesignVariable.cpp")],
 [("optimize loop", OB+"src/Optimizer2.cpp:optimize"), ("applyStateUpdate / revertLastStateUpdate", OB+"src/Optimizer2.cpp"), ("isCostReductionSufficient / lambda update", OB+"src/LevenbergMarquardtTrustRegionPolicy.cpp")],
 ["return of optimize()", "every call of DesignVariable::update, revertUpdate and ErrorTerm::evaluateError"])

prop("C02", "Every linear solver and thread count solves the same normal equations",
 "For the same problem, every linear system solver (block Cholesky, sparse Cholesky, dense QR, sparse QR) and every number of threads assembles the Jacobian, weighted error and right-hand side J'We that the error terms define, with each error term at its own rows and each active design variable at its own columns, and its solution satisfies the (conditioned) normal equations. "
 "Building, conditioning and solving again, in any order and any number of times, gives the same answer: nothing accumulates between builds.",
 ["inputs", "configurations", "histories", "schedules"], "every block structure, active set, thread count, diagonal conditioner and sequence of builds",
 "Tests compare solvers on one or two structures with one thread count; misplaced offsets, stale values and races need particular block sizes, thread splits and repeated builds.",
 [OB+"src/LinearSystemSolver.cpp", OB+"src/BlockCholeskyLinearSystemSolver.cpp", OB+"src/SparseCholeskyLinearSystemSolver.cpp", OB+"src/DenseQrLinearSystemSolver.cpp", OB+"src/SparseQrLinearSystemSolver.cpp", OB+"include/aslam_backend/backend/implementation/CompressedColumnJacobianTransposeBuilder.hpp"],
 [("_e, _rhs, _H/_J", "assembled system", OB+"include/aslam_backend/backend/LinearSystemSolver.hpp")],
 [("buildSystem", OB+"src/*LinearSystemSolver.cpp"), ("thread slicing setupThreadedJob", OB+"src/LinearSystemSolver.cpp")],
 ["rhs(), e(), solveSystem(dx), Jacobian()"])

prop("C03", "Weighted errors, robust costs and Hessian blocks follow their definition",
 "For every error term the reported squared error is e' R^-1 e weighted by its M-estimator, the raw chi-square is the unweighted one, and the weighted error, weighted Jacobians and the blocks it adds to Hessian and right-hand side are consistent with that same weight. "
 "Each M-estimator's weight follows its published formula and lies in its published range, never increases the influence of a larger residual, and no-op estimators leave the cost unchanged.",
 ["inputs", "configurations"], "every residual, positive definite covariance or square root, estimator and width parameter, error dimension and order of set and evaluate calls",
 "Tests evaluate each estimator and error term at a handful of points.",
 [OB+"include/aslam_backend/backend/implementation/ErrorTerm.hpp", OB+"src/ErrorTerm.cpp", OB+"src/MEstimatorPolicies.cpp"],
 [("_error, _sqrtInvR, _squaredError", "residual and its weighting", OB+"include/aslam_backend/backend/ErrorTerm.hpp")],
 [("getWeightedError / getWeightedSquaredError", OB+"include/aslam_backend/backend/implementation/ErrorTerm.hpp"), ("getWeight", OB+"src/MEstimatorPolicies.cpp")],
 ["returns of evaluateError, getWeightedSquaredError, getRawSquaredError, getWeightedJacobians, buildHessian"])

prop("C04", "Jacobian containers accumulate the chain rule exactly",
 "A JacobianContainer holds for every active design variable exactly the sum of all contributions made to it, each multiplied by the chain-rule factors in force when it was added, in any order of add, nest, chain-rule application and clear; inactive design variables never appear. "
 "Its dense and per-variable views agree with one another and with the block indices of the variables.",
 ["histories", "inputs"], "every sequence of contributions over every expression graph",
 "Tests exercise single chains; sums over repeated variables, several nested factors and clear-and-reuse histories are unbounded.",
 [OB+"src/JacobianContainer.cpp", OB+"include/aslam_backend/backend/JacobianContainer.hpp"],
 [("_jacobianMap", "design variable -> accumulated Jacobian", OB+"include/aslam_backend/backend/JacobianContainer.hpp")],
 [("add / applyChainRule / asDenseMatrix", OB+"src/JacobianContainer.cpp")],
 ["asDenseMatrix(), Jacobian(dv), designVariable(i), numDesignVariables()"])

EX = "aslam_optimizer/aslam_backend_expressions/"
prop("C05", "Expressions evaluate to their formula and differentiate correctly",
 "Every expression built from the scalar, Euclidean, homogeneous, rotation, transformation, quaternion and matrix operators evaluates to the value of the mathematical formula, for any nesting and any sharing of sub-expressions, and its Jacobian with respect to every active design variable is the derivative of that value under the variable's own minimal update. "
 "Applying an update to a design variable and reverting it restores the previous value exactly, and an update changes the variable by exactly the requested minimal perturbation.",
 ["inputs", "programs", "histories"], "every expression graph over every operand value, and every update/revert history",
 "Tests differentiate single operators at random points with a loose tolerance and do not compose them or share operands.",
 [EX+"src", EX+"include/aslam_backend_expressions"],
 [("expression nodes", "operand graph", EX+"include/aslam_backend_expressions"), ("design variable value and previous value", "linearisation point", EX+"src/RotationQuaternion.cpp")],
 [("toX / evaluateJacobians", EX+"src/*.cpp"), ("updateImplementation / revertUpdateImplementation", EX+"src")],
 ["returns of evaluate, evaluateJacobians, update, revertUpdate"])

prop("C06", "Optimization problems hold exactly what was added",
 "Through any history of adding, removing, replacing and clearing, the design variables and error terms an optimization problem (plain, calibration or incremental) lists, counts, finds by index or by pointer and reports per group are exactly those added and not removed, each once and in order, and every design variable knows the error terms attached to it. "
 "Adding a design variable twice, an error term twice (calibration and incremental problems) or an error term of a missing design variable, or naming an index out of range, is refused and changes nothing, merging a sub-problem into an incremental problem and removing it again restores the previous problem, and saving and restoring design variables brings back every value.",
 ["histories"], "every interleaving of add, remove, permute, merge, save, restore and clear operations",
 "Tests follow a few straight-line histories; bookkeeping (reverse indices, usage counts, groups) breaks only on particular interleavings of adds and removals.",
 [OB+"src/OptimizationProblem.cpp", "aslam_incremental_calibration/aslam_incremental_calibration/src/core/OptimizationProblem.cpp", "aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp"],
 [("_designVariables, _errorTerms, _designVariableSet", "the problem's members", OB+"include/aslam_backend/backend/OptimizationProblem.hpp"), ("_designVariablesCounts, _errorTermsLookup", "reference counts and reverse lookup of merged problems", "aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp")],
 [("add / remove", "aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalOptimizationProblem.cpp"), ("removeDesignVariable / removeErrorTerm", OB+"src/OptimizationProblem.cpp")],
 ["return of every member function"])

prop("C07", "Sparse matrices compute what dense matrices do",
 "Whatever the block layout and the history of block allocations, every operation of the sparse block matrix and the compressed column matrix (slice, clone, assign, transpose, add, multiply, scale, permute, compressed column export, appended rows, columns and diagonals) gives exactly the result of the dense operation, leaves its operands unchanged, and refuses mismatched layouts. "
 "Marginal covariances and linear solves from a sparse block Hessian equal those of the dense matrix.",
 ["inputs", "histories"], "every block layout, sparsity pattern, value and sequence of operations",
 "Tests use a few fixed layouts; empty block columns, non-square and unequal blocks, views and reuse of destinations are combinatorially many.",
 ["aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix", "aslam_optimizer/aslam_sparse_block_matrix/src", OB+"include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp"],
 [("_blockCols", "allocated blocks per block column", "aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/sparse_block_matrix.h"), ("_col_ptr, _row_ind, _values", "compressed columns", OB+"include/aslam_backend/backend/CompressedColumnMatrix.hpp")],
 [("block operations", "aslam_optimizer/aslam_sparse_block_matrix/include/aslam_sparse_block_matrix/implementation/sparse_block_matrix.hpp"), ("computeCovariance", "aslam_optimizer/aslam_sparse_block_matrix/src/marginal_covariance_cholesky.cpp")],
 ["toDense, operator(), fillCCS and the returned matrices"])

NB = "aslam_nonparametric_estimation/"
prop("C08", "B-splines evaluate, differentiate, integrate and extend correctly",
 "For every order, knot sequence and coefficient set the curve value at any time of the valid interval is the B-spline of those knots and coefficients, each derivative is the derivative of that curve, Jacobians and bi-vectors are those of the value with respect to the local coefficients, and integrals and quadratic integrals are the integrals of the same curve. "
 "Initialisation between two points is the straight motion through them and fitted curves minimise their stated misfit plus smoothness cost; adding a segment keeps the joint and every coefficient but the one before the new one (hence the whole existing curve when the new time is the first knot past its end) and meets the new point, removing a segment keeps the rest of the curve, and times outside the valid interval and knot sequences that are not valid are refused with the curve unchanged. Design variables and expressions made from a curve always refer to its current coefficients, and the motion error and its Hessian are the quadratic integral of the curve.",
 ["inputs", "histories", "configurations"], "every order, knot vector, time (knots and interval ends included) and sequence of segment additions and removals",
 "Tests sample a few uniform splines away from knots and interval ends.",
 [NB+"aslam_bsplines/src/BSpline.cpp", NB+"aslam_splines/src/BSplinePoseDesignVariable.cpp", NB+"aslam_splines/src/EuclideanBSplineDesignVariable.cpp"],
 [("knots_, coefficients_, basisMatrices_", "the curve", NB+"aslam_bsplines/include/aslam_bsplines/BSpline.hpp")],
 [("evalD / evalDAndJacobian", NB+"aslam_bsplines/src/BSpline.cpp"), ("addCurveSegment / removeCurveSegment", NB+"aslam_bsplines/src/BSpline.cpp")],
 ["returns of eval, evalD, Jacobians, integrals, coefficients, knots"])

prop("C09", "Poses, rotations and their composition form the group they claim",
 "Conversions between quaternions, rotation matrices, rotation vectors and Euler angles, homogeneous points and transformations agree with one another and with their definition over the whole group, including angles near 0 and pi; composition, inverse and action on points satisfy the group laws and keep rotations orthonormal. "
 "Composition of uncertain transformations propagates covariance to first order, and pose splines report the orientation, velocity, angular velocity and acceleration of the curve they represent.",
 ["inputs", "programs"], "every pose, rotation representation and chain of operations",
 "Tests sample random poses, which almost never come near the singular angles and branch points.",
 ["Schweizer-Messer/sm_kinematics/src", NB+"aslam_bsplines/src/BSplinePose.cpp"],
 [("q, T, parameters", "pose representations", "Schweizer-Messer/sm_kinematics/include/sm_kinematics")],
 [("quaternion_algebra, rotations", "Schweizer-Messer/sm_kinematics/src"), ("BSplinePose", NB+"aslam_bsplines/src/BSplinePose.cpp")],
 ["return values"])

prop("C11", "Camera projection, back-projection and Jacobians are one model",
 "For every camera model (pinhole and omnidirectional projection with no, radial-tangential, equidistant or field-of-view distortion, extended unified and double sphere) the projection follows the published model, back-projecting a valid keypoint gives a ray that projects to that keypoint, and the Jacobians with respect to the point and to the projection, distortion and shutter parameters are the derivatives of that projection. "
 "Validity is reported consistently: a projection is valid exactly when the point is in the model's domain and the keypoint is inside the image, and parameter vectors read back as written.",
 ["inputs", "configurations"], "every camera model, parameter vector, point and keypoint",
 "Tests sample random points for one parameter vector per model.",
 ["aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation", "aslam_cv/aslam_cameras/src"],
 [("projection and distortion parameters", "the camera model", "aslam_cv/aslam_cameras/include/aslam_cameras/cameras")],
 [("euclideanToKeypoint / keypointToEuclidean", "aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation"), ("distort / undistort", "aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation")],
 ["returned keypoints, rays, Jacobians and validity"])

prop("C12", "Time arithmetic is exact and clocks are corrected from one side only",
 "Time and Duration values keep nanoseconds in [0, 1e9), and construction, conversion to and from nanoseconds and seconds, comparison, printing, addition and subtraction agree with exact integer arithmetic on nanoseconds; results that do not fit are refused. "
 "The timestamp corrector keeps the lower convex hull of the observed (remote, local) pairs: no observed pair lies below the returned line, and it corrects a remote time to the line through the segment over the middle of the observations; shutters give the temporal offset their read-out defines.",
 ["inputs", "histories"], "every pair of values over the whole range, and every sequence of time observations",
 "Carries, borrows, sign and overflow happen at single values out of 2^63; convex hull maintenance depends on the whole history.",
 ["aslam_cv/aslam_time/src", "aslam_cv/aslam_time/include/aslam_time/implementation", "Schweizer-Messer/sm_timing/src/NsecTimeUtilities.cpp", "Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp"],
 [("sec, nsec", "a point in time", "aslam_cv/aslam_time/include/aslam_time/Time.hpp"), ("_convexHull", "hull of observed clock pairs", "Schweizer-Messer/sm_timing/include/sm_timing/TimestampCorrector.hpp")],
 [("normalizeSecNSec*", "aslam_cv/aslam_time/src/time.cpp"), ("correctTimestamp", "Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp")],
 ["returned values and exceptions"])

prop("C13", "Targets and observations keep image points and target points together",
 "A target's grid has exactly rows x cols points at the positions its spacing defines, and every index, grid coordinate and point lookup names the same point. "
 "An observation holds exactly the image points set and not removed, each paired with the target point of the same index, whatever the order of updates, removals and copies, and a reported pose is the pose that was estimated for those points.",
 ["histories", "inputs", "configurations"], "every target geometry and every sequence of observation updates",
 "Tests do not cover observation histories at all.",
 ["aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp", "aslam_cv/aslam_cameras/src/GridCalibrationTargetObservation.cpp", "aslam_cv/aslam_cameras/src/GridDetector.cpp"],
 [("_points, _success", "observed corners", "aslam_cv/aslam_cameras/include/aslam_cameras/cameras/GridCalibrationTargetObservation.hpp")],
 [("updateImagePoint / removeImagePoint / getCorners*", "aslam_cv/aslam_cameras/src/GridCalibrationTargetObservation.cpp")],
 ["return of every member function"])

KP = "aslam_offline_calibration/kalibr/python/"
prop("C14", "Multi-camera views group synchronised observations and only those",
 "The observation database gives back every observation added, grouped so that each view holds at most one observation per camera: an observation joins the view nearest in time when that view's time is within the synchronisation tolerance and opens a view of its own otherwise, and a second observation of the same camera for the same view is reported and changes nothing, whatever the order of insertion. "
 "The camera graph connects exactly the camera pairs that share target corners, counts those corners correctly, reports connectivity truthfully, and the baselines it derives are consistent with the transformations along its paths.",
 ["histories", "inputs"], "every insertion order, timestamp pattern and set of observed corners",
 "There are no tests of this Python layer.",
 [KP+"kalibr_camera_calibration/ObsDb.py", KP+"kalibr_camera_calibration/MulticamGraph.py"],
 [("targetViews", "timestamp -> camera -> observation", KP+"kalibr_camera_calibration/ObsDb.py"), ("G", "camera graph with observation ids per edge", KP+"kalibr_camera_calibration/MulticamGraph.py")],
 [("addObservation", KP+"kalibr_camera_calibration/ObsDb.py"), ("buildGraph / getTargetPoseGuess / initializeBaselines", KP+"kalibr_camera_calibration/MulticamGraph.py")],
 ["returns of the public methods"])

prop("C15", "Data sets are read completely, in order and in the requested range",
 "Image and IMU readers deliver every message of their topic inside the requested time range exactly once, in time order and with its own data and timestamp, whatever the order of messages and connections in the bag and however often the data set was read or shuffled before; shuffling delivers the same set. "
 "Parallel target extraction returns exactly the observations serial extraction returns, in time order, whatever the scheduling of its workers, and fails rather than losing images.",
 ["inputs", "schedules", "histories"], "every bag order, range and worker schedule",
 "There are no tests of this Python layer, and scheduling is out of a unit test's control.",
 [KP+"kalibr_common/ImageDatasetReader.py", KP+"kalibr_common/ImuDatasetReader.py", KP+"kalibr_common/TargetExtractor.py"],
 [("indices", "positions of the messages to deliver", KP+"kalibr_common/ImageDatasetReader.py")],
 [("truncateIndicesFromTime / sortByTime", KP+"kalibr_common/ImageDatasetReader.py"), ("multicoreExtractionWrapper", KP+"kalibr_common/TargetExtractor.py")],
 ["the sequence of items the iterators yield"])

prop("C16", "Configuration files are validated and round-trip",
 "A configuration is accepted exactly when every required field is present and legal for its model, anything else is refused with an error that says so; what was set is what is read back, before and after writing and re-reading the file. "
 "Camera chain transformations, overlaps and camera-IMU extrinsics are stored per camera, and resulting camera objects carry the configured intrinsics, distortion and resolution.",
 ["inputs", "configurations", "histories"], "every configuration, valid or not, and every sequence of set and get calls",
 "There are no tests of this Python layer; the space of malformed configurations is unbounded.",
 [KP+"kalibr_common/ConfigReader.py"],
 [("data", "the YAML document", KP+"kalibr_common/ConfigReader.py")],
 [("check*/get*/set*", KP+"kalibr_common/ConfigReader.py")],
 ["returned values and raised errors"])

prop("C17", "Property trees store values under their path",
 "Every value set in a property tree under a path is what the same path reads back with the same type, from any node above it and through saving and loading XML or INI files; setting one path leaves all others unchanged, and paths that were never set are reported absent or give the default that was asked for. "
 "A malformed key or a value of the wrong type is refused.",
 ["histories", "inputs"], "every sequence of set, get, child and save/load operations over every path",
 "Tests set a few keys; relative and absolute paths through nested namespaces combine without bound.",
 ["Schweizer-Messer/sm_property_tree/src"],
 [("_ptree, _namespace", "stored values and the node's position", "Schweizer-Messer/sm_property_tree/src/BoostPropertyTreeImplementation.cpp")],
 [("get* / set* / buildQualifiedKeyName", "Schweizer-Messer/sm_property_tree/src/PropertyTree.cpp")],
 ["returns of get*, doesKeyExist, getChildren"])

prop("C18", "Stored data is read back exactly and damaged data is refused",
 "Matrices, scalars, vectors and strings stored in a matrix archive, and objects written through boost serialization, are read back exactly, every one under its own name and with none lost or invented; a file that lost its end, or a matrix archive whose structure (block marks, names, sizes) is damaged, is refused with an error and never yields wrong data or a crash. "
 "Clearing, overwriting and counting entries act on exactly the named ones.",
 ["histories", "inputs", "fault_sequences"], "every set of names, sizes and values, every sequence of edits, and every truncation or corruption point",
 "Tests store a couple of matrices and do not damage files.",
 ["Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp", "Schweizer-Messer/sm_boost/include/sm_boost", "Schweizer-Messer/sm_eigen/include/sm_eigen/serialization.hpp"],
 [("m_values, m_strings", "named entries", "Schweizer-Messer/sm_matrix_archive/include/sm_matrix_archive/MatrixArchive.hpp")],
 [("save / load / readBlock", "Schweizer-Messer/sm_matrix_archive/src/MatrixArchive.cpp")],
 ["contents after load, thrown errors"])

prop("C19", "Concurrent helpers lose no work and never hang",
 "Under every schedule, each job given to a job queue is begun at most once and only after it was given, jobs are begun in the order given as workers become free, never more at a time than workers; waitForEmptyQueue returns only when every job given before has ended, a future delivers its job's result or exception, and join and destruction terminate with no job running and none begun afterwards (jobs not yet begun when the queue is stopped stay undone). "
 "A mutex of the calibration library has one owner at a time, counts its owner's locks, refuses what only the owner may do, and is refused to a thread that only tries exactly when it may be taken; waiting for a mutex, a condition that is signalled or a thread that ends returns; a thread that is started does its work at least once, one at a time, and not after its interruption was waited for.",
 ["schedules"], "every interleaving of producers, workers and the controlling thread",
 "A test sees the few interleavings the machine happens to produce.",
 ["Schweizer-Messer/sm_boost/src/JobQueue.cpp", "aslam_incremental_calibration/aslam_incremental_calibration/src/base"],
 [("q_, activeThreads_, threadsInPool_, killWorkers_", "queue state", "Schweizer-Messer/sm_boost/src/JobQueue.cpp")],
 [("exec_loop, stop, join", "Schweizer-Messer/sm_boost/src/JobQueue.cpp")],
 ["job execution and the return of add, join, stop"])

prop("C20", "Fiducial detection decodes every tag identity it should and no other",
 "Tag families decode a code word to the identity within the allowed Hamming distance in any of the four rotations and reject everything else; the union-find, line, quad and grouping steps partition their input as defined, and the board detectors (April grid, checkerboard, circles) assign every corner they report to the target point it shows, report nothing that is not in the image, and leave no trace of earlier images in a result. ",
 ["inputs"], "every code word and rotation with every error pattern up to the limit, and every union history",
 "Tests detect boards in a few images.",
 ["aslam_offline_calibration/aslam_apriltag2" , "aslam_cv/aslam_cameras_april/src"],
 [("codes", "code table of the family", "aslam_offline_calibration/aslam_apriltag2")],
 [("decode", "aslam_offline_calibration/aslam_apriltag2")],
 ["decoded id, Hamming distance, rotation"])

prop("C21", "Marginalising a variable preserves the information on the rest",
 "Marginalising design variables out of a set of error terms yields a prior whose error, Jacobian and cost at the linearisation point and after any update are those of the Schur complement of the original Gauss-Newton system with respect to the remaining variables, so that solving with the prior gives the same result as solving the full linear problem. ",
 ["inputs", "histories"], "every linear problem, split of variables and update of the remaining ones",
 "Tests marginalise one or two fixed problems.",
 [OB+"src/Marginalizer.cpp", OB+"src/MarginalizationPriorErrorTerm.cpp"],
 [("_R, _d", "square-root information of the prior", OB+"include/aslam_backend/backend/MarginalizationPriorErrorTerm.hpp")],
 [("marginalize", OB+"src/Marginalizer.cpp")],
 ["the returned prior error term"])

prop("C22", "Inertial error terms compare measurement and prediction",
 "Accelerometer, gyroscope and Euclidean error terms evaluate to the prediction their model states (gravity, biases, scale and misalignment, acceleration sensitivity and size-effect lever arms included) minus the measurement, whose weighted square is the cost, with the Jacobians of that residual. ",
 ["inputs"], "every measurement, trajectory and parameter value",
 "There are no numeric tests of these terms.",
 ["aslam_offline_calibration/kalibr/src"],
 [("measurement, bias, scale", "inputs of the residual", "aslam_offline_calibration/kalibr/include/kalibr")],
 [("evaluateErrorImplementation", "aslam_offline_calibration/kalibr/src")],
 ["returned error and Jacobians"])

prop("C24", "Streaming statistics equal the statistics of the data",
 "The incremental estimators (mean and variance of normal distributions, vector-valued ones, histograms and their like) hold after any sequence of additions and removals of points exactly the statistics of the points currently in them, up to rounding. ",
 ["histories", "inputs"], "every sequence of additions, removals and resets",
 "Tests add a batch and read the result once.",
 ["aslam_incremental_calibration/aslam_incremental_calibration/src/statistics"],
 [("mean, variance, number of points", "sufficient statistics", "aslam_incremental_calibration/aslam_incremental_calibration/include/aslam_incremental_calibration/statistics")],
 [("addPoint / removePoint", "aslam_incremental_calibration/aslam_incremental_calibration/src/statistics")],
 ["getters"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        p["statement"] = p["statement"].strip()
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
