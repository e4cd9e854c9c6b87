driver(sparse aslam_sparse_block_matrix aslam_backend)
driver(backend aslam_backend sm_property_tree)
driver(jac aslam_backend)
driver(problems aslam_backend aslam_incremental_calibration)
driver(marg aslam_backend)
driver(expr aslam_backend_expressions)
driver(kin sm_kinematics)
driver(bspl aslam_bsplines aslam_splines aslam_backend aslam_backend_expressions aslam_sparse_block_matrix sm_kinematics sm_timing sm_boost)
driver(clock aslam_time sm_timing boost_date_time)
driver(target aslam_cameras_april aslam_apriltag2 aslam_cameras aslam_time sm_property_tree sm_kinematics sm_logging sm_boost boost_serialization boost_system)
driver(tag aslam_cameras_april aslam_apriltag2 aslam_cameras aslam_time sm_property_tree sm_kinematics sm_logging sm_boost boost_serialization boost_system)
driver(ser aslam_cv_serialization aslam_cameras_april aslam_apriltag2 aslam_cameras aslam_time sm_property_tree sm_kinematics sm_logging sm_random sm_boost boost_filesystem boost_serialization boost_system)
driver(conc aslam_incremental_calibration sm_boost boost_thread boost_system dl)
driver(ama sm_matrix_archive boost_filesystem boost_system)
driver(proptree sm_property_tree boost_filesystem boost_system)
driver(cam aslam_cameras aslam_time sm_property_tree sm_kinematics sm_boost)
driver(imu kalibr aslam_backend_expressions sm_boost boost_filesystem boost_system)
