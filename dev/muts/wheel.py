W = "baselines/src/wheel_odometry/wheel_odometry.cpp"
X = "ROS/drift/examples/"
def w(n, a, b, p="P37"):
    return (n, p, [(W, a, b)])
M = [
 w("w-late-unlock", "    vel_queue_mutex_ptr_.get()->unlock();\n    ang_vel_queue_mutex_ptr_.get()->unlock();\n    return;", "    vel_queue_mutex_ptr_.get()->unlock();\n    return;"),
 w("w-cross", "    ang_vel_measurement = ang_vel_queue_ptr_->front();\n    ang_vel_queue_ptr_->pop();\n    ang_vel_queue_mutex_ptr_.get()->unlock();", "    ang_vel_queue_mutex_ptr_.get()->unlock();\n    ang_vel_measurement = ang_vel_queue_ptr_->front();\n    ang_vel_queue_ptr_->pop();"),
 w("w-nopop", "    ang_vel_queue_ptr_->pop();\n", ""),
 w("w-and", "vel_queue_ptr_->empty() || ang_vel_queue_ptr_->empty()", "vel_queue_ptr_->empty()"),
 w("w-prev", "    prev_t_ = t;\n\n    Integrate", "    Integrate"),
 w("w-seed", "      prev_t_ = t;\n      state_.set_time(t);\n      return;", "      prev_t_ = t;\n      return;"),
 w("w-left", "X.block<3, 3>(0, 0) = R * exp_omega;", "X.block<3, 3>(0, 0) = exp_omega * R;"),
 w("w-body", "p + R * v_mea * dt", "p + v_mea * dt"),
 w("w-new-R", "  X.block<3, 1>(0, 4) = p + R * v_mea * dt;", "  X.block<3, 1>(0, 4) = p + X.block<3, 3>(0, 0) * v_mea * dt;"),
 w("w-swap-cols", "X.block<3, 1>(0, 3) = R * v_mea;\n  X.block<3, 1>(0, 4) = p", "X.block<3, 1>(0, 4) = R * v_mea;\n  X.block<3, 1>(0, 3) = p"),
 w("w-gamma1", "Gamma_SO3(phi, 0)", "Gamma_SO3(phi, 1)"),
 w("w-time", "state_.set_time(state_.get_time() + dt);", "state_.set_time(dt);"),
 w("w-rate", "time_diff >= 1.0 / pose_log_rate_", "time_diff > 1.0 / pose_log_rate_"),
 w("w-lastpub", "    last_pub_t_ = state_.get_time();\n", ""),
 w("w-quat", "state_quat.w()\n", "state_quat.z()\n"),
 w("w-digits", "    outfile_.precision(dbl::max_digits10);\n", ""),
 w("w-log-when-off", "if (enable_pose_logger_ && time_diff", "if (time_diff"),
 w("w-vel", "Eigen::Vector3d v = state_.get_velocity();", "v_mea = 0.5 * (v_mea + state_.get_velocity());"),
 w("w-open", "outfile_.open(pose_log_file_ + \".txt\");", "outfile_.open(pose_log_file_);"),
 w("r-guard", "  vel_queue_mutex_ptr_.get()->lock();\n  ang_vel_queue_mutex_ptr_.get()->lock();\n  if (vel_queue_ptr_->empty() || ang_vel_queue_ptr_->empty()) {\n    vel_queue_mutex_ptr_.get()->unlock();\n    ang_vel_queue_mutex_ptr_.get()->unlock();\n    return;\n  } else {\n    vel_measurement = vel_queue_ptr_->front();\n    vel_queue_ptr_->pop();\n    vel_queue_mutex_ptr_.get()->unlock();\n    ang_vel_measurement = ang_vel_queue_ptr_->front();\n    ang_vel_queue_ptr_->pop();\n    ang_vel_queue_mutex_ptr_.get()->unlock();\n  }",
   "  {\n    std::lock_guard<std::mutex> a(*vel_queue_mutex_ptr_);\n    std::lock_guard<std::mutex> b(*ang_vel_queue_mutex_ptr_);\n    if (vel_queue_ptr_->empty() || ang_vel_queue_ptr_->empty()) return;\n    vel_measurement = vel_queue_ptr_->front();\n    vel_queue_ptr_->pop();\n    ang_vel_measurement = ang_vel_queue_ptr_->front();\n    ang_vel_queue_ptr_->pop();\n  }", "=P37"),
 w("r-settime", "state_.set_time(state_.get_time() + dt);", "const double tn = state_.get_time() + dt;\n  state_.set_time(tn);", "=P37"),
 w("r-cond", "  if (enable_pose_logger_ && time_diff >= 1.0 / pose_log_rate_) {", "  if (!enable_pose_logger_ || time_diff < 1.0 / pose_log_rate_) return;\n  {", "=P37"),
 w("r-order", "  X.block<3, 3>(0, 0) = R * exp_omega;\n  X.block<3, 1>(0, 3) = R * v_mea;\n  X.block<3, 1>(0, 4) = p + R * v_mea * dt;", "  const Eigen::Vector3d vw = R * v_mea;\n  X.col(4).head(3) = p + dt * vw;\n  X.col(3).head(3) = vw;\n  X.topLeftCorner(3, 3) = R * exp_omega;", "=P37"),
 w("r-null", "  if (vel_measurement != nullptr && ang_vel_measurement != nullptr) {", "  if (!vel_measurement || !ang_vel_measurement) return;\n  {", "=P37"),
 ("m-mutex", "P38", [(X + "fetch.cpp", "qv, qv_mutex, project_dir", "qv, qimu_mutex, project_dir")]),
 ("m-path", "P38", [(X + "neya.cpp", "/config/neya/velocity_correction.yaml", "/config/neya/velocity_corrections.yaml")]),
 ("m-role", "P38", [(X + "husky.cpp", "/config/husky/imu_propagation.yaml", "/config/husky/velocity_correction.yaml")]),
 ("m-key", "P38", [(X + "girona500.cpp", "config[\"subscribers\"][\"velocity_topic\"]", "config[\"subscribers\"][\"vel_topic\"]")]),
 ("m-cfgkey", "P38", [("ROS/drift/config/neya/ros_comm.yaml", "velocity_topic:", "vel_topic:")]),
 ("m-loop", "P38", [(X + "husky.cpp", "if (inekf_estimator.BiasInitialized()) {", "if (!inekf_estimator.BiasInitialized()) {")]),
 ("m-start", "P38", [(X + "neya_gyro_filter.cpp", "  gyro_filter.StartImuFilterThread();\n", "")]),
 ("m-unfiltered", "P38", [(X + "husky_gyro_filter.cpp", "q_filtered_imu, q_filtered_imu_mutex,\n", "qimu, qimu_mutex,\n")]),
 ("m-r-loop", "=P38", [(X + "husky.cpp", "    if (inekf_estimator.is_enabled()) {\n      inekf_estimator.RunOnce();\n    } else {\n", "    const bool en = inekf_estimator.is_enabled();\n    if (en) inekf_estimator.RunOnce();\n    if (!en) {\n")]),
]
