RS="src/state/robot_state.cpp"; LG="src/filter/inekf/correction/legged_kinematics_correction.cpp"
IP="src/filter/inekf/propagation/imu_propagation.cpp"; VC="src/filter/inekf/correction/velocity_correction.cpp"
ES="src/estimator/inekf_estimator.cpp"; G="src/imu_filter/imu_ang_vel_ekf.cpp"
M=[]
# references into a queue
M.append(("ref-after-pop","P03",[(ES,'''    std::shared_ptr<RobotState> state_log_ptr
        = robot_state_log_queue_ptr_.get()->front();
    robot_state_log_queue_ptr_.get()->pop();
    robot_state_log_queue_mutex_.unlock();
''','''    const std::shared_ptr<RobotState>& state_log_ptr
        = robot_state_log_queue_ptr_.get()->front();
    robot_state_log_queue_ptr_.get()->pop();
    robot_state_log_queue_mutex_.unlock();
''')]))
M.append(("ref-pop-later","P01",[(ES,'''    std::shared_ptr<RobotState> state_log_ptr
        = robot_state_log_queue_ptr_.get()->front();
    robot_state_log_queue_ptr_.get()->pop();
    robot_state_log_queue_mutex_.unlock();
''','''    const std::shared_ptr<RobotState>& state_log_ptr
        = robot_state_log_queue_ptr_.get()->front();
    robot_state_log_queue_mutex_.unlock();
'''),(ES,'''    double time_diff = state_log_ptr->get_time() - last_pub_t_;
''','''    double time_diff = state_log_ptr->get_time() - last_pub_t_;
    robot_state_log_queue_mutex_.lock();
    robot_state_log_queue_ptr_.get()->pop();
    robot_state_log_queue_mutex_.unlock();
''')]))
M.append(("ref-copied","=P01 P03",[(ES,'''    std::shared_ptr<RobotState> state_log_ptr
        = robot_state_log_queue_ptr_.get()->front();
    robot_state_log_queue_ptr_.get()->pop();
''','''    const std::shared_ptr<RobotState>& oldest
        = robot_state_log_queue_ptr_.get()->front();
    std::shared_ptr<RobotState> state_log_ptr = oldest;
    robot_state_log_queue_ptr_.get()->pop();
''')]))
M.append(("gyro-ref","P03",[(G,'''  ImuMeasurementPtr imu_measurement = gyro_prop_data_buffer_ptr_->front();
  gyro_prop_data_buffer_ptr_->pop();
''','''  const ImuMeasurementPtr& imu_measurement = gyro_prop_data_buffer_ptr_->front();
  gyro_prop_data_buffer_ptr_->pop();
''')]))
M.append(("gyro-auto-ref","P01",[(G,'''  AngularVelocityMeasurementPtr ang_vel_measurement
      = ang_vel_data_buffer_ptr_->front();
  ang_vel_data_buffer_mutex_ptr_.get()->unlock();

''','''  const auto& ang_vel_measurement = ang_vel_data_buffer_ptr_->front();
  ang_vel_data_buffer_mutex_ptr_.get()->unlock();

''')]))
M.append(("size-unlocked","P01",[(ES,'''    // Get new pose data for logger
    robot_state_log_queue_mutex_.lock();
''','''    // Get new pose data for logger
    auto& pending = *robot_state_log_queue_ptr_;
    if (pending.size() == 0) {
      continue;
    }
    robot_state_log_queue_mutex_.lock();
''')]))
M.append(("fused-unlocked","P01",[(G,'''      filtered_imu_data_buffer_mutex_ptr_.get()->lock();
      filtered_imu_data_buffer_ptr_->push(fused_ang_imu);
      filtered_imu_data_buffer_mutex_ptr_.get()->unlock();
    }

    imu_data_buffer_mutex_ptr_.get()->lock();
''','''      imu_data_buffer_mutex_ptr_.get()->lock();
      filtered_imu_data_buffer_ptr_->push(fused_ang_imu);
      imu_data_buffer_mutex_ptr_.get()->unlock();
    }

    imu_data_buffer_mutex_ptr_.get()->lock();
''')]))
M.append(("lock-in-inner-scope","P01",[(G,'''  // Clear filtered_imu_data_buffer
  filtered_imu_data_buffer_mutex_ptr_.get()->lock();
  while (!filtered_imu_data_buffer_ptr_->empty()) {
    filtered_imu_data_buffer_ptr_->pop();
  }
  filtered_imu_data_buffer_mutex_ptr_.get()->unlock();
''','''  // Clear filtered_imu_data_buffer
  if (filtered_imu_data_buffer_mutex_ptr_) {
    std::lock_guard<std::mutex> guard(*filtered_imu_data_buffer_mutex_ptr_);
  }
  while (!filtered_imu_data_buffer_ptr_->empty()) {
    filtered_imu_data_buffer_ptr_->pop();
  }
''')]))
M.append(("unnamed-guard","P01",[(ES,'''    robot_state_queue_mutex_ptr_.get()->lock();
    robot_state_queue_ptr_.get()->push(std::make_shared<RobotState>(state_));
    robot_state_queue_mutex_ptr_.get()->unlock();

    if (enabled''','''    std::lock_guard<std::mutex>(*robot_state_queue_mutex_ptr_);
    robot_state_queue_ptr_.get()->push(std::make_shared<RobotState>(state_));

    if (enabled''')]))
M.append(("unlock-early-propagate","P01 P03",[(IP,'''  prev_imu_measurement_ = sensor_data_buffer_ptr_->front();
''','''  sensor_data_buffer_mutex_ptr_.get()->unlock();
  sensor_data_buffer_mutex_ptr_.get()->lock();
  prev_imu_measurement_ = sensor_data_buffer_ptr_->front();
''')]))
M.append(("two-guards-order","P02",[(ES,'''    robot_state_queue_mutex_ptr_.get()->lock();
    robot_state_queue_ptr_.get()->push(std::make_shared<RobotState>(state_));
    robot_state_queue_mutex_ptr_.get()->unlock();

    if (enabled_slip_estimator_)
      this->SlipEstimatorStep();

    if (enable_pose_logger_) {
      robot_state_log_queue_mutex_.lock();
''','''    std::lock_guard<std::mutex> hold(*robot_state_queue_mutex_ptr_);
    robot_state_queue_ptr_.get()->push(std::make_shared<RobotState>(state_));

    if (enabled_slip_estimator_)
      this->SlipEstimatorStep();

    if (enable_pose_logger_) {
      robot_state_log_queue_mutex_.lock();
'''),(ES,'''    // Get new pose data for logger
    robot_state_log_queue_mutex_.lock();
''','''    // Get new pose data for logger
    robot_state_log_queue_mutex_.lock();
    robot_state_queue_mutex_ptr_->lock();
    robot_state_queue_mutex_ptr_->unlock();
''')]))
M.append(("throw-under-lock","P02",[(IP,'''  prev_imu_measurement_ = sensor_data_buffer_ptr_->front();
''','''  prev_imu_measurement_ = sensor_data_buffer_ptr_->front();
  if (prev_imu_measurement_->get_time() < 0) {
    throw std::runtime_error("invalid time stamp");
  }
''')]))
M.append(("sleep-under-lock","P02",[(ES,'''    if (robot_state_log_queue_ptr_.get()->empty()) {
      robot_state_log_queue_mutex_.unlock();
''','''    if (robot_state_log_queue_ptr_.get()->empty()) {
      std::this_thread::sleep_for(std::chrono::milliseconds(1));
      robot_state_log_queue_mutex_.unlock();
''')]))
M.append(("join-under-lock","P02",[(ES,'''    this->pose_logging_thread_.join();
''','''    std::lock_guard<std::mutex> lock(robot_state_log_queue_mutex_);
    this->pose_logging_thread_.join();
''')]))
M.append(("relock-helper","P02",[(G,'''    ImuMeasurementPtr imu1_measurement = imu_data_buffer_ptr_.get()->front();
    imu_data_buffer_ptr_.get()->pop();
    imu_data_buffer_mutex_ptr_.get()->unlock();
    bias_init_vec_''','''    ImuMeasurementPtr imu1_measurement = imu_data_buffer_ptr_.get()->front();
    imu_data_buffer_ptr_.get()->pop();
    if (bias_init_vec_.size() > 100000) {
      this->clear();
    }
    imu_data_buffer_mutex_ptr_.get()->unlock();
    bias_init_vec_''')]))
M.append(("detach","P04",[(ES,'''    this->pose_logging_thread_.join();
''','''    this->pose_logging_thread_.detach();
''')]))
M.append(("stop-after-join","P04",[(G,'''  stop_thread_ = true;
  if (imu_filter_thread_.joinable()) {
    imu_filter_thread_.join();
  }
''','''  if (imu_filter_thread_.joinable()) {
    imu_filter_thread_.join();
  }
  stop_thread_ = true;
''')]))
M.append(("inner-wait","P04",[(ES,'''    // Get new pose data for logger
    robot_state_log_queue_mutex_.lock();
''','''    // Get new pose data for logger
    while (true) {
      robot_state_log_queue_mutex_.lock();
      bool none = robot_state_log_queue_ptr_->empty();
      robot_state_log_queue_mutex_.unlock();
      if (!none) break;
    }
    robot_state_log_queue_mutex_.lock();
''')]))
M.append(("flag-reset","P04",[(ES,'''  while (stop_signal_ == false) {
    // Get new pose data for logger
''','''  stop_signal_ = false;
  while (stop_signal_ == false) {
    // Get new pose data for logger
''')]))
M.append(("init-count-race","P04",[(ES,'''void InekfEstimator::RunOnce() {
''','''void InekfEstimator::RunOnce() {
  last_pub_t_ = state_.get_time() < last_pub_t_ ? 0 : last_pub_t_;
''')]))
M.append(("logger-reads-state","P04",[(ES,'''    double time_diff = state_log_ptr->get_time() - last_pub_t_;
''','''    double time_diff = state_.get_time() - last_pub_t_;
''')]))
