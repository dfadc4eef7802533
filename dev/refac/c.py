RS = "src/state/robot_state.cpp"
ES = "src/estimator/inekf_estimator.cpp"
ESH = "include/drift/estimator/inekf_estimator.h"
PR = "src/filter/base_propagation.cpp"
B = {}
B["rs1"] = [
 (RS, '''  P_ = Eigen::MatrixXd::Identity(3 * this->dimX() + this->dimTheta() - 6,
                                 3 * this->dimX() + this->dimTheta() - 6);
  Qc_ = Eigen::MatrixXd::Zero(this->dimP(), this->dimP());
  column_id_to_corr_map_
      = std::vector<std::shared_ptr<int>>(this->dimX(), nullptr);
}

// Initialize with X and Theta
''', '''  const int n = 3 * X.cols() + Theta_.size() - 6;
  P_.setIdentity(n, n);
  Qc_.setZero(n, n);
  column_id_to_corr_map_.assign(X.cols(), nullptr);
}

// Initialize with X and Theta
'''),
 (RS, '''  int idx = this->dimP() - this->dimTheta() + 3;
  return P_.block<3, 3>(idx, idx);
''', '''  return P_.bottomRightCorner(this->dimTheta(), this->dimTheta())
      .block<3, 3>(3, 3);
'''),
 (RS, '''  int dimX = this->dimX();
  X_.conservativeResizeLike(Eigen::MatrixXd::Identity(dimX + 1, dimX + 1));
  X_.block(0, dimX, 3, 1) = aug;

  this->set_P(P_aug);
''', '''  this->set_P(P_aug);

  const int dimX = this->dimX();
  Eigen::MatrixXd X_aug = Eigen::MatrixXd::Identity(dimX + 1, dimX + 1);
  X_aug.topLeftCorner(dimX, dimX) = X_;
  X_aug.block<3, 1>(0, dimX) = aug;
  X_ = std::move(X_aug);
'''),
 (RS, '''  Qc_aug.topLeftCorner(dimXi, dimXi) = this->Qc_.topLeftCorner(dimXi, dimXi);
  Qc_aug.bottomLeftCorner(dimTheta, dimXi)
      = this->Qc_.bottomLeftCorner(dimTheta, dimXi);
  Qc_aug.topRightCorner(dimXi, dimTheta)
      = this->Qc_.topRightCorner(dimXi, dimTheta);
  Qc_aug.bottomRightCorner(dimTheta, dimTheta)
      = this->Qc_.bottomRightCorner(dimTheta, dimTheta);
  Qc_aug.block<3, 3>(dimQc - dimTheta, dimQc - dimTheta) = noise_cov;
  Qc_ = Qc_aug;
''', '''  Qc_aug.block(0, 0, dimXi, dimXi) = Qc_.block(0, 0, dimXi, dimXi);
  Qc_aug.block(0, dimXi + 3, dimXi, dimTheta)
      = Qc_.block(0, dimXi, dimXi, dimTheta);
  Qc_aug.block(dimXi, dimXi, 3, 3) = noise_cov;
  Qc_aug.block(dimXi + 3, 0, dimTheta, dimXi)
      = Qc_.block(dimXi, 0, dimTheta, dimXi);
  Qc_aug.block(dimXi + 3, dimXi + 3, dimTheta, dimTheta)
      = Qc_.block(dimXi, dimXi, dimTheta, dimTheta);
  Qc_.swap(Qc_aug);
'''),
 (RS, '''  for (int i = matrix_idx; i < dimX - 1; i++) {
    column_id_to_corr_map_[i] = column_id_to_corr_map_[i + 1];
    *(column_id_to_corr_map_[i]) -= 1;
  }
  column_id_to_corr_map_.pop_back();
''', '''  for (int i = matrix_idx + 1; i < dimX; i++) {
    --*(column_id_to_corr_map_[i]);
  }
  column_id_to_corr_map_.erase(column_id_to_corr_map_.begin() + matrix_idx);
'''),
]
B["rs2"] = [
 (RS, '''  unsigned int dimX = M.cols();
  M.block(index, 0, dimX - index - move_dim, dimX)
      = M.bottomRows(dimX - index - move_dim).eval();
  M.block(0, index, dimX, dimX - index - move_dim)
      = M.rightCols(dimX - index - move_dim).eval();
  M.conservativeResize(dimX - move_dim, dimX - move_dim);
''', '''  const int dim = M.cols();
  const int tail = dim - index - move_dim;
  Eigen::MatrixXd kept(dim - move_dim, dim - move_dim);
  kept.topLeftCorner(index, index) = M.topLeftCorner(index, index);
  kept.topRightCorner(index, tail) = M.topRightCorner(index, tail);
  kept.bottomLeftCorner(tail, index) = M.bottomLeftCorner(tail, index);
  kept.bottomRightCorner(tail, tail) = M.bottomRightCorner(tail, tail);
  M = kept;
'''),
 (RS, '''  Xinv.block<3, 3>(0, 0) = RT;
  for (int i = 3; i < dimX; ++i) {
    Xinv.block<3, 1>(0, i) = -RT * X_.block<3, 1>(0, i);
  }
  return Xinv;
''', '''  Xinv.topLeftCorner<3, 3>() = RT;
  Xinv.block(0, 3, 3, dimX - 3) = -(RT * X_.block(0, 3, 3, dimX - 3));
  return Xinv;
'''),
 (RS, '''  if (state_type_ == StateType::WorldCentric) {
    return this->get_velocity();
  } else {
    return -this->get_rotation().transpose() * this->get_velocity();
  }
''', '''  switch (state_type_) {
    case StateType::WorldCentric:
      return get_velocity();
    default:
      return -(get_rotation().transpose() * get_velocity());
  }
'''),
 (RS, '''  if (state_type_ == StateType::BodyCentric) {
    return this->get_X();
  } else {
    return this->get_Xinv();
  }
''', '''  return state_type_ == StateType::BodyCentric ? this->get_X()
                                               : this->get_Xinv();
'''),
 (RS, '''  X_ = Eigen::MatrixXd::Identity(5, 5);
  Theta_ = Eigen::MatrixXd::Zero(6, 1);
  P_ = Eigen::MatrixXd::Identity(3 * this->dimX() + this->dimTheta() - 6,
                                 3 * this->dimX() + this->dimTheta() - 6);
  Qc_ = Eigen::MatrixXd::Zero(this->dimP(), this->dimP());
  column_id_to_corr_map_
      = std::vector<std::shared_ptr<int>>(this->dimX(), nullptr);
  body_ang_vel_ = Eigen::Vector3d::Zero();
''', '''  column_id_to_corr_map_.clear();
  column_id_to_corr_map_.resize(5);
  body_ang_vel_.setZero();
  X_.setIdentity(5, 5);
  Theta_.setZero(6);
  P_.setIdentity(15, 15);
  Qc_.setZero(15, 15);
'''),
 (RS, '''  return P_.block<3, 3>(idx_cov, idx_cov);
''', '''  return P_.block(idx_cov, idx_cov, 3, 3);
'''),
 (RS, '''  int start = 3 * (matrix_idx - 5) + 6;
  Theta_.block(start, 0, Theta_.rows() - start - 3, 1)
      = Theta_.block(start + 3, 0, Theta_.rows() - start - 3, 1).eval();
  Theta_.conservativeResize(Theta_.rows() - 3);
''', '''  const int start = 6 + 3 * (matrix_idx - 5);
  const int rest = Theta_.rows() - start - 3;
  const Eigen::VectorXd moved = Theta_.tail(rest);
  Theta_.segment(start, rest) = moved;
  Theta_.conservativeResize(start + rest);
'''),
]
B["es1"] = [
 (ES, '''  new_pose_ready_ = propagation_.get()->Propagate(state_);

  // Correct
  for (auto& correction : corrections_) {
    if (correction.get()->Correct(state_)) {
      new_pose_ready_ = true;
    }
  }

  // Publish when new information is added
  if (new_pose_ready_) {
    robot_state_queue_mutex_ptr_.get()->lock();
    robot_state_queue_ptr_.get()->push(std::make_shared<RobotState>(state_));
    robot_state_queue_mutex_ptr_.get()->unlock();

    if (enabled_slip_estimator_)
      this->SlipEstimatorStep();

    if (enable_pose_logger_) {
      robot_state_log_queue_mutex_.lock();
      robot_state_log_queue_ptr_.get()->push(
          std::make_shared<RobotState>(state_));
      robot_state_log_queue_mutex_.unlock();
    }
  }
  new_pose_ready_ = false;
''', '''  bool updated = propagation_->Propagate(state_);

  // Correct
  for (std::size_t i = 0; i < corrections_.size(); i++) {
    const bool used = corrections_[i]->Correct(state_);
    updated = updated || used;
  }

  new_pose_ready_ = false;
  if (!updated) {
    return;
  }

  // Publish when new information is added
  PublishState();

  if (enabled_slip_estimator_) {
    SlipEstimatorStep();
  }

  if (enable_pose_logger_) {
    auto snapshot = std::make_shared<RobotState>(state_);
    const std::lock_guard<std::mutex> lock(robot_state_log_queue_mutex_);
    robot_state_log_queue_ptr_->push(snapshot);
  }
'''),
 (ES, '''  // Push the initial state to the queue
  robot_state_queue_mutex_ptr_.get()->lock();
  robot_state_queue_ptr_.get()->push(std::make_shared<RobotState>(state_));
  robot_state_queue_mutex_ptr_.get()->unlock();

''', '''  // Push the initial state to the queue
  PublishState();

'''),
 (ES, '''void InekfEstimator::StartLoggingThread() {
''', '''void InekfEstimator::PublishState() {
  std::shared_ptr<RobotState> copy(new RobotState(state_));
  std::unique_lock<std::mutex> lock(*robot_state_queue_mutex_ptr_);
  robot_state_queue_ptr_->push(copy);
}

void InekfEstimator::StartLoggingThread() {
'''),
 (ESH, ''' private:
''', ''' private:
  /**
   * @brief Hand a copy of the current state to the consumers
   */
  void PublishState();

'''),
 (ES, '''    bool current_correction_initialized = false;
    while (!current_correction_initialized)
      current_correction_initialized = correction_.get()->initialize(state_);
''', '''    while (!correction_->initialize(state_)) {
      // wait for the first measurement
    }
'''),
 (ES, '''  while (!robot_state_log_queue_ptr_.get()->empty()) {
    robot_state_log_queue_ptr_.get()->pop();
  }
''', '''  *robot_state_log_queue_ptr_ = RobotStateQueue();
'''),
 (ES, '''  if (propagation_.get()->get_propagation_type() == PropagationType::IMU) {
    std::shared_ptr<ImuPropagation> imu_propagation_ptr
        = std::dynamic_pointer_cast<ImuPropagation>(propagation_);
    return imu_propagation_ptr.get()->get_bias_initialized();
  }
  return false;
''', '''  if (propagation_->get_propagation_type() != PropagationType::IMU) {
    return false;
  }
  auto imu = std::dynamic_pointer_cast<ImuPropagation>(propagation_);
  return imu->get_bias_initialized();
'''),
]
B["es2"] = [
 (ES, '''    // Get new pose data for logger
    robot_state_log_queue_mutex_.lock();
    if (robot_state_log_queue_ptr_.get()->empty()) {
      robot_state_log_queue_mutex_.unlock();
      continue;
    }

    std::shared_ptr<RobotState> state_log_ptr
        = robot_state_log_queue_ptr_.get()->front();
    robot_state_log_queue_ptr_.get()->pop();
    robot_state_log_queue_mutex_.unlock();
''', '''    // Get new pose data for logger
    std::shared_ptr<RobotState> state_log_ptr;
    {
      std::lock_guard<std::mutex> queue_lock(robot_state_log_queue_mutex_);
      if (!robot_state_log_queue_ptr_->empty()) {
        state_log_ptr = robot_state_log_queue_ptr_->front();
        robot_state_log_queue_ptr_->pop();
      }
    }
    if (state_log_ptr == nullptr) {
      continue;
    }
'''),
 (ES, '''      Eigen::Quaterniond state_quat(state_log_ptr->get_world_rotation());
      outfile_ << state_log_ptr->get_time() << " "
               << state_log_ptr->get_world_position()(0) << " "
               << state_log_ptr->get_world_position()(1) << " "
               << state_log_ptr->get_world_position()(2) << " "
               << state_quat.x() << " " << state_quat.y() << " "
               << state_quat.z() << " " << state_quat.w() << std::endl
               << std::flush;
''', '''      const Eigen::Quaterniond state_quat(state_log_ptr->get_world_rotation());
      const Eigen::Vector3d position = state_log_ptr->get_world_position();
      const double stamp = state_log_ptr->get_time();
      outfile_ << stamp;
      for (int i = 0; i < 3; ++i) {
        outfile_ << " " << position(i);
      }
      outfile_ << ' ' << state_quat.x() << ' ' << state_quat.y() << ' '
               << state_quat.z() << ' ' << state_quat.w() << '\\n';
      outfile_.flush();
'''),
 (ES, '''    if (enable_pose_logger_ && time_diff >= 1.0 / pose_log_rate_) {
''', '''    const double period = 1.0 / pose_log_rate_;
    if (!enable_pose_logger_ || time_diff < period) {
      continue;
    }
    {
'''),
 (ES, '''    std::string::size_type pos = pose_log_file_.find_last_of("./");
    if (pos != std::string::npos && pose_log_file_[pos] == '.')
      pose_log_file_.erase(pos, pose_log_file_.length());


    std::string::size_type v_pos = vel_log_file_.find_last_of("./");
    if (v_pos != std::string::npos && vel_log_file_[v_pos] == '.')
      vel_log_file_.erase(v_pos, vel_log_file_.length());
''', '''    StripExtension(pose_log_file_);
    StripExtension(vel_log_file_);
'''),
 (ES, '''InekfEstimator::InekfEstimator(ErrorType error_type, std::string config_file)
''', '''namespace {
void StripExtension(std::string& file) {
  const std::string::size_type pos = file.find_last_of("./");
  if (pos != std::string::npos && file[pos] == '.') {
    file.erase(pos);
  }
}
}    // namespace

InekfEstimator::InekfEstimator(ErrorType error_type, std::string config_file)
'''),
 (ES, '''    last_pub_t_ = 0.0;
    outfile_.close();
    outfile_.open(pose_log_file_ + '_' + std::to_string(++init_count_)
                  + ".txt");
    outfile_.precision(dbl::max_digits10);
''', '''    ++init_count_;
    const std::string suffix = "_" + std::to_string(init_count_) + ".txt";
    outfile_.close();
    outfile_.open(pose_log_file_ + suffix);
    outfile_.precision(dbl::max_digits10);
    last_pub_t_ = 0.0;
'''),
 (ES, '''  YAML::Node config = YAML::LoadFile(config_file);
  enable_pose_logger_ = config["logger"]["enable_pose_logger"].as<bool>();

  rotation_cov_val_ = config["state"]["rotation_std_value"] ? pow(
                          config["state"]["rotation_std_value"].as<double>(), 2)
                                                            : 0.03;
''', '''  const YAML::Node config = YAML::LoadFile(config_file);
  const YAML::Node logger = config["logger"];
  enable_pose_logger_ = logger["enable_pose_logger"].as<bool>();

  const YAML::Node rotation_std = config["state"]["rotation_std_value"];
  if (rotation_std) {
    const double std_dev = rotation_std.as<double>();
    rotation_cov_val_ = std_dev * std_dev;
  } else {
    rotation_cov_val_ = 0.03;
  }
'''),
 (ES, '''  stop_signal_ = true;
    this->pose_logging_thread_.join();
''', '''  stop_signal_.store(true);
    if (pose_logging_thread_.joinable()) {
      pose_logging_thread_.join();
    }
'''),
 (ES, '''  while (stop_signal_ == false) {
''', '''  while (!stop_signal_.load()) {
'''),
 (PR, '''Propagation::Propagation()
    : g_((Eigen::VectorXd(3) << 0, 0, -9.80).finished()),
''', '''Propagation::Propagation()
    : g_(0, 0, -9.80),
'''),
]
