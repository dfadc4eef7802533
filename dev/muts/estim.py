ES="src/estimator/inekf_estimator.cpp"; EH="include/drift/estimator/inekf_estimator.h"; RS="src/state/robot_state.cpp"
LG="src/filter/inekf/correction/legged_kinematics_correction.cpp"; VC="src/filter/inekf/correction/velocity_correction.cpp"; IP="src/filter/inekf/propagation/imu_propagation.cpp"; GY="src/imu_filter/imu_ang_vel_ekf.cpp"
COR='''  for (auto& correction : corrections_) {
    if (correction.get()->Correct(state_)) {
      new_pose_ready_ = true;
    }
  }
'''
PUB='''    robot_state_queue_mutex_ptr_.get()->lock();
    robot_state_queue_ptr_.get()->push(std::make_shared<RobotState>(state_));
    robot_state_queue_mutex_ptr_.get()->unlock();

    if (enabled_slip'''
LOGP='''      robot_state_log_queue_ptr_.get()->push(
          std::make_shared<RobotState>(state_));
'''
INI='''    bool current_correction_initialized = false;
    while (!current_correction_initialized)
      current_correction_initialized = correction_.get()->initialize(state_);
'''
CLQ='''  robot_state_queue_mutex_ptr_.get()->lock();
  while (!robot_state_queue_ptr_.get()->empty()) {
    robot_state_queue_ptr_.get()->pop();
  }
  robot_state_queue_mutex_ptr_.get()->unlock();
'''
ALL="P01 P02 P03 P08 P09 P10"
M=[
("assign","P08",[(ES,COR,COR.replace("if (correction.get()->Correct(state_)) {\n      new_pose_ready_ = true;\n    }","new_pose_ready_ = correction.get()->Correct(state_);"))]),
("shortcircuit","P08",[(ES,COR,COR.replace("if (correction.get()->Correct(state_)) {","if (new_pose_ready_ || correction.get()->Correct(state_)) {"))]),
("break","P08",[(ES,COR,COR.replace("      new_pose_ready_ = true;","      new_pose_ready_ = true;\n      break;"))]),
("reverse","P08",[(ES,COR,"  for (auto it = corrections_.rbegin(); it != corrections_.rend(); ++it) {\n    if ((*it)->Correct(state_)) new_pose_ready_ = true;\n  }\n")]),
("only-if-prop","P08",[(ES,COR,COR.replace("  for (auto&","  if (new_pose_ready_)\n  for (auto&"))]),
("copystate","P08",[(ES,COR,"  RobotState work = state_;\n"+COR.replace("Correct(state_)","Correct(work)")+"  if (new_pose_ready_) state_ = work;\n")]),
("pub-early","P08",[(ES,COR,""),(ES,"  // Publish when new","  std::shared_ptr<RobotState> snap_ptr = std::make_shared<RobotState>(state_);\n"+COR+"  // Publish when new"),(ES,PUB,PUB.replace("std::make_shared<RobotState>(state_)","snap_ptr"))]),
("notreset","P08",[(ES,"  new_pose_ready_ = propagation_.get()->Propagate(state_);","  if (propagation_.get()->Propagate(state_)) new_pose_ready_ = true;"),(ES,"    }\n  }\n  new_pose_ready_ = false;\n}","    }\n  }\n}")]),
("cached","P08",[(ES,PUB,PUB.replace("std::make_shared<RobotState>(state_)","published_")),(EH,"  bool new_pose_ready_\n","  std::shared_ptr<RobotState> published_ = std::make_shared<RobotState>();\n  bool new_pose_ready_\n"),(ES,"  // Publish when new information is added\n","  *published_ = state_;\n")]),
("log-old","P08",[(ES,LOGP,"      robot_state_log_queue_ptr_.get()->push(std::make_shared<RobotState>());\n")]),
("log-nopub","P08",[(ES,"    if (enable_pose_logger_) {\n      robot_state_log_queue_mutex_.lock();","    if (enable_pose_logger_ && corrections_.size() > 0) {\n      robot_state_log_queue_mutex_.lock();")]),
("init-once","P09",[(ES,INI,"    correction_.get()->initialize(state_);\n")]),
("init-limited","P09",[(ES,INI,"    int tries = 0;\n"+INI.replace("while (!current_correction_initialized)","while (!current_correction_initialized && tries++ < 1000)"))]),
("init-any","P09",[(ES,INI,INI.replace("    bool current","    ").replace("    current_correction_initialized = false;\n","",1)),(ES,"  for (auto& correction_ : corrections_) {\n    ","  bool current_correction_initialized = false;\n  for (auto& correction_ : corrections_) {\n    ")] if False else [(ES,"  for (auto& correction_ : corrections_) {\n"+INI,"  bool current_correction_initialized = false;\n  for (auto& correction_ : corrections_) {\n    while (!current_correction_initialized)\n      current_correction_initialized = correction_.get()->initialize(state_);\n")]),
("init-noret","P09",[(ES,"  if (!propagation_initialized) {\n    return;\n  }\n","  if (!propagation_initialized && corrections_.empty()) {\n    return;\n  }\n")]),
("enable-always","P09",[(ES,"  bool propagation_initialized","  enabled_ = true;\n  bool propagation_initialized")]),
("cov-before","P09",[(ES,"  state_.set_position_covariance(position_cov_val_\n                                 * Eigen::Matrix3d::Identity());\n\n  std::cout","  std::cout"),(ES,"  for (auto& correction_ : corrections_) {","  state_.set_position_covariance(position_cov_val_\n                                 * Eigen::Matrix3d::Identity());\n  for (auto& correction_ : corrections_) {")]),
("cov-swap","P09",[(ES,"  state_.set_rotation_covariance(rotation_cov_val_","  state_.set_rotation_covariance(velocity_cov_val_")]),
("cov-std","P09",[(ES,'config["state"]["velocity_std_value"].as<double>(), 2)','config["state"]["velocity_std_value"].as<double>(), 1)')]),
("pub-before-cov","P09",[(ES,"  // Initialize state covariance\n","  robot_state_queue_mutex_ptr_.get()->lock();\n  robot_state_queue_ptr_.get()->push(std::make_shared<RobotState>(state_));\n  robot_state_queue_mutex_ptr_.get()->unlock();\n"),(ES,"  // Push the initial state to the queue\n  robot_state_queue_mutex_ptr_.get()->lock();\n  robot_state_queue_ptr_.get()->push(std::make_shared<RobotState>(state_));\n  robot_state_queue_mutex_ptr_.get()->unlock();\n","")]),
("runonce-enables","P09",[(ES,"  // Publish when new information is added\n","  enabled_ = enabled_ || new_pose_ready_;\n")]),
("bias-enables","P09",[(ES,"    imu_propagation_ptr.get()->InitImuBias();","    imu_propagation_ptr.get()->InitImuBias();\n    if (imu_propagation_ptr->get_bias_initialized()) enabled_ = true;")]),
("clear-once","P10",[(ES,CLQ,CLQ.replace("while (!","if (!"))]),
("clear-limit","P10",[(ES,CLQ,CLQ.replace("  while (!robot_state_queue_ptr_.get()->empty()) {","  for (int i = 0; i < 1000 && !robot_state_queue_ptr_.get()->empty(); i++) {"))]),
("clear-count","P10",[(ES,CLQ,CLQ.replace("  while (!robot_state_queue_ptr_.get()->empty()) {","  const size_t n = robot_state_queue_ptr_.get()->size();\n  for (size_t i = 0; i + 1 < n; i++) {"))]),
("clear-skip-corr","P10",[(ES,"  for (auto& correction : corrections_) {\n    correction.get()->clear();\n  }\n","  if (!corrections_.empty()) corrections_.front()->clear();\n")]),
("clear-enabled","P10",[(ES,"  enabled_ = false;\n\n  // Clear current log","  enabled_ = enabled_ && !new_pose_ready_;\n\n  // Clear current log")]),
("clear-log","P10",[(ES,"  robot_state_log_queue_mutex_.lock();\n  while (","  robot_state_log_queue_mutex_.lock();\n  while (enable_pose_logger_ && ")]),
("clear-state","P10",[(RS,"  t_ = 0;\n  t_prop_ = 0;\n  enable_imu_bias_update_ = false;","  t_ = 0;\n  enable_imu_bias_update_ = false;")]),
("clear-dimP","P10",[(RS,"  Qc_ = Eigen::MatrixXd::Zero(this->dimP(), this->dimP());\n  column_id_to_corr_map_\n      = std::vector<std::shared_ptr<int>>(this->dimX(), nullptr);\n  body_ang_vel_","  Qc_.setZero();\n  column_id_to_corr_map_\n      = std::vector<std::shared_ptr<int>>(this->dimX(), nullptr);\n  body_ang_vel_")]),
("clear-contacts","P10",[(LG,"  aug_id_to_column_id_ptr_.clear();\n}","  if (sensor_data_buffer_ptr_->empty()) return;\n  aug_id_to_column_id_ptr_.clear();\n}")]),
("clear-filter","P10",[(GY,"  // Clear filtered_imu_data_buffer\n","  if (ang_vel_data_buffer_mutex_ptr_) return;\n")]),
("clear-nocall","P10",[(ES,"  if (imu_filter_) {\n    imu_filter_.get()->clear();\n  }\n","  if (imu_filter_ && enabled_) {\n    imu_filter_.get()->clear();\n  }\n")]),
("eq-index","="+ALL,[(ES,COR,"  for (size_t i = 0; i < corrections_.size(); ++i) {\n    const bool fresh = corrections_[i]->Correct(state_);\n    new_pose_ready_ = fresh || new_pose_ready_;\n  }\n")]),
("eq-or","="+ALL,[(ES,COR,"  for (const auto& correction : corrections_) {\n    new_pose_ready_ |= correction->Correct(state_);\n  }\n"),(ES,PUB,PUB.replace("    robot_state_queue_mutex_ptr_.get()->lock();\n","    {\n    auto snapshot = std::make_shared<RobotState>(state_);\n    std::lock_guard<std::mutex> guard(*robot_state_queue_mutex_ptr_);\n").replace("push(std::make_shared<RobotState>(state_))","push(snapshot)").replace("    robot_state_queue_mutex_ptr_.get()->unlock();\n","    }\n"))]),
("eq-early","="+ALL,[(ES,"  // Publish when new information is added\n","  if (!new_pose_ready_) {\n    return;\n  }\n")]),
("eq-helper","="+ALL,[(ES,"void InekfEstimator::RunOnce() {","static void publish(const RobotStateQueuePtr& q, std::mutex& m, const RobotState& s) {\n  auto p = std::make_shared<RobotState>(s);\n  m.lock();\n  q->push(p);\n  m.unlock();\n}\n\nvoid InekfEstimator::RunOnce() {"),(ES,PUB,"    publish(robot_state_queue_ptr_, *robot_state_queue_mutex_ptr_, state_);\n\n    if (enabled_slip"),(ES,"      robot_state_log_queue_mutex_.lock();\n"+LOGP+"      robot_state_log_queue_mutex_.unlock();\n","      publish(robot_state_log_queue_ptr_, robot_state_log_queue_mutex_, state_);\n")]),
("eq-dowhile","="+ALL,[(ES,INI,"    bool done;\n    do {\n      done = correction_->initialize(state_);\n    } while (!done);\n")]),
("eq-whilecall","="+ALL,[(ES,INI,"    while (!correction_->initialize(state_)) {\n    }\n")]),
("eq-forbreak","="+ALL,[(ES,INI,"    for (;;) {\n      if (correction_->initialize(state_)) break;\n    }\n"),(ES,"  bool propagation_initialized = propagation_.get()->set_initial_state(state_);\n  if (!propagation_initialized) {\n    return;\n  }\n","  if (!propagation_->set_initial_state(state_)) return;\n")]),
("eq-swap","="+ALL,[(ES,CLQ,"  {\n    RobotStateQueue fresh;\n    std::lock_guard<std::mutex> guard(*robot_state_queue_mutex_ptr_);\n    robot_state_queue_ptr_->swap(fresh);\n  }\n")]),
("eq-assignq","="+ALL,[(ES,CLQ,"  {\n    std::lock_guard<std::mutex> guard(*robot_state_queue_mutex_ptr_);\n    *robot_state_queue_ptr_ = RobotStateQueue();\n  }\n")]),
("eq-sizeloop","="+ALL,[(ES,CLQ,CLQ.replace("while (!robot_state_queue_ptr_.get()->empty())","while (robot_state_queue_ptr_->size() > 0)")),(RS,"  P_ = Eigen::MatrixXd::Identity(3 * this->dimX() + this->dimTheta() - 6,\n                                 3 * this->dimX() + this->dimTheta() - 6);\n  Qc_ = Eigen::MatrixXd::Zero(this->dimP(), this->dimP());\n  column_id_to_corr_map_\n      = std::vector<std::shared_ptr<int>>(this->dimX(), nullptr);\n  body_ang_vel_","  P_.setIdentity(15, 15);\n  Qc_.setZero(15, 15);\n  column_id_to_corr_map_.assign(5, nullptr);\n  body_ang_vel_")]),
("eq-template","="+ALL,[(ES,"void InekfEstimator::clear() {","namespace {\ntemplate <typename Q>\nvoid drain(Q& q) {\n  while (!q.empty()) q.pop();\n}\n}\nvoid InekfEstimator::clear() {"),(ES,CLQ,CLQ.replace("  while (!robot_state_queue_ptr_.get()->empty()) {\n    robot_state_queue_ptr_.get()->pop();\n  }\n","  drain(*robot_state_queue_ptr_);\n"))]),
("eq-covmat","="+ALL,[(ES,"  state_.set_rotation_covariance(rotation_cov_val_\n                                 * Eigen::Matrix3d::Identity());","  const Eigen::Matrix3d rot_cov =\n      Eigen::Vector3d::Constant(rotation_cov_val_).asDiagonal();\n  state_.set_rotation_covariance(rot_cov);")]),
]
