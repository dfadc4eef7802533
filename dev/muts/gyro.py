EK="src/imu_filter/imu_ang_vel_ekf.cpp"; EH="include/drift/imu_filter/imu_ang_vel_ekf.h"
IP="src/filter/inekf/propagation/imu_propagation.cpp"
ENC='''  auto K = ang_vel_and_bias_P_ * H_enc_.transpose() * S_inv;
  ang_vel_and_bias_est_ = ang_vel_and_bias_est_ + K * z;
  ang_vel_and_bias_P_
      = (Eigen::MatrixXd::Identity(6, 6) - K * H_enc_) * ang_vel_and_bias_P_;
'''
IMUK='''  auto S_inv
      = (H_imu_ * ang_vel_and_bias_P_ * H_imu_.transpose() + ang_vel_imu_R_)
            .inverse();
  auto K = ang_vel_and_bias_P_ * H_imu_.transpose() * S_inv;
  ang_vel_and_bias_est_ = ang_vel_and_bias_est_ + K * z;
  ang_vel_and_bias_P_
      = (Eigen::MatrixXd::Identity(6, 6) - K * H_imu_) * ang_vel_and_bias_P_;
'''
SI='''  if (last_propagate_time_ == -1
      || (last_propagate_time_ - imu_measurement->get_time() <= t_thres_
          && last_propagate_time_ >= imu_measurement->get_time())) {
    imu_data_buffer_ptr_.get()->pop();
    imu_data_buffer_mutex_ptr_.get()->unlock();

    auto fused_ang_imu = AngVelFilterCorrectIMU(imu_measurement);
    filtered_imu_data_buffer_mutex_ptr_.get()->lock();
    filtered_imu_data_buffer_ptr_->push(fused_ang_imu);
    filtered_imu_data_buffer_mutex_ptr_.get()->unlock();
  } else {
    // Drop measurements that can never be used anymore
    if (last_propagate_time_ > imu_measurement->get_time()) {
      imu_data_buffer_ptr_.get()->pop();
    }
    imu_data_buffer_mutex_ptr_.get()->unlock();
  }
'''
GP='''  measurement_diff.block<3, 1>(0, 0)
      = imu_measurement->get_angular_velocity() - prev_ang_vel_measurement_;
  prev_ang_vel_measurement_ = imu_measurement->get_angular_velocity();

  ang_vel_and_bias_est_ = measurement_diff + ang_vel_and_bias_est_;
'''
LP="  if (imu_measurement) {\n    latest_imu_measurement_ = imu_measurement;\n"
M=[
("enc-frame","P20",[(EK,"  Eigen::VectorXd z\n      = R_imu2body_inverse_ * ang_vel","  Eigen::VectorXd z\n      = R_imu2body_inverse_.transpose() * ang_vel")]),
("enc-noframe","P20",[(EK,"  Eigen::VectorXd z\n      = R_imu2body_inverse_ * ang_vel","  Eigen::VectorXd z\n      = ang_vel")]),
("enc-noise","P20",[(EK,"ang_vel_and_bias_P_ * H_enc_.transpose() + ang_vel_enc_R_)","ang_vel_and_bias_P_ * H_enc_.transpose() + ang_vel_imu_R_)")]),
("enc-time","P20",[(EK,"set_time(ang_vel_measurement->get_time());","set_time(imu_measurement->get_time());")]),
("cov-after-est","P20",[(EK,ENC,ENC.replace("- K * H_enc_","- K * H_imu_"))]),
("twice-q","P20",[(EK,"void ImuAngVelEKF::RandomWalkPropagate() {\n","void ImuAngVelEKF::RandomWalkPropagate() {\n  ang_vel_and_bias_P_ += ang_vel_and_bias_Q_;\n")]),
("prev-late","P20",[(EK,GP,GP.replace("  prev_ang_vel_measurement_ = imu_measurement->get_angular_velocity();\n",""))]),
("diff-bias","P20",[(EK,GP,GP.replace("<3, 1>(0, 0)","<3, 1>(3, 0)"))]),
("drop-future","P20",[(EK,SI,SI.replace("    if (last_propagate_time_ > imu_measurement->get_time()) {\n      imu_data_buffer_ptr_.get()->pop();\n    }\n","    imu_data_buffer_ptr_.get()->pop();\n"))]),
("keep-stale","P20",[(EK,SI,SI.replace("    if (last_propagate_time_ > imu_measurement->get_time()) {\n      imu_data_buffer_ptr_.get()->pop();\n    }\n",""))]),
("nothres","P20 P06",[(EK,SI,SI.replace("last_propagate_time_ - imu_measurement->get_time() <= t_thres_\n          && ",""))]),
("stale-latest","P20",[(EK,LP,"  if (imu_measurement) {\n    if (!latest_imu_measurement_) latest_imu_measurement_ = imu_measurement;\n")]),
("later-first","P20",[(EK,"    if (imu_measurement->get_time() <= ang_vel_measurement->get_time()) {","    if (imu_measurement->get_time() > ang_vel_measurement->get_time()) {")]),
("alias-out","P20",[(EK,"      = std::make_shared<ImuMeasurement<double>>(*imu_measurement);\n  imu_measurement_corrected->set_angular_velocity(ang_vel_and_bias_est_(0),\n                                                  ang_vel_and_bias_est_(1),\n                                                  ang_vel_and_bias_est_(2));\n  imu_measurement_corrected->set_time(ang_vel","      = imu_measurement;\n  imu_measurement_corrected->set_angular_velocity(ang_vel_and_bias_est_(0),\n                                                  ang_vel_and_bias_est_(1),\n                                                  ang_vel_and_bias_est_(2));\n  imu_measurement_corrected->set_time(ang_vel")]),
("multi-return","P20",[(EK,"      imu_data_buffer_mutex_ptrs_[i].get()->unlock();\n      continue;","      imu_data_buffer_mutex_ptrs_[i].get()->unlock();\n      return;")]),
("multi-first","P20",[(EK,"    imu_measurement = imu_data_buffer_ptrs_[i].get()->front();\n    imu_data_buffer_ptrs_[i].get()->pop();","    imu_measurement = imu_data_buffer_ptrs_[i].get()->front();\n    imu_data_buffer_ptrs_[0].get()->pop();")]),
("jac-enc","P20",[(EK,"    H_imu_(2, 2) = 1;\n    H_imu_(2, 5) = 1;\n    H_enc_(2, 2) = 1;\n  }\n\n\n  // Set the initial bias","    H_imu_(2, 2) = 1;\n    H_imu_(2, 5) = 1;\n    H_enc_(2, 2) = 1;\n    H_enc_(2, 5) = 1;\n  }\n\n\n  // Set the initial bias")]),
("time-not-kept","P20",[(EK,"  last_propagate_time_ = imu_measurement->get_time();\n","  if (last_propagate_time_ < 0)\n    last_propagate_time_ = imu_measurement->get_time();\n")]),
("abs-window","P20 P06",[(EK,"        || last_propagate_time_ - ang_vel_measurement->get_time() <= t_thres_) {\n      auto fused_ang_imu = AngVelFilterCorrectEncoder(latest_imu_measurement_,\n                                                      ang_vel_measurement);\n      filtered_imu_data_buffer_mutex_ptr_.get()->lock();\n      filtered_imu_data_buffer_ptr_->push(fused_ang_imu);\n      filtered_imu_data_buffer_mutex_ptr_.get()->unlock();\n    }\n\n    ang_vel_data_buffer_mutex_ptr_.get()->lock();\n    if (!ang_vel_data_buffer_ptr_->empty()\n        && ang_vel_data_buffer_ptr_->front() == ang_vel_measurement) {\n      ang_vel_data_buffer_ptr_->pop();\n    }\n    ang_vel_data_buffer_mutex_ptr_.get()->unlock();\n    return;\n  }\n}\n\nvoid ImuAngVelEKF::AngVelCorrection","        || last_propagate_time_ - latest_imu_measurement_->get_time() <= t_thres_) {\n      auto fused_ang_imu = AngVelFilterCorrectEncoder(latest_imu_measurement_,\n                                                      ang_vel_measurement);\n      filtered_imu_data_buffer_mutex_ptr_.get()->lock();\n      filtered_imu_data_buffer_ptr_->push(fused_ang_imu);\n      filtered_imu_data_buffer_mutex_ptr_.get()->unlock();\n    }\n\n    ang_vel_data_buffer_mutex_ptr_.get()->lock();\n    if (!ang_vel_data_buffer_ptr_->empty()\n        && ang_vel_data_buffer_ptr_->front() == ang_vel_measurement) {\n      ang_vel_data_buffer_ptr_->pop();\n    }\n    ang_vel_data_buffer_mutex_ptr_.get()->unlock();\n    return;\n  }\n}\n\nvoid ImuAngVelEKF::AngVelCorrection")]),
# bias
("mean-n1","P28",[(IP,"    avg = (avg / bias_init_vec_.size()).eval();","    avg = (avg / init_bias_size_ + 0 * avg / 2).eval();\n    avg = (avg * bias_init_vec_.size() / (bias_init_vec_.size() + 1)).eval();")]),
("skip-first","P28",[(IP,"    for (int i = 0; i < bias_init_vec_.size(); ++i) {","    for (int i = 1; i < bias_init_vec_.size(); ++i) {")]),
("no-lever","P28",[(IP,"    a = R_imu2body_ * a - a_compensate;\n\n\n    // TODO","    a = R_imu2body_ * a;\n\n\n    // TODO")]),
("wrong-g","P28",[(IP,"(R.transpose() * (R * a + g_))","(R.transpose() * (R * a - g_))")]),
("grav-frame","P28",[(IP,"(R.transpose() * (R * a + g_))","(R.transpose() * (a + g_))")]),
("swap-bias","P28",[(IP,"    bg0_ = avg.head<3>();\n    ba0_ = avg.tail<3>();","    bg0_ = avg.tail<3>();\n    ba0_ = avg.head<3>();")]),
("one-more","P28",[(IP,"  if (bias_init_vec_.size() < init_bias_size_) {","  if (bias_init_vec_.size() <= init_bias_size_) {")]),
("no-pop","P28",[(IP,"    const ImuMeasurementPtr imu_measurement = sensor_data_buffer_ptr_->front();\n    sensor_data_buffer_ptr_->pop();\n    sensor_data_buffer_mutex_ptr_.get()->unlock();\n\n    Eigen::Vector3d w","    const ImuMeasurementPtr imu_measurement = sensor_data_buffer_ptr_->front();\n    if (sensor_data_buffer_ptr_->size() > 1) sensor_data_buffer_ptr_->pop();\n    sensor_data_buffer_mutex_ptr_.get()->unlock();\n\n    Eigen::Vector3d w")]),
("done-early","P28",[(IP,"    bias_init_vec_.push_back(v);    // Store imu data with gravity removed\n","    bias_init_vec_.push_back(v);    // Store imu data with gravity removed\n    bias_initialized_ = bias_init_vec_.size() == init_bias_size_;\n")]),
("g-keepbias","P28",[(EK,"    ang_vel_and_bias_est_.tail(3) = avg;","    ang_vel_and_bias_est_.tail(3) += avg;\n    ang_vel_and_bias_est_.head(3) = avg;")]),
("g-countplus","P28",[(EK,"      && bias_init_vec_.size() < init_bias_size_) {","      && bias_init_vec_.size() + 1 < init_bias_size_) {")]),
# behaviour preserving
("r-joseph","=P20 P28 P06",[(EK,IMUK,IMUK.replace('''  ang_vel_and_bias_P_
      = (Eigen::MatrixXd::Identity(6, 6) - K * H_imu_) * ang_vel_and_bias_P_;
''','''  Eigen::MatrixXd A = Eigen::MatrixXd::Identity(6, 6) - K * H_imu_;
  Eigen::MatrixXd P = A * ang_vel_and_bias_P_ * A.transpose() + K * ang_vel_imu_R_ * K.transpose();
  ang_vel_and_bias_P_ = P;
''').replace("auto K","Eigen::MatrixXd K").replace("auto S_inv","Eigen::MatrixXd S_inv"))]),
("r-helper","=P20 P28 P06",[(EK,ENC,"  Update(K_of(H_enc_, S_inv), H_enc_, z);\n"),(EK,"ImuMeasurementPtr ImuAngVelEKF::AngVelFilterCorrectEncoder(","Eigen::MatrixXd ImuAngVelEKF::K_of(const Eigen::MatrixXd& H, const Eigen::MatrixXd& Sinv) const {\n  return ang_vel_and_bias_P_ * H.transpose() * Sinv;\n}\nvoid ImuAngVelEKF::Update(const Eigen::MatrixXd& K, const Eigen::MatrixXd& H, const Eigen::VectorXd& z) {\n  ang_vel_and_bias_est_ += K * z;\n  const Eigen::MatrixXd IKH = Eigen::Matrix<double, 6, 6>::Identity() - K * H;\n  ang_vel_and_bias_P_ = (IKH * ang_vel_and_bias_P_).eval();\n}\n\nImuMeasurementPtr ImuAngVelEKF::AngVelFilterCorrectEncoder("),(EH,"  void InitializeFilter();","  void InitializeFilter();\n  Eigen::MatrixXd K_of(const Eigen::MatrixXd& H, const Eigen::MatrixXd& Sinv) const;\n  void Update(const Eigen::MatrixXd& K, const Eigen::MatrixXd& H, const Eigen::VectorXd& z);")]),
("r-head","=P20 P28 P06",[(EK,GP,"  ang_vel_and_bias_est_.head<3>() += imu_measurement->get_angular_velocity() - prev_ang_vel_measurement_;\n  prev_ang_vel_measurement_ = imu_measurement->get_angular_velocity();\n")]),
("r-lockguard","=P20 P28 P06 P01 P02",[(EK,'''    auto fused_ang_imu = AngVelFilterCorrectIMU(imu_measurement);
    filtered_imu_data_buffer_mutex_ptr_.get()->lock();
    filtered_imu_data_buffer_ptr_->push(fused_ang_imu);
    filtered_imu_data_buffer_mutex_ptr_.get()->unlock();
  } else {''','''    auto fused_ang_imu = AngVelFilterCorrectIMU(imu_measurement);
    std::lock_guard<std::mutex> guard(*filtered_imu_data_buffer_mutex_ptr_);
    filtered_imu_data_buffer_ptr_->push(fused_ang_imu);
  } else {''')]),
("r-solve","=P20 P28 P06",[(EK,IMUK,IMUK.replace('''  auto S_inv
      = (H_imu_ * ang_vel_and_bias_P_ * H_imu_.transpose() + ang_vel_imu_R_)
            .inverse();
  auto K = ang_vel_and_bias_P_ * H_imu_.transpose() * S_inv;''','''  const Eigen::Matrix3d S
      = H_imu_ * ang_vel_and_bias_P_ * H_imu_.transpose() + ang_vel_imu_R_;
  const Eigen::Matrix<double, 6, 3> K
      = S.ldlt().solve(H_imu_ * ang_vel_and_bias_P_).transpose();'''))]),
("r-partialLu","=P20 P28 P06",[(EK,IMUK,IMUK.replace('''            .inverse();
  auto K = ''','''            .partialPivLu().inverse();
  const Eigen::MatrixXd K = ''').replace("auto S_inv","const Eigen::MatrixXd S_inv"))]),
("r-meanlib","=P28",[(IP,'''    for (int i = 0; i < bias_init_vec_.size(); ++i) {
      avg = (avg + bias_init_vec_[i]).eval();
    }
    avg = (avg / bias_init_vec_.size()).eval();
''','''    for (const auto& v : bias_init_vec_) {
      avg += v;
    }
    avg /= static_cast<double>(bias_init_vec_.size());
''')]),
("r-accum","=P28",[(IP,'''    for (int i = 0; i < bias_init_vec_.size(); ++i) {
      avg = (avg + bias_init_vec_[i]).eval();
    }
    avg = (avg / bias_init_vec_.size()).eval();
''','''    const size_t n = bias_init_vec_.size();
    for (size_t i = 0; i < n; i++) avg += bias_init_vec_[i] / double(n);
''')]),
("r-bias-order","=P28",[(IP,'''    a = (R.transpose() * (R * a + g_)).eval();
    Eigen::Matrix<double, 6, 1> v;
    v << w(0), w(1), w(2), a(0), a(1), a(2);''','''    const Eigen::Vector3d a_free = a + R.transpose() * g_;
    Eigen::Matrix<double, 6, 1> v;
    v.head<3>() = w;
    v.tail<3>() = a_free;''')]),
("r-switch-if","=P20 P28 P06",[(EK,'''    switch (propagation_method_) {
      case GYRO:
        GyroPropagate();
        break;
      case RANDOM_WALK:
        RandomWalkPropagate();
        break;
    }
''','''    if (propagation_method_ == GYRO) {
      GyroPropagate();
    } else if (propagation_method_ == RANDOM_WALK) {
      RandomWalkPropagate();
    }
''')]),
]
