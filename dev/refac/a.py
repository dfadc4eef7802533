IP = "src/filter/inekf/propagation/imu_propagation.cpp"
IPH = "include/drift/filter/inekf/propagation/imu_propagation.h"
B = {}
# imu propagation: helpers extracted, statements reordered, loops rewritten
B["ip1"] = [
 (IP, '''namespace filter::inekf {

// IMU propagation child''', '''namespace filter::inekf {

namespace {
// read an optional entry of the configuration
template <typename T>
T ReadOr(const YAML::Node& section, const std::string& key, const T& fallback) {
  return section[key] ? section[key].as<T>() : fallback;
}

Eigen::Vector3d ToVector3(const std::vector<double>& v) {
  return Eigen::Vector3d(v[0], v[1], v[2]);
}

Eigen::Matrix3d IsotropicCovariance(double std_dev) {
  return std_dev * std_dev * Eigen::Matrix3d::Identity();
}
}    // namespace

// IMU propagation child'''),
 (IP, '''  static_bias_initialization_
      = config_["settings"]["static_bias_initialization"]
            ? config_["settings"]["static_bias_initialization"].as<bool>()
            : true;
''', '''  const YAML::Node settings = config_["settings"];
  static_bias_initialization_
      = ReadOr<bool>(settings, "static_bias_initialization", true);
'''),
 (IP, '''  gyro_cov_ = gyro_std * gyro_std * Eigen::Matrix<double, 3, 3>::Identity();
  gyro_bias_cov_
      = gyro_bias_std * gyro_bias_std * Eigen::Matrix<double, 3, 3>::Identity();
  accel_cov_ = accel_std * accel_std * Eigen::Matrix<double, 3, 3>::Identity();
  accel_bias_cov_ = accel_bias_std * accel_bias_std
                    * Eigen::Matrix<double, 3, 3>::Identity();
''', '''  gyro_cov_ = IsotropicCovariance(gyro_std);
  accel_cov_ = IsotropicCovariance(accel_std);
  gyro_bias_cov_ = IsotropicCovariance(gyro_bias_std);
  accel_bias_cov_ = IsotropicCovariance(accel_bias_std);
'''),
 (IP, '''  bg0_ = Eigen::Vector3d(gyroscope_bias[0], gyroscope_bias[1],
                         gyroscope_bias[2]);
''', "  bg0_ = ToVector3(gyroscope_bias);\n"),
 (IP, '''  double dt = imu_measurement->get_time() - state.get_propagate_time();
  state.set_time(imu_measurement->get_time());
  state.set_propagate_time(imu_measurement->get_time());
''', '''  const double t = imu_measurement->get_time();
  const double dt = t - state.get_propagate_time();
  state.set_propagate_time(t);
  state.set_time(t);
'''),
 (IP, '''  Eigen::Matrix3d G0 = Gamma_SO3(
      phi,
      0);    // Computation can be sped up by computing G0,G1,G2 all at once
  Eigen::Matrix3d G1 = Gamma_SO3(phi, 1);
  Eigen::Matrix3d G2 = Gamma_SO3(phi, 2);

  Eigen::MatrixXd X_pred = X;
''', '''  const Eigen::Matrix3d G2 = Gamma_SO3(phi, 2);
  const Eigen::Matrix3d G1 = Gamma_SO3(phi, 1);
  const Eigen::Matrix3d G0 = Gamma_SO3(phi, 0);

  Eigen::MatrixXd X_pred(X);
'''),
 (IP, '''    X_pred.block<3, 1>(0, 3) = v + (R * G1 * a + g_) * dt;
    X_pred.block<3, 1>(0, 4) = p + v * dt + (R * G2 * a + 0.5 * g_) * dt * dt;
''', '''    const Eigen::Vector3d dv = (R * (G1 * a) + g_) * dt;
    const Eigen::Vector3d dp = (R * (G2 * a) + 0.5 * g_) * (dt * dt);
    X_pred.block<3, 1>(0, 4) = p + v * dt + dp;
    X_pred.block<3, 1>(0, 3) = v + dv;
'''),
 (IP, '''    for (int i = 5; i < dimX; ++i) {
      X_pred.block<3, 1>(0, i) = G0t * X.block<3, 1>(0, i);
    }
''', '''    int column = 5;
    while (column < dimX) {
      X_pred.block<3, 1>(0, column) = G0t * X.block<3, 1>(0, column);
      column++;
    }
'''),
]
B["ip2"] = [
 (IP, '''  // reset the previous imu measurement
  sensor_data_buffer_mutex_ptr_.get()->lock();
  if (sensor_data_buffer_ptr_->empty()) {
    sensor_data_buffer_mutex_ptr_.get()->unlock();
    return false;
  }

  prev_imu_measurement_ = sensor_data_buffer_ptr_->front();
  sensor_data_buffer_ptr_->pop();
  sensor_data_buffer_mutex_ptr_.get()->unlock();
''', '''  // reset the previous imu measurement
  {
    std::lock_guard<std::mutex> guard(*sensor_data_buffer_mutex_ptr_);
    if (sensor_data_buffer_ptr_->size() == 0) {
      return false;
    }
    prev_imu_measurement_ = sensor_data_buffer_ptr_->front();
    sensor_data_buffer_ptr_->pop();
  }
'''),
 (IP, '''  // If we don't want to estimate bias, remove correlation
  if (!enable_imu_bias_update_) {
    P_pred.block(0, dimP - dimTheta, dimP - dimTheta, dimTheta)
        = Eigen::MatrixXd::Zero(dimP - dimTheta, dimTheta);
    P_pred.block(dimP - dimTheta, 0, dimTheta, dimP - dimTheta)
        = Eigen::MatrixXd::Zero(dimTheta, dimP - dimTheta);
    P_pred.block(dimP - dimTheta, dimP - dimTheta, dimTheta, dimTheta)
        = Eigen::MatrixXd::Identity(dimTheta, dimTheta);
  }
''', '''  // If we don't want to estimate bias, remove correlation
  const int dimXi = dimP - dimTheta;
  if (!enable_imu_bias_update_) {
    P_pred.rightCols(dimTheta).setZero();
    P_pred.bottomRows(dimTheta).setZero();
    P_pred.bottomRightCorner(dimTheta, dimTheta).setIdentity();
  }
  (void)dimXi;
'''),
 (IP, '''  if (state.get_state_type() == StateType::WorldCentric) {
    // Propagate world-centric state estimate
    X_pred.block<3, 3>(0, 0) = R * G0;
    X_pred.block<3, 1>(0, 3) = v + (R * G1 * a + g_) * dt;
    X_pred.block<3, 1>(0, 4) = p + v * dt + (R * G2 * a + 0.5 * g_) * dt * dt;
  } else {''', '''  const bool world_centric = state.get_state_type() == StateType::WorldCentric;
  if (world_centric) {
    // Propagate world-centric state estimate
    X_pred.topLeftCorner<3, 3>() = R * G0;
    X_pred.col(3).head<3>() = v + (R * G1 * a + g_) * dt;
    X_pred.col(4).head<3>() = p + v * dt + (R * G2 * a + 0.5 * g_) * dt * dt;
  } else {'''),
 (IP, '''  if ((state.get_state_type() == StateType::WorldCentric
       && error_type_ == ErrorType::LeftInvariant)
      || (state.get_state_type() == StateType::BodyCentric
          && error_type_ == ErrorType::RightInvariant)) {
    // Compute left-invariant''', '''  const bool body = state.get_state_type() == StateType::BodyCentric;
  const bool right = error_type_ == ErrorType::RightInvariant;
  if (body == right) {
    // Compute left-invariant'''),
 (IP, '''    for (int i = 5; i < dimX; ++i) {
      Phi.block<3, 3>((i - 2) * 3, (i - 2) * 3) = G0t;    // Phi_(3+i)(3+i)
    }
''', '''    for (int k = 9; k < dimP - dimTheta; k += 3) {
      Phi.block<3, 3>(k, k) = G0t;    // Phi_(3+i)(3+i)
    }
'''),
 (IP, '''    if (enable_imu_bias_update_) {
      Phi.block<3, 3>(0, dimP - dimTheta) = -G1t * dt;              // Phi_15
''', '''    const int bg = dimP - dimTheta;
    (void)bg;
    if (enable_imu_bias_update_) {
      Phi.block<3, 3>(0, bg) = -(dt * G1t);              // Phi_15
'''),
 (IP, '''  Qc.block<3, 3>(0, 0) = gyro_cov_;
  Qc.block<3, 3>(3, 3) = accel_cov_;
''', '''  Qc.block(3, 3, 3, 3) = accel_cov_;
  Qc.topLeftCorner(3, 3) = gyro_cov_;
'''),
 (IP, '''  Eigen::MatrixXd PhiG = Phi * G;
  Eigen::MatrixXd Qd = PhiG * Qc * PhiG.transpose()
                       * dt;    // Approximated discretized noise
                                // matrix (TODO: compute analytical)
  return Qd;
''', '''  const Eigen::MatrixXd PhiG = Phi * G;
  return dt * (PhiG * Qc * PhiG.transpose());
'''),
]
B["ip3"] = [
 (IP, '''  // Initialize bias based on imu orientation and static assumption
  if (bias_init_vec_.size() < init_bias_size_) {
    sensor_data_buffer_mutex_ptr_.get()->lock();
    if (sensor_data_buffer_ptr_->empty()) {
      sensor_data_buffer_mutex_ptr_.get()->unlock();
      return;
    }
    const ImuMeasurementPtr imu_measurement = sensor_data_buffer_ptr_->front();
    sensor_data_buffer_ptr_->pop();
    sensor_data_buffer_mutex_ptr_.get()->unlock();
''', '''  // Initialize bias based on imu orientation and static assumption
  if (bias_init_vec_.size() < init_bias_size_) {
    ImuMeasurementPtr imu_measurement;
    if (!PopFront(*sensor_data_buffer_ptr_, *sensor_data_buffer_mutex_ptr_,
                  imu_measurement)) {
      return;
    }
'''),
 (IP, '''  sensor_data_buffer_mutex_ptr_.get()->lock();
  if (sensor_data_buffer_ptr_->empty()) {
    sensor_data_buffer_mutex_ptr_.get()->unlock();
    return false;
  }
  const ImuMeasurementPtr imu_measurement = sensor_data_buffer_ptr_->front();
  sensor_data_buffer_ptr_->pop();
  sensor_data_buffer_mutex_ptr_.get()->unlock();

  Eigen::Matrix3d R0''', '''  ImuMeasurementPtr imu_measurement;
  if (!PopFront(*sensor_data_buffer_ptr_, *sensor_data_buffer_mutex_ptr_,
                imu_measurement)) {
    return false;
  }

  Eigen::Matrix3d R0'''),
 (IP, '''namespace filter::inekf {

// IMU propagation child''', '''namespace filter::inekf {

// Take the oldest measurement of a shared queue, if there is one
static bool PopFront(IMUQueue& queue, std::mutex& mutex,
                     ImuMeasurementPtr& out) {
  std::unique_lock<std::mutex> lock(mutex);
  if (queue.empty()) return false;
  out = queue.front();
  queue.pop();
  return true;
}

// IMU propagation child'''),
 (IP, '''    Eigen::Vector3d w
        = imu_measurement->get_angular_velocity();    // Angular Velocity
    Eigen::Vector3d a
        = imu_measurement->get_lin_acc();             // Linear Acceleration
''', ""),
 (IP, '''    w = R_imu2body_ * w;
    Eigen::Vector3d a_compensate = w.cross(w.cross(t_imu2body_));
    a = R_imu2body_ * a - a_compensate;


    // TODO: double check and fix this
    Eigen::Matrix3d R;
    if (use_imu_ori_to_init_) {
      Eigen::Quaternion<double> quat = imu_measurement->get_quaternion();
      R = R_imu2body_ * quat.toRotationMatrix();
    } else {
      R = Eigen::Matrix3d::Identity();
    }
''', '''    const Eigen::Vector3d w
        = R_imu2body_ * imu_measurement->get_angular_velocity();
    Eigen::Vector3d a = R_imu2body_ * imu_measurement->get_lin_acc()
                        - w.cross(w.cross(t_imu2body_));

    // TODO: double check and fix this
    Eigen::Matrix3d R = Eigen::Matrix3d::Identity();
    if (use_imu_ori_to_init_) {
      R = R_imu2body_ * imu_measurement->get_rotation_matrix();
    }
'''),
 (IP, '''    Eigen::Matrix<double, 6, 1> v;
    v << w(0), w(1), w(2), a(0), a(1), a(2);
    bias_init_vec_.push_back(v);    // Store imu data with gravity removed
''', '''    Eigen::Matrix<double, 6, 1> v;
    v << w, a;
    bias_init_vec_.emplace_back(v);    // Store imu data with gravity removed
'''),
 (IP, '''    for (int i = 0; i < bias_init_vec_.size(); ++i) {
      avg = (avg + bias_init_vec_[i]).eval();
    }
    avg = (avg / bias_init_vec_.size()).eval();
''', '''    for (const auto& sample : bias_init_vec_) {
      avg += sample;
    }
    avg /= static_cast<double>(bias_init_vec_.size());
'''),
 (IP, '''  double t_prev = imu_measurement->get_time();
  state.set_time(t_prev);
  state.set_propagate_time(t_prev);

  state.set_gyroscope_bias_covariance(gyro_bias_cov_);
  state.set_accelerometer_bias_covariance(accel_bias_cov_);

  // Set this measurement to be the previous measurement
  prev_imu_measurement_ = imu_measurement;
''', '''  // Set this measurement to be the previous measurement
  prev_imu_measurement_ = imu_measurement;

  state.set_accelerometer_bias_covariance(accel_bias_cov_);
  state.set_gyroscope_bias_covariance(gyro_bias_cov_);
  state.set_propagate_time(imu_measurement->get_time());
  state.set_time(imu_measurement->get_time());
'''),
 (IP, '''  sensor_data_buffer_mutex_ptr_.get()->lock();
  while (!sensor_data_buffer_ptr_->empty()) {
    sensor_data_buffer_ptr_->pop();
  }
  sensor_data_buffer_mutex_ptr_.get()->unlock();
}''', '''  const std::lock_guard<std::mutex> lock(*sensor_data_buffer_mutex_ptr_);
  for (; !sensor_data_buffer_ptr_->empty(); sensor_data_buffer_ptr_->pop()) {
  }
}'''),
 (IP, '''  double dt2 = dt * dt;
  double dt3 = dt2 * dt;
  double theta = w.norm();
''', '''  const double theta = std::sqrt(w.dot(w));
  const double dt2 = dt * dt;
  const double dt3 = dt * dt * dt;
'''),
 (IP, '''  const double tol = 1e-6;
  if (theta < tol) {
    Phi25L = (1.0 / 2) * ax * dt2;
    Phi35L = (1.0 / 6) * ax * dt3;
  }
''', '''  constexpr double tol = 1e-6;
  const bool small = !(theta >= tol);
  Phi25L = small ? Eigen::Matrix3d(0.5 * dt2 * ax) : Phi25L;
  if (small) Phi35L = dt3 / 6.0 * ax;
'''),
]
