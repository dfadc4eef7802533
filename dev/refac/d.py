G = "src/imu_filter/imu_ang_vel_ekf.cpp"
GH = "include/drift/imu_filter/imu_ang_vel_ekf.h"
MK = "src/kinematics/mini_cheetah_kinematics.cpp"
LK = "src/measurement/legged_kinematics.cpp"
MS = "src/measurement/measurement.cpp"
IM = "include/drift/measurement/impl/imu_impl.cpp"
VE = "include/drift/measurement/impl/velocity_impl.cpp"
LG = "src/math/lie_group.cpp"
B = {}
COR = '''  auto S_inv
      = (H_%s_ * ang_vel_and_bias_P_ * H_%s_.transpose() + ang_vel_%s_R_)
            .inverse();
  auto K = ang_vel_and_bias_P_ * H_%s_.transpose() * S_inv;
  ang_vel_and_bias_est_ = ang_vel_and_bias_est_ + K * z;
  ang_vel_and_bias_P_
      = (Eigen::MatrixXd::Identity(6, 6) - K * H_%s_) * ang_vel_and_bias_P_;
'''
# the two corrections share one helper; helper for pushing to the filtered queue
B["gy1"] = [
 (G, COR % (("imu",) * 5), '''  KalmanUpdate(H_imu_, ang_vel_imu_R_, z);
'''),
 (G, COR % (("enc",) * 5), '''  KalmanUpdate(H_enc_, ang_vel_enc_R_, z);
'''),
 (G, '''// Getters
''', '''void ImuAngVelEKF::KalmanUpdate(const Eigen::Matrix<double, 3, 6>& H,
                                const Eigen::Matrix3d& R,
                                const Eigen::Vector3d& z) {
  const Eigen::Matrix<double, 6, 3> PHt = ang_vel_and_bias_P_ * H.transpose();
  const Eigen::Matrix3d S = H * PHt + R;
  const Eigen::Matrix<double, 6, 3> K = PHt * S.inverse();
  ang_vel_and_bias_est_ += K * z;
  const Eigen::Matrix<double, 6, 6> I_KH
      = Eigen::Matrix<double, 6, 6>::Identity() - K * H;
  ang_vel_and_bias_P_ = (I_KH * ang_vel_and_bias_P_).eval();
}

void ImuAngVelEKF::Emit(const ImuMeasurementPtr& fused) {
  std::lock_guard<std::mutex> guard(*filtered_imu_data_buffer_mutex_ptr_);
  filtered_imu_data_buffer_ptr_->push(fused);
}

// Getters
'''),
 (GH, '''  /// @} // End of helper functions
''', '''  void KalmanUpdate(const Eigen::Matrix<double, 3, 6>& H,
                    const Eigen::Matrix3d& R, const Eigen::Vector3d& z);
  void Emit(const ImuMeasurementPtr& fused);
  /// @} // End of helper functions
'''),
 (G, '''    auto fused_ang_imu = AngVelFilterCorrectIMU(imu_measurement);
    filtered_imu_data_buffer_mutex_ptr_.get()->lock();
    filtered_imu_data_buffer_ptr_->push(fused_ang_imu);
    filtered_imu_data_buffer_mutex_ptr_.get()->unlock();
  } else {
''', '''    Emit(AngVelFilterCorrectIMU(imu_measurement));
  } else {
'''),
 (G, '''    if (fused_ang_imu) {
      filtered_imu_data_buffer_mutex_ptr_.get()->lock();
      filtered_imu_data_buffer_ptr_->push(fused_ang_imu);
      filtered_imu_data_buffer_mutex_ptr_.get()->unlock();
    }
''', '''    if (fused_ang_imu != nullptr) {
      Emit(fused_ang_imu);
    }
'''),
 (G, '''  if (ang_vel_measurement && !latest_imu_measurement_) {
    ang_vel_data_buffer_mutex_ptr_.get()->lock();
    if (!ang_vel_data_buffer_ptr_->empty()
        && ang_vel_data_buffer_ptr_->front() == ang_vel_measurement) {
      ang_vel_data_buffer_ptr_->pop();
    }
    ang_vel_data_buffer_mutex_ptr_.get()->unlock();
    return;
  }

  // only execute the following code if we have a latest_imu_measurement_
  if (ang_vel_measurement && latest_imu_measurement_) {
    if (last_propagate_time_ == -1
        || last_propagate_time_ - ang_vel_measurement->get_time() <= t_thres_) {
      auto fused_ang_imu = AngVelFilterCorrectEncoder(latest_imu_measurement_,
                                                      ang_vel_measurement);
      filtered_imu_data_buffer_mutex_ptr_.get()->lock();
      filtered_imu_data_buffer_ptr_->push(fused_ang_imu);
      filtered_imu_data_buffer_mutex_ptr_.get()->unlock();
    }

    ang_vel_data_buffer_mutex_ptr_.get()->lock();
    if (!ang_vel_data_buffer_ptr_->empty()
        && ang_vel_data_buffer_ptr_->front() == ang_vel_measurement) {
      ang_vel_data_buffer_ptr_->pop();
    }
    ang_vel_data_buffer_mutex_ptr_.get()->unlock();
    return;
  }
}

void ImuAngVelEKF::AngVelFilterPropagate() {
''', '''  if (latest_imu_measurement_) {
    const double age
        = last_propagate_time_ - ang_vel_measurement->get_time();
    if (last_propagate_time_ == -1 || age <= t_thres_) {
      Emit(AngVelFilterCorrectEncoder(latest_imu_measurement_,
                                      ang_vel_measurement));
    }
  }

  std::unique_lock<std::mutex> lock(*ang_vel_data_buffer_mutex_ptr_);
  if (ang_vel_data_buffer_ptr_->empty()) {
    return;
  }
  if (ang_vel_data_buffer_ptr_->front() == ang_vel_measurement) {
    ang_vel_data_buffer_ptr_->pop();
  }
}

void ImuAngVelEKF::AngVelFilterPropagate() {
'''),
]
# propagation, initialisation and clear rewritten
B["gy2"] = [
 (G, '''  Eigen::VectorXd measurement_diff = Eigen::VectorXd::Zero(6);
  measurement_diff.block<3, 1>(0, 0)
      = imu_measurement->get_angular_velocity() - prev_ang_vel_measurement_;
  prev_ang_vel_measurement_ = imu_measurement->get_angular_velocity();

  ang_vel_and_bias_est_ = measurement_diff + ang_vel_and_bias_est_;

  // Covariance propagation
  ang_vel_and_bias_P_ = ang_vel_and_bias_P_ + ang_vel_and_bias_Q_;


  Eigen::VectorXd imu_ang_vel = imu_measurement->get_angular_velocity();
''', '''  const Eigen::Vector3d imu_ang_vel = imu_measurement->get_angular_velocity();
  ang_vel_and_bias_est_.head<3>() += imu_ang_vel - prev_ang_vel_measurement_;
  prev_ang_vel_measurement_ = imu_ang_vel;

  // Covariance propagation
  RandomWalkPropagate();

'''),
 (G, '''    Eigen::Matrix<double, 3, 1> avg = Eigen::Matrix<double, 3, 1>::Zero();
    for (int i = 0; i < bias_init_vec_.size(); ++i) {
      avg = (avg + bias_init_vec_[i]).eval();
    }
    // Without samples there is no bias to average
    if (!bias_init_vec_.empty()) {
      avg = (avg / bias_init_vec_.size()).eval();
    }
''', '''    const std::size_t n = bias_init_vec_.size();
    Eigen::Vector3d avg(0, 0, 0);
    for (const auto& sample : bias_init_vec_) {
      avg += sample;
    }
    // Without samples there is no bias to average
    if (n > 0) {
      avg *= 1.0 / n;
    }
'''),
 (G, '''    ang_vel_and_bias_est_.head(3) = Eigen::Matrix<double, 3, 1>::Zero();
    ang_vel_and_bias_est_.tail(3) = avg;
''', '''    ang_vel_and_bias_est_ << Eigen::Vector3d::Zero(), avg;
'''),
 (G, '''      for (int i = 0; i < imu_data_buffer_mutex_ptrs_.size(); i++) {
        std::queue<ImuMeasurementPtr> empty;
        imu_data_buffer_mutex_ptrs_[i].get()->lock();
        std::swap(*imu_data_buffer_ptrs_[i], empty);
        imu_data_buffer_mutex_ptrs_[i].get()->unlock();
      }
''', '''      for (int i = 0; i < imu_data_buffer_mutex_ptrs_.size(); i++) {
        const std::lock_guard<std::mutex> lock(*imu_data_buffer_mutex_ptrs_[i]);
        while (!imu_data_buffer_ptrs_[i]->empty()) {
          imu_data_buffer_ptrs_[i]->pop();
        }
      }
'''),
 (G, '''    filter_initialized_ = true;
  } else {
    filter_initialized_ = true;
  }
}
''', '''  } else {
    // nothing to initialise
  }
  filter_initialized_ = true;
}
'''),
 (G, '''    bias_init_vec_.push_back(imu1_measurement->get_angular_velocity());

    if (propagation_method_ == GYRO) {
      gyro_prop_data_buffer_mutex_ptr_.get()->lock();
      if (gyro_prop_data_buffer_ptr_->empty()) {
        gyro_prop_data_buffer_mutex_ptr_.get()->unlock();
        return;
      }

      ImuMeasurementPtr imu0_measurement = gyro_prop_data_buffer_ptr_->front();
      gyro_prop_data_buffer_ptr_->pop();
      gyro_prop_data_buffer_mutex_ptr_.get()->unlock();

      prev_ang_vel_measurement_ = imu0_measurement->get_angular_velocity();
    }
''', '''    bias_init_vec_.emplace_back(imu1_measurement->get_angular_velocity());

    if (propagation_method_ != GYRO) {
      return;
    }
    const std::lock_guard<std::mutex> lock(*gyro_prop_data_buffer_mutex_ptr_);
    if (!gyro_prop_data_buffer_ptr_->empty()) {
      prev_ang_vel_measurement_
          = gyro_prop_data_buffer_ptr_->front()->get_angular_velocity();
      gyro_prop_data_buffer_ptr_->pop();
    }
    return;
'''),
 (G, '''  // Clear filtered_imu_data_buffer
  filtered_imu_data_buffer_mutex_ptr_.get()->lock();
  while (!filtered_imu_data_buffer_ptr_->empty()) {
    filtered_imu_data_buffer_ptr_->pop();
  }
  filtered_imu_data_buffer_mutex_ptr_.get()->unlock();
''', '''  // Clear filtered_imu_data_buffer
  IMUQueue none;
  std::lock_guard<std::mutex> lock(*filtered_imu_data_buffer_mutex_ptr_);
  filtered_imu_data_buffer_ptr_->swap(none);
'''),
]
SEL = '''    if (num_imu_ == 0 && num_ang_vel_ == 1) {
      correction_method_ = ANG_VEL;
    } else if (num_imu_ == 1 && num_ang_vel_ == 0) {
      correction_method_ = SINGLE_IMU;
    } else if (num_imu_ == 1 && num_ang_vel_ == 1) {
      correction_method_ = SINGLE_IMU_PLUS_ANG_VEL;
    } else if (num_imu_ > 1 && num_ang_vel_ == 0) {
      correction_method_ = MULTI_IMU;
    } else {
'''
B["gy3"] = [
 (G, SEL, '''    if (num_imu_ == 1 && num_ang_vel_ <= 1 && num_ang_vel_ >= 0) {
      correction_method_
          = num_ang_vel_ == 1 ? SINGLE_IMU_PLUS_ANG_VEL : SINGLE_IMU;
    } else if (num_ang_vel_ == 0 && num_imu_ > 1) {
      correction_method_ = MULTI_IMU;
    } else if (num_imu_ == 0 && num_ang_vel_ == 1) {
      correction_method_ = ANG_VEL;
    } else {
'''),
 (G, '''  if (filter_initialized_) {
    switch (propagation_method_) {
      case GYRO:
        GyroPropagate();
        break;
      case RANDOM_WALK:
        RandomWalkPropagate();
        break;
    }

    switch (correction_method_) {
      //
      case SINGLE_IMU_PLUS_ANG_VEL:
        SingleImuAngVelCorrection();
        break;
      case SINGLE_IMU:
        SingleImuCorrection();
        break;
      case MULTI_IMU:
        MultiImuCorrection();
        break;
      case ANG_VEL:
        AngVelCorrection();
        break;
      default:
        std::cerr << "Please name a correction enumeration" << std::endl;
        break;
    }
  } else {
''', '''  if (filter_initialized_) {
    if (propagation_method_ == GYRO) {
      GyroPropagate();
    } else if (propagation_method_ == RANDOM_WALK) {
      RandomWalkPropagate();
    }

    if (correction_method_ == SINGLE_IMU_PLUS_ANG_VEL) {
      SingleImuAngVelCorrection();
    } else if (correction_method_ == SINGLE_IMU) {
      SingleImuCorrection();
    } else if (correction_method_ == MULTI_IMU) {
      MultiImuCorrection();
    } else if (correction_method_ == ANG_VEL) {
      AngVelCorrection();
    } else {
      std::cerr << "Please name a correction enumeration" << std::endl;
    }
  } else {
'''),
 (G, '''  if (last_propagate_time_ == -1
      || (last_propagate_time_ - imu_measurement->get_time() <= t_thres_
          && last_propagate_time_ >= imu_measurement->get_time())) {
    imu_data_buffer_ptr_.get()->pop();
    imu_data_buffer_mutex_ptr_.get()->unlock();

    auto fused_ang_imu = AngVelFilterCorrectIMU(imu_measurement);
    filtered_imu_data_buffer_mutex_ptr_.get()->lock();
    filtered_imu_data_buffer_ptr_->push(fused_ang_imu);
    filtered_imu_data_buffer_mutex_ptr_.get()->unlock();
  } else {
    // Drop measurements that can never be used anymore
    if (last_propagate_time_ > imu_measurement->get_time()) {
      imu_data_buffer_ptr_.get()->pop();
    }
    imu_data_buffer_mutex_ptr_.get()->unlock();
  }
''', '''  const double gap = last_propagate_time_ - imu_measurement->get_time();
  const bool usable
      = last_propagate_time_ == -1 || (gap >= 0 && gap <= t_thres_);
  // Drop measurements that can never be used anymore
  if (usable || gap > 0) {
    imu_data_buffer_ptr_->pop();
  }
  imu_data_buffer_mutex_ptr_->unlock();
  if (!usable) {
    return;
  }

  ImuMeasurementPtr fused_ang_imu = AngVelFilterCorrectIMU(imu_measurement);
  filtered_imu_data_buffer_mutex_ptr_->lock();
  filtered_imu_data_buffer_ptr_->push(fused_ang_imu);
  filtered_imu_data_buffer_mutex_ptr_->unlock();
'''),
 (G, '''  imu_measurement_corrected->set_angular_velocity(ang_vel_and_bias_est_(0),
                                                  ang_vel_and_bias_est_(1),
                                                  ang_vel_and_bias_est_(2));
  imu_measurement_corrected->set_time(imu_measurement->get_time());
''', '''  const Eigen::Vector3d rate = ang_vel_and_bias_est_.head(3);
  imu_measurement_corrected->set_angular_velocity(rate.x(), rate.y(), rate.z());
'''),
 (G, '''  ImuMeasurementPtr imu_measurement_corrected
      = std::make_shared<ImuMeasurement<double>>(*imu_measurement);
''', '''  ImuMeasurementPtr imu_measurement_corrected(
      new ImuMeasurement<double>(*imu_measurement));
''', 2),
 (G, '''void ImuAngVelEKF::RunFilter() {
  while (!stop_thread_) {
    RunOnce();
  }
}
''', '''void ImuAngVelEKF::RunFilter() {
  for (;;) {
    if (stop_thread_) {
      break;
    }
    RunOnce();
  }
}
'''),
 (G, '''  this->imu_filter_thread_ = std::thread([this] { this->RunFilter(); });
''', '''  imu_filter_thread_ = std::thread(&ImuAngVelEKF::RunFilter, this);
'''),
]
B["ki1"] = [
 (MK, '''  if (this->get_contact(FR) == 1) {
    Eigen::Vector3d pRF = p_Body_to_FrontRightFoot(encoders_);    // {I}_p_{IRF}
    Eigen::Matrix<double, 3, 12> J_pRF = Jp_Body_to_FrontRightFoot(encoders_);
    velocity = -J_pRF * d_encoders_ - lie_group::skew(w) * pRF;    // {I}_v_{WI}
  } else if (this->get_contact(FL) == 1) {
''', '''  if (get_contact(FR)) {
    const Eigen::Vector3d p = p_Body_to_FrontRightFoot(encoders_);
    const Eigen::Vector3d v = Jp_Body_to_FrontRightFoot(encoders_) * d_encoders_;
    velocity = -(v + w.cross(p));    // {I}_v_{WI}
  } else if (this->get_contact(FL) == 1) {
'''),
 (MK, '''  jacobians_.block(0, FR * NAPL, 3, NAPL)
      = Jp_Body_to_FrontRightFoot(encoders_).block(0, FR * NAPL, 3, NAPL);
''', '''  jacobians_.middleCols(FR * NAPL, NAPL)
      = Jp_Body_to_FrontRightFoot(encoders_).middleCols<NAPL>(FR * NAPL);
'''),
 (MK, '''  positions_.col(FL) = p_Body_to_FrontLeftFoot(encoders_);
''', '''  positions_.block<3, 1>(0, FL) = p_Body_to_FrontLeftFoot(encoders_);
'''),
 (MK, '''  positions_.setConstant(3, NLEG, 0);
  jacobians_.setConstant(3, NLEG * NAPL, 0);
  contacts_.setConstant(NLEG, 1, 0);
  encoders_.setConstant(NLEG * NAPL, 1, 0);
  d_encoders_.setConstant(NLEG * NAPL, 1, 0);
''', '''  positions_ = Eigen::MatrixXd::Zero(3, NLEG);
  jacobians_ = Eigen::MatrixXd::Zero(3, NLEG * NAPL);
  contacts_.setZero(NLEG);
  encoders_.setZero(NLEG * NAPL);
  d_encoders_.setZero(NLEG * NAPL);
'''),
 (LK, '''  int dim = encoders_.rows() / contacts_.rows();
  return jacobians_.block(0, leg * dim, 3, dim);
''', '''  const int per_leg = encoders_.size() / contacts_.size();
  return jacobians_.middleCols(per_leg * leg, per_leg);
'''),
 (LK, '''  return contacts_[leg];
''', '''  return contacts_(leg, 0);
'''),
 (LK, '''  return positions_.col(leg);
''', '''  return positions_.block<3, 1>(0, leg);
'''),
 (MS, '''  header.seq = seq_in;
  header.stamp = time_stamp_in;
  header.frame_id = frame_id_in;
''', '''  MeasurementHeader h;
  h.frame_id = frame_id_in;
  h.stamp = time_stamp_in;
  h.seq = seq_in;
  this->set_header(h);
'''),
 (MS, '''Measurement::Measurement() : type_(EMPTY) { header.stamp = 0; }
''', '''Measurement::Measurement() : Measurement(EMPTY) {}
'''),
 (IM, '''  validate_quat(w, x, y, z);

  quaternion_.w() = w;
  quaternion_.x() = x;
  quaternion_.y() = y;
  quaternion_.z() = z;
''', '''  validate_quat(w, x, y, z);
  quaternion_ = Eigen::Quaternion<T>(w, x, y, z);
'''),
 (IM, '''  angular_velocity_.x() = x;
  angular_velocity_.y() = y;
  angular_velocity_.z() = z;
''', '''  angular_velocity_ << x, y, z;
'''),
 (IM, '''  linear_acceleration_.x() = x;
  linear_acceleration_.y() = y;
  linear_acceleration_.z() = z;
''', '''  linear_acceleration_ = Eigen::Matrix<T, 3, 1>(x, y, z);
'''),
 (IM, '''  double tol = 1e-5;
  T q_mag = w * w + x * x + y * y + z * z;
  if (std::abs(q_mag - 1) >= tol) {
    throw std::invalid_argument("Quaternion arguments must be normalized");
  }
''', '''  const double tol = 1e-5;
  const T error = Eigen::Quaternion<T>(w, x, y, z).squaredNorm() - 1;
  const bool normalized = error < tol && error > -tol;
  if (!normalized) {
    throw std::invalid_argument("Quaternion arguments must be normalized");
  }
'''),
 (VE, '''  vel_(0) = vx;
  vel_(1) = vy;
  vel_(2) = vz;
''', '''  vel_ = {vx, vy, vz};
'''),
 (VE, '''  return vel_.norm();
''', '''  return std::sqrt(vel_.dot(vel_));
'''),
 (VE, '''  return vel_.normalized();
''', '''  Eigen::Matrix<T, 3, 1> unit = vel_;
  unit.normalize();
  return unit;
'''),
]
B["li1"] = [
 (LG, '''  return (n == 1 || n == 0) ? 1 : factorial(n - 1) * n;
''', '''  long int result = 1;
  for (int i = 2; i <= n; ++i) {
    result *= i;
  }
  return result;
'''),
 (LG, '''  Eigen::Matrix3d M = Eigen::Matrix3d::Zero();
  M << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
  return M;
''', '''  Eigen::Matrix3d M;
  M.setZero();
  M(0, 1) = -v.z();
  M(0, 2) = v.y();
  M(1, 2) = -v.x();
  M -= M.transpose().eval();
  return M;
'''),
 (LG, '''  for (int i = 0; i < K; ++i) {
    X.block<3, 1>(0, 3 + i) = Jl * v.segment<3>(3 + 3 * i);
  }
''', '''  for (int col = 3; col < 3 + K; ++col) {
    X.col(col).head<3>() = Jl * v.segment(3 * (col - 2), 3);
  }
'''),
 (LG, '''  for (int i = 0; i < K; ++i) {
    Adj.block<3, 3>(3 + 3 * i, 3 + 3 * i) = R;
    Adj.block<3, 3>(3 + 3 * i, 0) = skew(X.block<3, 1>(0, 3 + i)) * R;
  }
''', '''  for (int i = 1; i <= K; i++) {
    const Eigen::Vector3d column = X.block(0, 2 + i, 3, 1);
    Adj.block(3 * i, 0, 3, 3) = skew(column) * R;
    Adj.block(3 * i, 3 * i, 3, 3) = R;
  }
'''),
 (LG, '''    double oneMinusCosTheta2 = (1 - ctheta) / (theta2);
    Eigen::Matrix3d A2 = A * A;
    R = I + (stheta / theta) * A + oneMinusCosTheta2 * A2;
    Jl = I + oneMinusCosTheta2 * A + ((theta - stheta) / (theta2 * theta)) * A2;
''', '''    const double a = stheta / theta;
    const double b = (1.0 - ctheta) / theta2;
    const double c = (1.0 - a) / theta2;
    R = I;
    R += a * A;
    R += b * (A * A);
    Jl = I + b * A + c * (A * A);
'''),
 (LG, '''  return Gamma_SO3(-w, 1);
''', '''  return LeftJacobian_SO3(-w);
'''),
 (LG, '''  switch (m) {
    case 0:    // Exp map of SO(3)
      return I + (sin(theta) / theta) * A + ((1 - cos(theta)) / theta2) * A * A;
''', '''  const double s = sin(theta);
  const double c = cos(theta);
  if (m == 0) {    // Exp map of SO(3)
    return I + (s / theta) * A + ((1 - c) / theta2) * (A * A);
  }
  switch (m) {
'''),
]
B["li2"] = [
 (LG, '''  double theta = w.norm();
  if (theta < TOLERANCE) {
    return (1.0 / factorial(m))
           * I;    // TODO: There is a better small value approximation for
                   // exp() given in Trawny p.19
  }
''', '''  const double theta = sqrt(w.squaredNorm());
  if (!(theta >= TOLERANCE)) {
    return I / factorial(m);
  }
'''),
 (LG, '''      for (int k = 1; k <= m; ++k) {
        kfactorial = kfactorial * k;
        Ak = (Ak * A).eval();
        S = (S + (1.0 / kfactorial) * Ak).eval();
      }
      if (m == 0) {
        return R;
      } else if (m % 2) {    // odd
''', '''      int k = 1;
      while (k <= m) {
        kfactorial *= k++;
        Ak = Ak * A;
        S += Ak / kfactorial;
      }
      if (m % 2 != 0) {    // odd
'''),
 (LG, '''  Eigen::Vector3d w = v.head(3);
  double theta = w.norm();
  Eigen::Matrix3d I = Eigen::Matrix3d::Identity();
  if (theta < TOLERANCE) {
    R = I;
    Jl = I;
  } else {
''', '''  const Eigen::Vector3d w = v.segment<3>(0);
  const double theta = w.norm();
  const Eigen::Matrix3d I = Eigen::Matrix3d::Identity();
  R.setIdentity();
  Jl.setIdentity();
  if (theta >= TOLERANCE) {
'''),
 (LG, '''  X.block<3, 3>(0, 0) = R;
  for (int i = 0; i < K; ++i) {
    X.block<3, 1>(0, 3 + i) = Jl * v.segment<3>(3 + 3 * i);
  }
  return X;
''', '''  X.topLeftCorner<3, 3>() = R;
  for (int i = K - 1; i >= 0; --i) {
    X.block<3, 1>(0, 3 + i).noalias() = Jl * v.segment<3>(3 + 3 * i);
  }
  return X;
'''),
]
