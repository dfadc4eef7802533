LG = "src/filter/inekf/correction/legged_kinematics_correction.cpp"
VC = "src/filter/inekf/correction/velocity_correction.cpp"
IK = "src/filter/inekf/inekf.cpp"
B = {}
B["lg1"] = [
 (LG, '''  Eigen::VectorXd Z, Y, b;
  Eigen::MatrixXd H, N, PI;
''', '''  Eigen::VectorXd Z;
  Eigen::MatrixXd H, N;
'''),
 (LG, '''  if (t_diff < -t_diff_thres_) {
    while (t_diff < -t_diff_thres_) {
      sensor_data_buffer_mutex_ptr_->lock();
      if (sensor_data_buffer_ptr_->empty()) {
        sensor_data_buffer_mutex_ptr_->unlock();
        return false;
      }
      kinematics_measurement = sensor_data_buffer_ptr_->front();
      sensor_data_buffer_ptr_->pop();
      sensor_data_buffer_mutex_ptr_->unlock();

      t_diff = kinematics_measurement->get_time() - state.get_propagate_time();
    }
  }
''', '''  const double t_prop = state.get_propagate_time();
  while (t_diff < -t_diff_thres_) {
    {
      std::lock_guard<std::mutex> guard(*sensor_data_buffer_mutex_ptr_);
      if (sensor_data_buffer_ptr_->empty()) {
        return false;
      }
      kinematics_measurement = sensor_data_buffer_ptr_->front();
      sensor_data_buffer_ptr_->pop();
    }
    t_diff = kinematics_measurement->get_time() - t_prop;
  }
'''),
 (LG, '''  int num_legs = kinematics_measurement->get_num_legs();
  kinematics_measurement->ComputeKinematics();
''', '''  kinematics_measurement->ComputeKinematics();
  const int num_legs = kinematics_measurement->get_num_legs();
'''),
 (LG, '''    if (!has_contact && found) {
      // If contact is not indicated and leg id is found in previous existing
      // contact map, then remove state
      remove_contacts.push_back(id);    // Add id to remove list
    } else if (has_contact && !found) {
''', '''    if (!has_contact) {
      // Legs that lost contact are removed
      if (found) {
        remove_contacts.push_back(id);
      }
      continue;
    }
    if (!found) {
'''),
 (LG, '''    } else if (has_contact && found) {
      // If contact''', '''    } else {
      // If contact'''),
 (LG, '''    } else {
      //  If contact is not indicated and id is found in estimated_contacts_,
      //  then skip
      continue;
    }
  }
''', '''    }
  }
'''),
 (LG, '''      ContactInfo new_contact;
      new_contact.id = id;
      new_contact.pose = pose;
      new_contact.cov = cov;
      new_contacts.push_back(new_contact);    // Add id to add map
''', '''      new_contacts.emplace_back();
      new_contacts.back().id = id;
      new_contacts.back().pose = pose;
      new_contacts.back().cov = cov;
'''),
 (LG, '''    bool found = aug_id_to_column_id_ptr_.count(id);
''', '''    const bool found
        = aug_id_to_column_id_ptr_.find(id) != aug_id_to_column_id_ptr_.end();
'''),
]
B["lg2"] = [
 (LG, '''      // Fill out H
      startIndex = H.rows();
      H.conservativeResize(startIndex + 3, dimP);
      H.block(startIndex, 0, 3, dimP) = Eigen::MatrixXd::Zero(3, dimP);
      if (state.get_state_type() == StateType::WorldCentric) {
        H.block(startIndex, 6, 3, 3) = -Eigen::Matrix3d::Identity();    // -I
        H.block(startIndex, 3 * (*(aug_id_to_column_id_ptr_[id])) - dimTheta, 3,
                3)
            = Eigen::Matrix3d::Identity();    // I
      } else {
        H.block(startIndex, 6, 3, 3) = Eigen::Matrix3d::Identity();    // I
        H.block(startIndex, 3 * (*(aug_id_to_column_id_ptr_[id])) - dimTheta, 3,
                3)
            = -Eigen::Matrix3d::Identity();    // -I
      }
''', '''      // Fill out H
      startIndex = H.rows();
      const double sign
          = state.get_state_type() == StateType::WorldCentric ? 1.0 : -1.0;
      const int column = *(aug_id_to_column_id_ptr_.at(id));
      H.conservativeResize(startIndex + 3, dimP);
      H.bottomRows(3).setZero();
      H.block<3, 3>(startIndex, 3 * (column - 2))
          = sign * Eigen::Matrix3d::Identity();
      H.block<3, 3>(startIndex, 6) = -sign * Eigen::Matrix3d::Identity();
'''),
 (LG, '''      startIndex = N.rows();
      N.conservativeResize(startIndex + 3, startIndex + 3);
      N.block(startIndex, 0, 3, startIndex)
          = Eigen::MatrixXd::Zero(3, startIndex);
      N.block(0, startIndex, startIndex, 3)
          = Eigen::MatrixXd::Zero(startIndex, 3);
      N.block(startIndex, startIndex, 3, 3)
          = state.get_world_rotation() * cov
            * state.get_world_rotation().transpose();
''', '''      startIndex = N.rows();
      Eigen::MatrixXd N_new
          = Eigen::MatrixXd::Zero(startIndex + 3, startIndex + 3);
      N_new.topLeftCorner(startIndex, startIndex) = N;
      const Eigen::Matrix3d Rw = state.get_world_rotation();
      N_new.bottomRightCorner(3, 3) = Rw * cov * Rw.transpose();
      N = N_new;
'''),
 (LG, '''        Z.segment(startIndex, 3) = R * pose - (d - p);
''', '''        Z.tail(3) = R * pose + p - d;
'''),
 (LG, '''  for (int id : remove_contacts) {
    state.del_aug_state(*(aug_id_to_column_id_ptr_[id]));
    aug_id_to_column_id_ptr_.erase(id);
  }
''', '''  for (size_t i = 0; i < remove_contacts.size(); ++i) {
    auto tracked = aug_id_to_column_id_ptr_.find(remove_contacts[i]);
    state.del_aug_state(*tracked->second);
    aug_id_to_column_id_ptr_.erase(tracked);
  }
'''),
 (LG, '''  if (new_contacts.size() > 0) {
    Eigen::MatrixXd P_aug''', '''  if (!new_contacts.empty()) {
    Eigen::MatrixXd P_aug'''),
]
B["lg3"] = [
 (LG, '''      Eigen::MatrixXd F = Eigen::MatrixXd::Zero(state.dimP() + 3, state.dimP());
      F.block(0, 0, state.dimP() - state.dimTheta(),
              state.dimP() - state.dimTheta())
          = Eigen::MatrixXd::Identity(
              state.dimP() - state.dimTheta(),
              state.dimP() - state.dimTheta());    // for old X
      F.block(state.dimP() - state.dimTheta() + 3,
              state.dimP() - state.dimTheta(), state.dimTheta(),
              state.dimTheta())
          = Eigen::MatrixXd::Identity(state.dimTheta(),
                                      state.dimTheta());    // for theta
''', '''      const int dimP = state.dimP();
      const int dimTheta = state.dimTheta();
      const int dimXi = dimP - dimTheta;
      Eigen::MatrixXd F = Eigen::MatrixXd::Zero(dimP + 3, dimP);
      F.topLeftCorner(dimXi, dimXi).setIdentity();               // for old X
      F.bottomRightCorner(dimTheta, dimTheta).setIdentity();     // for theta
'''),
 (LG, '''        F.block(state.dimP() - state.dimTheta(), 6, 3, 3)
            = Eigen::Matrix3d::Identity();
        G.block(G.rows() - state.dimTheta() - 3, 0, 3, 3)
            = state.get_world_rotation();
      } else {
        F.block(state.dimP() - state.dimTheta(), 6, 3, 3)
            = Eigen::Matrix3d::Identity();
''', '''        G.block(G.rows() - state.dimTheta() - 3, 0, 3, 3)
            = state.get_world_rotation();
      } else {
'''),
 (LG, '''      // Blocks for new contact
      if (''', '''      // Blocks for new contact
      F.block<3, 3>(dimXi, 6).setIdentity();
      if ('''),
 (LG, '''      P_aug = (F * P_aug * F.transpose() + G * new_contact.cov * G.transpose())
                  .eval();
''', '''      const Eigen::MatrixXd FP = F * P_aug;
      P_aug = FP * F.transpose() + G * new_contact.cov * G.transpose();
'''),
 (LG, '''      aug_id_to_column_id_ptr_[new_contact.id]
          = std::make_shared<int>(state.dimX());

      int aug_idx
          = state.add_aug_state(aug_state, P_aug, contact_noise_cov_,
                                aug_id_to_column_id_ptr_[new_contact.id]);

      // Add the aug state matrix index to the augment state information
      // mapping
      *(aug_id_to_column_id_ptr_[new_contact.id]) = aug_idx;
''', '''      auto column = std::make_shared<int>(state.dimX());
      *column
          = state.add_aug_state(aug_state, P_aug, contact_noise_cov_, column);
      aug_id_to_column_id_ptr_[new_contact.id] = column;
'''),
 (LG, '''  // Get the lates measurement
  while (sensor_data_buffer_ptr_->size() > 1) {
    // std::cout << "Discarding old sensor data..." << std::endl;
    sensor_data_buffer_ptr_->pop();
  }
  LeggedKinMeasurementPtr kinematics_measurement
      = sensor_data_buffer_ptr_->front();
  sensor_data_buffer_ptr_->pop();
  sensor_data_buffer_mutex_ptr_.get()->unlock();
''', '''  // Get the lates measurement
  LeggedKinMeasurementPtr kinematics_measurement;
  do {
    kinematics_measurement = sensor_data_buffer_ptr_->front();
    sensor_data_buffer_ptr_->pop();
  } while (!sensor_data_buffer_ptr_->empty());
  sensor_data_buffer_mutex_ptr_.get()->unlock();
'''),
 (LG, '''  sensor_data_buffer_mutex_ptr_.get()->lock();
  while (!sensor_data_buffer_ptr_->empty()) {
    sensor_data_buffer_ptr_->pop();
  }
  sensor_data_buffer_mutex_ptr_.get()->unlock();

  aug_id_to_column_id_ptr_.clear();
''', '''  aug_id_to_column_id_ptr_.clear();

  std::scoped_lock lock(*sensor_data_buffer_mutex_ptr_);
  *sensor_data_buffer_ptr_ = LeggedKinQueue();
'''),
]
B["vc1"] = [
 (VC, '''  Eigen::VectorXd Z, Y, b;
  Eigen::MatrixXd H, N, PI;

  // Fill out observation data
  int dimX = state.dimX();
  int dimTheta = state.dimTheta();
  int dimP = state.dimP();
''', '''  const int dimP = state.dimP();
'''),
 (VC, '''  // Fill out H
  H.conservativeResize(3, dimP);
  H.block(0, 0, 3, dimP) = Eigen::MatrixXd::Zero(3, dimP);
  H.block(0, 3, 3, 3) = Eigen::Matrix3d::Identity();

  // Fill out N
  N.conservativeResize(3, 3);
  N = state.get_world_rotation()*covariance_*state.get_world_rotation().transpose();

  Eigen::Matrix3d R = state.get_rotation();
  Eigen::Vector3d v = state.get_velocity();

  int startIndex = Z.rows();
  Z.conservativeResize(startIndex + 3, Eigen::NoChange);
  // Rotate the velocity from sensor frame to body frame, then to world frame
  Z.segment(0, 3) = R * R_vel2body_ * velocity_scale_ * measured_velocity->get_velocity() - v;

  // Correct state using stacked observation
  if (Z.rows() > 0) {
    CorrectRightInvariant(Z, H, N, state, error_type_);
  }

  v = (R * R_vel2body_).inverse() * state.get_velocity();
''', '''  const Eigen::Matrix3d R = state.get_rotation();
  const Eigen::Matrix3d Rw = state.get_world_rotation();

  Eigen::MatrixXd H(3, dimP);
  H << Eigen::Matrix3d::Zero(), Eigen::Matrix3d::Identity(),
      Eigen::MatrixXd::Zero(3, dimP - 6);

  const Eigen::Vector3d measured = MeasuredBodyVelocity(*measured_velocity);
  CorrectRightInvariant(R * measured - state.get_velocity(), H,
                        Rw * covariance_ * Rw.transpose(), state, error_type_);

  const Eigen::Vector3d v
      = (R * R_vel2body_).transpose() * state.get_velocity();
'''),
 (VC, '''  state.set_velocity(state.get_rotation() * R_vel2body_ * velocity_scale_
                     * measured_velocity->get_velocity());
  state.set_time(measured_velocity->get_time());
''', '''  const Eigen::Vector3d v = MeasuredBodyVelocity(*measured_velocity);
  state.set_time(measured_velocity->get_time());
  state.set_velocity(state.get_rotation() * v);
'''),
 (VC, '''// Correct using measured body velocity with the estimated velocity
''', '''// Velocity measured by the sensor, in the body frame
Eigen::Vector3d VelocityCorrection::MeasuredBodyVelocity(
    const measurement::VelocityMeasurement<double>& m) const {
  return velocity_scale_ * (R_vel2body_ * m.get_velocity());
}

// Correct using measured body velocity with the estimated velocity
'''),
 ("include/drift/filter/inekf/correction/velocity_correction.h", ''' private:
''', ''' private:
  /**
   * @brief Velocity measured by the sensor, scaled and in the body frame
   */
  Eigen::Vector3d MeasuredBodyVelocity(
      const measurement::VelocityMeasurement<double>& m) const;

'''),
 (VC, '''  sensor_data_buffer_mutex_ptr_->lock();
  if (sensor_data_buffer_ptr_->empty()) {
    sensor_data_buffer_mutex_ptr_->unlock();
    return false;
  }
  VelocityMeasurementPtr measured_velocity = sensor_data_buffer_ptr_->front();
  double t_diff = measured_velocity->get_time() - state.get_propagate_time();
  // Only use previous velocity measurement to correct the state
  if (t_diff >= 0) {
    sensor_data_buffer_mutex_ptr_->unlock();
    return false;
  }

  sensor_data_buffer_ptr_->pop();
  sensor_data_buffer_mutex_ptr_->unlock();

  if (t_diff < -t_diff_thres_) {
    while (t_diff < -t_diff_thres_) {
      sensor_data_buffer_mutex_ptr_->lock();
      if (sensor_data_buffer_ptr_->empty()) {
        sensor_data_buffer_mutex_ptr_->unlock();
        return false;
      }
      measured_velocity = sensor_data_buffer_ptr_->front();
      t_diff = measured_velocity->get_time() - state.get_propagate_time();
      if (t_diff >= 0) {
        sensor_data_buffer_mutex_ptr_->unlock();
        return false;
      }
      sensor_data_buffer_ptr_->pop();
      sensor_data_buffer_mutex_ptr_->unlock();
    }
  }
''', '''  VelocityMeasurementPtr measured_velocity;
  bool stale = true;
  while (stale) {
    std::lock_guard<std::mutex> guard(*sensor_data_buffer_mutex_ptr_);
    if (sensor_data_buffer_ptr_->empty()) {
      return false;
    }
    measured_velocity = sensor_data_buffer_ptr_->front();
    const double age
        = state.get_propagate_time() - measured_velocity->get_time();
    // Only use previous velocity measurement to correct the state
    if (age <= 0) {
      return false;
    }
    sensor_data_buffer_ptr_->pop();
    stale = age > t_diff_thres_;
  }
'''),
]
B["ik1"] = [
 (IK, '''// Correct Input State: Right-Invariant Observation
void''', '''namespace {
// Adjoint of a state, extended to the bias part of the error
Eigen::MatrixXd ExtendedAdjoint(const Eigen::MatrixXd& X, int dimP,
                                int dimTheta) {
  const int n = dimP - dimTheta;
  Eigen::MatrixXd Adj = Eigen::MatrixXd::Identity(dimP, dimP);
  Adj.topLeftCorner(n, n) = lie_group::Adjoint_SEK3(X);
  return Adj;
}

// Decouple the biases from the pose
void RemoveBias(Eigen::MatrixXd& P, int dimTheta) {
  P.rightCols(dimTheta).setZero();
  P.bottomRows(dimTheta).setZero();
  P.diagonal().tail(dimTheta).setConstant(0.0001);
}
}    // namespace

// Correct Input State: Right-Invariant Observation
void'''),
 (IK, '''  if (error_type == ErrorType::LeftInvariant) {
    Eigen::MatrixXd Adj = Eigen::MatrixXd::Identity(dimP, dimP);
    Adj.block(0, 0, dimP - dimTheta, dimP - dimTheta)
        = lie_group::Adjoint_SEK3(X);
    P = (Adj * P * Adj.transpose()).eval();
  }
''', '''  if (error_type == ErrorType::LeftInvariant) {
    const Eigen::MatrixXd Adj = ExtendedAdjoint(X, dimP, dimTheta);
    P = Adj * P * Adj.transpose();
  }
'''),
 (IK, '''    P_new = (AdjInv * P_new * AdjInv.transpose()).eval();
''', '''    const Eigen::MatrixXd tmp = AdjInv * P_new;
    P_new.noalias() = tmp * AdjInv.transpose();
'''),
 (IK, '''  Eigen::VectorXd dTheta = delta.segment(delta.rows() - dimTheta, dimTheta);

  // Update state
  Eigen::MatrixXd X_new = dX * X;    // Right-Invariant Update
  /// REMARK: set yaw bias derivative estimation to 0
  dTheta(2) = 0;
  Eigen::VectorXd Theta_new = Theta + dTheta;
''', '''
  // Update state
  Eigen::MatrixXd X_new = dX * X;    // Right-Invariant Update
  Eigen::VectorXd Theta_new = Theta;
  for (int i = 0; i < dimTheta; ++i) {
    /// REMARK: set yaw bias derivative estimation to 0
    if (i != 2) {
      Theta_new(i) += delta(delta.rows() - dimTheta + i);
    }
  }
'''),
 (IK, '''  P_new.row(dimP - dimTheta + 2).setZero();
  P_new.col(dimP - dimTheta + 2).setZero();
  P_new(dimP - dimTheta + 2, dimP - dimTheta + 2) = 0.0001 * 1;
''', '''  const int yaw = dimP - dimTheta + 2;
  for (int i = 0; i < dimP; ++i) {
    P_new(i, yaw) = P_new(yaw, i) = i == yaw ? 0.0001 : 0.0;
  }
'''),
]
B["ik2"] = [
 (IK, '''  Eigen::MatrixXd X_new = X * dX;    // Left-Invariant Update
  Eigen::VectorXd Theta_new = Theta + dTheta;

  // Set new state
  state.set_X(X_new);
  state.set_theta(Theta_new);
''', '''  Theta += dTheta;
  const Eigen::MatrixXd X_new = X * dX;    // Left-Invariant Update

  // Set new state
  state.set_theta(Theta);
  state.set_X(X_new);
'''),
 (IK, '''  Eigen::MatrixXd X_new = dX * X;    // Right-Invariant Update
''', '''  Eigen::MatrixXd X_new(X.rows(), X.cols());
  X_new.noalias() = dX * X;    // Right-Invariant Update
'''),
 (IK, '''  // Set new covariance
  state.set_P(P_new);
}


''', '''  // Set new covariance, exactly symmetric
  state.set_P(0.5 * (P_new + P_new.transpose()));
}


'''),
 (IK, '''void CorrectLeftInvariant(const Eigen::MatrixXd& Z, const Eigen::MatrixXd& H,
                          const Eigen::MatrixXd& N, RobotState& state,
                          ErrorType error_type) {
  // Get current state estimate
''', '''void CorrectLeftInvariant(const Eigen::MatrixXd& Z, const Eigen::MatrixXd& H,
                          const Eigen::MatrixXd& N, RobotState& state,
                          ErrorType error_type) {
  const bool right_error = ErrorType::RightInvariant == error_type;
  // Get current state estimate
'''),
 (IK, '''  // Map from left invariant back to right invariant error
  if (error_type == ErrorType::RightInvariant) {
    Eigen::MatrixXd Adj = Eigen::MatrixXd::Identity(dimP, dimP);
    Adj.block(0, 0, dimP - dimTheta, dimP - dimTheta)
        = lie_group::Adjoint_SEK3(X_new);
    P_new = (Adj * P_new * Adj.transpose()).eval();
  }

  // Set new covariance
  state.set_P(P_new);
''', '''  if (!right_error) {
    state.set_P(P_new);
    return;
  }
  // Map from left invariant back to right invariant error
  Eigen::MatrixXd Adj = Eigen::MatrixXd::Identity(dimP, dimP);
  Adj.block(0, 0, dimP - dimTheta, dimP - dimTheta)
      = lie_group::Adjoint_SEK3(state.get_X());
  state.set_P(Adj * P_new * Adj.transpose());
'''),
]
