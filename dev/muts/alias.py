RS="src/state/robot_state.cpp"; LG="src/filter/inekf/correction/legged_kinematics_correction.cpp"
IP="src/filter/inekf/propagation/imu_propagation.cpp"; VC="src/filter/inekf/correction/velocity_correction.cpp"
ES="src/estimator/inekf_estimator.cpp"; G="src/imu_filter/imu_ang_vel_ekf.cpp"; IK="src/filter/inekf/inekf.cpp"; LI="src/math/lie_group.cpp"
M=[]
def m(n,e,*r): M.append((n,e,list(r)))
m("theta-noeval","P31",(RS,"dimX","dimX") if 0 else (RS,"Theta_.block(start + 3, 0, Theta_.rows() - start - 3, 1).eval();","Theta_.block(start + 3, 0, Theta_.rows() - start - 3, 1);"))
m("rows-noeval","P31",(RS,"M.bottomRows(dimX - index - move_dim).eval();","M.bottomRows(dimX - index - move_dim);"))
m("cols-noeval","P31",(RS,"M.rightCols(dimX - index - move_dim).eval();","M.rightCols(dimX - index - move_dim);"))
m("rows-temp","=P31",(RS,'''  M.block(index, 0, dimX - index - move_dim, dimX)
      = M.bottomRows(dimX - index - move_dim).eval();
''','''  const Eigen::MatrixXd below = M.bottomRows(dimX - index - move_dim);
  M.block(index, 0, dimX - index - move_dim, dimX) = below;
'''))
m("rows-auto","P31",(RS,'''  M.block(index, 0, dimX - index - move_dim, dimX)
      = M.bottomRows(dimX - index - move_dim).eval();
''','''  auto below = M.bottomRows(dimX - index - move_dim);
  M.block(index, 0, dimX - index - move_dim, dimX) = below;
'''))
m("rows-loop","=P31",(RS,'''  M.block(index, 0, dimX - index - move_dim, dimX)
      = M.bottomRows(dimX - index - move_dim).eval();
''','''  for (int r = index; r + move_dim < dimX; ++r) {
    M.row(r) = M.row(r + move_dim);
  }
'''))
m("sym-inplace","P31",(IK,'''    P = (Adj * P * Adj.transpose()).eval();
  }

  // Compute Kalman Gain
''','''    P = (Adj * P * Adj.transpose()).eval();
  }
  P = 0.5 * (P + P.transpose());

  // Compute Kalman Gain
'''))
m("sym-eval","=P31",(IK,'''    P = (Adj * P * Adj.transpose()).eval();
  }

  // Compute Kalman Gain
''','''    P = (Adj * P * Adj.transpose()).eval();
  }
  P = (0.5 * (P + P.transpose())).eval();

  // Compute Kalman Gain
'''))
m("adj-noeval","=P31",(IK,"    P = (Adj * P * Adj.transpose()).eval();","    P = Adj * P * Adj.transpose();"))
m("adj-noalias","P31",(IK,"    P = (Adj * P * Adj.transpose()).eval();","    P.noalias() = Adj * P * Adj.transpose();"))
m("gain-temp","P31",(G,'''  auto K = ang_vel_and_bias_P_ * H_imu_.transpose() * S_inv;
''','''  auto K = ang_vel_and_bias_P_ * H_imu_.transpose()
           * (H_imu_ * ang_vel_and_bias_P_ * H_imu_.transpose() + ang_vel_imu_R_)
                 .inverse()
                 .eval();
'''))
m("sinv-stale","P31",(G,'''  ang_vel_and_bias_est_ = ang_vel_and_bias_est_ + K * z;
  ang_vel_and_bias_P_
      = (Eigen::MatrixXd::Identity(6, 6) - K * H_imu_) * ang_vel_and_bias_P_;
''','''  ang_vel_and_bias_P_
      = (Eigen::MatrixXd::Identity(6, 6) - K * H_imu_) * ang_vel_and_bias_P_;
  ang_vel_and_bias_est_ = ang_vel_and_bias_est_ + K * z;
'''))
m("sinv-matrix","=P31",(G,'''  auto K = ang_vel_and_bias_P_ * H_imu_.transpose() * S_inv;
''','''  const Eigen::MatrixXd K = ang_vel_and_bias_P_ * H_imu_.transpose() * S_inv;
'''),(G,'''  ang_vel_and_bias_est_ = ang_vel_and_bias_est_ + K * z;
  ang_vel_and_bias_P_
      = (Eigen::MatrixXd::Identity(6, 6) - K * H_imu_) * ang_vel_and_bias_P_;
''','''  ang_vel_and_bias_P_
      = (Eigen::MatrixXd::Identity(6, 6) - K * H_imu_) * ang_vel_and_bias_P_;
  ang_vel_and_bias_est_ = ang_vel_and_bias_est_ + K * z;
'''))
m("w-auto-temp","P31",(IP,"  Eigen::Vector3d a_compensate = w.cross(w.cross(t_imu2body_));\n  Eigen::Vector3d a = R_imu2body_ * imu_measurement->get_lin_acc()\n                      - state.get_accelerometer_bias()\n                      - a_compensate;    // Linear","  auto a_compensate = 1.0 * w.cross(w.cross(t_imu2body_));\n  Eigen::Vector3d a = R_imu2body_ * imu_measurement->get_lin_acc()\n                      - state.get_accelerometer_bias()\n                      - a_compensate;    // Linear"))
m("w-auto-ok","=P31",(IP,"  Eigen::Vector3d a_compensate = w.cross(w.cross(t_imu2body_));\n  Eigen::Vector3d a = R_imu2body_ * imu_measurement->get_lin_acc()\n                      - state.get_accelerometer_bias()\n                      - a_compensate;    // Linear","  auto a_compensate = w.cross(w.cross(t_imu2body_));\n  Eigen::Vector3d a = R_imu2body_ * imu_measurement->get_lin_acc()\n                      - state.get_accelerometer_bias()\n                      - a_compensate;    // Linear"))
m("phi-auto-ok","=P31",(IP,'''  Eigen::Vector3d phi = w * dt;
  Eigen::Matrix3d G0 = Gamma_SO3(
      phi,
      0);    // Computation can be sped up by computing G0,G1,G2 all at once
  Eigen::Matrix3d G1 = Gamma''','''  auto phi = w * dt;
  Eigen::Matrix3d G0 = Gamma_SO3(
      phi,
      0);    // Computation can be sped up by computing G0,G1,G2 all at once
  Eigen::Matrix3d G1 = Gamma'''))
m("g0t-inplace","P31",(IP,'''    Eigen::Matrix3d G0t = G0.transpose();
    X_pred.block<3, 3>(0, 0) = G0t * R;
''','''    Eigen::Matrix3d& G0t = G0;
    G0t = G0.transpose();
    X_pred.block<3, 3>(0, 0) = G0t * R;
'''))
m("lambda-lazy","P31",(IP,'''    Eigen::Matrix3d G0t = G0.transpose();
''','''    auto turned = [](Eigen::Matrix3d m) { return m.transpose(); };
    Eigen::Matrix3d G0t = turned(G0);
'''))
m("lambda-ok","=P31",(IP,'''    Eigen::Matrix3d G0t = G0.transpose();
''','''    auto turned = [](Eigen::Matrix3d m) -> Eigen::Matrix3d { return m.transpose(); };
    Eigen::Matrix3d G0t = turned(G0);
'''))
m("ak-noeval","=P31",(LI,"        Ak = (Ak * A).eval();","        Ak = Ak * A;"))
m("avg-noeval","=P31",(IP,"      avg = (avg + bias_init_vec_[i]).eval();","      avg += bias_init_vec_[i];"))
m("gyro-state","P31",(IP,"  Eigen::MatrixXd P = state.get_P();\n  int dimX","  const auto& P = state.get_P();\n  int dimX") if 0 else (LI,"        Ak = (Ak * A).eval();","        Ak.noalias() = Ak * A;"))
m("elem-before-push","P31",(IP,'''    bias_init_vec_.push_back(v);    // Store imu data with gravity removed
''','''    bias_init_vec_.push_back(v);    // Store imu data with gravity removed
    const auto& first = bias_init_vec_.front();
    bias_init_vec_.push_back(first);
    bias_init_vec_.back() = 0.5 * (first + v);
'''))
m("elem-copy","=P31",(IP,'''    bias_init_vec_.push_back(v);    // Store imu data with gravity removed
''','''    bias_init_vec_.push_back(v);    // Store imu data with gravity removed
    const Eigen::Matrix<double, 6, 1> first = bias_init_vec_.front();
    bias_init_vec_.push_back(first);
    bias_init_vec_.back() = 0.5 * (first + v);
'''))
m("ref-erase","P31",(LG,'''    state.del_aug_state(*(aug_id_to_column_id_ptr_[id]));
    aug_id_to_column_id_ptr_.erase(id);
''','''    auto it = aug_id_to_column_id_ptr_.find(id);
    aug_id_to_column_id_ptr_.erase(it);
    state.del_aug_state(*(it->second));
'''))
m("ref-erase-ok","=P31",(LG,'''    state.del_aug_state(*(aug_id_to_column_id_ptr_[id]));
    aug_id_to_column_id_ptr_.erase(id);
''','''    auto it = aug_id_to_column_id_ptr_.find(id);
    state.del_aug_state(*(it->second));
    aug_id_to_column_id_ptr_.erase(it);
'''))
m("map-ref-erase","P31",(LG,'''    state.del_aug_state(*(aug_id_to_column_id_ptr_[id]));
    aug_id_to_column_id_ptr_.erase(id);
''','''    const auto& column = aug_id_to_column_id_ptr_[id];
    aug_id_to_column_id_ptr_.erase(id);
    state.del_aug_state(*column);
'''))
m("range-push","P31",(LG,'''  for (int id : remove_contacts) {
    state''','''  for (int id : remove_contacts) {
    if (state.dimX() < 5) {
      remove_contacts.push_back(id);
    }
    state'''))
m("comma-readback","P31",(IP,'''    v << w(0), w(1), w(2), a(0), a(1), a(2);
''','''    v << w(0), w(1), w(2), a(0), a(1), a(2);
    v << v(1), v(0), v(2), v(3), v(4), v(5);
'''))
m("swap-cov-block","P31",(ES,'''  Cov.block(3, 0, 3, 3) = P.block(9, 0, 3, 3);
''','''  P.block(8, 0, 3, 3) = P.block(9, 0, 3, 3);
  Cov.block(3, 0, 3, 3) = P.block(8, 0, 3, 3);
'''))
m("block-view","P31",(LG,'''      P_aug = (F * P_aug * F.transpose() + G * new_contact.cov * G.transpose())
                  .eval();
''','''      P_aug = F * P_aug * F.transpose() + G * new_contact.cov * G.transpose();
      auto corner = P_aug.topLeftCorner(3, 3);
      P_aug.conservativeResize(P_aug.rows(), P_aug.cols());
      P_aug.topLeftCorner(3, 3) = corner;
'''))
m("paug-noeval","=P31",(LG,'''      P_aug = (F * P_aug * F.transpose() + G * new_contact.cov * G.transpose())
                  .eval();
''','''      P_aug = F * P_aug * F.transpose() + G * new_contact.cov * G.transpose();
'''))
m("ternary-ref","P31",(LG,'''        aug_state = state.get_position() - new_contact.pose;
''','''        const auto& body = state.get_position() - new_contact.pose;
        aug_state = body;
'''))

m("erase-loop","=P31 P10",(LG,'''  aug_id_to_column_id_ptr_.clear();
}
''','''  for (auto it = aug_id_to_column_id_ptr_.begin(); it != aug_id_to_column_id_ptr_.end();) {
    it = aug_id_to_column_id_ptr_.erase(it);
  }
}
'''))
m("erase-loop-bad","P31",(LG,'''  aug_id_to_column_id_ptr_.clear();
}
''','''  for (auto it = aug_id_to_column_id_ptr_.begin(); it != aug_id_to_column_id_ptr_.end(); ++it) {
    aug_id_to_column_id_ptr_.erase(it);
  }
}
'''))
m("erase-loop-range","P31",(LG,'''  aug_id_to_column_id_ptr_.clear();
}
''','''  for (auto& entry : aug_id_to_column_id_ptr_) {
    aug_id_to_column_id_ptr_.erase(entry.first);
  }
}
'''))
