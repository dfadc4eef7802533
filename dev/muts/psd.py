IP="src/filter/inekf/propagation/imu_propagation.cpp"; IK="src/filter/inekf/inekf.cpp"; RS="src/state/robot_state.cpp"
LK="src/filter/inekf/correction/legged_kinematics_correction.cpp"; VC="src/filter/inekf/correction/velocity_correction.cpp"
EK="src/imu_filter/imu_ang_vel_ekf.cpp"; IE="src/estimator/inekf_estimator.cpp"
J='''  Eigen::MatrixXd P_new = IKH * P * IKH.transpose()
                          + K * N * K.transpose();    // Joseph update form

  // Don't update yaw covariance'''
JL='''  Eigen::MatrixXd P_new = IKH * P * IKH.transpose()
                          + K * N * K.transpose();    // Joseph update form

  // Map from left'''
ROW='''  P_new.row(dimP - dimTheta + 2).setZero();
'''
PP="  Eigen::MatrixXd P_pred = Phi * P * Phi.transpose() + Qd;\n"
ZC='''    P_pred.block(dimP - dimTheta, 0, dimTheta, dimP - dimTheta)
        = Eigen::MatrixXd::Zero(dimTheta, dimP - dimTheta);
'''
ZR='''    P_pred.block(0, dimP - dimTheta, dimP - dimTheta, dimTheta)
        = Eigen::MatrixXd::Zero(dimP - dimTheta, dimTheta);
'''
QD='''  Eigen::MatrixXd Qd = PhiG * Qc * PhiG.transpose()
                       * dt;'''
GIMU='''  ang_vel_and_bias_P_
      = (Eigen::MatrixXd::Identity(6, 6) - K * H_imu_) * ang_vel_and_bias_P_;
'''
M=[
("notrans","P11",[(IP,PP,PP.replace("Phi.transpose()","Phi"))]),
("invtrans","P11",[(IP,PP,PP.replace("Phi.transpose()","Phi.inverse()"))]),
("minusq","P11",[(IP,PP,PP.replace("+ Qd","- Qd"))]),
("onesidezero","P11",[(IP,ZC,"")]),
("nozero","P11",[(IP,ZR+ZC,"")]),
("qd-notrans","P11",[(IP,QD,QD.replace("PhiG.transpose()","Phi.transpose()"))]),
("qd-negdt","P11",[(IP,QD,QD.replace("* dt","* (-dt)"))]),
("qd-asym","P11",[(IP,"  Qc.block<3, 3>(3, 3) = accel_cov_;\n","  Qc.block<3, 3>(3, 3) = accel_cov_;\n  Qc.block<3, 3>(0, 3) = gyro_cov_;\n")]),
("joseph-minus","P11",[(IK,J,J.replace("+ K * N","- K * N"))]),
("joseph-half","=P11",[(IK,J,J.replace("IKH * P * IKH.transpose()","IKH * P"))]),
("joseph-halfL","=P11",[(IK,JL,JL.replace("IKH * P * IKH.transpose()","P * IKH.transpose()"))]),
("rowonly","P11",[(IK,"  P_new.col(dimP - dimTheta + 2).setZero();\n","")]),
("negdiag","P11",[(IK,"P_new(dimP - dimTheta + 2, dimP - dimTheta + 2) = 0.0001 * 1;","P_new(dimP - dimTheta + 2, dimP - dimTheta + 2) = -0.0001 * 1;")]),
("backmap","P11",[(IK,"P_new = (AdjInv * P_new * AdjInv.transpose()).eval();","P_new = (AdjInv * P_new * AdjInv.inverse()).eval();")]),
("short-wrongK","P11",[(IK,J,J.replace("IKH * P * IKH.transpose()\n                          + K * N * K.transpose();","IKH * P;").replace("P_new = ","P_new = ")),(IK,'''  Eigen::MatrixXd S = H * PHT + N;
  Eigen::MatrixXd K = PHT * S.inverse();

  // Compute state correction vector
  Eigen::VectorXd delta = K * Z;
  Eigen::MatrixXd dX
      = lie_group::Exp_SEK3(delta.segment(0, delta.rows() - dimTheta));
  Eigen::VectorXd dTheta = delta.segment(delta.rows() - dimTheta, dimTheta);

  // Update state
  Eigen::MatrixXd X_new = dX * X;''','''  Eigen::MatrixXd S = H * PHT + N;
  Eigen::MatrixXd K = 2 * PHT * S.inverse();

  // Compute state correction vector
  Eigen::VectorXd delta = K * Z;
  Eigen::MatrixXd dX
      = lie_group::Exp_SEK3(delta.segment(0, delta.rows() - dimTheta));
  Eigen::VectorXd dTheta = delta.segment(delta.rows() - dimTheta, dimTheta);

  // Update state
  Eigen::MatrixXd X_new = dX * X;''')]),
("aug-g","P11",[(LK,"(F * P_aug * F.transpose() + G * new_contact.cov * G.transpose())","(F * P_aug * F.transpose() - G * new_contact.cov * G.transpose())")]),
("qc-aug-cross","P11",[(RS,"  Qc_aug.block<3, 3>(dimQc - dimTheta, dimQc - dimTheta) = noise_cov;\n","  Qc_aug.block<3, 3>(dimQc - dimTheta, dimQc - dimTheta) = noise_cov;\n  Qc_aug.block<3, 3>(dimQc - dimTheta, 6) = noise_cov;\n")]),
("delrowcol","P11",[(RS,"  RemoveRowAndColumn(P_, idx_cov, 3);","  RemoveRowAndColumn(P_, idx_cov, 3);\n  P_.block(idx_cov, 0, P_.rows() - idx_cov, 3).setZero();")]),
("n-notrans","P11",[(LK,"          = state.get_world_rotation() * cov\n            * state.get_world_rotation().transpose();","          = state.get_world_rotation() * cov\n            * state.get_world_rotation();")]),
("vel-n","P11",[(VC,"N = state.get_world_rotation()*covariance_","N = -1*state.get_world_rotation()*covariance_")]),
("initblock","P11",[(RS,"  P_.block<3, 3>(3, 3) = cov;","  P_.block<3, 3>(3, 6) = cov;")]),
("gyro-plus","=P11",[(EK,GIMU,GIMU.replace("- K","+ K"))]),
("gyro-r","P11",[(EK,"(H_imu_ * ang_vel_and_bias_P_ * H_imu_.transpose() + ang_vel_imu_R_)","(H_imu_ * ang_vel_and_bias_P_ * H_imu_.transpose() - ang_vel_imu_R_)")]),
("gyro-q","P11",[(EK,'''  // X = X, so we don't need to do anything for mean propagation

  // Covariance propagation
  ang_vel_and_bias_P_ = ang_vel_and_bias_P_ + ang_vel_and_bias_Q_;''','''  // X = X, so we don't need to do anything for mean propagation

  // Covariance propagation
  ang_vel_and_bias_P_ = ang_vel_and_bias_P_ - ang_vel_and_bias_Q_;''')]),
("gyro-stalegain","P11",[(EK,GIMU,GIMU.replace("K * H_imu_","K * H_enc_"))]),
# behaviour preserving, or harmless for P11
("keep-short","=P11 P16",[(IK,J,J.replace("IKH * P * IKH.transpose()\n                          + K * N * K.transpose();","IKH * P;"))]),
("keep-ksk","=P11 P16",[(IK,JL,JL.replace("IKH * P * IKH.transpose()\n                          + K * N * K.transpose();","P - K * S * K.transpose();"))]),
("keep-symm","=P11 P16",[(IK,JL,JL.replace("\n  // Map from left","  P_new = (0.5 * (P_new + P_new.transpose())).eval();\n\n  // Map from left"))]),
("keep-ldlt","=P11 P16",[(IK,'''  Eigen::MatrixXd K = PHT * S.inverse();

  // Compute state correction vector
  Eigen::VectorXd delta = K * Z;
  Eigen::MatrixXd dX
      = lie_group::Exp_SEK3(delta.segment(0, delta.rows() - dimTheta));
  Eigen::VectorXd dTheta = delta.segment(delta.rows() - dimTheta, dimTheta);

  // Update state
  Eigen::MatrixXd X_new = X * dX;''','''  Eigen::MatrixXd K = S.ldlt().solve(H * P).transpose();

  // Compute state correction vector
  Eigen::VectorXd delta = K * Z;
  Eigen::MatrixXd dX
      = lie_group::Exp_SEK3(delta.segment(0, delta.rows() - dimTheta));
  Eigen::VectorXd dTheta = delta.segment(delta.rows() - dimTheta, dimTheta);

  // Update state
  Eigen::MatrixXd X_new = X * dX;''')]),
("keep-split","=P11 P15",[(IP,PP,"  Eigen::MatrixXd PhiP = Phi * P;\n  Eigen::MatrixXd P_pred = Qd;\n  P_pred.noalias() += PhiP * Phi.transpose();\n")]),
("keep-assoc","=P11 P15",[(IP,PP,"  Eigen::MatrixXd P_pred = Phi * (P * Phi.transpose()) + Qd;\n"),(IP,QD,"  Eigen::MatrixXd Qd = dt * (Phi * (G * Qc * G.transpose()) * Phi.transpose());//")]),
("keep-gain2","=P11",[(IK,"  Eigen::MatrixXd IKH = Eigen::MatrixXd::Identity(dimP, dimP) - K * H;\n"+J,"  Eigen::MatrixXd IKH = Eigen::MatrixXd::Identity(dimP, dimP) - 0.5 * K * H;\n"+J)]),
("keep-phibug","=P11",[(IP,PP,"  Phi(0, 1) += 1;\n"+PP)]),
("keep-lambda","=P11 P16",[(IK,J,"  auto sandwich = [](const Eigen::MatrixXd& A, const Eigen::MatrixXd& M) -> Eigen::MatrixXd { return A * M * A.transpose(); };\n  Eigen::MatrixXd P_new = sandwich(IKH, P) + sandwich(K, N);\n\n  // Don't update yaw covariance")]),
("keep-short-all","=P11 P16",[(IK,"  // Compute Kalman Gain\n  Eigen::MatrixXd PHT = P * H.transpose();\n  Eigen::MatrixXd S = H * PHT + N;\n  Eigen::MatrixXd K = PHT * S.inverse();\n\n  // Compute state correction vector\n  Eigen::VectorXd delta = K * Z;\n  Eigen::MatrixXd dX\n      = lie_group::Exp_SEK3(delta.segment(0, delta.rows() - dimTheta));\n  Eigen::VectorXd dTheta = delta.segment(delta.rows() - dimTheta, dimTheta);\n\n  // Update state\n  Eigen::MatrixXd X_new = dX * X;",
 "  // Compute Kalman Gain\n  const Eigen::MatrixXd S = H * P * H.transpose() + N;\n  const Eigen::MatrixXd Si = S.inverse();\n  const Eigen::MatrixXd K = P * H.transpose() * Si;\n\n  // Compute state correction vector\n  Eigen::VectorXd delta = K * Z;\n  Eigen::MatrixXd dX\n      = lie_group::Exp_SEK3(delta.segment(0, delta.rows() - dimTheta));\n  Eigen::VectorXd dTheta = delta.segment(delta.rows() - dimTheta, dimTheta);\n\n  // Update state\n  Eigen::MatrixXd X_new = dX * X;")]),
]
