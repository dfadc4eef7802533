D="include/drift/measurement/impl/"; IM=D+"imu_impl.cpp"; VE=D+"velocity_impl.cpp"; AV=D+"angular_velocity_impl.cpp"; JS=D+"joint_state_impl.cpp"; CO=D+"contact_impl.cpp"; OD="include/drift/measurement/odom.h"; ME="src/measurement/measurement.cpp"; LK="src/measurement/legged_kinematics.cpp"; MC="src/kinematics/mini_cheetah_kinematics.cpp"
QS='''  validate_quat(w, x, y, z);

  quaternion_.w() = w;
  quaternion_.x() = x;
  quaternion_.y() = y;
  quaternion_.z() = z;
'''
M=[
("late-validate","P22",[(IM,QS,QS.replace("  validate_quat(w, x, y, z);\n\n","")+"  validate_quat(w, x, y, z);\n")]),
("partial","P22",[(IM,QS,QS.replace("  validate_quat(w, x, y, z);\n\n  quaternion_.w() = w;\n","  quaternion_.w() = w;\n  validate_quat(w, x, y, z);\n"))]),
("xyzw","P22",[(IM,QS,QS.replace("  quaternion_.w() = w;\n  quaternion_.x() = x;\n  quaternion_.y() = y;\n  quaternion_.z() = z;","  quaternion_.coeffs() << w, x, y, z;"))]),
("one-sided","P22",[(IM,"std::abs(q_mag - 1) >= tol","q_mag - 1 >= tol")]),
("noabs-other","P22",[(IM,"std::abs(q_mag - 1) >= tol","1 - q_mag >= tol")]),
("abs-int","P22",[(IM,"  T q_mag = w","  int q_mag = w")]),
("drop-z","P22",[(IM,"y * y + z * z;","y * y + z * y;")]),
("normalize","P22",[(IM,"  quaternion_.z() = z;\n","  quaternion_.z() = z;\n  quaternion_.normalize();\n")]),
("acc-clobber","P22",[(IM,"  linear_acceleration_.z() = z;","  linear_acceleration_.z() = z;\n  if (x == 0) angular_velocity_.setZero();")]),
("vel-type","P22",[(VE,"Measurement(VELOCITY)","Measurement(ANGULAR_VELOCITY)")]),
("contact-type","P22",[(CO,": Measurement(CONTACT) {}",": Measurement() {}")]),
("leg-type","P22",[(LK,"LeggedKinematicsMeasurement::LeggedKinematicsMeasurement()\n    : Measurement(LEGGED_KINEMATICS) {}","LeggedKinematicsMeasurement::LeggedKinematicsMeasurement()\n    : Measurement() {}")]),
("joint-keep","P22",[(JS,"  joint_effort_ = effort;","  if (joint_effort_.size() == 0) joint_effort_ = effort;")]),
("joint-swap","P22",[(JS,"  joint_velocity_ = velocity;\n  joint_effort_ = effort;","  joint_velocity_ = effort;\n  joint_effort_ = velocity;")]),
("header-frame","P22",[(ME,"  header.frame_id = frame_id_in;","  if (header.frame_id.empty()) header.frame_id = frame_id_in;")]),
("odom-t","P22",[(OD,"    set_header(seq_in, time_stamp_in, frame_id_in);\n\n    set_transformation();","    set_transformation();\n    set_header(seq_in, time_stamp_in, frame_id_in);\n    translation_ *= 1.0;\n") if False else (OD,"    transformation_.block<3, 3>(0, 0) = rotation_;","    transformation_.block<3, 3>(0, 0) = rotation_.transpose();")]),
("odom-vec","P22",[(OD,"translation_(2) = position_in(2);","translation_(2) = position_in(1);")]),
("getJ","P22",[(LK,"jacobians_.block(0, leg * dim, 3, dim)","jacobians_.block(0, leg * 3, 3, dim)")]) if False else ("getJ","P22",[(LK,"int dim = encoders_.rows() / contacts_.rows();","int dim = encoders_.rows() / 3;")]),
("dencoders","P21",[(LK,"      d_encoders_(d_encoders),\n","      d_encoders_(encoders),\n")]),
("eq-coeffs","=P22 P18",[(IM,QS,"  validate_quat(w, x, y, z);\n  quaternion_ = Eigen::Quaternion<T>(w, x, y, z);\n"),(VE,"  vel_(0) = vx;\n  vel_(1) = vy;\n  vel_(2) = vz;","  vel_ << vx, vy, vz;")]),
("eq-norm","=P22",[(IM,"  T q_mag = w * w + x * x + y * y + z * z;\n  if (std::abs(q_mag - 1) >= tol) {","  const T q_mag = Eigen::Quaternion<T>(w, x, y, z).squaredNorm();\n  if (q_mag >= 1 + tol || q_mag <= 1 - tol) {")]),
("eq-vec","=P22",[(IM,"  T q_mag = w * w + x * x + y * y + z * z;\n","  Eigen::Matrix<T, 4, 1> q(w, x, y, z);\n  T q_mag = q.dot(q);\n"),(AV,"  return ang_vel_.norm();","  return std::sqrt(ang_vel_.squaredNorm());")]),
("eq-inline","=P22",[(IM,QS,QS.replace("  validate_quat(w, x, y, z);\n","  const bool ok = std::fabs(w * w + x * x + y * y + z * z - 1) < 1e-5;\n  if (!ok) throw std::invalid_argument(\"Quaternion arguments must be normalized\");\n"))]),
("eq-setv","=P22",[(VE,"  vel_(0) = vx;\n  vel_(1) = vy;\n  vel_(2) = vz;","  vel_ = Eigen::Matrix<T, 3, 1>(vx, vy, vz);"),(VE,"return vel_.normalized();","return vel_ / vel_.norm();"),(OD,"    translation_(0) = position_in(0);\n    translation_(1) = position_in(1);\n    translation_(2) = position_in(2);","    translation_ = position_in;")]),
]
