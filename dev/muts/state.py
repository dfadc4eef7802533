RS="src/state/robot_state.cpp"; LG="src/filter/inekf/correction/legged_kinematics_correction.cpp"
IP="src/filter/inekf/propagation/imu_propagation.cpp"; IK="src/filter/inekf/inekf.cpp"; VC="src/filter/inekf/correction/velocity_correction.cpp"
M=[
("p13-getaugcov","P13",[(RS,"const Eigen::Matrix3d RobotState::get_aug_cov(int matrix_idx) {\n  int idx_cov = 3 + 3 * (matrix_idx - 3);","const Eigen::Matrix3d RobotState::get_aug_cov(int matrix_idx) {\n  int idx_cov = 3 * (matrix_idx - 3);")]),
("p13-delnoise","P13 P19 P12",[(RS,"  this->del_aug_noise_cov(matrix_idx);\n","  this->del_aug_noise_cov(this->dimX());\n")]),
("p13-decr","P13 P19",[(RS,"    *(column_id_to_corr_map_[i]) -= 1;","    if (i == matrix_idx) *(column_id_to_corr_map_[i]) -= 1;")]),
("p13-vel-cov","P13",[(RS,"void RobotState::set_velocity_covariance(const Eigen::Matrix3d& cov) {\n  P_.block<3, 3>(3, 3) = cov;","void RobotState::set_velocity_covariance(const Eigen::Matrix3d& cov) {\n  P_.block<3, 3>(6, 6) = cov;")]),
("p13-rmrow","P13 P19 P12",[(RS,"      = M.rightCols(dimX - index - move_dim).eval();","      = M.middleCols(index, dimX - index - move_dim).eval();")]),
("p13-qc-order","P13 P19",[(RS,"  Qc_aug.block<3, 3>(dimQc - dimTheta, dimQc - dimTheta) = noise_cov;","  Qc_aug.block<3, 3>(dimQc, dimQc) = noise_cov;")]),
("p32-xinv","P32",[(RS,"    Xinv.block<3, 1>(0, i) = -RT * X_.block<3, 1>(0, i);","    Xinv.block<3, 1>(0, i) = -RT * X_.block<3, 1>(0, i < 5 ? i : 4);")]),
("p32-bodyv","P32",[(RS,"    return -this->get_rotation().transpose() * this->get_position();","    return this->get_rotation().transpose() * this->get_position();")]),
("p12-clearQ","P12",[(RS,"  Qc_ = Eigen::MatrixXd::Zero(this->dimP(), this->dimP());\n  column_id_to_corr_map_\n      = std::vector<std::shared_ptr<int>>(this->dimX(), nullptr);\n  body","  column_id_to_corr_map_\n      = std::vector<std::shared_ptr<int>>(this->dimX(), nullptr);\n  body")]),
("p12-ctor","P12",[(RS,"RobotState::RobotState(const Eigen::MatrixXd& X, const Eigen::VectorXd& Theta)\n    : X_(X), Theta_(Theta) {\n  P_ = Eigen::MatrixXd::Identity(3 * this->dimX() + this->dimTheta() - 6,\n                                 3 * this->dimX() + this->dimTheta() - 6);","RobotState::RobotState(const Eigen::MatrixXd& X, const Eigen::VectorXd& Theta)\n    : X_(X), Theta_(Theta) {\n  P_ = Eigen::MatrixXd::Identity(3 * this->dimX(), 3 * this->dimX() + this->dimTheta() - 6);")]),
]
