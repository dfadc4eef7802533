EK="src/imu_filter/imu_ang_vel_ekf.cpp"; IP="src/filter/inekf/propagation/imu_propagation.cpp"; ES="src/estimator/inekf_estimator.cpp"
LG="src/filter/inekf/correction/legged_kinematics_correction.cpp"; VC="src/filter/inekf/correction/velocity_correction.cpp"
def two(old,new,f=EK):
    return (f,old,new)
M=[
("wrongtest","P23",[(IP,'''  double accel_std = config_["noises"]["accelerometer_std"]
''','''  double accel_std = config_["noises"]["gyroscope_std"]
''')]),
("wrongread","P23",[(IP,'''                           ? config_["noises"]["accelerometer_bias_std"]''' if 0 else '''            ? config_["noises"]["accelerometer_bias_std"].as<double>()''','''            ? config_["noises"]["gyroscope_bias_std"].as<double>()''')]),
("default-q","P23",[(IP,"config_[\"settings\"][\"rotation_imu2body\"].as<std::vector<double>>()\n            : std::vector<double>({1, 0, 0, 0});","config_[\"settings\"][\"rotation_imu2body\"].as<std::vector<double>>()\n            : std::vector<double>({0, 0, 0, 1});")]),
("quat-order","P23",[(IP,"quat_imu2body[0], quat_imu2body[1], quat_imu2body[2], quat_imu2body[3]);\n  R_imu2body_ =","quat_imu2body[3], quat_imu2body[0], quat_imu2body[1], quat_imu2body[2]);\n  R_imu2body_ =")]),
("nosquare","P23",[(IP,"accel_bias_cov_ = accel_bias_std * accel_bias_std","accel_bias_cov_ = accel_bias_std")]),
("squaretwice","P23",[(VC,"covariance_ = std * std * Eigen","covariance_ = std * std * std * std * Eigen")]),
("swap-cov","P23",[(IP,"  gyro_cov_ = gyro_std * gyro_std","  gyro_cov_ = accel_std * gyro_std")]),
("vec-order","P23",[(IP,"t_imu2body_ << trans_imu2body[0], trans_imu2body[1], trans_imu2body[2];","t_imu2body_ << trans_imu2body[0], trans_imu2body[2], trans_imu2body[1];")]),
("swap-leg","P23",[(LG,"J * (encoder_std_val_ * encoder_std_val_) * J.transpose()\n          + kinematics_additive_std_val_ * kinematics_additive_std_val_","J * (kinematics_additive_std_val_ * encoder_std_val_) * J.transpose()\n          + kinematics_additive_std_val_ * kinematics_additive_std_val_")]),
("est-default","P23",[(ES,": 0.00001;",": 0.0001;")]),
("est-sq","P23 P09",[(ES,'''config["state"]["velocity_std_value"].as<double>(), 2)''','''config["state"]["velocity_std_value"].as<double>(), 1)''')]),
("prior-swap","P23",[(IP,"state.set_gyroscope_bias(bg0_);\n  state.set_accelerometer_bias(ba0_);","state.set_gyroscope_bias(ba0_);\n  state.set_accelerometer_bias(bg0_);")]),
("bcov-swap","P23",[(IP,"state.set_accelerometer_bias_covariance(accel_bias_cov_);","state.set_accelerometer_bias_covariance(accel_cov_);")]),
("upd-flag","P23",[(IP,'''config_["settings"]["enable_imu_bias_update"].as<bool>()
            : false;''','''config_["settings"]["enable_imu_bias_update"].as<bool>()
            : true;''')]),
("gyro-bias-noise","P23",[(EK,'''  double encoder_meas_noise_std
      = config_["noises"]["encoder_meas_noise_std"]
            ? config_["noises"]["encoder_meas_noise_std"].as<double>()
            : 0.1;

  ang_vel_and_bias_P_''','''  double encoder_meas_noise_std
      = config_["noises"]["encoder_meas_noise_std"]
            ? config_["noises"]["imu_meas_noise_std"].as<double>()
            : 0.1;

  ang_vel_and_bias_P_''')]),
("gyro5-thr","P23",[(EK,'''  // Set time threshold between propagation and correction
  t_thres_ = config_["settings"]["t_threshold"]
                 ? config_["settings"]["t_threshold"].as<double>()
                 : 0.03;

  // Set correction method:
  correction_method_ = CORRECTION_METHOD(
      config_["settings"]["correction_method"]
          ? config_["settings"]["correction_method"].as<int>()
          : 0);

  init_bias_size_ = config_["settings"]["init_bias_size"]
                        ? config_["settings"]["init_bias_size"].as<int>()
                        : 250;

  // Set the initial bias
''','''  // Set time threshold between propagation and correction
  t_thres_ = config_["settings"]["t_threshold"]
                 ? config_["settings"]["t_threshold"].as<double>()
                 : 0.3;

  // Set correction method:
  correction_method_ = CORRECTION_METHOD(
      config_["settings"]["correction_method"]
          ? config_["settings"]["correction_method"].as<int>()
          : 0);

  init_bias_size_ = config_["settings"]["init_bias_size"]
                        ? config_["settings"]["init_bias_size"].as<int>()
                        : 250;

  // Set the initial bias
''')]),
("vel-scale","P23",[(VC,": 1.0;",": 0.0;")]),
("vel-body","P23",[(VC,"R_vel2body_ = quarternion_vel2body.toRotationMatrix();","R_vel2body_ = quarternion_vel2body.inverse().toRotationMatrix();")]),
("other-bug","=P23",[(IP,"Eigen::MatrixXd P_pred = Phi * P * Phi.transpose() + Qd;","Eigen::MatrixXd P_pred = Phi.transpose() * P * Phi + Qd;")]),
("other-bug2","=P23",[(IP,"double dt = imu_measurement->get_time() - state.get_propagate_time();","double dt = imu_measurement->get_time() - state.get_time();")]),
# refactors
("r-helper","=P23 P24",[(VC,'''  double std = config_["noises"]["velocity_std"]
                   ? config_["noises"]["velocity_std"].as<double>()
                   : 0.1;
  covariance_ = std * std * Eigen::Matrix<double, 3, 3>::Identity();
''','''  const auto noises = config_["noises"];
  double std = 0.1;
  if (noises["velocity_std"]) {
    std = noises["velocity_std"].as<double>();
  }
  covariance_ = Eigen::Matrix3d::Identity() * std::pow(std, 2);
'''.replace("std::pow(std, 2)","(std * std)"))]),
("r-asdefault","=P23 P24",[(VC,'''  velocity_scale_ = config_["settings"]["velocity_scale"]
                   ? config_["settings"]["velocity_scale"].as<double>()
                   : 1.0;''','''  velocity_scale_ = config_["settings"]["velocity_scale"].as<double>(1.0);''')]),
("r-lambda","=P23 P24",[(LG,'''  // Set thresholds:
  t_diff_thres_
      = config_["settings"]["correction_time_threshold"]
            ? config_["settings"]["correction_time_threshold"].as<double>()
            : 0.3;''','''  // Set thresholds:
  auto get_or = [&config_](const char* section, const char* key, double d) {
    return config_[section][key] ? config_[section][key].as<double>() : d;
  };
  t_diff_thres_ = get_or("settings", "correction_time_threshold", 0.3);''')]),
("r-template","=P23 P24 P06",[(VC,'''    : Correction::Correction(sensor_data_buffer_mutex_ptr),''','''    : Correction::Correction(sensor_data_buffer_mutex_ptr),''' ),(VC,"namespace filter::inekf {\n",'''namespace filter::inekf {
namespace {
template <typename T>
T param(const YAML::Node& n, const std::string& key, const T& fallback) {
  if (n[key]) return n[key].as<T>();
  return fallback;
}
}    // namespace
'''),(VC,'''  t_diff_thres_
      = config_["settings"]["correction_time_threshold"]
            ? config_["settings"]["correction_time_threshold"].as<double>()
            : 0.3;''','''  t_diff_thres_ = param<double>(config_["settings"], "correction_time_threshold", 0.3);''')]),
]
