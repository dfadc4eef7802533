"""Behaviour-preserving bundles: ROS bridge, baseline, shipped programs, SEK3."""
RS = "ROS/drift/src/communication/ros_subscriber.cpp"
RP = "ROS/drift/src/communication/ros_publisher.cpp"
PH = "ROS/drift/include/communication/ros_publisher.h"
WO = "baselines/src/wheel_odometry/wheel_odometry.cpp"
HU = "ROS/drift/examples/husky.cpp"
SK = "src/math/se_k_3.cpp"
B = {}
HDR_I = '''  imu_measurement->set_header(
      imu_msg->header.seq,
      imu_msg->header.stamp.sec + imu_msg->header.stamp.nsec / 1000000000.0,
      imu_msg->header.frame_id);
'''
QUAT = '''  if (Eigen::Vector4d({imu_msg->orientation.w, imu_msg->orientation.x,
                       imu_msg->orientation.y, imu_msg->orientation.z})
          .norm()
      != 0) {
    imu_measurement->set_quaternion(
        imu_msg->orientation.w, imu_msg->orientation.x, imu_msg->orientation.y,
        imu_msg->orientation.z);
  }
'''
PUSHI = '''  mutex.get()->lock();
  imu_queue->push(imu_measurement);
  mutex.get()->unlock();
'''
# callbacks share helpers: stamp, optional orientation, locked push
B["rsub1"] = [
 (RS, '''namespace ros_wrapper {

''', '''namespace ros_wrapper {

namespace {
template<typename Header>
double Stamp(const Header& header) {
  return header.stamp.sec + header.stamp.nsec / 1000000000.0;
}

template<typename Measurement, typename Header>
std::shared_ptr<Measurement> MakeStamped(const Header& header) {
  auto m = std::make_shared<Measurement>();
  m->set_header(header.seq, Stamp(header), header.frame_id);
  return m;
}

template<typename Queue, typename Measurement>
void PushLocked(const std::shared_ptr<std::mutex>& mutex, Queue& queue,
                const std::shared_ptr<Measurement>& m) {
  std::lock_guard<std::mutex> guard(*mutex);
  queue->push(m);
}

void FillOrientation(const sensor_msgs::Imu& msg, ImuMeasurement<double>& m) {
  const auto& q = msg.orientation;
  const Eigen::Vector4d coeffs(q.w, q.x, q.y, q.z);
  if (coeffs.norm() == 0) {
    return;
  }
  m.set_quaternion(q.w, q.x, q.y, q.z);
}
}    // namespace
'''),
 (RS, '''  // Create an imu measurement object
  std::shared_ptr<ImuMeasurement<double>> imu_measurement(
      new ImuMeasurement<double>);

  // Set headers and time stamps
''' + HDR_I, '''  auto imu_measurement
      = MakeStamped<ImuMeasurement<double>>(imu_msg->header);
'''),
 (RS, '''                               imu_msg->linear_acceleration.z);
  // Set orientation estimate
  // Check if IMU has quaternion data:
''' + QUAT + '\n' + PUSHI + '''}

void ROSSubscriber::VelocityCallback(''', '''                               imu_msg->linear_acceleration.z);
  FillOrientation(*imu_msg, *imu_measurement);
  PushLocked(mutex, imu_queue, imu_measurement);
}

void ROSSubscriber::VelocityCallback('''),
 (RS, '''  double vr = (encoder_msg->velocity[1] + encoder_msg->velocity[3]) / 2.0
              * wheel_radius;
  double vl = (encoder_msg->velocity[0] + encoder_msg->velocity[2]) / 2.0
              * wheel_radius;
  double vx = (vr + vl) / 2.0;
  double omega_z = (vr - vl) / track_width;
''', '''  const auto& wheel = encoder_msg->velocity;
  const double vr = 0.5 * wheel_radius * (wheel[1] + wheel[3]);
  const double vl = 0.5 * wheel_radius * (wheel[0] + wheel[2]);
  const double vx = 0.5 * (vr + vl);
  const double omega_z = (vr - vl) / track_width;
'''),
 (RS, '''  vel_mutex.get()->lock();
  vel_queue->push(vel_measurement);
  vel_mutex.get()->unlock();

  ang_vel_mutex.get()->lock();
  ang_vel_queue->push(ang_vel_measurement);
  ang_vel_mutex.get()->unlock();
}

void ROSSubscriber::DifferentialEncoder2LinearVelocityCallback_Fetch(''', '''  PushLocked(ang_vel_mutex, ang_vel_queue, ang_vel_measurement);
  PushLocked(vel_mutex, vel_queue, vel_measurement);
}

void ROSSubscriber::DifferentialEncoder2LinearVelocityCallback_Fetch('''),
]
# loops instead of comma initialisers, Map, early size check, early return inverted
B["rsub2"] = [
 (RS, '''  js_msg << encoder_msg->position[0], encoder_msg->position[1],
      encoder_msg->position[2], encoder_msg->position[3],
      encoder_msg->position[4], encoder_msg->position[5],
      encoder_msg->position[6], encoder_msg->position[7],
      encoder_msg->position[8], encoder_msg->position[9],
      encoder_msg->position[10], encoder_msg->position[11];
''', '''  for (int i = 0; i < 12; ++i) {
    js_msg(i) = encoder_msg->position[i];
  }
'''),
 (RS, '''  jsvel_msg << encoder_msg->velocity[0], encoder_msg->velocity[1],
      encoder_msg->velocity[2], encoder_msg->velocity[3],
      encoder_msg->velocity[4], encoder_msg->velocity[5],
      encoder_msg->velocity[6], encoder_msg->velocity[7],
      encoder_msg->velocity[8], encoder_msg->velocity[9],
      encoder_msg->velocity[10], encoder_msg->velocity[11];
''', '''  const auto& rates = encoder_msg->velocity;
  for (size_t i = 0; i < 12; i++) jsvel_msg[i] = rates.at(i);
'''),
 (RS, '''  ct_msg << contact_msg->contacts[0].indicator,
      contact_msg->contacts[1].indicator, contact_msg->contacts[2].indicator,
      contact_msg->contacts[3].indicator;
''', '''  for (int leg = 0; leg < 4; ++leg) {
    ct_msg(leg) = contact_msg->contacts[leg].indicator;
  }
'''),
 (RS, '''  double vx = twist_se3(0, 3) / time_diff;
  double vy = twist_se3(1, 3) / time_diff;
  double vz = twist_se3(2, 3) / time_diff;

  vel_measurement->set_velocity(vx, vy, vz);
''', '''  const Eigen::Vector3d v = twist_se3.block<3, 1>(0, 3) / time_diff;
  vel_measurement->set_velocity(v.x(), v.y(), v.z());
'''),
 (RS, '''  auto& prev_odom_ptr = prev_odom_map_[odom_src_id];
  if (prev_odom_ptr == nullptr) {
    prev_odom_map_[odom_src_id] = odom_ptr;
    return;
  }
''', '''  auto& slot = prev_odom_map_[odom_src_id];
  const auto prev_odom_ptr = slot;
  slot = odom_ptr;
  if (!prev_odom_ptr) {
    return;
  }
'''),
 (RS, '''  // Set current odometry as previous odometry
  prev_odom_map_[odom_src_id] = odom_ptr;

''', ''),
 (RS, '''  Eigen::Matrix4d& odom_src_to_body = odom_src_to_body_map_[odom_src_id_];
  odom_src_to_body = Eigen::Matrix4d::Identity();
  Eigen::Quaternion<double> orientation_quat(
      rotation_odomsrc2body[0], rotation_odomsrc2body[1],
      rotation_odomsrc2body[2], rotation_odomsrc2body[3]);
  odom_src_to_body.block<3, 3>(0, 0) = orientation_quat.toRotationMatrix();
  odom_src_to_body.block<3, 1>(0, 3) = Eigen::Vector3d(
      {translation_odomsrc2body[0], translation_odomsrc2body[1],
       translation_odomsrc2body[2]});
''', '''  const Eigen::Quaterniond q(rotation_odomsrc2body[0],
                             rotation_odomsrc2body[1],
                             rotation_odomsrc2body[2],
                             rotation_odomsrc2body[3]);
  Eigen::Matrix4d T = Eigen::Matrix4d::Identity();
  T.topLeftCorner<3, 3>() = q.toRotationMatrix();
  for (int i = 0; i < 3; ++i) T(i, 3) = translation_odomsrc2body[i];
  odom_src_to_body_map_[odom_src_id_] = T;
'''),
 (RS, '''  if (contact_msg->contacts.size() < 4 || encoder_msg->position.size() < 12
      || encoder_msg->velocity.size() < 12) {
    return;
  }
''', '''  const bool complete = contact_msg->contacts.size() >= 4
                        && encoder_msg->position.size() >= 12
                        && encoder_msg->velocity.size() >= 12;
  if (!complete) {
    return;
  }
'''),
]
# mutex kept in a local, lambda callbacks
B["rsub3"] = [
 (RS, '''  // Initialize a new mutex for this subscriber
  mutex_list_.emplace_back(new std::mutex);

  // Create the subscriber
  subscriber_list_.push_back(nh_->subscribe<geometry_msgs::TwistStamped>(
      topic_name, 1000,
      boost::bind(&ROSSubscriber::VelocityCallback, this, _1,
                  mutex_list_.back(), vel_queue_ptr)));

  // Keep the ownership of the data queue in this class
  vel_queue_list_.push_back(vel_queue_ptr);

  return {vel_queue_ptr, mutex_list_.back()};
''', '''  auto vel_mutex = std::make_shared<std::mutex>();
  mutex_list_.push_back(vel_mutex);
  vel_queue_list_.push_back(vel_queue_ptr);

  auto callback = boost::bind(&ROSSubscriber::VelocityCallback, this, _1,
                              vel_mutex, vel_queue_ptr);
  subscriber_list_.push_back(nh_->subscribe<geometry_msgs::TwistStamped>(
      topic_name, 1000, callback));

  return {vel_queue_ptr, vel_mutex};
'''),
 (RS, '''void ROSSubscriber::StartSubscribingThread() {
  subscribing_thread_ = std::thread([this] { this->RosSpin(); });
  thread_started_ = true;
}
''', '''void ROSSubscriber::StartSubscribingThread() {
  thread_started_ = true;
  subscribing_thread_ = std::thread(&ROSSubscriber::RosSpin, this);
}
'''),
]
# publisher: helpers for the message parts, scoped lock, loops
B["rpub1"] = [
 (RP, '''namespace ros_wrapper {
''', '''namespace ros_wrapper {
namespace {
template<typename Pose>
void FillPose(Pose& pose, const Eigen::Vector3d& p, const Eigen::Matrix3d& R) {
  const Eigen::Quaterniond q(R);
  pose.orientation.w = q.w();
  pose.orientation.x = q.x();
  pose.orientation.y = q.y();
  pose.orientation.z = q.z();
  pose.position.x = p.x();
  pose.position.y = p.y();
  pose.position.z = p.z();
}
}    // namespace
'''),
 (RP, '''  robot_state_queue_mutex_.get()->lock();
  if (robot_state_queue_ptr_->empty()) {
    robot_state_queue_mutex_.get()->unlock();
    return;
  }
  const std::shared_ptr<RobotState> state_ptr = robot_state_queue_ptr_->front();
  robot_state_queue_ptr_->pop();
  robot_state_queue_mutex_.get()->unlock();

  const RobotState& state = *state_ptr.get();
''', '''  std::shared_ptr<RobotState> state_ptr;
  {
    std::lock_guard<std::mutex> guard(*robot_state_queue_mutex_);
    if (robot_state_queue_ptr_->size() > 0) {
      state_ptr = std::move(robot_state_queue_ptr_->front());
      robot_state_queue_ptr_->pop();
    }
  }
  if (!state_ptr) return;
  const RobotState& state = *state_ptr;
'''),
 (RP, '''  pose_msg.pose.pose.position.x
      = state.get_world_position()(0) - first_pose_[0];
  pose_msg.pose.pose.position.y
      = state.get_world_position()(1) - first_pose_[1];
  pose_msg.pose.pose.position.z
      = state.get_world_position()(2) - first_pose_[2];

  Eigen::Quaterniond quat(state.get_world_rotation());
  pose_msg.pose.pose.orientation.w = quat.w();
  pose_msg.pose.pose.orientation.x = quat.x();
  pose_msg.pose.pose.orientation.y = quat.y();
  pose_msg.pose.pose.orientation.z = quat.z();
''', '''  Eigen::Vector3d position = state.get_world_position();
  for (int i = 0; i < 3; ++i) {
    position(i) -= first_pose_[i];
  }
  FillPose(pose_msg.pose.pose, position, state.get_world_rotation());
'''),
 (RP, '''  const int cov_idx[6] = {6, 7, 8, 0, 1, 2};
  for (int i = 0; i < 6; i++) {
    for (int j = 0; j < 6; j++) {
      pose_msg.pose.covariance[i * 6 + j] = cov(cov_idx[i], cov_idx[j]);
    }
  }
''', '''  Eigen::Matrix<double, 6, 6> pose_cov;
  pose_cov.topLeftCorner<3, 3>() = cov.block<3, 3>(6, 6);
  pose_cov.topRightCorner<3, 3>() = cov.block<3, 3>(6, 0);
  pose_cov.bottomLeftCorner<3, 3>() = cov.block<3, 3>(0, 6);
  pose_cov.bottomRightCorner<3, 3>() = cov.block<3, 3>(0, 0);
  for (int k = 0; k < 36; ++k) {
    pose_msg.pose.covariance[k] = pose_cov(k / 6, k % 6);
  }
'''),
]
B["rpub2"] = [
 (RP, '''void ROSPublisher::PathPublish() {
  std::lock_guard<std::mutex> lock(poses_mutex_);
  if (poses_.size() == 0) {
    return;
  }
  nav_msgs::Path path_msg;
''', '''void ROSPublisher::PathPublish() {
  const std::lock_guard<std::mutex> guard(poses_mutex_);
  if (poses_.empty()) return;
  nav_msgs::Path path_msg;
'''),
 (RP, '''  while (ros::ok()) {
    if (enable_slip_publisher_) {
      SlipPublish();
      SlipFlagPublish();
    }
    PosePublish();
    loop_rate.sleep();
  }
''', '''  for (; ros::ok(); loop_rate.sleep()) {
    if (enable_slip_publisher_) {
      SlipPublish();
      SlipFlagPublish();
    }
    PosePublish();
  }
'''),
 (RP, '''  enable_slip_publisher_
      = config["publishers"]["enable_slip_publisher"]
            ? config["publishers"]["enable_slip_publisher"].as<bool>()
            : false;
''', '''  const YAML::Node pub = config["publishers"];
  enable_slip_publisher_ = false;
  if (pub["enable_slip_publisher"]) {
    enable_slip_publisher_ = pub["enable_slip_publisher"].as<bool>();
  }
'''),
 (RP, '''  pose_publish_rate_ = config["publishers"]["pose_publish_rate"].as<double>();
  path_publish_rate_ = config["publishers"]["path_publish_rate"].as<double>();
''', '''  for (auto entry : {std::make_pair("pose_publish_rate", &pose_publish_rate_),
                     std::make_pair("path_publish_rate", &path_publish_rate_)}) {
    *entry.second = config["publishers"][entry.first].as<double>();
  }
'''),
]
# wheel odometry: scoped locks, early returns, SE_2(3) built by hand
B["wo1"] = [
 (WO, '''  vel_queue_mutex_ptr_.get()->lock();
  ang_vel_queue_mutex_ptr_.get()->lock();
  if (vel_queue_ptr_->empty() || ang_vel_queue_ptr_->empty()) {
    vel_queue_mutex_ptr_.get()->unlock();
    ang_vel_queue_mutex_ptr_.get()->unlock();
    return;
  } else {
    vel_measurement = vel_queue_ptr_->front();
    vel_queue_ptr_->pop();
    vel_queue_mutex_ptr_.get()->unlock();
    ang_vel_measurement = ang_vel_queue_ptr_->front();
    ang_vel_queue_ptr_->pop();
    ang_vel_queue_mutex_ptr_.get()->unlock();
  }
''', '''  {
    std::scoped_lock guard(*vel_queue_mutex_ptr_, *ang_vel_queue_mutex_ptr_);
    const bool both = !vel_queue_ptr_->empty() && !ang_vel_queue_ptr_->empty();
    if (!both) {
      return;
    }
    vel_measurement = vel_queue_ptr_->front();
    ang_vel_measurement = ang_vel_queue_ptr_->front();
    vel_queue_ptr_->pop();
    ang_vel_queue_ptr_->pop();
  }
'''),
 (WO, '''    // Get the velocity measurement
    Eigen::Vector3d vel = vel_measurement->get_velocity();

    // Get the angular velocity measurement
    Eigen::Vector3d ang_vel = ang_vel_measurement->get_angular_velocity();

    // Get the time difference between the current and previous measurement
    double dt = t - prev_t_;

    // Update the previous time stamp
    prev_t_ = t;

    Integrate(vel, ang_vel, dt);

    LogPose();
''', '''    const double last = std::exchange(prev_t_, t);
    Integrate(vel_measurement->get_velocity(),
              ang_vel_measurement->get_angular_velocity(), t - last);
    LogPose();
'''),
 (WO, '''  Eigen::MatrixXd X = Eigen::MatrixXd::Identity(5, 5);
  X.block<3, 3>(0, 0) = R * exp_omega;
  X.block<3, 1>(0, 3) = R * v_mea;
  X.block<3, 1>(0, 4) = p + R * v_mea * dt;
''', '''  const Eigen::Vector3d v_world = R * v_mea;
  Eigen::MatrixXd X(5, 5);
  X.setIdentity();
  X.topLeftCorner(3, 3) = R * exp_omega;
  X.col(3).head(3) = v_world;
  X.col(4).head(3) = p + dt * v_world;
'''),
 (WO, '''  double time_diff = state_.get_time() - last_pub_t_;
  if (enable_pose_logger_ && time_diff >= 1.0 / pose_log_rate_) {
    Eigen::Quaterniond state_quat(state_.get_world_rotation());
    outfile_ << state_.get_time() << " " << state_.get_world_position()(0)
             << " " << state_.get_world_position()(1) << " "
             << state_.get_world_position()(2) << " " << state_quat.x() << " "
             << state_quat.y() << " " << state_quat.z() << " " << state_quat.w()
             << std::endl
             << std::flush;
    last_pub_t_ = state_.get_time();
  }
''', '''  if (!enable_pose_logger_) return;
  const double now = state_.get_time();
  if (now - last_pub_t_ < 1.0 / pose_log_rate_) return;
  const Eigen::Vector3d p = state_.get_world_position();
  const Eigen::Quaterniond q(state_.get_world_rotation());
  outfile_ << now;
  for (int i = 0; i < 3; ++i) outfile_ << " " << p(i);
  for (int i = 0; i < 4; ++i) outfile_ << ' ' << q.coeffs()(i);
  outfile_ << '\\n' << std::flush;
  last_pub_t_ = now;
'''),
]
# a shipped program: structured bindings, condition order, helper lambda
B["main1"] = [
 (HU, '''  auto qimu_and_mutex = ros_sub.AddIMUSubscriber(imu_topic);
  auto qimu = qimu_and_mutex.first;
  auto qimu_mutex = qimu_and_mutex.second;
''', '''  auto [qimu, qimu_mutex] = ros_sub.AddIMUSubscriber(imu_topic);
'''),
 (HU, '''  auto qv_and_mutex = ros_sub.AddDifferentialDriveVelocitySubscriber(
      wheel_encoder_topic, wheel_radius);
  auto qv = qv_and_mutex.first;
  auto qv_mutex = qv_and_mutex.second;
''', '''  VelocityQueuePtr qv;
  std::shared_ptr<std::mutex> qv_mutex;
  std::tie(qv, qv_mutex) = ros_sub.AddDifferentialDriveVelocitySubscriber(
      wheel_encoder_topic, wheel_radius);
'''),
 (HU, '''  while (ros::ok()) {
    // Step behavior
    if (inekf_estimator.is_enabled()) {
      inekf_estimator.RunOnce();
    } else {
      if (inekf_estimator.BiasInitialized()) {
        inekf_estimator.InitState();
      } else {
        inekf_estimator.InitBias();
      }
    }
    ros::spinOnce();
  }
''', '''  for (; ros::ok(); ros::spinOnce()) {
    if (!inekf_estimator.is_enabled()) {
      if (!inekf_estimator.BiasInitialized()) {
        inekf_estimator.InitBias();
        continue;
      }
      inekf_estimator.InitState();
      continue;
    }
    inekf_estimator.RunOnce();
  }
'''),
 (HU, '''  std::string project_dir{file.substr(0, file.rfind("ROS/drift/examples/"))};
''', '''  const std::size_t cut = file.rfind("ROS/drift/examples/");
  const std::string project_dir = file.substr(0, cut);
'''),
]
B["main2"] = [
 (HU, '''int main(int argc, char** argv) {
''', '''namespace {
void Step(InekfEstimator& estimator) {
  if (estimator.is_enabled()) {
    estimator.RunOnce();
    return;
  }
  if (estimator.BiasInitialized())
    estimator.InitState();
  else
    estimator.InitBias();
}

std::string Topic(const YAML::Node& config, const std::string& name) {
  return config["subscribers"][name].as<std::string>();
}
}    // namespace

int main(int argc, char** argv) {
'''),
 (HU, '''    // Step behavior
    if (inekf_estimator.is_enabled()) {
      inekf_estimator.RunOnce();
    } else {
      if (inekf_estimator.BiasInitialized()) {
        inekf_estimator.InitState();
      } else {
        inekf_estimator.InitBias();
      }
    }
''', '''    Step(inekf_estimator);
'''),
 (HU, '''  std::string imu_topic = config["subscribers"]["imu_topic"].as<std::string>();
  std::string wheel_encoder_topic
      = config["subscribers"]["wheel_encoder_topic"].as<std::string>();
''', '''  const std::string imu_topic = Topic(config, "imu_topic");
  const std::string wheel_encoder_topic = Topic(config, "wheel_encoder_topic");
'''),
]
B["sek"] = [
 (SK, '''  SEK3 Y;
  Y.set_R(this->get_R().transpose());
  Y.set_p(-this->get_R().transpose() * this->get_p());
  Y.set_v(-this->get_R().transpose() * this->get_v());
  Y.set_K(this->get_K());
  return Y;
''', '''  const Eigen::MatrixXd Rt = get_R().transpose();
  SEK3 inv(Rt, -(Rt * get_p()), -(Rt * get_v()));
  inv.set_K(K_);
  return inv;
'''),
 (SK, '''  SEK3 Y;
  // TODO: check size of X, if not same, throw error
  Eigen::MatrixXd X1 = X.get_X();
  Y.set_X(this->get_X() * X1);
  Y.set_K(this->get_K());
  return Y;
''', '''  SEK3 product(X_ * X.X_);
  product.K_ = K_;
  return product;
'''),
]
