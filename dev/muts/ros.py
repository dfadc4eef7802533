S="ROS/drift/src/communication/ros_subscriber.cpp"; P="ROS/drift/src/communication/ros_publisher.cpp"; SH="ROS/drift/include/communication/ros_subscriber.h"
M=[]
def m(n,e,*r): M.append((n,e,list(r)))
m("pub-quat","P29",(P,"orientation.w = quat.w()","orientation.w = quat.x()"))
m("pub-quat-coeffs","=P29",(P,'''  pose_msg.pose.pose.orientation.x = quat.x();
  pose_msg.pose.pose.orientation.y = quat.y();
  pose_msg.pose.pose.orientation.z = quat.z();
''','''  geometry_msgs::Quaternion& o = pose_msg.pose.pose.orientation;
  o.x = quat.x();
  o.y = quat.y();
  o.z = quat.z();
'''))
m("pub-body-rot","P29",(P,"quat(state.get_world_rotation())","quat(state.get_rotation())"))
m("pub-vel","P29",(P,"state.get_world_position()(1) -","state.get_world_velocity()(1) -"))
m("pub-stamp-now","P29",(P,"pose_msg.header.stamp = ros::Time().fromSec(state.get_time())","pose_msg.header.stamp = ros::Time::now()"))
m("pub-prop-time","P29",(P,"pose_msg.header.stamp = ros::Time().fromSec(state.get_time())","pose_msg.header.stamp = ros::Time().fromSec(state.get_propagate_time())"))
m("pub-cov-T","P29",(P,"covariance[i * 6 + j]","covariance[i * 6 + i]"))
m("pub-cov-sym","=P29",(P,"covariance[i * 6 + j]\n          = cov(cov_idx[i], cov_idx[j])","covariance[i * 6 + j]\n          = cov(cov_idx[j], cov_idx[i])") if 0 else (P,"for (int j = 0; j < 6; j++)","for (int j = 5; j >= 0; --j)"))
m("pub-cov-5","P29",(P,"for (int j = 0; j < 6; j++)","for (int j = 0; j < 5; j++)"))
m("pub-nolock-pop","P29",(P,'''  robot_state_queue_ptr_->pop();
  robot_state_queue_mutex_.get()->unlock();''','''  robot_state_queue_mutex_.get()->unlock();
  robot_state_queue_ptr_->pop();'''))
m("pub-lockguard","=P29",(P,'''  // Get the first pose
  robot_state_queue_mutex_.get()->lock();
  if (robot_state_queue_ptr_->empty()) {
    robot_state_queue_mutex_.get()->unlock();
    return;
  }
  const std::shared_ptr<RobotState> state_ptr = robot_state_queue_ptr_->front();
  robot_state_queue_ptr_->pop();
  robot_state_queue_mutex_.get()->unlock();
''','''  std::shared_ptr<RobotState> state_ptr;
  {
    std::lock_guard<std::mutex> guard(*robot_state_queue_mutex_);
    if (robot_state_queue_ptr_->size() == 0) {
      return;
    }
    state_ptr = std::move(robot_state_queue_ptr_->front());
    robot_state_queue_ptr_->pop();
  }
'''))
m("pub-early-unlock","P29",(P,'''    robot_state_queue_mutex_.get()->unlock();
    return;''','''    return;'''))
m("pub-no-pop","P29",(P,"  robot_state_queue_ptr_->pop();\n",""))
m("pub-seq","P29",(P,"  pose_seq_++;\n","  path_seq_++;\n"))
m("pub-seq-pre","=P29",(P,'''  pose_pub_.publish(pose_msg);
  pose_seq_++;
''','''  ++pose_seq_;
  pose_pub_.publish(pose_msg);
'''))
m("pub-skip-mod","P29",(P,"if (int(pose_seq_) % pose_skip == 0)","if (int(pose_seq_) % pose_skip != 0)"))
m("pub-skip-inv","P29",(P,'''pose_publish_rate_
                  / path_publish_rate_''','''path_publish_rate_
                  / pose_publish_rate_'''))
m("pub-skip-max","=P29",(P,'''  if (pose_skip < 1) {
    pose_skip = 1;
  }
''','''  pose_skip = std::max(1, pose_skip);
'''))
m("pub-skip-0","P29",(P,'''  if (pose_skip < 1) {
    pose_skip = 1;
  }
''',''))
m("pub-path-nolock","P29",(P,'''    std::lock_guard<std::mutex> lock(poses_mutex_);
    poses_.push_back''','''    poses_.push_back'''))
m("pub-path-nolock2","P29",(P,'''  std::lock_guard<std::mutex> lock(poses_mutex_);
  if (poses_''','''  if (poses_'''))
m("pub-path-lock-early","=P29",(P,'''  std::lock_guard<std::mutex> lock(poses_mutex_);
  if (poses_.size() == 0) {
    return;
  }
  nav_msgs::Path path_msg;
''','''  nav_msgs::Path path_msg;
  std::unique_lock<std::mutex> lock(poses_mutex_);
  if (poses_.empty()) {
    return;
  }
'''))
m("pub-path-unlock","=P29",(P,'''  path_msg.poses = poses_;
''','''  path_msg.poses = poses_;
  lock.unlock();
'''),(P,'''  std::lock_guard<std::mutex> lock(poses_mutex_);
  if (poses_''','''  std::unique_lock<std::mutex> lock(poses_mutex_);
  if (poses_'''))
m("pub-path-stamp","P29",(P,"poses_.back().header.stamp","poses_.front().header.stamp"))
m("pub-path-clear","P29",(P,"  path_seq_++;\n","  path_seq_++;\n  poses_.clear();\n") if 0 else (P,"  path_seq_++;\n",""))
m("pub-path-frame","P29",(P,"path_msg.header.frame_id = pose_frame_;",""))
m("pub-rate-swap","P29",(P,"ros::Rate loop_rate(path_publish_rate_);","ros::Rate loop_rate(pose_publish_rate_);"))
m("pub-cfg-topic","P29",(P,'config["publishers"]["path_publish_topic"]','config["publishers"]["pose_publish_topic"]'))
m("pub-one-thread","P29",(P,"std::thread([this] { this->PathPublishingThread(); })","std::thread([this] { this->PosePublishingThread(); })"))
m("pub-member-thread","=P29",(P,"std::thread([this] { this->PathPublishingThread(); })","std::thread(&ROSPublisher::PathPublishingThread, this)"))
m("pub-started","P29",(P,"\n  thread_started_ = true;\n","\n"))
m("pub-nojoin","P29",(P,"    path_publishing_thread_.join();\n",""))
m("pub-joinable","=P29",(P,'''  if (thread_started_ == true) {
    pose_publishing_thread_.join();
    path_publishing_thread_.join();
  }
''','''  if (pose_publishing_thread_.joinable()) {
    pose_publishing_thread_.join();
  }
  if (path_publishing_thread_.joinable()) {
    path_publishing_thread_.join();
  }
'''))
m("pub-loop-forever","P29",(P,'''  ros::Rate loop_rate(path_publish_rate_);
  while (ros::ok()) {''','''  ros::Rate loop_rate(path_publish_rate_);
  while (true) {'''))
m("pub-first","P29",(P,"first_pose_ = {0, 0, 0};\n\n  std::cout << \"pose_topic: \" << pose_topic << \", path_topic: \" << path_topic\n            << std::endl;\n  std::cout << \"path publish rate: \" << path_publish_rate_ << std::endl;\n\n  pose_pub_ = nh_->advertise<geometry_msgs::PoseWithCovarianceStamped>(\n      pose_topic, 1000);\n  path_pub_ = nh_->advertise<nav_msgs::Path>(path_topic, 1000);\n}\n\nROSPublisher::~","first_pose_ = {0, 0, 1};\n\n  pose_pub_ = nh_->advertise<geometry_msgs::PoseWithCovarianceStamped>(\n      pose_topic, 1000);\n  path_pub_ = nh_->advertise<nav_msgs::Path>(path_topic, 1000);\n}\n\nROSPublisher::~"))
# subscriber
m("sub-imu-swap","P29",(S,"imu_msg->orientation.w, imu_msg->orientation.x, imu_msg->orientation.y,\n        imu_msg->orientation.z);\n  }\n\n  mutex","imu_msg->orientation.x, imu_msg->orientation.y, imu_msg->orientation.z,\n        imu_msg->orientation.w);\n  }\n\n  mutex"))
m("sub-odom-order","P29",(S,"vel_measurement->set_velocity(vx, vy, vz);","vel_measurement->set_velocity(vx, vz, vy);"))
m("sub-odom-inv","P29",(S,"* prev_transformation.inverse()\n","* prev_transformation\n"))
m("sub-odom-prev","P29",(S,"  // Set current odometry as previous odometry\n  prev_odom_map_[odom_src_id] = odom_ptr;\n","  prev_odom_map_[0] = odom_ptr;\n"))
m("sub-odom-id","P29",(S,"  odom_src_id_ += 1;\n",""))
m("sub-odom-capture","P29",(S,"mutex_list_.back(), vel_queue_ptr, odom_src_id_)));","mutex_list_.back(), vel_queue_ptr, boost::ref(odom_src_id_))));"))
m("sub-odom-dt","P29",(S,"  if (time_diff <= 0) {","  if (time_diff < 0) {"))
m("sub-odom-ref","P29",(S,"  auto& prev_odom_ptr = prev_odom_map_[odom_src_id];\n","  static OdomMeasurementPtr prev_odom_ptr;\n"))
m("sub-legs-order","P29",(S,"encoder_msg->position[3], encoder_msg->position[4],\n","encoder_msg->position[4], encoder_msg->position[3],\n") if 0 else (S,"encoder_msg->position[2], encoder_msg->position[3],","encoder_msg->position[3], encoder_msg->position[2],"))
m("sub-legs-guard","P29",(S,"encoder_msg->position.size() < 12","encoder_msg->position.size() < 11"))
m("sub-legs-guard2","P29",(S,"contact_msg->contacts.size() < 4 ||","contact_msg->contacts.size() <= 4 ||"))
m("sub-husky-avg","P29",(S,"  double vr = (encoder_msg->velocity[1] + encoder_msg->velocity[3]) / 2.0\n              * wheel_radius;\n  double vl = (encoder_msg->velocity[0] + encoder_msg->velocity[2]) / 2.0\n              * wheel_radius;\n  double vx = (vr + vl) / 2.0;\n\n  vel_measurement->set_velocity(vx, 0, 0);\n  mutex","  double vr = (encoder_msg->velocity[1] + encoder_msg->velocity[3]) / 2.0\n              * wheel_radius;\n  double vl = (encoder_msg->velocity[0] + encoder_msg->velocity[2])\n              * wheel_radius;\n  double vx = (vr + vl) / 2.0;\n\n  vel_measurement->set_velocity(vx, 0, 0);\n  mutex"))
m("sub-map-gone","=P29",(S,"odom_src_to_body_map_.at(odom_src_id)","odom_src_to_body_map_.find(odom_src_id)->second"))
m("sub-detach","P29",(S,"    subscribing_thread_.join();","    subscribing_thread_.detach();"))
m("sub-nowait","P29",(S,"  ros::waitForShutdown();\n","  spinner.stop();\n"))

# refactorings
m("r-imu-stamp-helper","=P29",(S,"void ROSSubscriber::IMUCallback(","""namespace {
template <typename MsgPtr>
double StampOf(const MsgPtr& msg) {
  const auto& h = msg->header;
  return h.stamp.toSec();
}

template <typename T, typename Q>
void Enqueue(const std::shared_ptr<std::mutex>& mtx, Q& queue, const T& item) {
  std::lock_guard<std::mutex> guard(*mtx);
  queue->push(item);
}
}    // namespace

void ROSSubscriber::IMUCallback("""),(S,"""  // Create an imu measurement object
  std::shared_ptr<ImuMeasurement<double>> imu_measurement(
      new ImuMeasurement<double>);

  // Set headers and time stamps
  imu_measurement->set_header(
      imu_msg->header.seq,
      imu_msg->header.stamp.sec + imu_msg->header.stamp.nsec / 1000000000.0,
      imu_msg->header.frame_id);
  // Set angular velocity
  imu_measurement->set_angular_velocity(imu_msg->angular_velocity.x,
                                        imu_msg""","""  auto imu_measurement = std::make_shared<ImuMeasurement<double>>();

  imu_measurement->set_header(imu_msg->header.seq, StampOf(imu_msg),
                              imu_msg->header.frame_id);
  // Set angular velocity
  imu_measurement->set_angular_velocity(imu_msg->angular_velocity.x,
                                        imu_msg"""),(S,"""  if (Eigen::Vector4d({imu_msg->orientation.w, imu_msg->orientation.x,
                       imu_msg->orientation.y, imu_msg->orientation.z})
          .norm()
      != 0) {
    imu_measurement->set_quaternion(
        imu_msg->orientation.w, imu_msg->orientation.x, imu_msg->orientation.y,
        imu_msg->orientation.z);
  }

  mutex.get()->lock();
  imu_queue->push(imu_measurement);
  mutex.get()->unlock();
}

void ROSSubscriber::VelocityCallback(""","""  const geometry_msgs::Quaternion& o = imu_msg->orientation;
  const bool has_orientation = o.w != 0 || o.x != 0 || o.y != 0 || o.z != 0;
  if (has_orientation) {
    imu_measurement->set_quaternion(o.w, o.x, o.y, o.z);
  }

  Enqueue(mutex, imu_queue, imu_measurement);
}

void ROSSubscriber::VelocityCallback("""))
m("r-imu-lambda","=P29",(S,"""      boost::bind(&ROSSubscriber::IMUCallback, this, _1, mutex_list_.back(),
                  imu_queue_ptr)));

  // Keep the ownership of the data queue in this class
  imu_queue_list_.push_back(imu_queue_ptr);

  return {imu_queue_ptr, mutex_list_.back()};
}

IMUQueuePair ROSSubscriber::AddFetch""","""      [this, mtx = mutex_list_.back(), imu_queue_ptr](
          const boost::shared_ptr<const sensor_msgs::Imu>& msg) mutable {
        IMUCallback(msg, mtx, imu_queue_ptr);
      }));

  // Keep the ownership of the data queue in this class
  imu_queue_list_.push_back(imu_queue_ptr);

  return std::make_pair(imu_queue_ptr, mutex_list_.back());
}

IMUQueuePair ROSSubscriber::AddFetch"""))
m("r-imu-lambda-bad","P29",(S,"""      boost::bind(&ROSSubscriber::IMUCallback, this, _1, mutex_list_.back(),
                  imu_queue_ptr)));

  // Keep the ownership of the data queue in this class
  imu_queue_list_.push_back(imu_queue_ptr);

  return {imu_queue_ptr, mutex_list_.back()};
}

IMUQueuePair ROSSubscriber::AddFetch""","""      [&](const boost::shared_ptr<const sensor_msgs::Imu>& msg) {
        IMUCallback(msg, mutex_list_.back(), imu_queue_ptr);
      }));

  // Keep the ownership of the data queue in this class
  imu_queue_list_.push_back(imu_queue_ptr);

  return {imu_queue_ptr, mutex_list_.back()};
}

IMUQueuePair ROSSubscriber::AddFetch"""))
m("r-legs-loops","=P29",(S,"""  ct_msg << contact_msg->contacts[0].indicator,
      contact_msg->contacts[1].indicator, contact_msg->contacts[2].indicator,
      contact_msg->contacts[3].indicator;
""","""  for (int leg = 0; leg < 4; ++leg) {
    ct_msg(leg) = contact_msg->contacts[leg].indicator;
  }
"""),(S,"""  js_msg << encoder_msg->position[0], encoder_msg->position[1],
      encoder_msg->position[2], encoder_msg->position[3],
      encoder_msg->position[4], encoder_msg->position[5],
      encoder_msg->position[6], encoder_msg->position[7],
      encoder_msg->position[8], encoder_msg->position[9],
      encoder_msg->position[10], encoder_msg->position[11];
""","""  for (int j = 0; j < 12; j++) js_msg[j] = encoder_msg->position[j];
"""),(S,"""  Eigen::Matrix<double, 12, 1> jsvel_msg;
  jsvel_msg << encoder_msg->velocity[0], encoder_msg->velocity[1],
      encoder_msg->velocity[2], encoder_msg->velocity[3],
      encoder_msg->velocity[4], encoder_msg->velocity[5],
      encoder_msg->velocity[6], encoder_msg->velocity[7],
      encoder_msg->velocity[8], encoder_msg->velocity[9],
      encoder_msg->velocity[10], encoder_msg->velocity[11];
""","""  const Eigen::Matrix<double, 12, 1> jsvel_msg
      = Eigen::Map<const Eigen::Matrix<double, 12, 1>>(
          encoder_msg->velocity.data());
"""))
m("r-legs-helper","=P29",(S,"""  if (contact_msg->contacts.size() < 4 || encoder_msg->position.size() < 12
      || encoder_msg->velocity.size() < 12) {
    return;
  }
""","""  const bool complete = contact_msg->contacts.size() >= 4
                        && encoder_msg->position.size() >= 12
                        && encoder_msg->velocity.size() >= 12;
  if (!complete) {
    ROS_WARN("incomplete message");
    return;
  }
"""))
m("r-odom","=P29",(S,"""  auto& prev_odom_ptr = prev_odom_map_[odom_src_id];
  if (prev_odom_ptr == nullptr) {
    prev_odom_map_[odom_src_id] = odom_ptr;
    return;
  }
""","""  const OdomMeasurementPtr prev_odom_ptr = prev_odom_map_[odom_src_id];
  prev_odom_map_[odom_src_id] = odom_ptr;
  if (!prev_odom_ptr) {
    return;
  }
"""),(S,"""  // Set current odometry as previous odometry
  prev_odom_map_[odom_src_id] = odom_ptr;
""",""),(S,"""  double vx = twist_se3(0, 3) / time_diff;
  double vy = twist_se3(1, 3) / time_diff;
  double vz = twist_se3(2, 3) / time_diff;

  vel_measurement->set_velocity(vx, vy, vz);
""","""  const Eigen::Vector3d v = twist_se3.block<3, 1>(0, 3) / time_diff;
  vel_measurement->set_velocity(v.x(), v.y(), v.z());
"""))
m("r-odom-swap","=P29",(S,"""  auto& prev_odom_ptr = prev_odom_map_[odom_src_id];
  if (prev_odom_ptr == nullptr) {
    prev_odom_map_[odom_src_id] = odom_ptr;
    return;
  }
""","""  auto last = odom_ptr;
  std::swap(prev_odom_map_[odom_src_id], last);
  const auto& prev_odom_ptr = last;
  if (prev_odom_ptr == nullptr) {
    return;
  }
"""),(S,"""  // Set current odometry as previous odometry
  prev_odom_map_[odom_src_id] = odom_ptr;
""",""))
m("r-odom-after","P29",(S,"""  // Set current odometry as previous odometry
  prev_odom_map_[odom_src_id] = odom_ptr;

  // The velocity is not defined without elapsed time
  if (time_diff <= 0) {
    return;
  }
""","""  // The velocity is not defined without elapsed time
  if (time_diff <= 0) {
    return;
  }
"""))
m("r-pub-fill","=P29",(P,"""void ROSPublisher::PosePublish() {""","""static void FillPose(const RobotState& state, geometry_msgs::Pose& pose) {
  const Eigen::Vector3d p = state.get_world_position();
  const Eigen::Matrix3d R = state.get_world_rotation();
  const Eigen::Quaterniond q(R);
  pose.position.x = p.x();
  pose.position.y = p.y();
  pose.position.z = p.z();
  pose.orientation.w = q.w();
  pose.orientation.x = q.x();
  pose.orientation.y = q.y();
  pose.orientation.z = q.z();
}

void ROSPublisher::PosePublish() {"""),(P,"""  pose_msg.pose.pose.position.x
      = state.get_world_position()(0) - first_pose_[0];
  pose_msg.pose.pose.position.y
      = state.get_world_position()(1) - first_pose_[1];
  pose_msg.pose.pose.position.z
      = state.get_world_position()(2) - first_pose_[2];

  Eigen::Quaterniond quat(state.get_world_rotation());
  pose_msg.pose.pose.orientation.w = quat.w();
  pose_msg.pose.pose.orientation.x = quat.x();
  pose_msg.pose.pose.orientation.y = quat.y();
  pose_msg.pose.pose.orientation.z = quat.z();
""","""  FillPose(state, pose_msg.pose.pose);
"""),(P,"""  for (int i = 0; i < 6; i++) {
    for (int j = 0; j < 6; j++) {
      pose_msg.pose.covariance[i * 6 + j] = cov(cov_idx[i], cov_idx[j]);
    }
  }
""","""  auto* out = pose_msg.pose.covariance.data();
  for (int i : cov_idx) {
    for (int j : cov_idx) {
      *out++ = cov(i, j);
    }
  }
""") if 0 else (P,"""      pose_msg.pose.covariance[i * 6 + j] = cov(cov_idx[i], cov_idx[j]);
""","""      const int row = (i + 2) % 2 == 0 ? cov_idx[i] : cov_idx[i];
      pose_msg.pose.covariance.at(6 * i + j) = cov(row, cov_idx[j]);
"""))
m("r-pub-counter","=P29",(P,"""  pose_pub_.publish(pose_msg);
  pose_seq_++;
""","""  pose_pub_.publish(pose_msg);
  const uint32_t count = ++pose_seq_;
"""),(P,"if (int(pose_seq_) % pose_skip == 0) {","const bool keep = count % static_cast<uint32_t>(pose_skip) == 0;\n  if (keep) {"))
m("r-pub-member-skip","=P29",(P,"""  int pose_skip = pose_publish_rate_
                  / path_publish_rate_;    // Pose publish rate must be faster
                                           // than path publish rate
  if (pose_skip < 1) {
    pose_skip = 1;
  }
  if (int(pose_seq_) % pose_skip == 0) {""","""  const int ratio = static_cast<int>(pose_publish_rate_ / path_publish_rate_);
  pose_skip_ = ratio < 1 ? 1 : ratio;
  if (pose_seq_ % pose_skip_ != 0) {
    return;
  }
  {"""))
m("r-pub-loop","=P29",(P,"""  ros::Rate loop_rate(path_publish_rate_);
  while (ros::ok()) {
    PathPublish();
    loop_rate.sleep();
  }""","""  ros::Rate rate(path_publish_rate_);
  for (; ros::ok(); rate.sleep()) {
    PathPublish();
  }"""))
m("r-pub-pathcopy","=P29",(P,"""  path_msg.header.seq = path_seq_;
""","""  path_msg.header.seq = path_seq_++;
"""),(P,"  path_pub_.publish(path_msg);\n  path_seq_++;\n","  path_pub_.publish(path_msg);\n"),(P,"  poses_.clear();\n","") )
