RS="src/state/robot_state.cpp"; LG="src/filter/inekf/correction/legged_kinematics_correction.cpp"
IP="src/filter/inekf/propagation/imu_propagation.cpp"; IK="src/filter/inekf/inekf.cpp"; VC="src/filter/inekf/correction/velocity_correction.cpp"
VDRAIN='''  if (t_diff < -t_diff_thres_) {
    while (t_diff < -t_diff_thres_) {
      sensor_data_buffer_mutex_ptr_->lock();
      if (sensor_data_buffer_ptr_->empty()) {
        sensor_data_buffer_mutex_ptr_->unlock();
        return false;
      }
      measured_velocity = sensor_data_buffer_ptr_->front();
      t_diff = measured_velocity->get_time() - state.get_propagate_time();
      if (t_diff >= 0) {
        sensor_data_buffer_mutex_ptr_->unlock();
        return false;
      }
      sensor_data_buffer_ptr_->pop();
      sensor_data_buffer_mutex_ptr_->unlock();
    }
  }
'''
VHEAD='''  sensor_data_buffer_mutex_ptr_->lock();
  if (sensor_data_buffer_ptr_->empty()) {
    sensor_data_buffer_mutex_ptr_->unlock();
    return false;
  }
  VelocityMeasurementPtr measured_velocity = sensor_data_buffer_ptr_->front();
  double t_diff = measured_velocity->get_time() - state.get_propagate_time();
'''
ALL="P01 P02 P03 P05 P06 P18 P12"
M=[
("early-time","P05",[(VC,"  // Only use previous velocity measurement to correct the state\n","  state.set_time(measured_velocity->get_time());\n")]),
("time-of-prop","P05",[(VC,"  state.set_time(measured_velocity->get_time());\n\n  // Fill out H","  state.set_time(state.get_propagate_time());\n\n  // Fill out H")]),
("no-pop-loop","P05 P06",[(VC,"      sensor_data_buffer_ptr_->pop();\n      sensor_data_buffer_mutex_ptr_->unlock();\n    }\n  }","      if (t_diff < -t_diff_thres_) sensor_data_buffer_ptr_->pop();\n      sensor_data_buffer_mutex_ptr_->unlock();\n    }\n  }")]),
("stale-once","P06",[(VC,"    while (t_diff < -t_diff_thres_) {\n","    for (int k = 0; k < 1; ++k) {\n")]),
("stale-limited","P06",[(VC,"    while (t_diff < -t_diff_thres_) {\n","    int budget = 50;\n    while (t_diff < -t_diff_thres_ && budget-- > 0) {\n")]),
("stale-giveup","P06",[(VC,"  if (t_diff < -t_diff_thres_) {\n    while (t_diff < -t_diff_thres_) {","  if (t_diff < -t_diff_thres_) {\n    return false;\n    while (t_diff < -t_diff_thres_) {")]),
("le-zero","P06",[(VC,"  if (t_diff >= 0) {\n    sensor_data_buffer_mutex_ptr_->unlock();\n    return false;\n  }\n\n","  if (t_diff > 0) {\n    sensor_data_buffer_mutex_ptr_->unlock();\n    return false;\n  }\n\n")]),
("loop-nocheck","P06",[(VC,"      if (t_diff >= 0) {\n        sensor_data_buffer_mutex_ptr_->unlock();\n        return false;\n      }\n      sensor_data_buffer_ptr_->pop();\n      sensor_data_buffer_mutex_ptr_->unlock();","      sensor_data_buffer_ptr_->pop();\n      sensor_data_buffer_mutex_ptr_->unlock();\n      if (t_diff >= 0) return false;")]),
("stale-tdiff","P06",[(LG,"\n      t_diff = kinematics_measurement->get_time() - state.get_propagate_time();\n    }","\n      t_diff = kinematics_measurement->get_time() - state.get_time();\n    }")]),
("leg-ret","P05 P19",[(LG,"  // Augment state with newly detected contacts\n  if (","  if (Z.rows() == 0 && new_contacts.empty()) return false;\n  // Augment state with newly detected contacts\n  if (")]),
("leg-new","P06",[(LG,"  if (t_diff > t_diff_thres_) {","  if (t_diff > 10 * t_diff_thres_) {")]),
("leg-time-first","P05",[(LG,"  if (t_diff > t_diff_thres_) {","  state.set_time(kinematics_measurement->get_time());\n  if (t_diff > t_diff_thres_) {")]),
("leg-init-nopop","P05",[(LG,"      = sensor_data_buffer_ptr_->front();\n  sensor_data_buffer_ptr_->pop();\n  sensor_data_buffer_mutex_ptr_.get()->unlock();\n\n  // Get body","      = sensor_data_buffer_ptr_->front();\n  sensor_data_buffer_mutex_ptr_.get()->unlock();\n\n  // Get body")]),
("prop-cur","P07",[(IP,"  double dt = imu_measurement->get_time() - state.get_propagate_time();","  double dt = prev_imu_measurement_->get_time() - imu_measurement->get_time();")]),
("prop-time","P07 P05",[(IP,"  state.set_time(imu_measurement->get_time());\n  state.set_propagate_time(imu_measurement->get_time());","  state.set_time(prev_imu_measurement_->get_time());\n  state.set_propagate_time(imu_measurement->get_time());")]),
("prop-dt-time","P07",[(IP,"  double dt = imu_measurement->get_time() - state.get_propagate_time();","  double dt = imu_measurement->get_time() - state.get_time();")]),
("prop-double","P07",[(IP,"  prev_imu_measurement_ = sensor_data_buffer_ptr_->front();\n  sensor_data_buffer_ptr_->pop();","  while (sensor_data_buffer_ptr_->size() > 1000) sensor_data_buffer_ptr_->pop();\n  prev_imu_measurement_ = sensor_data_buffer_ptr_->front();\n  sensor_data_buffer_ptr_->pop();")]),
("prop-noprev","P07",[(IP,"  // Set this measurement to be the previous measurement\n  prev_imu_measurement_ = imu_measurement;\n\n  return true;","  if (!prev_imu_measurement_) prev_imu_measurement_ = imu_measurement;\n\n  return true;")]),
("prop-empty-stamp","P05 P07",[(IP,"  // reset the previous imu measurement\n","  state.set_propagate_time(imu_measurement->get_time());\n")]),
# behaviour preserving
("k-merge-loop","="+ALL,[(VC,VDRAIN,'''  while (t_diff < -t_diff_thres_) {
    std::lock_guard<std::mutex> guard(*sensor_data_buffer_mutex_ptr_);
    if (sensor_data_buffer_ptr_->empty()) return false;
    const VelocityMeasurementPtr next = sensor_data_buffer_ptr_->front();
    const double next_diff = next->get_time() - state.get_propagate_time();
    if (!(next_diff < 0)) return false;
    measured_velocity = next;
    t_diff = next_diff;
    sensor_data_buffer_ptr_->pop();
  }
''')]),
("k-one-loop","="+ALL,[(VC,VHEAD+'''  // Only use previous velocity measurement to correct the state
  if (t_diff >= 0) {
    sensor_data_buffer_mutex_ptr_->unlock();
    return false;
  }

  sensor_data_buffer_ptr_->pop();
  sensor_data_buffer_mutex_ptr_->unlock();

'''+VDRAIN,'''  VelocityMeasurementPtr measured_velocity;
  double t_diff;
  do {
    std::unique_lock<std::mutex> guard(*sensor_data_buffer_mutex_ptr_);
    if (sensor_data_buffer_ptr_->empty()) {
      return false;
    }
    measured_velocity = sensor_data_buffer_ptr_->front();
    t_diff = measured_velocity->get_time() - state.get_propagate_time();
    if (t_diff >= 0) {
      return false;
    }
    sensor_data_buffer_ptr_->pop();
  } while (t_diff < -t_diff_thres_);
''')]),
("k-forever","="+ALL,[(VC,VHEAD+'''  // Only use previous velocity measurement to correct the state
  if (t_diff >= 0) {
    sensor_data_buffer_mutex_ptr_->unlock();
    return false;
  }

  sensor_data_buffer_ptr_->pop();
  sensor_data_buffer_mutex_ptr_->unlock();

'''+VDRAIN,'''  VelocityMeasurementPtr measured_velocity = nullptr;
  for (;;) {
    sensor_data_buffer_mutex_ptr_->lock();
    const bool none = sensor_data_buffer_ptr_->empty();
    if (none) {
      sensor_data_buffer_mutex_ptr_->unlock();
      return false;
    }
    measured_velocity = sensor_data_buffer_ptr_->front();
    const double lag = state.get_propagate_time() - measured_velocity->get_time();
    const bool usable = lag > 0;
    if (usable) sensor_data_buffer_ptr_->pop();
    sensor_data_buffer_mutex_ptr_->unlock();
    if (!usable) return false;
    if (lag <= t_diff_thres_) break;
  }
''')]),
("k-prop-order","=P01 P02 P03 P05 P07 P12 P14 P15",[(IP,"  // reset the previous imu measurement\n  sensor_data_buffer_mutex_ptr_.get()->lock();\n  if (sensor_data_buffer_ptr_->empty()) {\n    sensor_data_buffer_mutex_ptr_.get()->unlock();\n    return false;\n  }\n\n  prev_imu_measurement_ = sensor_data_buffer_ptr_->front();\n  sensor_data_buffer_ptr_->pop();\n  sensor_data_buffer_mutex_ptr_.get()->unlock();\n","  {\n    std::lock_guard<std::mutex> guard(*sensor_data_buffer_mutex_ptr_);\n    if (sensor_data_buffer_ptr_->size() == 0) return false;\n    prev_imu_measurement_ = sensor_data_buffer_ptr_->front();\n    sensor_data_buffer_ptr_->pop();\n  }\n")]),
]
