from mkseed import mk
EST, EKF = "src/estimator/inekf_estimator.cpp", "src/imu_filter/imu_ang_vel_ekf.cpp"
VEL, LEG = "src/filter/inekf/correction/velocity_correction.cpp", "src/filter/inekf/correction/legged_kinematics_correction.cpp"
COMMON = r'''
#include <atomic>
#include <chrono>
#include <cstdio>
#include <fstream>
#include <memory>
#include <mutex>
#include <thread>
#include "drift/estimator/inekf_estimator.h"
#include "drift/filter/inekf/correction/velocity_correction.h"
#include "drift/filter/inekf/correction/legged_kinematics_correction.h"
#include "drift/kinematics/mini_cheetah_kinematics.h"
using namespace std;
static void put(const char* f, const char* s) { ofstream(f) << s; }
static void ms(int n) { this_thread::sleep_for(chrono::milliseconds(n)); }
'''
mk("p01-velocity-drain", "P01", "a stale velocity sample, so that the drain loop runs, while another thread is holding the buffer's mutex",
   "the drain loop of the velocity correction removes samples from the shared buffer without holding the buffer's mutex",
   [(VEL, """      sensor_data_buffer_ptr_->pop();
      sensor_data_buffer_mutex_ptr_->unlock();
    }
""", """      sensor_data_buffer_mutex_ptr_->unlock();
      sensor_data_buffer_ptr_->pop();
    }
""")], COMMON + r'''
// A measurement whose time stamp is read while nobody holds the mutex; the demo
// takes the mutex at that moment and checks that the buffer does not change.
struct Rec { shared_ptr<VelocityQueue> q; shared_ptr<mutex> m; };
int main() {
  put("v.yaml", "noises: {velocity_std: 0.1}\nsettings: {correction_time_threshold: 0.3}\n");
  auto q = make_shared<VelocityQueue>(); auto m = make_shared<mutex>();
  filter::inekf::VelocityCorrection c(q, m, filter::inekf::ErrorType::RightInvariant, "v.yaml");
  state::RobotState s; s.set_propagate_time(1e6); s.set_time(0);
  const int N = 400000;
  for (int i = 0; i < N; i++) { auto v = make_shared<VelocityMeasurement<double>>(); v->set_time(i * 1e-3); q->push(v); }
  atomic<bool> done{false};
  thread t([&] { c.Correct(s); done = true; });
  bool bad = false;
  while (!done && !bad) {
    { lock_guard<mutex> g(*m);
      auto n0 = q->size(); this_thread::sleep_for(chrono::microseconds(300));
      if (q->size() != n0) bad = true; }
    ms(1);
  }
  t.join();
  if (bad) puts("buffer changed while its mutex was held by someone else");
  return bad;
}
''')
mk("p01-log-queue-mutex", "P01", "the logger enabled and the log queue's mutex busy in another thread (here: the logging thread) while the estimator steps",
   "when the log queue is emptied on reset, the published-state queue's mutex is held instead of the log queue's mutex",
   [(EST, """  while (!robot_state_queue_ptr_.get()->empty()) {
    robot_state_queue_ptr_.get()->pop();
  }
  robot_state_queue_mutex_ptr_.get()->unlock();

  new_pose_ready_ = false;""", """  while (!robot_state_queue_ptr_.get()->empty()) {
    robot_state_queue_ptr_.get()->pop();
  }
  // Drop the snapshots that have not been logged yet as well
  while (!robot_state_log_queue_ptr_.get()->empty()) {
    robot_state_log_queue_ptr_.get()->pop();
  }
  robot_state_queue_mutex_ptr_.get()->unlock();

  new_pose_ready_ = false;""")], r'''
#define private public
#define protected public
''' + COMMON.replace("#include <atomic>", "", 1) + r'''
int main() {
  put("e.yaml", "logger: {enable_pose_logger: false}\nstate: {}\n"); put("i.yaml", "settings: {}\nnoises: {}\npriors: {}\n");
  estimator::InekfEstimator e(filter::inekf::ErrorType::RightInvariant, "e.yaml");
  e.add_imu_propagation(make_shared<IMUQueue>(), make_shared<mutex>(), "i.yaml");
  for (int i = 0; i < 5; i++) e.robot_state_log_queue_ptr_->push(make_shared<state::RobotState>());
  bool bad = false;
  e.robot_state_log_queue_mutex_.lock();
  thread t([&] { e.clear(); });
  ms(300);
  bad = e.robot_state_log_queue_ptr_->size() != 5;
  e.robot_state_log_queue_mutex_.unlock();
  t.join();
  if (bad) puts("log queue emptied while its mutex was held by someone else");
  return bad;
}
''', flags="-include atomic -include sstream -include iostream -include fstream -include map -include unordered_map -include vector -include queue -include thread -include mutex -include memory -include condition_variable -include string -include Eigen/Dense -include yaml-cpp/yaml.h ")
mk("p02-stale-contact-return", "P02", "a leg sample that is too old and an otherwise empty buffer",
   "the leg correction returns from its drain loop without releasing the buffer's mutex",
   [(LEG, """    while (t_diff < -t_diff_thres_) {
      sensor_data_buffer_mutex_ptr_->lock();
      if (sensor_data_buffer_ptr_->empty()) {
        sensor_data_buffer_mutex_ptr_->unlock();
        return false;
      }
      kinematics_measurement = sensor_data_buffer_ptr_->front();
      sensor_data_buffer_ptr_->pop();
      sensor_data_buffer_mutex_ptr_->unlock();

      t_diff = kinematics_measurement->get_time() - state.get_propagate_time();
    }""", """    // Skip all stale measurements within one critical section
    sensor_data_buffer_mutex_ptr_->lock();
    while (t_diff < -t_diff_thres_) {
      if (sensor_data_buffer_ptr_->empty()) {
        return false;
      }
      kinematics_measurement = sensor_data_buffer_ptr_->front();
      sensor_data_buffer_ptr_->pop();

      t_diff = kinematics_measurement->get_time() - state.get_propagate_time();
    }
    sensor_data_buffer_mutex_ptr_->unlock();""")], COMMON + r'''
int main() {
  put("l.yaml", "noises: {encoder_std: 0.1}\nsettings: {correction_time_threshold: 0.3}\n");
  auto q = make_shared<LeggedKinQueue>(); auto m = make_shared<mutex>();
  filter::inekf::LeggedKinematicsCorrection c(q, m, filter::inekf::ErrorType::RightInvariant, "l.yaml");
  state::RobotState s; s.set_propagate_time(100); s.set_time(100);
  auto k = make_shared<measurement::kinematics::MiniCheetahKinematics>(); k->set_time(1); q->push(k);
  bool r = c.Correct(s), free_ = false;
  thread t([&] { free_ = m->try_lock(); if (free_) m->unlock(); });
  t.join();
  if (!free_) puts("mutex still locked after Correct returned");
  fflush(stdout);
  _Exit(r || !free_);
}
''')
mk("p02-lock-order", "P02", "the estimator publishing a state exactly while it is being cleared from another thread",
   "publishing takes the state-queue mutex then the log mutex, clearing takes them in the opposite order: both threads wait for each other forever",
   [(EST, """    robot_state_queue_ptr_.get()->push(std::make_shared<RobotState>(state_));
    robot_state_queue_mutex_ptr_.get()->unlock();

    if (enabled_slip_estimator_)
      this->SlipEstimatorStep();

    if (enable_pose_logger_) {
      robot_state_log_queue_mutex_.lock();
      robot_state_log_queue_ptr_.get()->push(
          std::make_shared<RobotState>(state_));
      robot_state_log_queue_mutex_.unlock();
    }
""", """    robot_state_queue_ptr_.get()->push(std::make_shared<RobotState>(state_));

    if (enabled_slip_estimator_)
      this->SlipEstimatorStep();

    if (enable_pose_logger_) {
      robot_state_log_queue_mutex_.lock();
      robot_state_log_queue_ptr_.get()->push(
          std::make_shared<RobotState>(state_));
      robot_state_log_queue_mutex_.unlock();
    }
    robot_state_queue_mutex_ptr_.get()->unlock();
"""), (EST, """  // Clear state queue
  robot_state_queue_mutex_ptr_.get()->lock();
  while (""", """  // Clear state queue and log queue together
  robot_state_log_queue_mutex_.lock();
  robot_state_queue_mutex_ptr_.get()->lock();
  while ("""), (EST, """  // Clear current log queue and open a new file for logging
  robot_state_log_queue_mutex_.lock();
  while (""", """  // Clear current log queue and open a new file for logging
  while (""")], COMMON + r'''
// Detects a cyclic lock order: interpose the mutex primitives and record which
// mutexes are held when another one is taken.
#include <dlfcn.h>
#include <map>
#include <set>
#include <vector>
static thread_local std::vector<pthread_mutex_t*>* held = nullptr;
static std::set<std::pair<void*, void*>>* edges = nullptr;
static bool on = false; static thread_local bool busy = false;
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
  static int (*real)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  int r = real(m);
  if (on && !busy) { busy = true; if (!held) held = new std::vector<pthread_mutex_t*>; if (!edges) edges = new std::set<std::pair<void*, void*>>;
    for (auto h : *held) edges->insert({h, m}); held->push_back(m); busy = false; }
  return r;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) {
  static int (*real)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  if (on && !busy && held) { busy = true; for (auto i = held->begin(); i != held->end(); ++i) if (*i == m) { held->erase(i); break; } busy = false; }
  return real(m);
}
int main() {
  put("e.yaml", "logger: {enable_pose_logger: true, pose_log_file: pose.txt, vel_log_file: vel.txt, pose_log_rate: 10}\nstate: {}\n");
  put("i.yaml", "settings: {static_bias_initialization: false}\nnoises: {}\npriors: {}\n");
  int rc = 0;
  { estimator::InekfEstimator e(filter::inekf::ErrorType::RightInvariant, "e.yaml");
    auto q = make_shared<IMUQueue>(); auto m = make_shared<mutex>();
    e.add_imu_propagation(q, m, "i.yaml");
    auto imu = [&](double t) { auto k = make_shared<ImuMeasurement<double>>(); k->set_time(t); m->lock(); q->push(k); m->unlock(); };
    imu(1); e.InitBias(); e.InitState(); imu(1.1); imu(1.2);
    on = true; e.RunOnce(); e.clear(); on = false;
    if (edges) for (auto& p : *edges) if (edges->count({p.second, p.first})) rc = 1;
  }
  if (rc) puts("two mutexes are taken in opposite orders");
  return rc;
}
''', flags="-D_GNU_SOURCE ")
mk("p03-init-latest", "P03", "exactly one sample in the buffer at initialisation",
   "the loop that discards old samples also discards the only one, then reads the front of an empty queue",
   [(VEL, """  while (sensor_data_buffer_ptr_->size() > 1) {
    // std::cout << "Discarding old sensor data..." << std::endl;
    sensor_data_buffer_ptr_->pop();
  }
  VelocityMeasurementPtr measured_velocity = sensor_data_buffer_ptr_->front();
  sensor_data_buffer_ptr_->pop();""", """  VelocityMeasurementPtr measured_velocity = sensor_data_buffer_ptr_->front();
  do {
    // Discard old sensor data
    measured_velocity = sensor_data_buffer_ptr_->front();
    sensor_data_buffer_ptr_->pop();
  } while (sensor_data_buffer_ptr_->size() > 1);
  if (sensor_data_buffer_ptr_->size() > 0
      || measured_velocity->get_time() < state.get_propagate_time()) {
    // use the newest measurement
    measured_velocity = sensor_data_buffer_ptr_->front();
    sensor_data_buffer_ptr_->pop();
  }""")], COMMON + r'''
int main() {
  put("v.yaml", "noises: {velocity_std: 0.1}\nsettings: {correction_time_threshold: 0.3}\n");
  auto q = make_shared<VelocityQueue>(); auto m = make_shared<mutex>();
  filter::inekf::VelocityCorrection c(q, m, filter::inekf::ErrorType::RightInvariant, "v.yaml");
  state::RobotState s; s.set_propagate_time(5); s.set_time(5);
  auto v = make_shared<VelocityMeasurement<double>>(); v->set_time(1); v->set_velocity(1, 2, 3); q->push(v);
  bool r = c.initialize(s);
  bool ok = r && q->size() == 0 && (s.get_velocity() - Eigen::Vector3d(1, 2, 3)).norm() < 1e-9 && s.get_time() == 1;
  if (!ok) puts("front of an empty queue was used");
  fflush(stdout);
  _Exit(!ok);
}
''')
