from mkseed import mk
EST, EKF = "src/estimator/inekf_estimator.cpp", "src/imu_filter/imu_ang_vel_ekf.cpp"
VEL, LEG = "src/filter/inekf/correction/velocity_correction.cpp", "src/filter/inekf/correction/legged_kinematics_correction.cpp"
IMU, INEKF, RS, LIE = "src/filter/inekf/propagation/imu_propagation.cpp", "src/filter/inekf/inekf.cpp", "src/state/robot_state.cpp", "src/math/lie_group.cpp"
MC = "src/kinematics/mini_cheetah_kinematics.cpp"
H = r'''
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
#include "drift/estimator/inekf_estimator.h"
#include "drift/filter/inekf/correction/velocity_correction.h"
#include "drift/filter/inekf/correction/legged_kinematics_correction.h"
#include "drift/filter/inekf/propagation/imu_propagation.h"
#include "drift/filter/inekf/inekf.h"
#include "drift/imu_filter/imu_ang_vel_ekf.h"
#include "drift/kinematics/mini_cheetah_kinematics.h"
#include "drift/math/lie_group.h"
using namespace std;
using namespace Eigen;
using filter::inekf::ErrorType;
static void put(const char* f, const string& s) { ofstream(f) << s; }
static void ms(int n) { this_thread::sleep_for(chrono::milliseconds(n)); }
static int bad = 0;
static void check(bool ok, const char* what) { if (!ok) { printf("FAILED: %s\n", what); bad = 1; } }
static ImuMeasurementPtr imu(double t, Vector3d w, Vector3d a) {
  auto m = make_shared<ImuMeasurement<double>>(); m->set_time(t);
  m->set_angular_velocity(w(0), w(1), w(2)); m->set_lin_acc(a(0), a(1), a(2)); return m; }
static VelocityMeasurementPtr vel(double t, Vector3d v) {
  auto m = make_shared<VelocityMeasurement<double>>(); m->set_time(t); m->set_velocity(v(0), v(1), v(2)); return m; }
static shared_ptr<measurement::LeggedKinematicsMeasurement> leg(double t, vector<int> c, VectorXd q = VectorXd::Zero(0)) {
  Matrix<bool, 4, 1> C; for (int i = 0; i < 4; i++) C(i) = c[i];
  VectorXd e(12); for (int i = 0; i < 12; i++) e(i) = q.size() ? q(i) : 0.1 * (i + 1) / 3;
  auto m = make_shared<kinematics::MiniCheetahKinematics>(e, VectorXd::Zero(12), C); m->set_time(t); return m; }
static MatrixXd spd(int n, unsigned seed) { srand(seed); MatrixXd A = MatrixXd::Random(n, n); return A * A.transpose() + 0.1 * MatrixXd::Identity(n, n); }
'''


def s(id, prop, needs, breaks, edits, body, helper=True, **k):
    mk(id, prop, needs, breaks, edits, '#include "d.h"\nint main() {\n' + body + "\n  return bad;\n}\n", extra={"d.h": H}, **k)


s("p05-early-stamp", "P05", "a velocity sample that is newer than the last propagation and therefore stays queued",
  "the state's time is moved to the stamp of a sample that is not used",
  [(VEL, """  // Only use previous velocity measurement to correct the state
  if (t_diff >= 0) {""", """  state.set_time(measured_velocity->get_time());
  // Only use previous velocity measurement to correct the state
  if (t_diff >= 0) {"""),
   (VEL, """  state.set_time(measured_velocity->get_time());

  // Fill out H""", """  // Fill out H""")], r'''
  put("v.yaml", "noises: {velocity_std: 0.1}\nsettings: {correction_time_threshold: 0.3}\n");
  auto q = make_shared<VelocityQueue>(); auto m = make_shared<mutex>();
  filter::inekf::VelocityCorrection c(q, m, ErrorType::RightInvariant, "v.yaml");
  state::RobotState x; x.set_time(1); x.set_propagate_time(1);
  q->push(vel(1.5, {1, 0, 0}));
  check(!c.Correct(x), "sample is kept for later"); check(x.get_time() == 1, "time unchanged"); check(q->size() == 1, "still queued");
''')
s("p06-drain-budget", "P06", "more than 25 stale velocity samples queued at once (a stalled propagation)",
  "after draining a fixed number of stale samples the next stale sample is fused",
  [(VEL, "    while (t_diff < -t_diff_thres_) {\n", "    for (int tries = 0; tries < 25 && t_diff < -t_diff_thres_; ++tries) {\n")], r'''
  put("v.yaml", "noises: {velocity_std: 0.1}\nsettings: {correction_time_threshold: 0.3}\n");
  auto q = make_shared<VelocityQueue>(); auto m = make_shared<mutex>();
  filter::inekf::VelocityCorrection c(q, m, ErrorType::RightInvariant, "v.yaml");
  state::RobotState x; x.set_time(100); x.set_propagate_time(100);
  for (int i = 0; i < 60; i++) q->push(vel(i, {1, 0, 0}));
  check(!c.Correct(x), "nothing to fuse"); check(x.get_velocity().norm() == 0, "velocity unchanged");
''')
s("p07-interval-after-gap", "P07", "two consecutive samples that are more than ten seconds apart (a sensor that was restarted)",
  "the interval of a propagation step is capped, so a long gap is integrated only in part",
  [(IMU, "  double dt = imu_measurement->get_time() - state.get_propagate_time();\n", "  double dt = imu_measurement->get_time() - state.get_propagate_time();\n  if (dt > 10) {\n    dt = 10;\n  }\n")], r"""
  put("i.yaml", "settings: {static_bias_initialization: false}\n");
  auto q = make_shared<IMUQueue>(); auto m = make_shared<mutex>();
  filter::inekf::ImuPropagation p(q, m, ErrorType::RightInvariant, "i.yaml");
  state::RobotState x; Vector3d a(1, 0, 9.81), w(0, 0, 0);
  for (int i = 0; i < 4; i++) q->push(imu(15 * i, w, a));
  p.set_initial_state(x); p.Propagate(x); p.Propagate(x); p.Propagate(x);
  check(abs(x.get_velocity()(0) - x.get_propagate_time()) < 1e-9, "integrates over the sampling interval");
""")
s("p08-skip-after-success", "P08", "two corrections that both have a sample in the same step",
  "once one correction succeeded, the later ones are not offered the state in this step",
  [(EST, """      new_pose_ready_ = true;
    }
  }
""", """      new_pose_ready_ = true;
      break;
    }
  }
""")], r'''
  put("e.yaml", "logger: {enable_pose_logger: false}\nstate: {rotation_std_value: 0.1}\n");
  put("i.yaml", "settings: {static_bias_initialization: false}\n");
  put("v.yaml", "noises: {velocity_std: 0.1}\nsettings: {correction_time_threshold: 1}\n");
  estimator::InekfEstimator e(ErrorType::RightInvariant, "e.yaml");
  auto qi = make_shared<IMUQueue>(); auto mi = make_shared<mutex>(); e.add_imu_propagation(qi, mi, "i.yaml");
  auto q1 = make_shared<VelocityQueue>(), q2 = make_shared<VelocityQueue>(); auto m1 = make_shared<mutex>(), m2 = make_shared<mutex>();
  e.add_velocity_correction(q1, m1, "v.yaml"); e.add_velocity_correction(q2, m2, "v.yaml");
  qi->push(imu(0, {0, 0, 0}, {0, 0, 9.81})); q1->push(vel(0, {0, 0, 0})); q2->push(vel(0, {0, 0, 0}));
  e.InitBias(); e.InitState();
  qi->push(imu(0.1, {0, 0, 0}, {0, 0, 9.81})); qi->push(imu(0.2, {0, 0, 0}, {0, 0, 9.81}));
  e.RunOnce(); e.RunOnce();
  q1->push(vel(0.05, {0, 0, 0})); q2->push(vel(0.05, {0, 0, 0}));
  e.RunOnce();
  check(q1->empty() && q2->empty(), "both corrections used their sample");
''')
s("p09-later-correction", "P09", "two corrections of which only the first has data when the filter is initialised",
  "the waiting flag is shared, so every correction after the first counts as initialised although it never reported success",
  [(EST, """  for (auto& correction_ : corrections_) {
    bool current_correction_initialized = false;
    while""", """  bool current_correction_initialized = false;
  for (auto& correction_ : corrections_) {
    while""")], r'''
  put("e.yaml", "logger: {enable_pose_logger: false}\nstate: {rotation_std_value: 0.1}\n");
  put("i.yaml", "settings: {static_bias_initialization: false}\n");
  put("v.yaml", "noises: {velocity_std: 0.1}\nsettings: {correction_time_threshold: 1}\n");
  estimator::InekfEstimator e(ErrorType::RightInvariant, "e.yaml");
  auto qi = make_shared<IMUQueue>(); auto mi = make_shared<mutex>(); e.add_imu_propagation(qi, mi, "i.yaml");
  auto q1 = make_shared<VelocityQueue>(), q2 = make_shared<VelocityQueue>(); auto m1 = make_shared<mutex>(), m2 = make_shared<mutex>();
  e.add_velocity_correction(q1, m1, "v.yaml"); e.add_velocity_correction(q2, m2, "v.yaml");
  qi->push(imu(0, {0, 0, 0}, {0, 0, 9.81})); q1->push(vel(0, {1, 0, 0}));
  atomic<bool> done{false};
  thread t([&] { e.InitState(); done = true; });
  ms(500);
  check(!done, "waits for the second correction");
  { lock_guard<mutex> g(*m2); q2->push(vel(0, {2, 0, 0})); }
  t.join();
  check(q2->empty(), "second correction initialised");
''')
s("p10-contacts-kept", "P10", "a reset at a moment at which the kinematics buffer happens to be empty, with feet on the ground",
  "the leg correction keeps its contact table over a reset when its buffer is empty",
  [(LEG, """  while (!sensor_data_buffer_ptr_->empty()) {
    sensor_data_buffer_ptr_->pop();
  }
  sensor_data_buffer_mutex_ptr_.get()->unlock();

  aug_id_to_column_id_ptr_.clear();""", """  while (!sensor_data_buffer_ptr_->empty()) {
    sensor_data_buffer_ptr_->pop();
    if (sensor_data_buffer_ptr_->empty()) aug_id_to_column_id_ptr_.clear();
  }
  sensor_data_buffer_mutex_ptr_.get()->unlock();""")], r'''
  put("l.yaml", "noises: {encoder_std: 0.01, kinematics_additive_std: 0.01, contact_noise_std: 0.1}\nsettings: {correction_time_threshold: 1}\n");
  auto q = make_shared<LeggedKinQueue>(); auto m = make_shared<mutex>();
  filter::inekf::LeggedKinematicsCorrection c(q, m, ErrorType::RightInvariant, "l.yaml");
  state::RobotState x; q->push(leg(0, {1, 0, 0, 1})); c.Correct(x);
  check(x.dimX() == 7, "two contacts");
  c.clear(); x.clear();
  q->push(leg(0, {0, 1, 0, 0}));
  // with a stale table this would remove columns the new state does not have
  fflush(stdout); c.Correct(x);
  check(x.dimX() == 6, "only the reported contact");
''')
s("p11-yaw-column", "P11", "bias estimation enabled, so that the yaw-rate bias is correlated with the rest of the state",
  "only the row of the yaw-rate bias is cleared, which leaves an unsymmetric covariance",
  [(INEKF, "  P_new.col(dimP - dimTheta + 2).setZero();\n", "")], r'''
  state::RobotState x; x.set_P(spd(15, 3)); x.set_enable_imu_bias_update(true);
  MatrixXd Hm = MatrixXd::Zero(3, 15); Hm.block(0, 3, 3, 3).setIdentity();
  VectorXd Z = VectorXd::Constant(3, 0.01); MatrixXd N = 0.1 * MatrixXd::Identity(3, 3);
  filter::inekf::CorrectRightInvariant(Z, Hm, N, x, ErrorType::RightInvariant);
  MatrixXd P = x.get_P(); check((P - P.transpose()).norm() < 1e-9, "symmetric");
''')
s("p13-renumber", "P13", "three tracked contacts of which the first is removed",
  "only the column that moves into the freed place is re-numbered, later ones keep stale numbers",
  [(RS, """  for (int i = matrix_idx; i < dimX - 1; i++) {
    column_id_to_corr_map_[i] = column_id_to_corr_map_[i + 1];
    *(column_id_to_corr_map_[i]) -= 1;
  }""", """  for (int i = matrix_idx; i < dimX - 1; i++) {
    column_id_to_corr_map_[i] = column_id_to_corr_map_[i + 1];
  }
  if (matrix_idx < dimX - 1) *(column_id_to_corr_map_[matrix_idx]) -= 1;""")], r'''
  state::RobotState x; vector<shared_ptr<int>> id;
  for (int i = 0; i < 3; i++) { id.push_back(make_shared<int>(x.dimX()));
    x.add_aug_state(Vector3d::Constant(i), MatrixXd::Identity(18 + 3 * i, 18 + 3 * i), Matrix3d::Identity(), id.back()); }
  x.del_aug_state(5);
  check(*id[1] == 5 && *id[2] == 6, "later columns are re-numbered");
''')
s("p14-lever-arm-bias", "P14", "an IMU mounted off the body centre and a non-zero gyroscope bias estimate",
  "the lever-arm compensation uses the raw instead of the bias-corrected rate",
  [(IMU, "  Eigen::Vector3d a_compensate = w.cross(w.cross(t_imu2body_));\n  Eigen::Vector3d a = R_imu2body_ * imu_measurement->get_lin_acc()\n",
    "  Eigen::Vector3d w_raw = R_imu2body_ * imu_measurement->get_angular_velocity();\n  Eigen::Vector3d a_compensate = w_raw.cross(w_raw.cross(t_imu2body_));\n  Eigen::Vector3d a = R_imu2body_ * imu_measurement->get_lin_acc()\n")], r'''
  put("i.yaml", "settings: {static_bias_initialization: false, translation_imu2body: [0.5, 0, 0]}\npriors: {gyroscope_bias: [0, 0, 1.0], accelerometer_bias: [0, 0, 0]}\n");
  auto q = make_shared<IMUQueue>(); auto m = make_shared<mutex>();
  filter::inekf::ImuPropagation p(q, m, ErrorType::RightInvariant, "i.yaml");
  state::RobotState x; Vector3d a(0, 0, 9.81), w(0, 0, 1);          // true rate: zero
  for (int i = 0; i < 3; i++) q->push(imu(0.1 * i, w, a));
  p.InitImuBias(); p.set_initial_state(x); p.Propagate(x); p.Propagate(x);
  check(x.get_velocity().head(2).norm() < 1e-9, "no horizontal velocity without rotation");
''')
s("p15-first-contact-only", "P15", "bias estimation, right-invariant error and at least two contacts in different places",
  "the rate-bias coupling of every contact is computed from the first contact's position",
  [(IMU, "            = -skew(state.get_vector(i)) * RG1dt;           // Phi_(3+i)5\n", "            = -skew(state.get_vector(5)) * RG1dt;           // Phi_(3+i)5\n")], r'''
  put("i.yaml", "settings: {static_bias_initialization: false, enable_imu_bias_update: true}\n");
  Vector3d c1(1, 0, -0.5), c2(-1, 0.3, -0.4); MatrixXd out[2];
  for (int k = 0; k < 2; k++) {
    auto q = make_shared<IMUQueue>(); auto m = make_shared<mutex>();
    filter::inekf::ImuPropagation p(q, m, ErrorType::RightInvariant, "i.yaml");
    state::RobotState x;
    q->push(imu(0, {0, 0, 0}, {0, 0, 9.81})); p.set_initial_state(x);
    x.add_aug_state(k ? c2 : c1, MatrixXd::Identity(18, 18), Matrix3d::Identity(), make_shared<int>(5));
    x.add_aug_state(k ? c1 : c2, MatrixXd::Identity(21, 21), Matrix3d::Identity(), make_shared<int>(6));
    for (int i = 1; i < 4; i++) { q->push(imu(0.1 * i, {0.1, 0.2, 0.3}, {0, 0, 9.81})); p.Propagate(x); }
    out[k] = x.get_P();
  }
  // the order in which the contacts were added must not matter
  PermutationMatrix<Dynamic> pm(21); pm.setIdentity(); for (int i = 0; i < 3; i++) swap(pm.indices()(9 + i), pm.indices()(12 + i));
  check((out[0] - pm * out[1] * pm.transpose()).norm() < 1e-9, "covariance independent of the order of the contacts");
''')
s("p16-old-adjoint", "P16", "left-invariant error with a right-invariant observation and a sizeable correction",
  "the covariance is mapped back with the adjoint of the state before the update",
  [(INEKF, "        = lie_group::Adjoint_SEK3(state.get_Xinv());\n    P_new = ", "        = lie_group::Adjoint_SEK3(X).inverse();\n    P_new = ")], r'''
  state::RobotState x, y; MatrixXd X = MatrixXd::Identity(5, 5);
  X.block(0, 0, 3, 3) = math::lie_group::Exp_SO3(Vector3d(0.3, -0.2, 0.5)); X.col(3).head(3) << 1, 2, 3; X.col(4).head(3) << 4, -5, 6;
  x.set_X(X); y.set_X(X); MatrixXd P = spd(15, 7); x.set_enable_imu_bias_update(true); y.set_enable_imu_bias_update(true);
  auto big = [](const MatrixXd& A) { MatrixXd B = MatrixXd::Identity(15, 15); B.block(0, 0, 9, 9) = A; return B; };
  MatrixXd Ai = big(math::lie_group::Adjoint_SEK3(X)).inverse();
  x.set_P(P); y.set_P(Ai * P * Ai.transpose());
  MatrixXd Hm = MatrixXd::Zero(3, 15); Hm.block(0, 3, 3, 3).setIdentity();
  VectorXd Z(3); Z << 0.5, -0.3, 0.2; MatrixXd N = 0.1 * MatrixXd::Identity(3, 3);
  filter::inekf::CorrectRightInvariant(Z, Hm, N, x, ErrorType::RightInvariant);
  filter::inekf::CorrectRightInvariant(Z, Hm, N, y, ErrorType::LeftInvariant);
  MatrixXd Bi = big(math::lie_group::Adjoint_SEK3(x.get_X())).inverse();
  check((x.get_X() - y.get_X()).norm() < 1e-8, "same mean");
  check((Bi * x.get_P() * Bi.transpose() - y.get_P()).norm() < 1e-8 * y.get_P().norm(), "same covariance in both error conventions");
''')
s("p17-small-angle-limit", "P17", "a rotation increment below the tolerance (a robot at rest) in Gamma of order 2 or more",
  "the small-angle limit of Gamma_m is 1/m instead of 1/m!",
  [(LIE, "    return (1.0 / factorial(m))\n", "    return (1.0 / (m > 0 ? m : 1))\n")], r'''
  for (int m = 0; m < 4; m++) {
    Matrix3d a = math::lie_group::Gamma_SO3(Vector3d::Zero(), m), b = math::lie_group::Gamma_SO3(Vector3d(1e-2, 0, 0), m);
    check((a - b).norm() < 2e-2, "limit is continuous");
  }
''')
s("p18-contact-noise-frame", "P18", "a rotated robot with a contact whose kinematic covariance is not isotropic",
  "the measurement noise of a contact is rotated with the inverse rotation",
  [(LEG, """          = state.get_world_rotation() * cov
            * state.get_world_rotation().transpose();""", """          = state.get_world_rotation().transpose() * cov
            * state.get_world_rotation();""")], r'''
  put("l.yaml", "noises: {encoder_std: 0.2, kinematics_additive_std: 0.01, contact_noise_std: 0.1}\nsettings: {correction_time_threshold: 1}\n");
  // the corrected covariance, seen from the body, must not depend on the heading
  MatrixXd out[2]; MatrixXd P0 = 0.05 * MatrixXd::Identity(15, 15);
  for (int k = 0; k < 2; k++) {
    auto q = make_shared<LeggedKinQueue>(); auto m = make_shared<mutex>();
    filter::inekf::LeggedKinematicsCorrection c(q, m, ErrorType::RightInvariant, "l.yaml");
    state::RobotState x; Matrix3d R = math::lie_group::Exp_SO3(Vector3d(0, 0, k ? 1.0 : 0)); x.set_rotation(R);
    x.set_P(P0);
    q->push(leg(0, {1, 0, 0, 0})); c.Correct(x); q->push(leg(0, {1, 0, 0, 0})); c.Correct(x);
    MatrixXd T = MatrixXd::Identity(18, 18); for (int i = 0; i < 4; i++) T.block(3 * i, 3 * i, 3, 3) = R.transpose();
    out[k] = (T * x.get_P() * T.transpose()).block(0, 0, 12, 12);
  }
  check((out[0] - out[1]).norm() < 1e-8, "independent of the heading");
''')
s("p19-new-contact-index", "P19", "one foot lifting off and another one touching down in the same sample",
  "the column of a new contact is computed before the lifted feet are removed",
  [(LEG, "  // Remove contacts from state\n  for (int id : remove_contacts) {\n", "  int first_new_column = state.dimX();\n  // Remove contacts from state\n  for (int id : remove_contacts) {\n"),
   (LEG, "      *(aug_id_to_column_id_ptr_[new_contact.id]) = aug_idx;\n", "      *(aug_id_to_column_id_ptr_[new_contact.id]) = first_new_column++;\n")], r'''
  put("l.yaml", "noises: {encoder_std: 0.01, kinematics_additive_std: 0.01, contact_noise_std: 0.1}\nsettings: {correction_time_threshold: 1}\n");
  auto q = make_shared<LeggedKinQueue>(); auto m = make_shared<mutex>();
  filter::inekf::LeggedKinematicsCorrection c(q, m, ErrorType::RightInvariant, "l.yaml");
  state::RobotState x;
  q->push(leg(0, {1, 1, 0, 0})); c.Correct(x); q->push(leg(0, {0, 1, 1, 0})); c.Correct(x);
  check(x.dimX() == 7, "two contacts");
  fflush(stdout); q->push(leg(0, {0, 1, 1, 0})); c.Correct(x);
  check(x.get_position().norm() < 1e-9, "consistent measurements do not move the robot");
''')
s("p20-twin-imu-return", "P20", "two IMUs in the gyro filter of which the first is silent",
  "an empty buffer of one IMU ends the step, so that samples of the later IMUs are never fused",
  [(EKF, "      imu_data_buffer_mutex_ptrs_[i].get()->unlock();\n      continue;", "      imu_data_buffer_mutex_ptrs_[i].get()->unlock();\n      return;")], r'''
  put("g.yaml", "settings: {static_bias_initialization: false}\n");
  imu_filter::ImuAngVelEKF f("g.yaml");
  auto q1 = make_shared<IMUQueue>(), q2 = make_shared<IMUQueue>(); auto m1 = make_shared<mutex>(), m2 = make_shared<mutex>();
  f.add_imu_correction(q1, m1); f.add_imu_correction(q2, m2);
  f.RunOnce();
  q2->push(imu(1, {0, 0, 1}, {0, 0, 9.81}));
  f.RunOnce(); f.RunOnce();
  check(f.get_filtered_imu_data_buffer_ptr()->size() == 1 && q2->empty(), "the second IMU's sample is forwarded once");
''')
s("p21-stance-velocity", "P21", "initialisation while rotating with only the hind left foot on the ground",
  "the initial velocity from the hind left leg ignores the rotation of the body",
  [(MC, "velocity = -J_pLH * d_encoders_ - lie_group::skew(w) * pLH;", "velocity = -J_pLH * d_encoders_;")], r'''
  Vector3d w(0.3, -0.4, 0.5);
  for (int l = 0; l < 4; l++) {
    vector<int> c(4, 0); c[l] = 1; auto m = leg(0, c); m->ComputeKinematics();
    // a foot that is fixed to the ground, joints at rest: v + w x p = 0
    Vector3d v = m->get_init_velocity(w);
    check((v + w.cross(Vector3d(m->get_kin_pos(l)))).norm() < 1e-9, "stance foot is at rest");
  }
''')
s("p22-quaternion-before-check", "P22", "an invalid quaternion stored over a valid one, by a caller that handles the exception",
  "a rejected quaternion has already replaced the stored one",
  [("include/drift/measurement/impl/imu_impl.cpp", """  validate_quat(w, x, y, z);

  quaternion_.w() = w;
  quaternion_.x() = x;
  quaternion_.y() = y;
  quaternion_.z() = z;
}""", """  quaternion_ = Eigen::Quaternion<T>(w, x, y, z);
  validate_quat(w, x, y, z);
}""")], r"""
  ImuMeasurement<double> m; m.set_quaternion(0, 1, 0, 0); bool thrown = false;
  try { m.set_quaternion(0.5, 0, 0, 0); } catch (...) { thrown = true; }
  check(thrown, "rejected"); check(m.get_quaternion().x() == 1, "stored value kept");
""")
s("p23-bias-presence", "P23", "a configuration with the accelerometer noise but without the accelerometer bias noise (or the other way round)",
  "the presence test of the accelerometer bias noise looks at the gyroscope bias noise",
  [(IMU, """      = config_["noises"]["accelerometer_bias_std"]
            ? config_""", """      = config_["noises"]["gyroscope_bias_std"]
            ? config_""")], r'''
  put("i.yaml", "noises: {accelerometer_bias_std: 0.5}\nsettings: {static_bias_initialization: false, enable_imu_bias_update: true}\n");
  auto q = make_shared<IMUQueue>(); auto m = make_shared<mutex>();
  filter::inekf::ImuPropagation p(q, m, ErrorType::RightInvariant, "i.yaml");
  state::RobotState x; q->push(imu(0, {0, 0, 0}, {0, 0, 9.81})); p.set_initial_state(x);
  check(abs(x.get_accelerometer_bias_covariance()(0, 0) - 0.25) < 1e-12, "configured value is used");
''')
s("p24-renamed-entry", "P24", "a shipped configuration with an IMU that is not in the body centre",
  "the code reads translation_imu_to_body, which no shipped file sets, so the configured lever arm is silently ignored",
  [(IMU, """      = config_["settings"]["translation_imu2body"]
            ? config_["settings"]["translation_imu2body"]
""", """      = config_["settings"]["translation_imu_to_body"]
            ? config_["settings"]["translation_imu_to_body"]
""")], r'''
  put("i.yaml", "settings: {static_bias_initialization: false, translation_imu2body: [0.5, 0, 0]}\n");
  auto q = make_shared<IMUQueue>(); auto m = make_shared<mutex>();
  filter::inekf::ImuPropagation p(q, m, ErrorType::RightInvariant, "i.yaml");
  state::RobotState x; for (int i = 0; i < 3; i++) q->push(imu(0.1 * i, {0, 0, 1}, {0, 0, 9.81}));
  p.set_initial_state(x); p.Propagate(x); p.Propagate(x);
  check(x.get_velocity().head(2).norm() > 1e-3, "the lever arm has an effect");
''')
s("p25-log-grid", "P25", "snapshots that are further apart than the log period, followed by denser ones",
  "the time of the last logged line advances by one period instead of to the logged snapshot, so bursts exceed the log rate",
  [(EST, "      last_pub_t_ = state_log_ptr->get_time();\n", "      last_pub_t_ += 1.0 / pose_log_rate_;\n")], r'''
  put("e.yaml", "logger: {enable_pose_logger: true, pose_log_file: pose.txt, vel_log_file: vel.txt, pose_log_rate: 10}\nstate: {rotation_std_value: 0.1}\n");
  put("i.yaml", "settings: {static_bias_initialization: false}\n");
  { estimator::InekfEstimator e(ErrorType::RightInvariant, "e.yaml");
    auto qi = make_shared<IMUQueue>(); auto mi = make_shared<mutex>(); e.add_imu_propagation(qi, mi, "i.yaml");
    qi->push(imu(50, {0, 0, 0}, {0, 0, 9.81})); e.InitBias(); e.InitState();
    for (int i = 1; i <= 40; i++) { qi->push(imu(50 + 0.01 * i, {0, 0, 0}, {0, 0, 9.81})); e.RunOnce(); }
    ms(700); }
  ifstream f("pose.txt"); double t, last = -1e9; string rest; int n = 0;
  while (f >> t) { getline(f, rest); check(t - last >= 0.1 - 1e-9, "lines are at least one period apart"); last = t; n++; }
  check(n > 0, "something is logged");
''')
s("p27-odom-alone", "P27", "a program whose first drift include is the odometry measurement",
  "the odometry header no longer includes the base class it derives from",
  [("include/drift/measurement/odom.h", "#include \"measurement.h\"\n", "")], "", demo_sh='''#!/bin/bash
R="$PWD"; T="$(mktemp -d)"; trap 'cd /; rm -rf "${T:?}"' EXIT
cd "$T"
printf '#include "drift/measurement/odom.h"\\nint main() { return 0; }\\n' > a.cpp
g++ -std=c++17 -O0 -w -I"$R/include" -I"$R/include/drift" -I/usr/include/eigen3 a.cpp "$R/_build/libdrift.a" -lyaml-cpp -lpthread -o demo && ./demo
''')
s("p28-lever-arm-frame", "P28", "static bias initialisation with a rotated IMU that is mounted off the body centre, on a rotating platform",
  "the lever-arm compensation of the averaged samples uses the rate in the IMU frame",
  [(IMU, """    w = R_imu2body_ * w;
    Eigen::Vector3d a_compensate = w.cross(w.cross(t_imu2body_));
    a = R""", """    Eigen::Vector3d a_compensate = w.cross(w.cross(t_imu2body_));
    w = R_imu2body_ * w;
    a = R""")], r'''
  put("i.yaml", "settings: {static_bias_initialization: true, init_bias_size: 2, rotation_imu2body: [0.70710678118654752, 0.70710678118654752, 0, 0], translation_imu2body: [0.5, 0, 0]}\n");
  auto q = make_shared<IMUQueue>(); auto m = make_shared<mutex>();
  filter::inekf::ImuPropagation p(q, m, ErrorType::RightInvariant, "i.yaml");
  Vector3d w(0.1, 0.4, 0.2), a(0, 9.81, 0); Matrix3d R = Quaterniond(0.70710678118654752, 0.70710678118654752, 0, 0).toRotationMatrix();
  for (int i = 0; i < 2; i++) q->push(imu(0.1 * i, w, a));
  for (int i = 0; i < 3; i++) p.InitImuBias();
  Vector3d wb = R * w, t(0.5, 0, 0), e = R * a - wb.cross(wb.cross(t)) + Vector3d(0, 0, -9.81);
  check(p.get_bias_initialized(), "initialised");
  check((p.get_estimate_gyro_bias() - wb).norm() < 1e-9, "rate bias"); check((p.get_estimate_accel_bias() - e).norm() < 2e-2, "acceleration bias");
''')
s("p32-inverse-contacts", "P32", "an augmented contact in the state",
  "the inverse of the state matrix does not invert the columns of contacts",
  [(RS, "  for (int i = 3; i < dimX; ++i) {\n    Xinv", "  for (int i = 3; i < 5; ++i) {\n    Xinv")], r'''
  state::RobotState x; x.set_rotation(math::lie_group::Exp_SO3(Vector3d(0.1, 0.2, 0.3))); x.set_position(Vector3d(1, 2, 3));
  x.add_aug_state(Vector3d(4, 5, 6), MatrixXd::Identity(18, 18), Matrix3d::Identity(), make_shared<int>(5));
  check((x.get_X() * x.get_Xinv() - MatrixXd::Identity(6, 6)).norm() < 1e-9, "inverse");
''')
s("p26-propagate-time", "P26", "a gyro filter without gyro propagation, created in reused memory",
  "the time of the last propagation has no initial value, so that samples are dropped as stale",
  [("include/drift/imu_filter/imu_ang_vel_ekf.h", "  double last_propagate_time_\n      = -1;    // This", "  double last_propagate_time_;    // This")], r'''
  put("g.yaml", "settings: {static_bias_initialization: false, t_threshold: 0.03}\n");
  using F = imu_filter::ImuAngVelEKF;
  void* mem = operator new(sizeof(F)); { volatile unsigned char* c = (unsigned char*)mem; for (size_t i = 0; i < sizeof(F); i++) c[i] = 0x41; }
  auto q1 = make_shared<IMUQueue>(); auto m1 = make_shared<mutex>();
  F* f = new (mem) F("g.yaml"); f->add_imu_correction(q1, m1);
  f->RunOnce(); q1->push(imu(1, {0, 0, 1}, {0, 0, 9.81})); f->RunOnce();
  check(f->get_filtered_imu_data_buffer_ptr()->size() == 1, "first sample is fused");
  f->~F(); operator delete(mem);
''')
s("p04-stop-once", "P04", "destroying a gyro filter whose thread is running",
  "the stop request is a plain flag that is tested only before the loop",
  [(EKF, "  while (!stop_thread_) {\n    RunOnce();\n  }\n", "  const bool stopped = stop_thread_;\n  while (!stopped) {\n    RunOnce();\n  }\n")], r'''
  put("g.yaml", "settings: {static_bias_initialization: false}\n");
  auto q1 = make_shared<IMUQueue>(); auto m1 = make_shared<mutex>();
  static imu_filter::ImuAngVelEKF* f; f = new imu_filter::ImuAngVelEKF("g.yaml"); f->add_imu_correction(q1, m1);
  f->StartImuFilterThread(); ms(100);
  atomic<bool> done{false}; thread t([&] { delete f; done = true; });
  for (int i = 0; i < 50 && !done; i++) ms(100);
  check(done, "destructor returns");
  fflush(stdout); _Exit(bad);
''')
