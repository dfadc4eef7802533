from mkseed import mk
W = "baselines/src/wheel_odometry/wheel_odometry.cpp"
RS = "src/state/robot_state.cpp"
FL = '-I"$R/baselines/include" "$R/baselines/src/wheel_odometry/wheel_odometry.cpp" '
H = r'''
#include <cmath>
#include <cstdio>
#include <fstream>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <vector>
#include "drift/measurement/velocity.h"
#include "drift/measurement/angular_velocity.h"
#include "wheel_odometry/wheel_odometry.h"
using namespace std;
static int bad = 0;
static void check(bool ok, const char* what) { if (!ok) { printf("FAILED: %s\n", what); bad = 1; } }
struct Rig {
  VelocityQueuePtr q = make_shared<VelocityQueue>(); AngularVelocityQueuePtr a = make_shared<AngularVelocityQueue>();
  shared_ptr<mutex> mq = make_shared<mutex>(), ma = make_shared<mutex>();
  unique_ptr<baseline::WheelOdometry> o;
  Rig() { ofstream("w.yaml") << "logger: {enable_pose_logger: true, pose_log_file: 'out.txt', pose_log_rate: 1000}\n";
    o = make_unique<baseline::WheelOdometry>(q, mq, a, ma, "w.yaml"); }
  void v(double t, double x) { auto m = make_shared<VelocityMeasurement<double>>(); m->set_time(t); m->set_velocity(x, 0, 0); q->push(m); }
  void w(double t, double z) { auto m = make_shared<AngularVelocityMeasurement<double>>(); m->set_time(t); m->set_angular_velocity(0, 0, z); a->push(m); }
  vector<vector<double>> rows() { vector<vector<double>> r; ifstream f("out.txt"); string l; while (getline(f, l)) { stringstream s(l); vector<double> x; double d; while (s >> d) x.push_back(d); r.push_back(x); } return r; }
};
'''


def s(id, prop, needs, breaks, edits, body):
    mk(id, prop, needs, breaks, edits, '#include "d.h"\nint main() {\n' + body + "\n  return bad;\n}\n", extra={"d.h": H}, flags=FL)


s("p37-resync", "P37", "two or more wheel velocities queued while no angular velocity has arrived",
  "velocities without a counterpart are discarded, so the later angular velocities are paired with the wrong ones",
  [(W, """    vel_queue_mutex_ptr_.get()->unlock();
    ang_vel_queue_mutex_ptr_.get()->unlock();
    return;""", """    // Stay in step with the slower source
    while (vel_queue_ptr_->size() > 1) {
      vel_queue_ptr_->pop();
    }
    vel_queue_mutex_ptr_.get()->unlock();
    ang_vel_queue_mutex_ptr_.get()->unlock();
    return;""")], r'''
  Rig r; r.v(1, 1); r.w(1, 0); r.o->RunOnce();
  r.v(2, 1); r.v(3, 5); r.o->RunOnce(); r.w(2, 0); r.o->RunOnce(); r.w(3, 0); r.o->RunOnce();
  auto x = r.rows();
  check(x.size() == 2 && fabs(x[0][1] - 1) < 1e-9 && fabs(x[1][1] - 6) < 1e-9, "both velocities are integrated");''')

s("p37-late-stamp", "P37", "the two measurements of a pair carry different stamps",
  "the interval is taken from whichever stamp is later, not from the velocity's",
  [(W, "    double t = vel_measurement->get_time();\n", "    double t = std::max(vel_measurement->get_time(),\n                        ang_vel_measurement->get_time());\n")], r'''
  Rig r; r.v(1, 1); r.w(1, 0); r.o->RunOnce();
  r.v(2, 1); r.w(2.5, 0); r.o->RunOnce();
  auto x = r.rows();
  check(x.size() == 1 && fabs(x[0][0] - 2) < 1e-9 && fabs(x[0][1] - 1) < 1e-9, "the interval is that of the velocities");''')

s("p37-end-heading", "P37", "a pair with both linear and angular velocity and an interval that is not tiny",
  "the displacement is taken along the heading after the turn",
  [(W, "p + R * v_mea * dt", "p + X.block<3, 1>(0, 3) * dt"), (W, "X.block<3, 1>(0, 3) = R * v_mea;", "X.block<3, 1>(0, 3) = X.block<3, 3>(0, 0) * v_mea;")], r'''
  Rig r; r.v(1, 1); r.w(1, 0); r.o->RunOnce();
  r.v(2, 1); r.w(2, 1.0); r.o->RunOnce();
  auto x = r.rows();
  check(x.size() == 1 && fabs(x[0][1] - 1) < 1e-9 && fabs(x[0][2]) < 1e-9, "the first step goes along the old heading");''')

s("p31-shift-in-place", "P31", "accelerometer and gyroscope bias noise that differ, and a foot that gains contact",
  "the bias noise is moved down inside one matrix, reading rows that were just overwritten",
  [(RS, """  Eigen::MatrixXd Qc_aug = Eigen::MatrixXd::Zero(dimQc + 3, dimQc + 3);

  int dimXi = dimQc - dimTheta;
  Qc_aug.topLeftCorner(dimXi, dimXi) = this->Qc_.topLeftCorner(dimXi, dimXi);
  Qc_aug.bottomLeftCorner(dimTheta, dimXi)
      = this->Qc_.bottomLeftCorner(dimTheta, dimXi);
  Qc_aug.topRightCorner(dimXi, dimTheta)
      = this->Qc_.topRightCorner(dimXi, dimTheta);
  Qc_aug.bottomRightCorner(dimTheta, dimTheta)
      = this->Qc_.bottomRightCorner(dimTheta, dimTheta);
  Qc_aug.block<3, 3>(dimQc - dimTheta, dimQc - dimTheta) = noise_cov;
  Qc_ = Qc_aug;
""", """  int dimXi = dimQc - dimTheta;
  // Make room for the new entry in front of the biases
  Qc_.conservativeResizeLike(Eigen::MatrixXd::Zero(dimQc + 3, dimQc + 3));
  Qc_.bottomRows(dimTheta) = Qc_.middleRows(dimXi, dimTheta);
  Qc_.middleRows(dimXi, 3).setZero();
  Qc_.rightCols(dimTheta) = Qc_.middleCols(dimXi, dimTheta);
  Qc_.middleCols(dimXi, 3).setZero();
  Qc_.block<3, 3>(dimXi, dimXi) = noise_cov;
""")], r'''
  state::RobotState s; Eigen::MatrixXd Q = Eigen::MatrixXd::Zero(15, 15);
  for (int i = 0; i < 15; i++) Q(i, i) = i + 1;
  s.set_continuous_noise_covariance(Q);
  s.add_aug_state(Eigen::Vector3d(1, 2, 3), Eigen::MatrixXd::Identity(18, 18), 100 * Eigen::Matrix3d::Identity(), make_shared<int>(5));
  Eigen::MatrixXd N = s.get_continuous_noise_covariance();
  check(N.rows() == 18 && N(9, 9) == 100 && N(12, 12) == 10 && N(15, 15) == 13 && N(17, 17) == 15, "the noise of both biases is kept");''')
