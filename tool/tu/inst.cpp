// Explicit instantiations, so that every member of the repository's class
// templates is type-checked and extracted even where the library itself does
// not use it.
#include "drift/estimator/inekf_estimator.h"
#include "drift/kinematics/mini_cheetah_kinematics.h"
#include "drift/math/lie_group.h"
#include "drift/math/se_k_3.h"
#include "drift/measurement/angular_velocity.h"
#include "drift/measurement/contact.h"
#include "drift/measurement/imu.h"
#include "drift/measurement/joint_state.h"
#include "drift/measurement/legged_kinematics.h"
#include "drift/measurement/odom.h"
#include "drift/measurement/velocity.h"
namespace measurement {
template class ImuMeasurement<double>;
template class VelocityMeasurement<double>;
template class AngularVelocityMeasurement<double>;
template class JointStateMeasurement<double>;
}  // namespace measurement
