From c4fb83d2fbd000c7cacfd14f25bf0b4abc09805d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 01/42] fix: check sensor queues for emptiness under their
 mutex when initializing

---
 src/filter/inekf/correction/legged_kinematics_correction.cpp | 5 +++--
 src/filter/inekf/correction/velocity_correction.cpp          | 5 +++--
 src/filter/inekf/propagation/imu_propagation.cpp             | 3 ++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/filter/inekf/correction/legged_kinematics_correction.cpp b/src/filter/inekf/correction/legged_kinematics_correction.cpp
index 053f3d1..cfa536a 100644
--- a/src/filter/inekf/correction/legged_kinematics_correction.cpp
+++ b/src/filter/inekf/correction/legged_kinematics_correction.cpp
@@ -259,12 +259,13 @@ bool LeggedKinematicsCorrection::initialize(RobotState& state) {
 
   // Get measurement from sensor data buffer
   // Do not initialize if the buffer is emptys
-  while (sensor_data_buffer_ptr_->empty()) {
+  sensor_data_buffer_mutex_ptr_.get()->lock();
+  if (sensor_data_buffer_ptr_->empty()) {
     // std::cout << "Waiting for leg encoder data..." << std::endl;
+    sensor_data_buffer_mutex_ptr_.get()->unlock();
     return false;
   }
 
-  sensor_data_buffer_mutex_ptr_.get()->lock();
   // Get the lates measurement
   while (sensor_data_buffer_ptr_->size() > 1) {
     // std::cout << "Discarding old sensor data..." << std::endl;
diff --git a/src/filter/inekf/correction/velocity_correction.cpp b/src/filter/inekf/correction/velocity_correction.cpp
index 5e7f3f3..93baf38 100644
--- a/src/filter/inekf/correction/velocity_correction.cpp
+++ b/src/filter/inekf/correction/velocity_correction.cpp
@@ -150,12 +150,13 @@ bool VelocityCorrection::initialize(RobotState& state) {
 
   // Get measurement from sensor data buffer
   // Do not initialize if the buffer is emptys
-  while (sensor_data_buffer_ptr_->empty()) {
+  sensor_data_buffer_mutex_ptr_.get()->lock();
+  if (sensor_data_buffer_ptr_->empty()) {
     // std::cout << "Waiting for velocity related encoder data..." << std::endl;
+    sensor_data_buffer_mutex_ptr_.get()->unlock();
     return false;
   }
 
-  sensor_data_buffer_mutex_ptr_.get()->lock();
   // Get the latest measurement
   while (sensor_data_buffer_ptr_->size() > 1) {
     // std::cout << "Discarding old sensor data..." << std::endl;
diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index abb038c..8d9c957 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -490,10 +490,11 @@ const bool ImuPropagation::get_bias_initialized() const {
 // IMU propagation initialization for robot state
 bool ImuPropagation::set_initial_state(RobotState& state) {
   // Do not initialize if the buffer is emptys
+  sensor_data_buffer_mutex_ptr_.get()->lock();
   if (sensor_data_buffer_ptr_->empty()) {
+    sensor_data_buffer_mutex_ptr_.get()->unlock();
     return false;
   }
-  sensor_data_buffer_mutex_ptr_.get()->lock();
   const ImuMeasurementPtr imu_measurement = sensor_data_buffer_ptr_->front();
   sensor_data_buffer_ptr_->pop();
   sensor_data_buffer_mutex_ptr_.get()->unlock();
-- 
2.43.0


From 400ebdee57ac5087e39dd63865c468ed3c22dd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 02/42] fix: ImuAngVelEKF only pops the sample it used (queue
 may have been cleared)

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index c749132..059155c 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -647,14 +647,21 @@ void ImuAngVelEKF::SingleImuAngVelCorrection() {
     }
 
     imu_data_buffer_mutex_ptr_.get()->lock();
-    imu_data_buffer_ptr_.get()->pop();
+    // The buffer may have been cleared since the measurement was read
+    if (!imu_data_buffer_ptr_->empty()
+        && imu_data_buffer_ptr_->front() == imu_measurement) {
+      imu_data_buffer_ptr_.get()->pop();
+    }
     imu_data_buffer_mutex_ptr_.get()->unlock();
     return;
   }
 
   if (ang_vel_measurement && !latest_imu_measurement_) {
     ang_vel_data_buffer_mutex_ptr_.get()->lock();
-    ang_vel_data_buffer_ptr_.get()->pop();
+    if (!ang_vel_data_buffer_ptr_->empty()
+        && ang_vel_data_buffer_ptr_->front() == ang_vel_measurement) {
+      ang_vel_data_buffer_ptr_.get()->pop();
+    }
     ang_vel_data_buffer_mutex_ptr_.get()->unlock();
     return;
   }
@@ -671,7 +678,10 @@ void ImuAngVelEKF::SingleImuAngVelCorrection() {
     }
 
     ang_vel_data_buffer_mutex_ptr_.get()->lock();
-    ang_vel_data_buffer_ptr_->pop();
+    if (!ang_vel_data_buffer_ptr_->empty()
+        && ang_vel_data_buffer_ptr_->front() == ang_vel_measurement) {
+      ang_vel_data_buffer_ptr_->pop();
+    }
     ang_vel_data_buffer_mutex_ptr_.get()->unlock();
     return;
   }
@@ -692,7 +702,10 @@ void ImuAngVelEKF::AngVelCorrection() {
 
   if (ang_vel_measurement && !latest_imu_measurement_) {
     ang_vel_data_buffer_mutex_ptr_.get()->lock();
-    ang_vel_data_buffer_ptr_->pop();
+    if (!ang_vel_data_buffer_ptr_->empty()
+        && ang_vel_data_buffer_ptr_->front() == ang_vel_measurement) {
+      ang_vel_data_buffer_ptr_->pop();
+    }
     ang_vel_data_buffer_mutex_ptr_.get()->unlock();
     return;
   }
@@ -706,7 +719,10 @@ void ImuAngVelEKF::AngVelCorrection() {
     filtered_imu_data_buffer_mutex_ptr_.get()->unlock();
 
     ang_vel_data_buffer_mutex_ptr_.get()->lock();
-    ang_vel_data_buffer_ptr_->pop();
+    if (!ang_vel_data_buffer_ptr_->empty()
+        && ang_vel_data_buffer_ptr_->front() == ang_vel_measurement) {
+      ang_vel_data_buffer_ptr_->pop();
+    }
     ang_vel_data_buffer_mutex_ptr_.get()->unlock();
     return;
   }
-- 
2.43.0


From c89771ec4ab9b7295fef4e11a42f617c137f27bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 03/42] fix: keep the existing process noise when augmenting
 the state

---
 src/state/robot_state.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index 88c203c..aa65987 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -148,12 +148,12 @@ int RobotState::add_aug_state(const Eigen::Vector3d& aug,
   int dimTheta = this->dimTheta();
   Eigen::MatrixXd Qc_aug = Eigen::MatrixXd::Zero(dimQc + 3, dimQc + 3);
 
-  Qc_aug.topLeftCorner(this->dimX(), this->dimX())
-      = this->Qc_.topLeftCorner(this->dimX(), this->dimX());
-  Qc_aug.bottomLeftCorner(dimTheta, this->dimX())
-      = this->Qc_.bottomLeftCorner(dimTheta, this->dimX());
-  Qc_aug.topRightCorner(this->dimX(), dimTheta)
-      = this->Qc_.topRightCorner(this->dimX(), dimTheta);
+  int dimXi = dimQc - dimTheta;
+  Qc_aug.topLeftCorner(dimXi, dimXi) = this->Qc_.topLeftCorner(dimXi, dimXi);
+  Qc_aug.bottomLeftCorner(dimTheta, dimXi)
+      = this->Qc_.bottomLeftCorner(dimTheta, dimXi);
+  Qc_aug.topRightCorner(dimXi, dimTheta)
+      = this->Qc_.topRightCorner(dimXi, dimTheta);
   Qc_aug.bottomRightCorner(dimTheta, dimTheta)
       = this->Qc_.bottomRightCorner(dimTheta, dimTheta);
   Qc_aug.block<3, 3>(dimQc - dimTheta, dimQc - dimTheta) = noise_cov;
-- 
2.43.0


From d6432c39514a6df6f62b8b475c6379fb5dbb7f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 04/42] fix: delete and return the augmented bias that was
 asked for

---
 src/state/robot_state.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index aa65987..55b4949 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -292,15 +292,15 @@ void RobotState::add_aug_bias(const Eigen::Vector3d& baug) {
 
 
 void RobotState::del_aug_bias(int matrix_idx) {
-  int start = matrix_idx - 5 + 6;
+  int start = 3 * (matrix_idx - 5) + 6;
   Theta_.block(start, 0, Theta_.rows() - start - 3, 1)
-      = Theta_.block(start + 3, 0, Theta_.rows() - start - 3, 1);
+      = Theta_.block(start + 3, 0, Theta_.rows() - start - 3, 1).eval();
   Theta_.conservativeResize(Theta_.rows() - 3);
 }
 
 
 const Eigen::Vector3d RobotState::get_aug_bias(int matrix_idx) {
-  return Theta_.block<3, 1>(Theta_.rows() - 3, 0);
+  return Theta_.block<3, 1>(3 * (matrix_idx - 5) + 6, 0);
 }
 
 void RobotState::set_rotation_covariance(const Eigen::Matrix3d& cov) {
-- 
2.43.0


From af1c9debb65343967c413a0431c9c71eca61627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 05/42] fix: body-centric mean propagation wrote into a
 shadowing variable

---
 src/filter/inekf/propagation/imu_propagation.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 8d9c957..0de70cb 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -199,7 +199,6 @@ bool ImuPropagation::Propagate(RobotState& state) {
     X_pred.block<3, 1>(0, 4) = p + v * dt + (R * G2 * a + 0.5 * g_) * dt * dt;
   } else {
     // Propagate body-centric state estimate
-    Eigen::MatrixXd X_pred = X;
     Eigen::Matrix3d G0t = G0.transpose();
     X_pred.block<3, 3>(0, 0) = G0t * R;
     X_pred.block<3, 1>(0, 3) = G0t * (v - (G1 * a + R * g_) * dt);
-- 
2.43.0


From e24229f9b8c6708c790a1d9dd3f323c7462ec62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 06/42] fix: small-rate limits of the bias blocks used integer
 division

---
 src/filter/inekf/propagation/imu_propagation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 0de70cb..66edeb3 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -306,8 +306,8 @@ Eigen::MatrixXd ImuPropagation::StateTransitionMatrix(const Eigen::Vector3d& w,
   /// TODO: Get better approximation using taylor series when theta < tol
   const double tol = 1e-6;
   if (theta < tol) {
-    Phi25L = (1 / 2) * ax * dt2;
-    Phi35L = (1 / 6) * ax * dt3;
+    Phi25L = (1.0 / 2) * ax * dt2;
+    Phi35L = (1.0 / 6) * ax * dt3;
   }
 
   // Fill out analytical state transition matrices
-- 
2.43.0


From 755c5afcbdf5543a7ce078b3e71812d269369914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 07/42] fix: destroying an ImuAngVelEKF whose thread was never
 started

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 059155c..5e57f94 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -325,7 +325,9 @@ ImuAngVelEKF::ImuAngVelEKF(const std::string& yaml_filepath)
 // IMU filter destructor
 ImuAngVelEKF::~ImuAngVelEKF() {
   stop_thread_ = true;
-  imu_filter_thread_.join();
+  if (imu_filter_thread_.joinable()) {
+    imu_filter_thread_.join();
+  }
   imu_propagate_input_outfile_.close();
   imu_propagate_outfile_.close();
   imu_ang_vel_outfile_.close();
-- 
2.43.0


From c93145724cf9c37e776118b8de5d1cfede31d47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 08/42] fix: the first IMU also belongs to the multi-IMU
 correction

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 5e57f94..e599a6f 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -351,11 +351,10 @@ void ImuAngVelEKF::add_imu_correction(
     // For single imu version:
     imu_data_buffer_ptr_ = imu_data_buffer_ptr;
     imu_data_buffer_mutex_ptr_ = imu_data_buffer_mutex_ptr;
-  } else {
-    // For all other versions:
-    imu_data_buffer_ptrs_.push_back(imu_data_buffer_ptr);
-    imu_data_buffer_mutex_ptrs_.push_back(imu_data_buffer_mutex_ptr);
   }
+  // For all other versions:
+  imu_data_buffer_ptrs_.push_back(imu_data_buffer_ptr);
+  imu_data_buffer_mutex_ptrs_.push_back(imu_data_buffer_mutex_ptr);
 }
 
 void ImuAngVelEKF::add_ang_vel_correction(
-- 
2.43.0


From 26479f293a6b69555f5e91ae6bd6c765404598c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 09/42] fix: MultiImuCorrection forwarded a fused sample again
 for a rejected one

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index e599a6f..59719dc 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -574,10 +574,10 @@ void ImuAngVelEKF::SingleImuCorrection() {
 
 void ImuAngVelEKF::MultiImuCorrection() {
   ImuMeasurementPtr imu_measurement = nullptr;
-  ImuMeasurementPtr fused_ang_imu = nullptr;
 
   // Bias corrected IMU measurements
   for (int i = 0; i < imu_data_buffer_mutex_ptrs_.size(); i++) {
+    ImuMeasurementPtr fused_ang_imu = nullptr;
     imu_data_buffer_mutex_ptrs_[i].get()->lock();
     if (imu_data_buffer_ptrs_[i]->empty()) {
       imu_data_buffer_mutex_ptrs_[i].get()->unlock();
-- 
2.43.0


From 2fc95905d65d4366807ccf97fd23e8518280d34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 10/42] fix: init_bias_size was never set by the five-argument
 ImuAngVelEKF constructor

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 59719dc..6a2e406 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -65,6 +65,10 @@ ImuAngVelEKF::ImuAngVelEKF(
           ? config_["settings"]["correction_method"].as<int>()
           : 0);
 
+  init_bias_size_ = config_["settings"]["init_bias_size"]
+                        ? config_["settings"]["init_bias_size"].as<int>()
+                        : 250;
+
   // Set the initial bias
   static_bias_initialization_
       = config_["settings"]["static_bias_initialization"]
-- 
2.43.0


From 9d616049dfbd47ad4057ceab2bf9dffdbc45ac7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 11/42] fix: SingleImuCorrection blocked forever on a stale
 sample or without gyro propagation

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 6a2e406..ee2ca74 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -562,8 +562,9 @@ void ImuAngVelEKF::SingleImuCorrection() {
   /// TODO: double check if we need absolute here?
   // if (last_propagate_time_ == -1
   // || last_propagate_time_ - imu_measurement->get_time() <= t_thres_) {
-  if (last_propagate_time_ - imu_measurement->get_time() <= t_thres_
-      && last_propagate_time_ >= imu_measurement->get_time()) {
+  if (last_propagate_time_ == -1
+      || (last_propagate_time_ - imu_measurement->get_time() <= t_thres_
+          && last_propagate_time_ >= imu_measurement->get_time())) {
     imu_data_buffer_ptr_.get()->pop();
     imu_data_buffer_mutex_ptr_.get()->unlock();
 
@@ -572,6 +573,10 @@ void ImuAngVelEKF::SingleImuCorrection() {
     filtered_imu_data_buffer_ptr_->push(fused_ang_imu);
     filtered_imu_data_buffer_mutex_ptr_.get()->unlock();
   } else {
+    // Drop measurements that can never be used anymore
+    if (last_propagate_time_ > imu_measurement->get_time()) {
+      imu_data_buffer_ptr_.get()->pop();
+    }
     imu_data_buffer_mutex_ptr_.get()->unlock();
   }
 }
-- 
2.43.0


From 6de0c6864a7bc1c5cd215adf0854aca4e3ab164f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 12/42] fix: ImuAngVelEKF::clear skipped the gyro and multi-IMU
 queues and crashed without the optional ones

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 36 +++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index ee2ca74..62584bc 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -894,19 +894,39 @@ ImuAngVelEKF::get_filtered_imu_data_buffer_and_mutex_ptr() {
 };
 
 void ImuAngVelEKF::clear() {
+  // Clear gyro propagation data buffer
+  if (gyro_prop_data_buffer_mutex_ptr_) {
+    gyro_prop_data_buffer_mutex_ptr_.get()->lock();
+    while (!gyro_prop_data_buffer_ptr_->empty()) {
+      gyro_prop_data_buffer_ptr_->pop();
+    }
+    gyro_prop_data_buffer_mutex_ptr_.get()->unlock();
+  }
+
   // Clear Imu data buffer
-  imu_data_buffer_mutex_ptr_.get()->lock();
-  while (!imu_data_buffer_ptr_->empty()) {
-    imu_data_buffer_ptr_->pop();
+  if (imu_data_buffer_mutex_ptr_) {
+    imu_data_buffer_mutex_ptr_.get()->lock();
+    while (!imu_data_buffer_ptr_->empty()) {
+      imu_data_buffer_ptr_->pop();
+    }
+    imu_data_buffer_mutex_ptr_.get()->unlock();
+  }
+  for (int i = 0; i < imu_data_buffer_mutex_ptrs_.size(); i++) {
+    imu_data_buffer_mutex_ptrs_[i].get()->lock();
+    while (!imu_data_buffer_ptrs_[i]->empty()) {
+      imu_data_buffer_ptrs_[i]->pop();
+    }
+    imu_data_buffer_mutex_ptrs_[i].get()->unlock();
   }
-  imu_data_buffer_mutex_ptr_.get()->unlock();
 
   // Clear angular velocity data buffer
-  ang_vel_data_buffer_mutex_ptr_.get()->lock();
-  while (!ang_vel_data_buffer_ptr_->empty()) {
-    ang_vel_data_buffer_ptr_->pop();
+  if (ang_vel_data_buffer_mutex_ptr_) {
+    ang_vel_data_buffer_mutex_ptr_.get()->lock();
+    while (!ang_vel_data_buffer_ptr_->empty()) {
+      ang_vel_data_buffer_ptr_->pop();
+    }
+    ang_vel_data_buffer_mutex_ptr_.get()->unlock();
   }
-  ang_vel_data_buffer_mutex_ptr_.get()->unlock();
 
   // Clear filtered_imu_data_buffer
   filtered_imu_data_buffer_mutex_ptr_.get()->lock();
-- 
2.43.0


From 4d6b8b83a6af92af8abd2967396c9f5d6d7baac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 13/42] fix: AngVelCorrection ignored the configured time
 threshold

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 62584bc..2d28895 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -722,11 +722,14 @@ void ImuAngVelEKF::AngVelCorrection() {
 
   // only execute the following code if we have a latest_imu_measurement_
   if (ang_vel_measurement && latest_imu_measurement_) {
-    auto fused_ang_imu = AngVelFilterCorrectEncoder(latest_imu_measurement_,
-                                                    ang_vel_measurement);
-    filtered_imu_data_buffer_mutex_ptr_.get()->lock();
-    filtered_imu_data_buffer_ptr_->push(fused_ang_imu);
-    filtered_imu_data_buffer_mutex_ptr_.get()->unlock();
+    if (last_propagate_time_ == -1
+        || last_propagate_time_ - ang_vel_measurement->get_time() <= t_thres_) {
+      auto fused_ang_imu = AngVelFilterCorrectEncoder(latest_imu_measurement_,
+                                                      ang_vel_measurement);
+      filtered_imu_data_buffer_mutex_ptr_.get()->lock();
+      filtered_imu_data_buffer_ptr_->push(fused_ang_imu);
+      filtered_imu_data_buffer_mutex_ptr_.get()->unlock();
+    }
 
     ang_vel_data_buffer_mutex_ptr_.get()->lock();
     if (!ang_vel_data_buffer_ptr_->empty()
-- 
2.43.0


From 0649e247188e8ab5f21b43b1692569502f672477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 14/42] fix: velocity initialisation ignored the sensor
 rotation and scale

---
 src/filter/inekf/correction/velocity_correction.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter/inekf/correction/velocity_correction.cpp b/src/filter/inekf/correction/velocity_correction.cpp
index 93baf38..88acd0b 100644
--- a/src/filter/inekf/correction/velocity_correction.cpp
+++ b/src/filter/inekf/correction/velocity_correction.cpp
@@ -167,7 +167,8 @@ bool VelocityCorrection::initialize(RobotState& state) {
   sensor_data_buffer_mutex_ptr_.get()->unlock();
 
   // Apply the rotation to map the body velocity to the world frame
-  state.set_velocity(state.get_rotation() * measured_velocity->get_velocity());
+  state.set_velocity(state.get_rotation() * R_vel2body_ * velocity_scale_
+                     * measured_velocity->get_velocity());
   state.set_time(measured_velocity->get_time());
   return true;
 }
-- 
2.43.0


From e4392f15262c0b23de22b53eb0cb01c0c24a7d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 15/42] fix: do not use a velocity sample from the future after
 dropping stale ones

---
 src/filter/inekf/correction/velocity_correction.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/filter/inekf/correction/velocity_correction.cpp b/src/filter/inekf/correction/velocity_correction.cpp
index 88acd0b..d31ec0b 100644
--- a/src/filter/inekf/correction/velocity_correction.cpp
+++ b/src/filter/inekf/correction/velocity_correction.cpp
@@ -105,10 +105,13 @@ bool VelocityCorrection::Correct(RobotState& state) {
         return false;
       }
       measured_velocity = sensor_data_buffer_ptr_->front();
+      t_diff = measured_velocity->get_time() - state.get_propagate_time();
+      if (t_diff >= 0) {
+        sensor_data_buffer_mutex_ptr_->unlock();
+        return false;
+      }
       sensor_data_buffer_ptr_->pop();
       sensor_data_buffer_mutex_ptr_->unlock();
-
-      t_diff = measured_velocity->get_time() - state.get_propagate_time();
     }
   }
 
-- 
2.43.0


From d13d96137f9edbc0d5116040a76125353d27be00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 16/42] fix: skip leg samples that are too new, as announced

---
 src/filter/inekf/correction/legged_kinematics_correction.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filter/inekf/correction/legged_kinematics_correction.cpp b/src/filter/inekf/correction/legged_kinematics_correction.cpp
index cfa536a..928eeed 100644
--- a/src/filter/inekf/correction/legged_kinematics_correction.cpp
+++ b/src/filter/inekf/correction/legged_kinematics_correction.cpp
@@ -82,7 +82,8 @@ bool LeggedKinematicsCorrection::Correct(RobotState& state) {
 
       t_diff = kinematics_measurement->get_time() - state.get_propagate_time();
     }
-  } else if (t_diff > t_diff_thres_) {
+  }
+  if (t_diff > t_diff_thres_) {
     std::cerr
         << std::setprecision(20)
         << "Measurement received in the velocity correction is way faster than "
@@ -92,6 +93,7 @@ bool LeggedKinematicsCorrection::Correct(RobotState& state) {
         << ", this measurement time: " << kinematics_measurement->get_time()
         << ", time diff: " << t_diff << ", set threshold: " << t_diff_thres_
         << std::endl;
+    return false;
   }
 
   state.set_time(kinematics_measurement->get_time());
-- 
2.43.0


From 10adb402665d1ee721f6283fb54466fddb39b5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 17/42] fix: tag all leg measurements and name all measurement
 types

---
 src/measurement/legged_kinematics.cpp | 5 ++++-
 src/measurement/measurement.cpp       | 6 ++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/measurement/legged_kinematics.cpp b/src/measurement/legged_kinematics.cpp
index 9c78471..037a6a6 100644
--- a/src/measurement/legged_kinematics.cpp
+++ b/src/measurement/legged_kinematics.cpp
@@ -21,7 +21,10 @@ LeggedKinematicsMeasurement::LeggedKinematicsMeasurement(
     const Eigen::Matrix<double, Eigen::Dynamic, 1>& encoders,
     const Eigen::Matrix<double, Eigen::Dynamic, 1>& d_encoders,
     const Eigen::Matrix<bool, Eigen::Dynamic, 1>& contacts)
-    : encoders_(encoders), d_encoders_(d_encoders), contacts_(contacts) {}
+    : Measurement(LEGGED_KINEMATICS),
+      encoders_(encoders),
+      d_encoders_(d_encoders),
+      contacts_(contacts) {}
 
 void LeggedKinematicsMeasurement::set_contact(
     const Eigen::Matrix<bool, Eigen::Dynamic, 1>& contacts) {
diff --git a/src/measurement/measurement.cpp b/src/measurement/measurement.cpp
index 3c5038f..4d89252 100644
--- a/src/measurement/measurement.cpp
+++ b/src/measurement/measurement.cpp
@@ -49,6 +49,12 @@ ostream& operator<<(ostream& os, const Measurement& m) {
     case VELOCITY:
       type_str = "VELOCITY";
       break;
+    case ANGULAR_VELOCITY:
+      type_str = "ANGULAR_VELOCITY";
+      break;
+    case ODOM:
+      type_str = "ODOM";
+      break;
     case JOINT_STATE:
       type_str = "JOINT_STATE";
       break;
-- 
2.43.0


From 3d770ea7b6f6d35481f36d7f24f337ff93487295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 18/42] fix: size the joint velocities of an empty MiniCheetah
 measurement

---
 src/kinematics/mini_cheetah_kinematics.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinematics/mini_cheetah_kinematics.cpp b/src/kinematics/mini_cheetah_kinematics.cpp
index 85b9fca..84962bf 100644
--- a/src/kinematics/mini_cheetah_kinematics.cpp
+++ b/src/kinematics/mini_cheetah_kinematics.cpp
@@ -26,6 +26,7 @@ MiniCheetahKinematics::MiniCheetahKinematics() {
   jacobians_.setConstant(3, NLEG * NAPL, 0);
   contacts_.setConstant(NLEG, 1, 0);
   encoders_.setConstant(NLEG * NAPL, 1, 0);
+  d_encoders_.setConstant(NLEG * NAPL, 1, 0);
 }
 
 MiniCheetahKinematics::MiniCheetahKinematics(
-- 
2.43.0


From 54c161324de9e3ffdc2fb49d2beb071a573c2f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 19/42] fix: contact measurement functions defined in a header
 must be inline

---
 include/drift/measurement/impl/contact_impl.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/drift/measurement/impl/contact_impl.cpp b/include/drift/measurement/impl/contact_impl.cpp
index 17c3950..d17ed5c 100644
--- a/include/drift/measurement/impl/contact_impl.cpp
+++ b/include/drift/measurement/impl/contact_impl.cpp
@@ -12,16 +12,17 @@
  **/
 
 namespace measurement {
-ContactMeasurement::ContactMeasurement() : Measurement(CONTACT) {}
+inline ContactMeasurement::ContactMeasurement() : Measurement(CONTACT) {}
 
 
-void ContactMeasurement::set_contact(
+inline void ContactMeasurement::set_contact(
     const Eigen::Matrix<bool, Eigen::Dynamic, 1>& contacts) {
   contacts_ = contacts;
 }
 
 
-Eigen::Matrix<bool, Eigen::Dynamic, 1> ContactMeasurement::get_contact() const {
+inline Eigen::Matrix<bool, Eigen::Dynamic, 1>
+ContactMeasurement::get_contact() const {
   return contacts_;
 }
 }    // namespace measurement
-- 
2.43.0


From c971aa9ec59d95517231e7ad042c11f49fdd527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 20/42] fix: convert the covariance between error conventions
 in the left-invariant update

---
 src/filter/inekf/inekf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter/inekf/inekf.cpp b/src/filter/inekf/inekf.cpp
index 8e50d9f..fbf4f72 100644
--- a/src/filter/inekf/inekf.cpp
+++ b/src/filter/inekf/inekf.cpp
@@ -122,7 +122,7 @@ void CorrectLeftInvariant(const Eigen::MatrixXd& Z, const Eigen::MatrixXd& H,
   }
 
   // Map from right invariant to left invariant error temporarily
-  if (error_type == ErrorType::LeftInvariant) {
+  if (error_type == ErrorType::RightInvariant) {
     Eigen::MatrixXd AdjInv = Eigen::MatrixXd::Identity(dimP, dimP);
     AdjInv.block(0, 0, dimP - dimTheta, dimP - dimTheta)
         = lie_group::Adjoint_SEK3(state.get_Xinv());
-- 
2.43.0


From 1ff9acf7aec857fd4d70c2dc9d55d59a0b757c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 21/42] fix: initial body angular velocity was left in the IMU
 frame

---
 src/filter/inekf/propagation/imu_propagation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 66edeb3..dba8aac 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -509,7 +509,8 @@ bool ImuPropagation::set_initial_state(RobotState& state) {
 
   state.set_rotation(R0);
   state.set_position(p0);
-  state.set_body_angular_velocity(imu_measurement->get_angular_velocity());
+  state.set_body_angular_velocity(R_imu2body_
+                                  * imu_measurement->get_angular_velocity());
 
   // Set the initial bias
   state.set_gyroscope_bias(bg0_);
-- 
2.43.0


From 7a3a0f129d5586b65665829a6b14cf70e12f03ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 22/42] fix: clearing the robot state kept times and flags of
 the previous run

---
 include/drift/state/robot_state.h | 7 ++++---
 src/state/robot_state.cpp         | 4 ++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/drift/state/robot_state.h b/include/drift/state/robot_state.h
index ad6c237..90b5d5f 100644
--- a/include/drift/state/robot_state.h
+++ b/include/drift/state/robot_state.h
@@ -637,10 +637,11 @@ class RobotState {
                                  // corresponding
                                  // correction map's value
 
-  double t_;                     // The latest time when the state X_ is updated
-  double t_prop_;         // The latest time when the state X_ is propagated
+  double t_ = 0;                 // The latest time when the state X_ is updated
+  double t_prop_ = 0;     // The latest time when the state X_ is propagated
   Eigen::MatrixXd Qc_;    // Continuous noise covariance matrix
-  Eigen::Vector3d body_ang_vel_;    // Latest angular velocity
+  Eigen::Vector3d body_ang_vel_
+      = Eigen::Vector3d::Zero();    // Latest angular velocity
   bool enable_imu_bias_update_ = false;
   int slip_flag_ = 0;               // 0: no slip, 1: slip;
 };
diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index 55b4949..2cf5cd7 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -422,6 +422,10 @@ void RobotState::clear() {
   column_id_to_corr_map_
       = std::vector<std::shared_ptr<int>>(this->dimX(), nullptr);
   body_ang_vel_ = Eigen::Vector3d::Zero();
+  t_ = 0;
+  t_prop_ = 0;
+  enable_imu_bias_update_ = false;
+  slip_flag_ = 0;
 }
 
 void RobotState::set_slip_flag(int slip_flag) { slip_flag_ = slip_flag; }
-- 
2.43.0


From dfc96fe360bbc7a23583ad85149cfe836fbb32e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 23/42] fix: one log file number per reset, and no reset while
 the logger writes

---
 include/drift/estimator/inekf_estimator.h | 1 +
 src/estimator/inekf_estimator.cpp         | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/drift/estimator/inekf_estimator.h b/include/drift/estimator/inekf_estimator.h
index 192804c..56b2bed 100644
--- a/include/drift/estimator/inekf_estimator.h
+++ b/include/drift/estimator/inekf_estimator.h
@@ -298,6 +298,7 @@ class InekfEstimator {
   std::ofstream vel_outfile_;          // Output file stream for velocity logger
   std::ofstream vel_body_outfile_;     // Output file stream for velocity in the
                                        // body frame logger
+  std::mutex log_file_mutex_;          // Mutex of the log files
   double pose_log_rate_;               // Pose logger rate
   double last_pub_t_ = 0.0;            // Last published time for pose logger
   std::thread pose_logging_thread_;    // Pose logging thread
diff --git a/src/estimator/inekf_estimator.cpp b/src/estimator/inekf_estimator.cpp
index 9dad73d..437cb30 100644
--- a/src/estimator/inekf_estimator.cpp
+++ b/src/estimator/inekf_estimator.cpp
@@ -145,6 +145,7 @@ void InekfEstimator::PoseLoggingThread() {
     robot_state_log_queue_ptr_.get()->pop();
     robot_state_log_queue_mutex_.unlock();
 
+    std::lock_guard<std::mutex> log_file_lock(log_file_mutex_);
     double time_diff = state_log_ptr->get_time() - last_pub_t_;
     if (enable_pose_logger_ && time_diff >= 1.0 / pose_log_rate_) {
       Eigen::Quaterniond state_quat(state_log_ptr->get_world_rotation());
@@ -318,17 +319,19 @@ void InekfEstimator::clear() {
   }
   robot_state_log_queue_mutex_.unlock();
   if (enable_pose_logger_) {
+    std::lock_guard<std::mutex> log_file_lock(log_file_mutex_);
+    last_pub_t_ = 0.0;
     outfile_.close();
     outfile_.open(pose_log_file_ + '_' + std::to_string(++init_count_)
                   + ".txt");
     outfile_.precision(dbl::max_digits10);
     vel_outfile_.close();
-    vel_outfile_.open(vel_log_file_ + '_' + std::to_string(++init_count_)
+    vel_outfile_.open(vel_log_file_ + '_' + std::to_string(init_count_)
                       + ".txt");
     vel_outfile_.precision(dbl::max_digits10);
     vel_body_outfile_.close();
     vel_body_outfile_.open(vel_log_file_ + "_body_frame_"
-                           + std::to_string(++init_count_) + ".txt");
+                           + std::to_string(init_count_) + ".txt");
     vel_body_outfile_.precision(dbl::max_digits10);
   }
 }
-- 
2.43.0


From 441b62d503d3f4b11b30ff50bee3c55107963728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:14 +0000
Subject: [PATCH 24/42] fix: default-constructed InekfEstimator read
 uninitialised members

---
 include/drift/estimator/inekf_estimator.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/drift/estimator/inekf_estimator.h b/include/drift/estimator/inekf_estimator.h
index 56b2bed..039bf81 100644
--- a/include/drift/estimator/inekf_estimator.h
+++ b/include/drift/estimator/inekf_estimator.h
@@ -292,14 +292,14 @@ class InekfEstimator {
   std::shared_ptr<std::mutex>
       robot_state_queue_mutex_ptr_;    // Mutex of the robot
                                        // state queue
-  bool enable_pose_logger_;            // Boolean value indicating whether
+  bool enable_pose_logger_ = false;    // Boolean value indicating whether
                                        // the filter should log the pose
   std::ofstream outfile_;              // Output file stream for pose logger
   std::ofstream vel_outfile_;          // Output file stream for velocity logger
   std::ofstream vel_body_outfile_;     // Output file stream for velocity in the
                                        // body frame logger
   std::mutex log_file_mutex_;          // Mutex of the log files
-  double pose_log_rate_;               // Pose logger rate
+  double pose_log_rate_ = 10.0;        // Pose logger rate
   double last_pub_t_ = 0.0;            // Last published time for pose logger
   std::thread pose_logging_thread_;    // Pose logging thread
   std::mutex
@@ -307,9 +307,9 @@ class InekfEstimator {
   RobotStateQueuePtr robot_state_log_queue_ptr_;    // Pointer to the robot
                                                     // state log queue
 
-  double rotation_cov_val_;                  // Covariance value for rotation
-  double velocity_cov_val_;                  // Covariance value for velocity
-  double position_cov_val_;                  // Covariance value for position
+  double rotation_cov_val_ = 0.03;           // Covariance value for rotation
+  double velocity_cov_val_ = 0.01;           // Covariance value for velocity
+  double position_cov_val_ = 0.00001;        // Covariance value for position
   std::atomic<bool> stop_signal_ = false;    // Stop signal for pose logger
   bool enabled_slip_estimator_ = false;      // Slip estimator enabled
   std::string pose_log_file_ = "";           // Pose log file path
-- 
2.43.0


From 18418588fa224834efd30b2bc7b52fa3e110e68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:14 +0000
Subject: [PATCH 25/42] fix: a new measurement had an indeterminate sequence
 number

---
 include/drift/measurement/measurement.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/drift/measurement/measurement.h b/include/drift/measurement/measurement.h
index a8671d4..9f59482 100644
--- a/include/drift/measurement/measurement.h
+++ b/include/drift/measurement/measurement.h
@@ -39,7 +39,7 @@ namespace measurement {
  */
 class Measurement {
   struct MeasurementHeader {
-    uint64_t seq;
+    uint64_t seq = 0;
     double stamp;
     std::string frame_id;
   };
-- 
2.43.0


From 04e475ed05148a3581505e230b936481bcf477f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 26/42] fix: bias covariances live after the augmented states

---
 src/state/robot_state.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index 2cf5cd7..95af2df 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -120,10 +120,14 @@ const Eigen::Matrix3d RobotState::get_position_covariance() const {
   return P_.block<3, 3>(6, 6);
 }
 const Eigen::Matrix3d RobotState::get_gyroscope_bias_covariance() const {
-  return P_.block<3, 3>(9, 9);
+  // The biases are the last entries, after all augmented states
+  int idx = this->dimP() - this->dimTheta();
+  return P_.block<3, 3>(idx, idx);
 }
 const Eigen::Matrix3d RobotState::get_accelerometer_bias_covariance() const {
-  return P_.block<3, 3>(12, 12);
+  // The biases are the last entries, after all augmented states
+  int idx = this->dimP() - this->dimTheta() + 3;
+  return P_.block<3, 3>(idx, idx);
 }
 
 const double RobotState::get_time() const { return t_; }
@@ -313,10 +317,12 @@ void RobotState::set_position_covariance(const Eigen::Matrix3d& cov) {
   P_.block<3, 3>(6, 6) = cov;
 }
 void RobotState::set_gyroscope_bias_covariance(const Eigen::Matrix3d& cov) {
-  P_.block<3, 3>(9, 9) = cov;
+  int idx = this->dimP() - this->dimTheta();
+  P_.block<3, 3>(idx, idx) = cov;
 }
 void RobotState::set_accelerometer_bias_covariance(const Eigen::Matrix3d& cov) {
-  P_.block<3, 3>(12, 12) = cov;
+  int idx = this->dimP() - this->dimTheta() + 3;
+  P_.block<3, 3>(idx, idx) = cov;
 }
 void RobotState::set_time(const double t) { t_ = t; }
 
-- 
2.43.0


From 18c05c018075cb811f2ef0bc60a1d2e6f11b0546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:35 +0000
Subject: [PATCH 27/42] fix: augmented covariances live before the biases

---
 src/state/robot_state.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index 95af2df..1e8b45f 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -329,9 +329,19 @@ void RobotState::set_time(const double t) { t_ = t; }
 void RobotState::set_propagate_time(const double t) { t_prop_ = t; }
 
 void RobotState::add_aug_cov(const Eigen::Matrix3d& cov) {
+  // Augmented states come before the biases, see add_aug_state
   int dim = this->dimP();
-  P_.conservativeResizeLike(Eigen::MatrixXd::Zero(dim + 3, dim + 3));
-  P_.block<3, 3>(dim, dim) = cov;
+  int dimTheta = this->dimTheta();
+  int dimXi = dim - dimTheta;
+  Eigen::MatrixXd P_aug = Eigen::MatrixXd::Zero(dim + 3, dim + 3);
+  P_aug.topLeftCorner(dimXi, dimXi) = P_.topLeftCorner(dimXi, dimXi);
+  P_aug.bottomLeftCorner(dimTheta, dimXi)
+      = P_.bottomLeftCorner(dimTheta, dimXi);
+  P_aug.topRightCorner(dimXi, dimTheta) = P_.topRightCorner(dimXi, dimTheta);
+  P_aug.bottomRightCorner(dimTheta, dimTheta)
+      = P_.bottomRightCorner(dimTheta, dimTheta);
+  P_aug.block<3, 3>(dimXi, dimXi) = cov;
+  P_ = P_aug;
 }
 
 void RobotState::del_aug_cov(int matrix_idx) {
-- 
2.43.0


From 05c358819b9f2da1d771c60cc6fce239b43c7736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:50 +0000
Subject: [PATCH 28/42] fix: strip only a file extension from the log file
 names, not the path after a dot in a directory

---
 src/estimator/inekf_estimator.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/estimator/inekf_estimator.cpp b/src/estimator/inekf_estimator.cpp
index 437cb30..42b6af1 100644
--- a/src/estimator/inekf_estimator.cpp
+++ b/src/estimator/inekf_estimator.cpp
@@ -49,13 +49,14 @@ InekfEstimator::InekfEstimator(ErrorType error_type, std::string config_file)
     // Erase the ".txt" or ".csv" from the file name.
     // This is helpful to make new file names when InekfEstimator::clear() is
     // called
-    std::string::size_type pos = pose_log_file_.find_last_of(".");
-    if (pos != std::string::npos)
+    // A dot in the directory part is not an extension
+    std::string::size_type pos = pose_log_file_.find_last_of("./");
+    if (pos != std::string::npos && pose_log_file_[pos] == '.')
       pose_log_file_.erase(pos, pose_log_file_.length());
 
 
-    std::string::size_type v_pos = vel_log_file_.find_last_of(".");
-    if (v_pos != std::string::npos)
+    std::string::size_type v_pos = vel_log_file_.find_last_of("./");
+    if (v_pos != std::string::npos && vel_log_file_[v_pos] == '.')
       vel_log_file_.erase(v_pos, vel_log_file_.length());
 
     // Define logger settings
-- 
2.43.0


From edb238119668e63007588d1afe8840b664f39d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:23 +0000
Subject: [PATCH 29/42] fix: name the contact noise in the shipped leg
 configurations as the code reads it

---
 config/mini_cheetah/legged_kinematics_correction.yaml           | 2 +-
 .../inekf_filter/correction/legged_kinematics_correction.yaml   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/config/mini_cheetah/legged_kinematics_correction.yaml b/config/mini_cheetah/legged_kinematics_correction.yaml
index 4f47daa..31eb204 100644
--- a/config/mini_cheetah/legged_kinematics_correction.yaml
+++ b/config/mini_cheetah/legged_kinematics_correction.yaml
@@ -6,5 +6,5 @@ noises:
   # kinematics_cov = J * encoder_cov_ * J.transpose() + kinematics_prior_cov_
   encoder_std: 0.0174533 # Standard deviation of the encoder readings, 0.0174533 = 1 deg std dev
   kinematics_additive_std: 0.05 # 5 cm std Adds to FK covariance.
-  contact_std: 0.1
+  contact_noise_std: 0.1
 
diff --git a/config/templates/inekf_filter/correction/legged_kinematics_correction.yaml b/config/templates/inekf_filter/correction/legged_kinematics_correction.yaml
index 4f47daa..31eb204 100644
--- a/config/templates/inekf_filter/correction/legged_kinematics_correction.yaml
+++ b/config/templates/inekf_filter/correction/legged_kinematics_correction.yaml
@@ -6,5 +6,5 @@ noises:
   # kinematics_cov = J * encoder_cov_ * J.transpose() + kinematics_prior_cov_
   encoder_std: 0.0174533 # Standard deviation of the encoder readings, 0.0174533 = 1 deg std dev
   kinematics_additive_std: 0.05 # 5 cm std Adds to FK covariance.
-  contact_std: 0.1
+  contact_noise_std: 0.1
 
-- 
2.43.0


From aae771c29af48fe4e323ff7a7ee8be0caf6d2362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:46 +0000
Subject: [PATCH 30/42] fix: static bias initialisation without samples keeps
 the prior instead of dividing zero by zero

---
 src/filter/inekf/propagation/imu_propagation.cpp | 5 +++--
 src/imu_filter/imu_ang_vel_ekf.cpp               | 8 ++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index dba8aac..cf7798d 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -412,9 +412,10 @@ Eigen::MatrixXd ImuPropagation::DiscreteNoiseMatrix(const Eigen::MatrixXd& Phi,
 }
 
 void ImuPropagation::InitImuBias() {
-  if (!static_bias_initialization_) {
+  // Without samples to average the prior is all there is
+  if (!static_bias_initialization_ || init_bias_size_ <= 0) {
     bias_initialized_ = true;
-    std::cout << "Static bias inialization is set to false." << std::endl;
+    std::cout << "Static bias inialization is not used." << std::endl;
     std::cout << "Bias is initialized using prior as [gyro_bias, acc_bias]: "
               << bg0_.transpose() << ba0_.transpose() << std::endl;
     return;
diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 2d28895..4982fb6 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -475,7 +475,8 @@ void ImuAngVelEKF::InitializeFilter() {
 
   // std::cout << "bias_init set to " << static_bias_initialization_ <<
   // std::endl;
-  if (bias_init_vec_.size() < init_bias_size_ && static_bias_initialization_) {
+  if (static_bias_initialization_ && init_bias_size_ > 0
+      && bias_init_vec_.size() < init_bias_size_) {
     imu_data_buffer_mutex_ptr_.get()->lock();
     if (imu_data_buffer_ptr_->empty()) {
       imu_data_buffer_mutex_ptr_.get()->unlock();
@@ -504,7 +505,10 @@ void ImuAngVelEKF::InitializeFilter() {
     for (int i = 0; i < bias_init_vec_.size(); ++i) {
       avg = (avg + bias_init_vec_[i]).eval();
     }
-    avg = (avg / bias_init_vec_.size()).eval();
+    // Without samples there is no bias to average
+    if (!bias_init_vec_.empty()) {
+      avg = (avg / bias_init_vec_.size()).eval();
+    }
     std::cout << "Biases in the gyro filter are initialized to: "
               << avg.transpose() << std::endl;
 
-- 
2.43.0


From e9b6a7c313e0f1e353a6925615f398a80e7596cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:31 +0000
Subject: [PATCH 31/42] fix: drop the declaration of ImuAngVelEKF::InitImuBias,
 which is defined nowhere

---
 include/drift/imu_filter/imu_ang_vel_ekf.h | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/include/drift/imu_filter/imu_ang_vel_ekf.h b/include/drift/imu_filter/imu_ang_vel_ekf.h
index 90e5373..d849dfb 100644
--- a/include/drift/imu_filter/imu_ang_vel_ekf.h
+++ b/include/drift/imu_filter/imu_ang_vel_ekf.h
@@ -146,20 +146,6 @@ class ImuAngVelEKF {
 
   void InitializeFilter();
 
-  /// @name Initialze IMU bias
-  //{
-  // ======================================================================
-  /**
-   * @brief Initialize IMU bias using the static assumption. This assumes
-   * the robot is static at a horizontal surface. (i.e. The gravity =
-   * /f$9.80 m/s^2/f$ is pointing downward.)
-   *
-   * The function takes the first n data points, average their value, and
-   * subtract the gravity to get the initial bias.
-   */
-  void InitImuBias();
-  ///@} End of Initialize IMU bias
-
   /// @name Setters
   /// @{
   // ======================================================================
-- 
2.43.0


From a71a911f3dee46856d0b6e1aff713731e6bc2f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:16 +0000
Subject: [PATCH 32/42] fix: ignore wheel encoder messages with fewer than four
 velocities

---
 ROS/drift/src/communication/ros_subscriber.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ROS/drift/src/communication/ros_subscriber.cpp b/ROS/drift/src/communication/ros_subscriber.cpp
index 180d861..3aec068 100644
--- a/ROS/drift/src/communication/ros_subscriber.cpp
+++ b/ROS/drift/src/communication/ros_subscriber.cpp
@@ -397,6 +397,11 @@ void ROSSubscriber::DifferentialEncoder2VelocityCallback(
     const boost::shared_ptr<const sensor_msgs::JointState>& encoder_msg,
     const std::shared_ptr<std::mutex>& mutex, VelocityQueuePtr& vel_queue,
     double wheel_radius) {
+  // Skip messages which do not contain the velocities of all four wheels
+  if (encoder_msg->velocity.size() < 4) {
+    return;
+  }
+
   // Create an velocity measurement object
   std::shared_ptr<VelocityMeasurement<double>> vel_measurement(
       new VelocityMeasurement<double>);
@@ -426,6 +431,11 @@ void ROSSubscriber::DifferentialEncoder2VelocityCallback(
     const std::shared_ptr<std::mutex>& ang_vel_mutex,
     VelocityQueuePtr& vel_queue, AngularVelocityQueuePtr& ang_vel_queue,
     double wheel_radius, double track_width) {
+  // Skip messages which do not contain the velocities of all four wheels
+  if (encoder_msg->velocity.size() < 4) {
+    return;
+  }
+
   // Create an velocity measurement object
   std::shared_ptr<VelocityMeasurement<double>> vel_measurement(
       new VelocityMeasurement<double>);
-- 
2.43.0


From de2b6fa2373e28ebf033f50f7cec8e4403a6193c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:16 +0000
Subject: [PATCH 33/42] fix: ignore contact and joint messages with too few
 elements

---
 ROS/drift/src/communication/ros_subscriber.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ROS/drift/src/communication/ros_subscriber.cpp b/ROS/drift/src/communication/ros_subscriber.cpp
index 3aec068..4184e7a 100644
--- a/ROS/drift/src/communication/ros_subscriber.cpp
+++ b/ROS/drift/src/communication/ros_subscriber.cpp
@@ -557,6 +557,12 @@ void ROSSubscriber::MiniCheetahKinCallBack(
         contact_msg,
     const boost::shared_ptr<const sensor_msgs::JointState>& encoder_msg,
     const std::shared_ptr<std::mutex>& mutex, LeggedKinQueuePtr& kin_queue) {
+  // Skip messages which do not contain all four contacts and twelve joints
+  if (contact_msg->contacts.size() < 4 || encoder_msg->position.size() < 12
+      || encoder_msg->velocity.size() < 12) {
+    return;
+  }
+
   // Create a legged kinematics measurement object
   // Set headers and time stamps
   std::shared_ptr<kinematics::MiniCheetahKinematics> kin_measurement(
-- 
2.43.0


From 03190b0c5f3aa47b44e804236bf5ff02f8ef3a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:16 +0000
Subject: [PATCH 34/42] fix: keep the calibration of each odometry source

---
 ROS/drift/include/communication/ros_subscriber.h |  6 ++++--
 ROS/drift/src/communication/ros_subscriber.cpp   | 13 ++++++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/ROS/drift/include/communication/ros_subscriber.h b/ROS/drift/include/communication/ros_subscriber.h
index a55a18a..a2b9725 100644
--- a/ROS/drift/include/communication/ros_subscriber.h
+++ b/ROS/drift/include/communication/ros_subscriber.h
@@ -419,8 +419,10 @@ class ROSSubscriber {
   std::vector<IMUSyncPtr> imu_sync_list_;
   std::vector<std::shared_ptr<std::mutex>> mutex_list_;    // List of mutexes
   std::unordered_map<int, OdomMeasurementPtr>
-      prev_odom_map_;                   // odom_src_id -> prev_odom_measurement
-  Eigen::Matrix4d odom_src_to_body_;    // Camera to body transformation matrix
+      prev_odom_map_;    // odom_src_id -> prev_odom_measurement
+  std::unordered_map<int, Eigen::Matrix4d>
+      odom_src_to_body_map_;    // odom_src_id -> transformation from odometry
+                                // source to body
 
 
   bool thread_started_;    // Flag of the thread started, true for started,
diff --git a/ROS/drift/src/communication/ros_subscriber.cpp b/ROS/drift/src/communication/ros_subscriber.cpp
index 4184e7a..fa50617 100644
--- a/ROS/drift/src/communication/ros_subscriber.cpp
+++ b/ROS/drift/src/communication/ros_subscriber.cpp
@@ -249,12 +249,13 @@ VelocityQueuePair ROSSubscriber::AddOdom2VelocityCallback(
   mutex_list_.emplace_back(new std::mutex);
 
   // Calculate the transformation from odometry source to body
-  odom_src_to_body_ = Eigen::Matrix4d::Identity();
+  Eigen::Matrix4d& odom_src_to_body = odom_src_to_body_map_[odom_src_id_];
+  odom_src_to_body = Eigen::Matrix4d::Identity();
   Eigen::Quaternion<double> orientation_quat(
       rotation_odomsrc2body[0], rotation_odomsrc2body[1],
       rotation_odomsrc2body[2], rotation_odomsrc2body[3]);
-  odom_src_to_body_.block<3, 3>(0, 0) = orientation_quat.toRotationMatrix();
-  odom_src_to_body_.block<3, 1>(0, 3) = Eigen::Vector3d(
+  odom_src_to_body.block<3, 3>(0, 0) = orientation_quat.toRotationMatrix();
+  odom_src_to_body.block<3, 1>(0, 3) = Eigen::Vector3d(
       {translation_odomsrc2body[0], translation_odomsrc2body[1],
        translation_odomsrc2body[2]});
 
@@ -675,9 +676,11 @@ void ROSSubscriber::Odom2VelocityCallback(
   // Set current odometry as previous odometry
   prev_odom_map_[odom_src_id] = odom_ptr;
 
-  Eigen::Matrix4d transformation = odom_src_to_body_.inverse()
+  const Eigen::Matrix4d& odom_src_to_body
+      = odom_src_to_body_map_.at(odom_src_id);
+  Eigen::Matrix4d transformation = odom_src_to_body.inverse()
                                    * prev_transformation.inverse()
-                                   * curr_transformation * odom_src_to_body_;
+                                   * curr_transformation * odom_src_to_body;
   Eigen::Matrix4d twist_se3 = transformation.log();
 
   std::shared_ptr<VelocityMeasurement<double>> vel_measurement(
-- 
2.43.0


From 426783f26cd4c567d222b84224cf0e0c40bdad19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:16 +0000
Subject: [PATCH 35/42] fix: no odometry velocity without elapsed time

---
 ROS/drift/src/communication/ros_subscriber.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ROS/drift/src/communication/ros_subscriber.cpp b/ROS/drift/src/communication/ros_subscriber.cpp
index fa50617..ff2db70 100644
--- a/ROS/drift/src/communication/ros_subscriber.cpp
+++ b/ROS/drift/src/communication/ros_subscriber.cpp
@@ -676,6 +676,11 @@ void ROSSubscriber::Odom2VelocityCallback(
   // Set current odometry as previous odometry
   prev_odom_map_[odom_src_id] = odom_ptr;
 
+  // The velocity is not defined without elapsed time
+  if (time_diff <= 0) {
+    return;
+  }
+
   const Eigen::Matrix4d& odom_src_to_body
       = odom_src_to_body_map_.at(odom_src_id);
   Eigen::Matrix4d transformation = odom_src_to_body.inverse()
-- 
2.43.0


From 9d04b18b2886056702163456ce1411964b48e7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:16 +0000
Subject: [PATCH 36/42] fix: examine the robot state queue under its mutex in
 PosePublish

---
 ROS/drift/src/communication/ros_publisher.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ROS/drift/src/communication/ros_publisher.cpp b/ROS/drift/src/communication/ros_publisher.cpp
index 27c6530..e4bd489 100644
--- a/ROS/drift/src/communication/ros_publisher.cpp
+++ b/ROS/drift/src/communication/ros_publisher.cpp
@@ -94,12 +94,12 @@ void ROSPublisher::StartPublishingThread() {
 
 // Publishes pose
 void ROSPublisher::PosePublish() {
+  // Get the first pose
+  robot_state_queue_mutex_.get()->lock();
   if (robot_state_queue_ptr_->empty()) {
+    robot_state_queue_mutex_.get()->unlock();
     return;
   }
-
-  // Get the first pose
-  robot_state_queue_mutex_.get()->lock();
   const std::shared_ptr<RobotState> state_ptr = robot_state_queue_ptr_->front();
   robot_state_queue_ptr_->pop();
   robot_state_queue_mutex_.get()->unlock();
-- 
2.43.0


From 2033ced80ea6c270ca18ba604991377d03d46345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:16 +0000
Subject: [PATCH 37/42] fix: publish the pose covariance in ROS order

---
 ROS/drift/src/communication/ros_publisher.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ROS/drift/src/communication/ros_publisher.cpp b/ROS/drift/src/communication/ros_publisher.cpp
index e4bd489..d714c09 100644
--- a/ROS/drift/src/communication/ros_publisher.cpp
+++ b/ROS/drift/src/communication/ros_publisher.cpp
@@ -131,9 +131,12 @@ void ROSPublisher::PosePublish() {
   // Get the 6x6 covariance matrix in the following order:
   // (x, y, z, rotation about X axis, rotation about Y axis, rotation
   // about Z axis)
+  // The covariance of the state is ordered as (rotation, velocity, position,
+  // ...)
+  const int cov_idx[6] = {6, 7, 8, 0, 1, 2};
   for (int i = 0; i < 6; i++) {
     for (int j = 0; j < 6; j++) {
-      pose_msg.pose.covariance[i * 6 + j] = cov(i, j);
+      pose_msg.pose.covariance[i * 6 + j] = cov(cov_idx[i], cov_idx[j]);
     }
   }
 
-- 
2.43.0


From c0493352d990efcd8c92b7f9e9eecb5ac5d967d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:16 +0000
Subject: [PATCH 38/42] fix: no remainder by zero when the path rate exceeds
 the pose rate

---
 ROS/drift/src/communication/ros_publisher.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ROS/drift/src/communication/ros_publisher.cpp b/ROS/drift/src/communication/ros_publisher.cpp
index d714c09..7addb38 100644
--- a/ROS/drift/src/communication/ros_publisher.cpp
+++ b/ROS/drift/src/communication/ros_publisher.cpp
@@ -146,6 +146,9 @@ void ROSPublisher::PosePublish() {
   int pose_skip = pose_publish_rate_
                   / path_publish_rate_;    // Pose publish rate must be faster
                                            // than path publish rate
+  if (pose_skip < 1) {
+    pose_skip = 1;
+  }
   if (int(pose_seq_) % pose_skip == 0) {
     geometry_msgs::PoseStamped pose_stamped;
     pose_stamped.header = pose_msg.header;
-- 
2.43.0


From 321ac9103d1a9b8d6cb31b5a6f23c9ca922c5320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:16 +0000
Subject: [PATCH 39/42] fix: initialise enable_slip_publisher_ in the
 ROSPublisher constructor

---
 ROS/drift/include/communication/ros_publisher.h | 2 +-
 ROS/drift/src/communication/ros_publisher.cpp   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ROS/drift/include/communication/ros_publisher.h b/ROS/drift/include/communication/ros_publisher.h
index 8486124..037ad71 100644
--- a/ROS/drift/include/communication/ros_publisher.h
+++ b/ROS/drift/include/communication/ros_publisher.h
@@ -55,7 +55,7 @@ class ROSPublisher {
    */
   ROSPublisher(ros::NodeHandle* nh, RobotStateQueuePtr& robot_state_queue,
                std::shared_ptr<std::mutex> robot_state_queue_mutex,
-               bool enable_slip_publisher_ = false);
+               bool enable_slip_publisher = false);
   /**
    * @brief Construct a new ROS Publisher object with configuration file
    *
diff --git a/ROS/drift/src/communication/ros_publisher.cpp b/ROS/drift/src/communication/ros_publisher.cpp
index 7addb38..793cfb8 100644
--- a/ROS/drift/src/communication/ros_publisher.cpp
+++ b/ROS/drift/src/communication/ros_publisher.cpp
@@ -18,11 +18,12 @@ namespace ros_wrapper {
 ROSPublisher::ROSPublisher(ros::NodeHandle* nh,
                            RobotStateQueuePtr& robot_state_queue_ptr,
                            std::shared_ptr<std::mutex> robot_state_queue_mutex,
-                           bool enable_slip_publisher_)
+                           bool enable_slip_publisher)
     : nh_(nh),
       robot_state_queue_ptr_(robot_state_queue_ptr),
       robot_state_queue_mutex_(robot_state_queue_mutex),
-      thread_started_(false) {
+      thread_started_(false),
+      enable_slip_publisher_(enable_slip_publisher) {
   std::string pose_topic = "/robot/inekf_estimation/pose";
   std::string path_topic = "/robot/inekf_estimation/path";
   pose_frame_ = "/odom";
-- 
2.43.0


From 148bac010daf22251e0747bda7c0a344dd25e456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:05 +0000
Subject: [PATCH 40/42] fix: wheel odometry keeps a dot in the directory of the
 log file name

---
 baselines/src/wheel_odometry/wheel_odometry.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/baselines/src/wheel_odometry/wheel_odometry.cpp b/baselines/src/wheel_odometry/wheel_odometry.cpp
index a6b0bfa..8051ce9 100644
--- a/baselines/src/wheel_odometry/wheel_odometry.cpp
+++ b/baselines/src/wheel_odometry/wheel_odometry.cpp
@@ -39,8 +39,9 @@ WheelOdometry::WheelOdometry(VelocityQueuePtr vel_queue,
     // Erase the ".txt" or ".csv" from the file name.
     // This is helpful to make new file names when InekfEstimator::clear() is
     // called
-    std::string::size_type pos = pose_log_file_.find_last_of(".");
-    if (pos != std::string::npos)
+    // A dot in the directory part is not an extension
+    std::string::size_type pos = pose_log_file_.find_last_of("./");
+    if (pos != std::string::npos && pose_log_file_[pos] == '.')
       pose_log_file_.erase(pos, pose_log_file_.length());
 
     // Define logger settings
-- 
2.43.0


From 1fca6aed73c125cb16a2e7cc39b61143406e328f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:05 +0000
Subject: [PATCH 41/42] fix: wheel odometry pose is an element of SE_2(3)

---
 baselines/src/wheel_odometry/wheel_odometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baselines/src/wheel_odometry/wheel_odometry.cpp b/baselines/src/wheel_odometry/wheel_odometry.cpp
index 8051ce9..7d9203a 100644
--- a/baselines/src/wheel_odometry/wheel_odometry.cpp
+++ b/baselines/src/wheel_odometry/wheel_odometry.cpp
@@ -120,7 +120,7 @@ void WheelOdometry::Integrate(Eigen::Vector3d v_mea, Eigen::Vector3d w,
   Eigen::Vector3d phi = w * dt;
   Eigen::Matrix3d exp_omega = Gamma_SO3(phi, 0);
 
-  Eigen::MatrixXd X = Eigen::MatrixXd::Ones(5, 5);
+  Eigen::MatrixXd X = Eigen::MatrixXd::Identity(5, 5);
   X.block<3, 3>(0, 0) = R * exp_omega;
   X.block<3, 1>(0, 3) = R * v_mea;
   X.block<3, 1>(0, 4) = p + R * v_mea * dt;
-- 
2.43.0


From ab9264e8d0ae6c97e83317d08725097f1c5c1b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:12 +0000
Subject: [PATCH 42/42] fix: do not fill an IMU queue that nothing drains

---
 ROS/drift/baselines/husky_wheel_odom.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/ROS/drift/baselines/husky_wheel_odom.cpp b/ROS/drift/baselines/husky_wheel_odom.cpp
index b14cf8d..df42eb4 100644
--- a/ROS/drift/baselines/husky_wheel_odom.cpp
+++ b/ROS/drift/baselines/husky_wheel_odom.cpp
@@ -53,11 +53,6 @@ int main(int argc, char** argv) {
   double wheel_radius = config["subscribers"]["wheel_radius"].as<double>();
   double track_width = config["subscribers"]["track_width"].as<double>();
 
-  /// TUTORIAL: Add a subscriber for IMU data and get its queue and mutex
-  auto qimu_and_mutex = ros_sub.AddIMUSubscriber(imu_topic);
-  auto qimu = qimu_and_mutex.first;
-  auto qimu_mutex = qimu_and_mutex.second;
-
   /// TUTORIAL: Add a subscriber for velocity data and get its queue and mutex
   /// TUTORIAL: Add a subscriber for velocity data and get its queue and mutex
   auto [qv, qv_mutex, qangv, qangv_mutex]
-- 
2.43.0

