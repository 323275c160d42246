From 29ba455c9bc9c6580ca96e882af96e709f31d7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 01/51] fix: use the power series of Gamma_SO3 for small angles

The closed forms cancel catastrophically for small rotation vectors (at
|w| = 1e-8 the second-order integral is off by 100%), and below the tolerance
the linear term was dropped. Exp_SEK3 repeated the same closed forms.
---
 src/math/lie_group.cpp | 44 +++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/math/lie_group.cpp b/src/math/lie_group.cpp
index 5d9221e..d40b337 100644
--- a/src/math/lie_group.cpp
+++ b/src/math/lie_group.cpp
@@ -36,14 +36,29 @@ Eigen::Matrix3d Gamma_SO3(const Eigen::Vector3d& w, int m) {
   assert(m >= 0);
   Eigen::Matrix3d I = Eigen::Matrix3d::Identity();
   double theta = w.norm();
-  if (theta < TOLERANCE) {
-    return (1.0 / factorial(m))
-           * I;    // TODO: There is a better small value approximation for
-                   // exp() given in Trawny p.19
-  }
   Eigen::Matrix3d A = skew(w);
   double theta2 = theta * theta;
 
+  // The closed forms below cancel catastrophically for small angles, so the
+  // defining series is used there:
+  // \Gamma_m = I/m! + a * A + b * A^2 with
+  // a = \sum_k (-theta^2)^k / (2k+1+m)!,  b = \sum_k (-theta^2)^k / (2k+2+m)!
+  if (theta < 0.5) {
+    double a = 0.0, b = 0.0;
+    double term_a = 1.0;
+    for (int k = 2; k <= m + 1; ++k) {
+      term_a /= k;
+    }
+    double term_b = term_a / (m + 2);
+    for (int k = 0; k < 10; ++k) {
+      a += term_a;
+      b += term_b;
+      term_a *= -theta2 / ((2 * k + 2 + m) * (2 * k + 3 + m));
+      term_b *= -theta2 / ((2 * k + 3 + m) * (2 * k + 4 + m));
+    }
+    return (1.0 / factorial(m)) * I + a * A + b * A * A;
+  }
+
   // Closed form solution for the first 3 cases
   switch (m) {
     case 0:    // Exp map of SO(3)
@@ -104,24 +119,9 @@ Eigen::MatrixXd Exp_SEK3(const Eigen::VectorXd& v) {
   // Computes the vectorized exponential map for SE_K(3)
   int K = (v.size() - 3) / 3;
   Eigen::MatrixXd X = Eigen::MatrixXd::Identity(3 + K, 3 + K);
-  Eigen::Matrix3d R;
-  Eigen::Matrix3d Jl;
   Eigen::Vector3d w = v.head(3);
-  double theta = w.norm();
-  Eigen::Matrix3d I = Eigen::Matrix3d::Identity();
-  if (theta < TOLERANCE) {
-    R = I;
-    Jl = I;
-  } else {
-    Eigen::Matrix3d A = skew(w);
-    double theta2 = theta * theta;
-    double stheta = sin(theta);
-    double ctheta = cos(theta);
-    double oneMinusCosTheta2 = (1 - ctheta) / (theta2);
-    Eigen::Matrix3d A2 = A * A;
-    R = I + (stheta / theta) * A + oneMinusCosTheta2 * A2;
-    Jl = I + oneMinusCosTheta2 * A + ((theta - stheta) / (theta2 * theta)) * A2;
-  }
+  Eigen::Matrix3d R = Gamma_SO3(w, 0);
+  Eigen::Matrix3d Jl = Gamma_SO3(w, 1);
   X.block<3, 3>(0, 0) = R;
   for (int i = 0; i < K; ++i) {
     X.block<3, 1>(0, 3 + i) = Jl * v.segment<3>(3 + 3 * i);
-- 
2.43.0


From 20a1eaf315fc2a023b7656583283193b00cddbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 02/51] fix: keep the whole process noise when augmenting the
 state

add_aug_state() copied only the first dimX rows and columns of the continuous
noise covariance, so the noise of earlier augmented states was lost.
---
 src/state/robot_state.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index 88c203c..04a53cd 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -148,12 +148,13 @@ int RobotState::add_aug_state(const Eigen::Vector3d& aug,
   int dimTheta = this->dimTheta();
   Eigen::MatrixXd Qc_aug = Eigen::MatrixXd::Zero(dimQc + 3, dimQc + 3);
 
-  Qc_aug.topLeftCorner(this->dimX(), this->dimX())
-      = this->Qc_.topLeftCorner(this->dimX(), this->dimX());
-  Qc_aug.bottomLeftCorner(dimTheta, this->dimX())
-      = this->Qc_.bottomLeftCorner(dimTheta, this->dimX());
-  Qc_aug.topRightCorner(this->dimX(), dimTheta)
-      = this->Qc_.topRightCorner(this->dimX(), dimTheta);
+  int dimQcX = dimQc - dimTheta;    // rows that belong to X
+  Qc_aug.topLeftCorner(dimQcX, dimQcX)
+      = this->Qc_.topLeftCorner(dimQcX, dimQcX);
+  Qc_aug.bottomLeftCorner(dimTheta, dimQcX)
+      = this->Qc_.bottomLeftCorner(dimTheta, dimQcX);
+  Qc_aug.topRightCorner(dimQcX, dimTheta)
+      = this->Qc_.topRightCorner(dimQcX, dimTheta);
   Qc_aug.bottomRightCorner(dimTheta, dimTheta)
       = this->Qc_.bottomRightCorner(dimTheta, dimTheta);
   Qc_aug.block<3, 3>(dimQc - dimTheta, dimQc - dimTheta) = noise_cov;
-- 
2.43.0


From 93130945aa5ff7872b30561fd78a6a3a067e0e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 03/51] fix: locate the bias covariances after the augmented
 states

With augmented states the accessors read and overwrote the covariance of the
first augmented states instead.
---
 src/state/robot_state.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index 04a53cd..98f418e 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -120,10 +120,13 @@ const Eigen::Matrix3d RobotState::get_position_covariance() const {
   return P_.block<3, 3>(6, 6);
 }
 const Eigen::Matrix3d RobotState::get_gyroscope_bias_covariance() const {
-  return P_.block<3, 3>(9, 9);
+  // The biases come after all the columns of X
+  int idx_cov = 3 * this->dimX() - 6;
+  return P_.block<3, 3>(idx_cov, idx_cov);
 }
 const Eigen::Matrix3d RobotState::get_accelerometer_bias_covariance() const {
-  return P_.block<3, 3>(12, 12);
+  int idx_cov = 3 * this->dimX() - 3;
+  return P_.block<3, 3>(idx_cov, idx_cov);
 }
 
 const double RobotState::get_time() const { return t_; }
@@ -314,10 +317,12 @@ void RobotState::set_position_covariance(const Eigen::Matrix3d& cov) {
   P_.block<3, 3>(6, 6) = cov;
 }
 void RobotState::set_gyroscope_bias_covariance(const Eigen::Matrix3d& cov) {
-  P_.block<3, 3>(9, 9) = cov;
+  int idx_cov = 3 * this->dimX() - 6;
+  P_.block<3, 3>(idx_cov, idx_cov) = cov;
 }
 void RobotState::set_accelerometer_bias_covariance(const Eigen::Matrix3d& cov) {
-  P_.block<3, 3>(12, 12) = cov;
+  int idx_cov = 3 * this->dimX() - 3;
+  P_.block<3, 3>(idx_cov, idx_cov) = cov;
 }
 void RobotState::set_time(const double t) { t_ = t; }
 
-- 
2.43.0


From b942d22fa1478faa126cd1e3275453d4e250f8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 04/51] fix: initialise and reset every scalar of RobotState

The times and the body angular velocity of a new state were indeterminate, and
clear() left the times, the slip flag and the bias-update flag behind.
---
 include/drift/state/robot_state.h | 7 ++++---
 src/state/robot_state.cpp         | 4 ++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/drift/state/robot_state.h b/include/drift/state/robot_state.h
index ad6c237..1f8cca1 100644
--- a/include/drift/state/robot_state.h
+++ b/include/drift/state/robot_state.h
@@ -637,10 +637,11 @@ class RobotState {
                                  // corresponding
                                  // correction map's value
 
-  double t_;                     // The latest time when the state X_ is updated
-  double t_prop_;         // The latest time when the state X_ is propagated
+  double t_ = 0.0;               // The latest time when the state X_ is updated
+  double t_prop_ = 0.0;   // The latest time when the state X_ is propagated
   Eigen::MatrixXd Qc_;    // Continuous noise covariance matrix
-  Eigen::Vector3d body_ang_vel_;    // Latest angular velocity
+  Eigen::Vector3d body_ang_vel_
+      = Eigen::Vector3d::Zero();    // Latest angular velocity
   bool enable_imu_bias_update_ = false;
   int slip_flag_ = 0;               // 0: no slip, 1: slip;
 };
diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index 98f418e..895f82b 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -427,7 +427,11 @@ void RobotState::clear() {
   Qc_ = Eigen::MatrixXd::Zero(this->dimP(), this->dimP());
   column_id_to_corr_map_
       = std::vector<std::shared_ptr<int>>(this->dimX(), nullptr);
+  t_ = 0.0;
+  t_prop_ = 0.0;
   body_ang_vel_ = Eigen::Vector3d::Zero();
+  enable_imu_bias_update_ = false;
+  slip_flag_ = 0;
 }
 
 void RobotState::set_slip_flag(int slip_flag) { slip_flag_ = slip_flag; }
-- 
2.43.0


From 820dc1188c8b8b04d7c8a80bada6dfec11e45656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 05/51] fix: SEK3::inverse() at dimensions other than five

It filled a 5x5 identity whatever the dimension of the element, dropping the
remaining columns (or running out of range for SE(3)).
---
 src/math/se_k_3.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/math/se_k_3.cpp b/src/math/se_k_3.cpp
index 891492c..f0cd75f 100644
--- a/src/math/se_k_3.cpp
+++ b/src/math/se_k_3.cpp
@@ -63,9 +63,12 @@ SEK3 SEK3::operator*(const SEK3& X) {
 // methods
 SEK3 SEK3::inverse() {
   SEK3 Y;
-  Y.set_R(this->get_R().transpose());
-  Y.set_p(-this->get_R().transpose() * this->get_p());
-  Y.set_v(-this->get_R().transpose() * this->get_v());
+  // All columns after the rotation (position, velocity, ...) are mapped alike
+  int n = X_.cols() - 3;
+  Eigen::MatrixXd X_inv = Eigen::MatrixXd::Identity(3 + n, 3 + n);
+  X_inv.block(0, 0, 3, 3) = this->get_R().transpose();
+  X_inv.block(0, 3, 3, n) = -this->get_R().transpose() * X_.block(0, 3, 3, n);
+  Y.set_X(X_inv);
   Y.set_K(this->get_K());
   return Y;
 }
-- 
2.43.0


From 09bc1944d7fdd67f8e6dd6c5f52dcc06308dc4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 06/51] fix: use the power series of the gyro-bias transition
 blocks for small rotations

---
 .../inekf/propagation/imu_propagation.cpp     | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index abb038c..4ca46d5 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -304,11 +304,23 @@ Eigen::MatrixXd ImuPropagation::StateTransitionMatrix(const Eigen::Vector3d& w,
                  * (wx2 * ax * wx2));
 
 
-  /// TODO: Get better approximation using taylor series when theta < tol
-  const double tol = 1e-6;
-  if (theta < tol) {
-    Phi25L = (1 / 2) * ax * dt2;
-    Phi35L = (1 / 6) * ax * dt3;
+  // The closed forms cancel for small rotations (and are 0/0 without rotation).
+  // Sum the power series there: Rn, Vn, Pn are the n-th terms of the rotation,
+  // velocity and position columns driven by the gyroscope bias.
+  const double tol = 0.5;
+  if (fabs(thetadt) < tol) {
+    Eigen::Matrix3d Rn = -dt * Eigen::Matrix3d::Identity();
+    Eigen::Matrix3d Vn = Eigen::Matrix3d::Zero();
+    Eigen::Matrix3d Pn = Eigen::Matrix3d::Zero();
+    Phi25L.setZero();
+    Phi35L.setZero();
+    for (int n = 2; n <= 16; ++n) {
+      Pn = ((Vn - wx * Pn) * (dt / n)).eval();
+      Vn = ((-ax * Rn - wx * Vn) * (dt / n)).eval();
+      Rn = (-wx * Rn * (dt / n)).eval();
+      Phi25L += Vn;
+      Phi35L += Pn;
+    }
   }
 
   // Fill out analytical state transition matrices
-- 
2.43.0


From 058fd0d87c45b1c57905ed84ff4d95ee51a73792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 07/51] fix: convert the covariance to the left-invariant error
 before a left-invariant update

---
 src/filter/inekf/inekf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter/inekf/inekf.cpp b/src/filter/inekf/inekf.cpp
index 8e50d9f..fbf4f72 100644
--- a/src/filter/inekf/inekf.cpp
+++ b/src/filter/inekf/inekf.cpp
@@ -122,7 +122,7 @@ void CorrectLeftInvariant(const Eigen::MatrixXd& Z, const Eigen::MatrixXd& H,
   }
 
   // Map from right invariant to left invariant error temporarily
-  if (error_type == ErrorType::LeftInvariant) {
+  if (error_type == ErrorType::RightInvariant) {
     Eigen::MatrixXd AdjInv = Eigen::MatrixXd::Identity(dimP, dimP);
     AdjInv.block(0, 0, dimP - dimTheta, dimP - dimTheta)
         = lie_group::Adjoint_SEK3(state.get_Xinv());
-- 
2.43.0


From 6af5af865c423bf6aa1a65aa89adb300ef576323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 08/51] fix: never apply a velocity measurement the filter has
 not passed yet

Discarding stale measurements looked at the next one only after popping it
and used it whatever its stamp was, so a measurement from the future was
applied and lost.
---
 .../inekf/correction/velocity_correction.cpp  | 47 +++++++------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/src/filter/inekf/correction/velocity_correction.cpp b/src/filter/inekf/correction/velocity_correction.cpp
index 5e7f3f3..2a498dc 100644
--- a/src/filter/inekf/correction/velocity_correction.cpp
+++ b/src/filter/inekf/correction/velocity_correction.cpp
@@ -80,37 +80,26 @@ bool VelocityCorrection::Correct(RobotState& state) {
   int dimTheta = state.dimTheta();
   int dimP = state.dimP();
 
-  // Get latest measurement:
-  sensor_data_buffer_mutex_ptr_->lock();
-  if (sensor_data_buffer_ptr_->empty()) {
-    sensor_data_buffer_mutex_ptr_->unlock();
-    return false;
-  }
-  VelocityMeasurementPtr measured_velocity = sensor_data_buffer_ptr_->front();
-  double t_diff = measured_velocity->get_time() - state.get_propagate_time();
-  // Only use previous velocity measurement to correct the state
-  if (t_diff >= 0) {
-    sensor_data_buffer_mutex_ptr_->unlock();
-    return false;
-  }
-
-  sensor_data_buffer_ptr_->pop();
-  sensor_data_buffer_mutex_ptr_->unlock();
-
-  if (t_diff < -t_diff_thres_) {
-    while (t_diff < -t_diff_thres_) {
-      sensor_data_buffer_mutex_ptr_->lock();
-      if (sensor_data_buffer_ptr_->empty()) {
-        sensor_data_buffer_mutex_ptr_->unlock();
-        return false;
-      }
-      measured_velocity = sensor_data_buffer_ptr_->front();
-      sensor_data_buffer_ptr_->pop();
+  // Get the oldest measurement that is recent enough:
+  VelocityMeasurementPtr measured_velocity;
+  double t_diff;
+  do {
+    sensor_data_buffer_mutex_ptr_->lock();
+    if (sensor_data_buffer_ptr_->empty()) {
       sensor_data_buffer_mutex_ptr_->unlock();
-
-      t_diff = measured_velocity->get_time() - state.get_propagate_time();
+      return false;
     }
-  }
+    measured_velocity = sensor_data_buffer_ptr_->front();
+    t_diff = measured_velocity->get_time() - state.get_propagate_time();
+    // Only use previous velocity measurement to correct the state
+    if (t_diff >= 0) {
+      sensor_data_buffer_mutex_ptr_->unlock();
+      return false;
+    }
+
+    sensor_data_buffer_ptr_->pop();
+    sensor_data_buffer_mutex_ptr_->unlock();
+  } while (t_diff < -t_diff_thres_);
 
   state.set_time(measured_velocity->get_time());
 
-- 
2.43.0


From 807e21589e20d3441c0a6782e25d6154c9a51418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:37 +0000
Subject: [PATCH 09/51] fix: never apply a leg-kinematics measurement outside
 the time threshold

A measurement too far ahead of the propagation was announced as skipped but
applied, and the one following stale measurements was applied without looking
at its stamp.  Too-new measurements now wait in the buffer.
---
 .../legged_kinematics_correction.cpp          | 62 ++++++++-----------
 1 file changed, 26 insertions(+), 36 deletions(-)

diff --git a/src/filter/inekf/correction/legged_kinematics_correction.cpp b/src/filter/inekf/correction/legged_kinematics_correction.cpp
index 053f3d1..58eec9c 100644
--- a/src/filter/inekf/correction/legged_kinematics_correction.cpp
+++ b/src/filter/inekf/correction/legged_kinematics_correction.cpp
@@ -55,44 +55,34 @@ bool LeggedKinematicsCorrection::Correct(RobotState& state) {
   vector<int> remove_contacts;         // leg id of contacts to be removed
   vector<ContactInfo> new_contacts;    // new contacts to be added
 
-  // Get measurement from sensor data buffer
-  sensor_data_buffer_mutex_ptr_.get()->lock();
-  if (sensor_data_buffer_ptr_->empty()) {
-    sensor_data_buffer_mutex_ptr_->unlock();
-    return false;
-  }
-  LeggedKinMeasurementPtr kinematics_measurement
-      = sensor_data_buffer_ptr_->front();
-  sensor_data_buffer_ptr_->pop();
-  sensor_data_buffer_mutex_ptr_.get()->unlock();
-
-  // Check if measurement is too old or too new for correction update
-  double t_diff
-      = kinematics_measurement->get_time() - state.get_propagate_time();
-  if (t_diff < -t_diff_thres_) {
-    while (t_diff < -t_diff_thres_) {
-      sensor_data_buffer_mutex_ptr_->lock();
-      if (sensor_data_buffer_ptr_->empty()) {
-        sensor_data_buffer_mutex_ptr_->unlock();
-        return false;
-      }
-      kinematics_measurement = sensor_data_buffer_ptr_->front();
-      sensor_data_buffer_ptr_->pop();
+  // Get the oldest measurement that is recent enough:
+  LeggedKinMeasurementPtr kinematics_measurement;
+  double t_diff;
+  do {
+    sensor_data_buffer_mutex_ptr_.get()->lock();
+    if (sensor_data_buffer_ptr_->empty()) {
       sensor_data_buffer_mutex_ptr_->unlock();
-
-      t_diff = kinematics_measurement->get_time() - state.get_propagate_time();
+      return false;
     }
-  } else if (t_diff > t_diff_thres_) {
-    std::cerr
-        << std::setprecision(20)
-        << "Measurement received in the velocity correction is way faster than "
-           "the last propagation time. Skipping this correction. Last "
-           "propagation time: "
-        << state.get_propagate_time()
-        << ", this measurement time: " << kinematics_measurement->get_time()
-        << ", time diff: " << t_diff << ", set threshold: " << t_diff_thres_
-        << std::endl;
-  }
+    kinematics_measurement = sensor_data_buffer_ptr_->front();
+    t_diff = kinematics_measurement->get_time() - state.get_propagate_time();
+    // A measurement that is too new waits for the propagation to catch up
+    if (t_diff > t_diff_thres_) {
+      sensor_data_buffer_mutex_ptr_->unlock();
+      std::cerr << std::setprecision(20)
+                << "Measurement received in the legged kinematics correction "
+                   "is way faster than the last propagation time. Skipping "
+                   "this correction. Last propagation time: "
+                << state.get_propagate_time() << ", this measurement time: "
+                << kinematics_measurement->get_time()
+                << ", time diff: " << t_diff
+                << ", set threshold: " << t_diff_thres_ << std::endl;
+      return false;
+    }
+
+    sensor_data_buffer_ptr_->pop();
+    sensor_data_buffer_mutex_ptr_.get()->unlock();
+  } while (t_diff < -t_diff_thres_);
 
   state.set_time(kinematics_measurement->get_time());
 
-- 
2.43.0


From e5728dc6b554e87adc11f2b2ff1d147b9c6fd4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:34 +0000
Subject: [PATCH 10/51] fix: keep the bias priors when static initialisation
 has no samples

With static initialisation on (the default) and init_bias_size 0 (the
default) the biases were the mean of no data, i.e. NaN.
---
 src/filter/inekf/propagation/imu_propagation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 4ca46d5..0f1bbc4 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -433,6 +433,12 @@ void ImuPropagation::InitImuBias() {
     return;
   }
 
+  // Without any data to average, the priors are kept
+  if (init_bias_size_ <= 0) {
+    bias_initialized_ = true;
+    return;
+  }
+
   // Initialize bias based on imu orientation and static assumption
   if (bias_init_vec_.size() < init_bias_size_) {
     sensor_data_buffer_mutex_ptr_.get()->lock();
-- 
2.43.0


From 9ab209429005c908a8ccdf7c4ad6fc0e282f9a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:54 +0000
Subject: [PATCH 11/51] fix: scale and rotate the velocity measurement that
 initialises the state

Corrections apply velocity_scale and rotation_vel2body, the initial velocity
did not.
---
 src/filter/inekf/correction/velocity_correction.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/filter/inekf/correction/velocity_correction.cpp b/src/filter/inekf/correction/velocity_correction.cpp
index 2a498dc..e032a03 100644
--- a/src/filter/inekf/correction/velocity_correction.cpp
+++ b/src/filter/inekf/correction/velocity_correction.cpp
@@ -154,8 +154,9 @@ bool VelocityCorrection::initialize(RobotState& state) {
   sensor_data_buffer_ptr_->pop();
   sensor_data_buffer_mutex_ptr_.get()->unlock();
 
-  // Apply the rotation to map the body velocity to the world frame
-  state.set_velocity(state.get_rotation() * measured_velocity->get_velocity());
+  // Rotate the velocity from sensor frame to body frame, then to world frame
+  state.set_velocity(state.get_rotation() * R_vel2body_ * velocity_scale_
+                     * measured_velocity->get_velocity());
   state.set_time(measured_velocity->get_time());
   return true;
 }
-- 
2.43.0


From af4d2abc16a24db7e7ffe368f9bf715715952dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:05 +0000
Subject: [PATCH 12/51] fix: express the initial body angular velocity in the
 body frame

---
 src/filter/inekf/propagation/imu_propagation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 0f1bbc4..f6a4995 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -527,7 +527,8 @@ bool ImuPropagation::set_initial_state(RobotState& state) {
 
   state.set_rotation(R0);
   state.set_position(p0);
-  state.set_body_angular_velocity(imu_measurement->get_angular_velocity());
+  state.set_body_angular_velocity(R_imu2body_
+                                  * imu_measurement->get_angular_velocity());
 
   // Set the initial bias
   state.set_gyroscope_bias(bg0_);
-- 
2.43.0


From 8988bab0d2f22554077e226b8ad86e1d844a862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 13/51] fix: take the IMU orientation to the body frame at
 initialisation

The IMU orientation was used as the body orientation, and the gravity removed
from the static samples with yet another rotation; both are only right for an
IMU aligned with the body.
---
 src/filter/inekf/propagation/imu_propagation.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index f6a4995..79f55ff 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -462,11 +462,11 @@ void ImuPropagation::InitImuBias() {
     a = R_imu2body_ * a - a_compensate;
 
 
-    // TODO: double check and fix this
+    // Body to world rotation
     Eigen::Matrix3d R;
     if (use_imu_ori_to_init_) {
       Eigen::Quaternion<double> quat = imu_measurement->get_quaternion();
-      R = R_imu2body_ * quat.toRotationMatrix();
+      R = quat.toRotationMatrix() * R_imu2body_.transpose();
     } else {
       R = Eigen::Matrix3d::Identity();
     }
@@ -519,7 +519,8 @@ bool ImuPropagation::set_initial_state(RobotState& state) {
   Eigen::Matrix3d R0 = Eigen::Matrix3d::Identity();
   if (use_imu_ori_to_init_) {
     Eigen::Quaternion<double> quat = imu_measurement->get_quaternion();
-    R0 = quat.toRotationMatrix();    // Initialize based on VectorNav estimate
+    // Initialize based on VectorNav estimate
+    R0 = quat.toRotationMatrix() * R_imu2body_.transpose();
     std::cout << "R0: \n" << R0 << std::endl;
   }
   Eigen::Vector3d p0
-- 
2.43.0


From fae8a7fd5b245fe1a66a579a05471d75e23f9069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:02 +0000
Subject: [PATCH 14/51] fix: log the poses still queued when the estimator is
 destroyed

---
 src/estimator/inekf_estimator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/estimator/inekf_estimator.cpp b/src/estimator/inekf_estimator.cpp
index 9dad73d..ec87ad0 100644
--- a/src/estimator/inekf_estimator.cpp
+++ b/src/estimator/inekf_estimator.cpp
@@ -132,11 +132,16 @@ void InekfEstimator::StartLoggingThread() {
 
 void InekfEstimator::PoseLoggingThread() {
   // logger, tum style
-  while (stop_signal_ == false) {
+  while (true) {
+    // Poses still in the queue are logged before stopping
+    bool stop = stop_signal_;
+
     // Get new pose data for logger
     robot_state_log_queue_mutex_.lock();
     if (robot_state_log_queue_ptr_.get()->empty()) {
       robot_state_log_queue_mutex_.unlock();
+      if (stop)
+        break;
       continue;
     }
 
-- 
2.43.0


From 99045d54b65083a2e9b2ad6b514727c49c336632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 15/51] fix: finish the current log files when the estimator is
 reset

clear() dropped the poses still queued, swapped the files under the logging
thread, and kept the stamp of the last logged pose, so that nothing was logged
when time starts over.
---
 src/estimator/inekf_estimator.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/estimator/inekf_estimator.cpp b/src/estimator/inekf_estimator.cpp
index ec87ad0..95fc15c 100644
--- a/src/estimator/inekf_estimator.cpp
+++ b/src/estimator/inekf_estimator.cpp
@@ -316,13 +316,11 @@ void InekfEstimator::clear() {
   // Must init the state first before enabling the filter
   enabled_ = false;
 
-  // Clear current log queue and open a new file for logging
-  robot_state_log_queue_mutex_.lock();
-  while (!robot_state_log_queue_ptr_.get()->empty()) {
-    robot_state_log_queue_ptr_.get()->pop();
-  }
-  robot_state_log_queue_mutex_.unlock();
+  // Finish the current log files and open new ones for logging
   if (enable_pose_logger_) {
+    stop_signal_ = true;
+    pose_logging_thread_.join();
+
     outfile_.close();
     outfile_.open(pose_log_file_ + '_' + std::to_string(++init_count_)
                   + ".txt");
@@ -335,6 +333,10 @@ void InekfEstimator::clear() {
     vel_body_outfile_.open(vel_log_file_ + "_body_frame_"
                            + std::to_string(++init_count_) + ".txt");
     vel_body_outfile_.precision(dbl::max_digits10);
+
+    last_pub_t_ = 0.0;
+    stop_signal_ = false;
+    this->StartLoggingThread();
   }
 }
 
-- 
2.43.0


From bc166bfe2792647671f70416573c4b8909efa9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 16/51] fix: a default constructed estimator does not log

---
 include/drift/estimator/inekf_estimator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/drift/estimator/inekf_estimator.h b/include/drift/estimator/inekf_estimator.h
index 192804c..e453a1c 100644
--- a/include/drift/estimator/inekf_estimator.h
+++ b/include/drift/estimator/inekf_estimator.h
@@ -292,7 +292,7 @@ class InekfEstimator {
   std::shared_ptr<std::mutex>
       robot_state_queue_mutex_ptr_;    // Mutex of the robot
                                        // state queue
-  bool enable_pose_logger_;            // Boolean value indicating whether
+  bool enable_pose_logger_ = false;    // Boolean value indicating whether
                                        // the filter should log the pose
   std::ofstream outfile_;              // Output file stream for pose logger
   std::ofstream vel_outfile_;          // Output file stream for velocity logger
-- 
2.43.0


From 916cf650e7424a3a14d5494d453c86dce1d1470d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:48 +0000
Subject: [PATCH 17/51] fix: destroy a gyro filter whose thread was never
 started

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index c749132..6b9b9b9 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -325,7 +325,9 @@ ImuAngVelEKF::ImuAngVelEKF(const std::string& yaml_filepath)
 // IMU filter destructor
 ImuAngVelEKF::~ImuAngVelEKF() {
   stop_thread_ = true;
-  imu_filter_thread_.join();
+  if (imu_filter_thread_.joinable()) {
+    imu_filter_thread_.join();
+  }
   imu_propagate_input_outfile_.close();
   imu_propagate_outfile_.close();
   imu_ang_vel_outfile_.close();
-- 
2.43.0


From d7ab76c9973f835644cb03ca5811857bb30a4c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:48 +0000
Subject: [PATCH 18/51] fix: read init_bias_size in both constructors of the
 gyro filter

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 6b9b9b9..54af97f 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -71,6 +71,9 @@ ImuAngVelEKF::ImuAngVelEKF(
             ? config_["settings"]["static_bias_initialization"].as<bool>()
             : false;
 
+  init_bias_size_ = config_["settings"]["init_bias_size"]
+                        ? config_["settings"]["init_bias_size"].as<int>()
+                        : 250;
 
   std::cout << "static bias init: " << static_bias_initialization_ << std::endl;
 
-- 
2.43.0


From dd1ae1b3cf99d277fce62fee7551b661c56b1d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:48 +0000
Subject: [PATCH 19/51] fix: no NaN bias when the gyro filter initialises from
 no samples

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 54af97f..38b5419 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -504,7 +504,9 @@ void ImuAngVelEKF::InitializeFilter() {
     for (int i = 0; i < bias_init_vec_.size(); ++i) {
       avg = (avg + bias_init_vec_[i]).eval();
     }
-    avg = (avg / bias_init_vec_.size()).eval();
+    if (!bias_init_vec_.empty()) {
+      avg = (avg / bias_init_vec_.size()).eval();
+    }
     std::cout << "Biases in the gyro filter are initialized to: "
               << avg.transpose() << std::endl;
 
-- 
2.43.0


From 04f17d76f99dd98bad79b91784aa439f2c927762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:48 +0000
Subject: [PATCH 20/51] fix: correct with a single IMU under random walk
 propagation

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 38b5419..0a18978 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -562,10 +562,9 @@ void ImuAngVelEKF::SingleImuCorrection() {
   // Only perform correction step if with data prior to the propagation time
   // and the time gap is smaller than a threshold
   /// TODO: double check if we need absolute here?
-  // if (last_propagate_time_ == -1
-  // || last_propagate_time_ - imu_measurement->get_time() <= t_thres_) {
-  if (last_propagate_time_ - imu_measurement->get_time() <= t_thres_
-      && last_propagate_time_ >= imu_measurement->get_time()) {
+  if (propagation_method_ == RANDOM_WALK
+      || (last_propagate_time_ - imu_measurement->get_time() <= t_thres_
+          && last_propagate_time_ >= imu_measurement->get_time())) {
     imu_data_buffer_ptr_.get()->pop();
     imu_data_buffer_mutex_ptr_.get()->unlock();
 
-- 
2.43.0


From d482d3b5ecd7d86b420f846b85f2f90d7b71b7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:48 +0000
Subject: [PATCH 21/51] fix: drop stale samples instead of stalling the single
 IMU correction

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 0a18978..45749a8 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -573,6 +573,10 @@ void ImuAngVelEKF::SingleImuCorrection() {
     filtered_imu_data_buffer_ptr_->push(fused_ang_imu);
     filtered_imu_data_buffer_mutex_ptr_.get()->unlock();
   } else {
+    // Drop data older than the threshold. Data ahead of the propagation waits.
+    if (last_propagate_time_ - imu_measurement->get_time() > t_thres_) {
+      imu_data_buffer_ptr_.get()->pop();
+    }
     imu_data_buffer_mutex_ptr_.get()->unlock();
   }
 }
-- 
2.43.0


From 84f41432eec3fb80a791fb178e28cd22b2c8b048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:48 +0000
Subject: [PATCH 22/51] fix: no second output of an IMU sample when another
 IMU's sample is stale

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 45749a8..d6c11d7 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -583,7 +583,6 @@ void ImuAngVelEKF::SingleImuCorrection() {
 
 void ImuAngVelEKF::MultiImuCorrection() {
   ImuMeasurementPtr imu_measurement = nullptr;
-  ImuMeasurementPtr fused_ang_imu = nullptr;
 
   // Bias corrected IMU measurements
   for (int i = 0; i < imu_data_buffer_mutex_ptrs_.size(); i++) {
@@ -601,10 +600,7 @@ void ImuAngVelEKF::MultiImuCorrection() {
     // and the time gap is smaller than a threshold
     if (last_propagate_time_ == -1
         || last_propagate_time_ - imu_measurement->get_time() <= t_thres_) {
-      fused_ang_imu = AngVelFilterCorrectIMU(imu_measurement);
-    }
-
-    if (fused_ang_imu) {
+      auto fused_ang_imu = AngVelFilterCorrectIMU(imu_measurement);
       filtered_imu_data_buffer_mutex_ptr_.get()->lock();
       filtered_imu_data_buffer_ptr_->push(fused_ang_imu);
       filtered_imu_data_buffer_mutex_ptr_.get()->unlock();
-- 
2.43.0


From 89bb304e357cf35f4438b21db03e951a0f86a010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:48 +0000
Subject: [PATCH 23/51] fix: use every IMU in the multiple IMU correction

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index d6c11d7..3a7690c 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -354,11 +354,10 @@ void ImuAngVelEKF::add_imu_correction(
     // For single imu version:
     imu_data_buffer_ptr_ = imu_data_buffer_ptr;
     imu_data_buffer_mutex_ptr_ = imu_data_buffer_mutex_ptr;
-  } else {
-    // For all other versions:
-    imu_data_buffer_ptrs_.push_back(imu_data_buffer_ptr);
-    imu_data_buffer_mutex_ptrs_.push_back(imu_data_buffer_mutex_ptr);
   }
+  // For the multiple imu version:
+  imu_data_buffer_ptrs_.push_back(imu_data_buffer_ptr);
+  imu_data_buffer_mutex_ptrs_.push_back(imu_data_buffer_mutex_ptr);
 }
 
 void ImuAngVelEKF::add_ang_vel_correction(
-- 
2.43.0


From e3caf1502c7add05b4ae3903739c47b64be78688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:48 +0000
Subject: [PATCH 24/51] fix: clear every buffer the gyro filter has, and only
 those

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 37 +++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 3a7690c..04122d1 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -874,18 +874,39 @@ ImuAngVelEKF::get_filtered_imu_data_buffer_and_mutex_ptr() {
 
 void ImuAngVelEKF::clear() {
   // Clear Imu data buffer
-  imu_data_buffer_mutex_ptr_.get()->lock();
-  while (!imu_data_buffer_ptr_->empty()) {
-    imu_data_buffer_ptr_->pop();
+  if (imu_data_buffer_ptr_) {
+    imu_data_buffer_mutex_ptr_.get()->lock();
+    while (!imu_data_buffer_ptr_->empty()) {
+      imu_data_buffer_ptr_->pop();
+    }
+    imu_data_buffer_mutex_ptr_.get()->unlock();
+  }
+
+  for (int i = 0; i < imu_data_buffer_ptrs_.size(); i++) {
+    imu_data_buffer_mutex_ptrs_[i].get()->lock();
+    while (!imu_data_buffer_ptrs_[i]->empty()) {
+      imu_data_buffer_ptrs_[i]->pop();
+    }
+    imu_data_buffer_mutex_ptrs_[i].get()->unlock();
+  }
+
+  // Clear gyro propagation data buffer
+  if (gyro_prop_data_buffer_ptr_) {
+    gyro_prop_data_buffer_mutex_ptr_.get()->lock();
+    while (!gyro_prop_data_buffer_ptr_->empty()) {
+      gyro_prop_data_buffer_ptr_->pop();
+    }
+    gyro_prop_data_buffer_mutex_ptr_.get()->unlock();
   }
-  imu_data_buffer_mutex_ptr_.get()->unlock();
 
   // Clear angular velocity data buffer
-  ang_vel_data_buffer_mutex_ptr_.get()->lock();
-  while (!ang_vel_data_buffer_ptr_->empty()) {
-    ang_vel_data_buffer_ptr_->pop();
+  if (ang_vel_data_buffer_ptr_) {
+    ang_vel_data_buffer_mutex_ptr_.get()->lock();
+    while (!ang_vel_data_buffer_ptr_->empty()) {
+      ang_vel_data_buffer_ptr_->pop();
+    }
+    ang_vel_data_buffer_mutex_ptr_.get()->unlock();
   }
-  ang_vel_data_buffer_mutex_ptr_.get()->unlock();
 
   // Clear filtered_imu_data_buffer
   filtered_imu_data_buffer_mutex_ptr_.get()->lock();
-- 
2.43.0


From d5f301f7283ba7770e2c028791286ede9132b097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:23 +0000
Subject: [PATCH 25/51] fix: leg-kinematics measurements report their type
 however constructed

---
 src/measurement/legged_kinematics.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/measurement/legged_kinematics.cpp b/src/measurement/legged_kinematics.cpp
index 9c78471..037a6a6 100644
--- a/src/measurement/legged_kinematics.cpp
+++ b/src/measurement/legged_kinematics.cpp
@@ -21,7 +21,10 @@ LeggedKinematicsMeasurement::LeggedKinematicsMeasurement(
     const Eigen::Matrix<double, Eigen::Dynamic, 1>& encoders,
     const Eigen::Matrix<double, Eigen::Dynamic, 1>& d_encoders,
     const Eigen::Matrix<bool, Eigen::Dynamic, 1>& contacts)
-    : encoders_(encoders), d_encoders_(d_encoders), contacts_(contacts) {}
+    : Measurement(LEGGED_KINEMATICS),
+      encoders_(encoders),
+      d_encoders_(d_encoders),
+      contacts_(contacts) {}
 
 void LeggedKinematicsMeasurement::set_contact(
     const Eigen::Matrix<bool, Eigen::Dynamic, 1>& contacts) {
-- 
2.43.0


From bb49b3e57cbb1f7454f619d48f4feaac2b4d4089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:24 +0000
Subject: [PATCH 26/51] fix: joint velocities of an empty MiniCheetahKinematics
 are zero

---
 src/kinematics/mini_cheetah_kinematics.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinematics/mini_cheetah_kinematics.cpp b/src/kinematics/mini_cheetah_kinematics.cpp
index 85b9fca..84962bf 100644
--- a/src/kinematics/mini_cheetah_kinematics.cpp
+++ b/src/kinematics/mini_cheetah_kinematics.cpp
@@ -26,6 +26,7 @@ MiniCheetahKinematics::MiniCheetahKinematics() {
   jacobians_.setConstant(3, NLEG * NAPL, 0);
   contacts_.setConstant(NLEG, 1, 0);
   encoders_.setConstant(NLEG * NAPL, 1, 0);
+  d_encoders_.setConstant(NLEG * NAPL, 1, 0);
 }
 
 MiniCheetahKinematics::MiniCheetahKinematics(
-- 
2.43.0


From 8bce790230f78a615fede7148653921f49b0c8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 27/51] fix: reject orientations that are not a number

---
 include/drift/measurement/impl/imu_impl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/drift/measurement/impl/imu_impl.cpp b/include/drift/measurement/impl/imu_impl.cpp
index 9aff3b7..11c2c1a 100644
--- a/include/drift/measurement/impl/imu_impl.cpp
+++ b/include/drift/measurement/impl/imu_impl.cpp
@@ -69,7 +69,8 @@ template<typename T>
 void ImuMeasurement<T>::validate_quat(T w, T x, T y, T z) {
   double tol = 1e-5;
   T q_mag = w * w + x * x + y * y + z * z;
-  if (std::abs(q_mag - 1) >= tol) {
+  // Written so that a non-finite quaternion is rejected, too
+  if (!(std::abs(q_mag - 1) < tol)) {
     throw std::invalid_argument("Quaternion arguments must be normalized");
   }
 }
-- 
2.43.0


From 40442c20367917b9cbb18ccdec9adcd0fb93fe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 28/51] fix: initialise the sequence number of a measurement

---
 src/measurement/measurement.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/measurement/measurement.cpp b/src/measurement/measurement.cpp
index 3c5038f..ca6d5c0 100644
--- a/src/measurement/measurement.cpp
+++ b/src/measurement/measurement.cpp
@@ -17,9 +17,13 @@ using namespace std;
 
 namespace measurement {
 
-Measurement::Measurement() : type_(EMPTY) { header.stamp = 0; }
+Measurement::Measurement() : type_(EMPTY) {
+  header.seq = 0;
+  header.stamp = 0;
+}
 
 Measurement::Measurement(MeasurementType type) : type_(type) {
+  header.seq = 0;
   header.stamp = 0;
 }
 void Measurement::set_time(double t) { header.stamp = t; }
-- 
2.43.0


From ae14cb243595cf4875430add6d69df6e4b57df70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 29/51] fix: print the type of angular velocity and odometry
 measurements

---
 src/measurement/measurement.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/measurement/measurement.cpp b/src/measurement/measurement.cpp
index ca6d5c0..1faaf74 100644
--- a/src/measurement/measurement.cpp
+++ b/src/measurement/measurement.cpp
@@ -53,12 +53,18 @@ ostream& operator<<(ostream& os, const Measurement& m) {
     case VELOCITY:
       type_str = "VELOCITY";
       break;
+    case ANGULAR_VELOCITY:
+      type_str = "ANGULAR_VELOCITY";
+      break;
     case JOINT_STATE:
       type_str = "JOINT_STATE";
       break;
     case CONTACT:
       type_str = "CONTACT";
       break;
+    case ODOM:
+      type_str = "ODOM";
+      break;
     default:
       type_str = "UNKNOWN";
   }
-- 
2.43.0


From a611c135b86250ba8f013e48c5b13547c27ad042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:19 +0000
Subject: [PATCH 30/51] fix: wheel odometry starting at time zero integrates
 from its first pair

---
 baselines/include/wheel_odometry/wheel_odometry.h | 1 +
 baselines/src/wheel_odometry/wheel_odometry.cpp   | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/baselines/include/wheel_odometry/wheel_odometry.h b/baselines/include/wheel_odometry/wheel_odometry.h
index c65fe46..6c180e1 100644
--- a/baselines/include/wheel_odometry/wheel_odometry.h
+++ b/baselines/include/wheel_odometry/wheel_odometry.h
@@ -50,6 +50,7 @@ class WheelOdometry {
 
   RobotState state_;
 
+  bool initialized_ = false;    // Whether the first pair has been received
   double prev_t_ = 0.0;
   double last_pub_t_ = 0.0;
 
diff --git a/baselines/src/wheel_odometry/wheel_odometry.cpp b/baselines/src/wheel_odometry/wheel_odometry.cpp
index a6b0bfa..ecd7364 100644
--- a/baselines/src/wheel_odometry/wheel_odometry.cpp
+++ b/baselines/src/wheel_odometry/wheel_odometry.cpp
@@ -85,7 +85,8 @@ void WheelOdometry::RunOnce() {
     // Get the time stamp of the measurement
     double t = vel_measurement->get_time();
 
-    if (prev_t_ == 0) {
+    if (!initialized_) {
+      initialized_ = true;
       prev_t_ = t;
       state_.set_time(t);
       return;
-- 
2.43.0


From 2aba1f464c2509c97d42f24021df5c30d0641313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:15 +0000
Subject: [PATCH 31/51] fix: ignore joint and contact messages that are too
 short

---
 ROS/drift/src/communication/ros_subscriber.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ROS/drift/src/communication/ros_subscriber.cpp b/ROS/drift/src/communication/ros_subscriber.cpp
index 180d861..9141816 100644
--- a/ROS/drift/src/communication/ros_subscriber.cpp
+++ b/ROS/drift/src/communication/ros_subscriber.cpp
@@ -408,6 +408,11 @@ void ROSSubscriber::DifferentialEncoder2VelocityCallback(
           + encoder_msg->header.stamp.nsec / 1000000000.0,
       encoder_msg->header.frame_id);
 
+  if (encoder_msg->velocity.size() < 4) {
+    // one velocity per wheel is needed
+    return;
+  }
+
   double vr = (encoder_msg->velocity[1] + encoder_msg->velocity[3]) / 2.0
               * wheel_radius;
   double vl = (encoder_msg->velocity[0] + encoder_msg->velocity[2]) / 2.0
@@ -445,6 +450,11 @@ void ROSSubscriber::DifferentialEncoder2VelocityCallback(
           + encoder_msg->header.stamp.nsec / 1000000000.0,
       encoder_msg->header.frame_id);
 
+  if (encoder_msg->velocity.size() < 4) {
+    // one velocity per wheel is needed
+    return;
+  }
+
   double vr = (encoder_msg->velocity[1] + encoder_msg->velocity[3]) / 2.0
               * wheel_radius;
   double vl = (encoder_msg->velocity[0] + encoder_msg->velocity[2]) / 2.0
@@ -547,6 +557,12 @@ void ROSSubscriber::MiniCheetahKinCallBack(
         contact_msg,
     const boost::shared_ptr<const sensor_msgs::JointState>& encoder_msg,
     const std::shared_ptr<std::mutex>& mutex, LeggedKinQueuePtr& kin_queue) {
+  if (contact_msg->contacts.size() < 4 || encoder_msg->position.size() < 12
+      || encoder_msg->velocity.size() < 12) {
+    // four contacts and twelve joint positions and velocities are needed
+    return;
+  }
+
   // Create a legged kinematics measurement object
   // Set headers and time stamps
   std::shared_ptr<kinematics::MiniCheetahKinematics> kin_measurement(
-- 
2.43.0


From 62f12a2cde380f0204d11ff8ffe54e9e0c0d4dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 32/51] fix: keep one source-to-body transformation per
 odometry source

---
 ROS/drift/include/communication/ros_subscriber.h |  4 +++-
 ROS/drift/src/communication/ros_subscriber.cpp   | 13 ++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/ROS/drift/include/communication/ros_subscriber.h b/ROS/drift/include/communication/ros_subscriber.h
index a55a18a..a59402f 100644
--- a/ROS/drift/include/communication/ros_subscriber.h
+++ b/ROS/drift/include/communication/ros_subscriber.h
@@ -420,7 +420,9 @@ class ROSSubscriber {
   std::vector<std::shared_ptr<std::mutex>> mutex_list_;    // List of mutexes
   std::unordered_map<int, OdomMeasurementPtr>
       prev_odom_map_;                   // odom_src_id -> prev_odom_measurement
-  Eigen::Matrix4d odom_src_to_body_;    // Camera to body transformation matrix
+  std::unordered_map<int, Eigen::Matrix4d>
+      odom_src_to_body_map_;    // odom_src_id -> odometry source (e.g. camera)
+                                // to body transformation matrix
 
 
   bool thread_started_;    // Flag of the thread started, true for started,
diff --git a/ROS/drift/src/communication/ros_subscriber.cpp b/ROS/drift/src/communication/ros_subscriber.cpp
index 9141816..f347c4a 100644
--- a/ROS/drift/src/communication/ros_subscriber.cpp
+++ b/ROS/drift/src/communication/ros_subscriber.cpp
@@ -249,14 +249,15 @@ VelocityQueuePair ROSSubscriber::AddOdom2VelocityCallback(
   mutex_list_.emplace_back(new std::mutex);
 
   // Calculate the transformation from odometry source to body
-  odom_src_to_body_ = Eigen::Matrix4d::Identity();
+  Eigen::Matrix4d odom_src_to_body = Eigen::Matrix4d::Identity();
   Eigen::Quaternion<double> orientation_quat(
       rotation_odomsrc2body[0], rotation_odomsrc2body[1],
       rotation_odomsrc2body[2], rotation_odomsrc2body[3]);
-  odom_src_to_body_.block<3, 3>(0, 0) = orientation_quat.toRotationMatrix();
-  odom_src_to_body_.block<3, 1>(0, 3) = Eigen::Vector3d(
+  odom_src_to_body.block<3, 3>(0, 0) = orientation_quat.toRotationMatrix();
+  odom_src_to_body.block<3, 1>(0, 3) = Eigen::Vector3d(
       {translation_odomsrc2body[0], translation_odomsrc2body[1],
        translation_odomsrc2body[2]});
+  odom_src_to_body_map_[odom_src_id_] = odom_src_to_body;
 
   // Create a new pair of Odometry queue and its mutex in case we have multiple
   // odometry sources
@@ -675,9 +676,11 @@ void ROSSubscriber::Odom2VelocityCallback(
   // Set current odometry as previous odometry
   prev_odom_map_[odom_src_id] = odom_ptr;
 
-  Eigen::Matrix4d transformation = odom_src_to_body_.inverse()
+  const Eigen::Matrix4d& odom_src_to_body
+      = odom_src_to_body_map_.at(odom_src_id);
+  Eigen::Matrix4d transformation = odom_src_to_body.inverse()
                                    * prev_transformation.inverse()
-                                   * curr_transformation * odom_src_to_body_;
+                                   * curr_transformation * odom_src_to_body;
   Eigen::Matrix4d twist_se3 = transformation.log();
 
   std::shared_ptr<VelocityMeasurement<double>> vel_measurement(
-- 
2.43.0


From f86e23c556852909dd00162a0eeceab3526954e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:34 +0000
Subject: [PATCH 33/51] fix: no velocity between odometry poses with the same
 time stamp

---
 ROS/drift/src/communication/ros_subscriber.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ROS/drift/src/communication/ros_subscriber.cpp b/ROS/drift/src/communication/ros_subscriber.cpp
index f347c4a..b73a8f3 100644
--- a/ROS/drift/src/communication/ros_subscriber.cpp
+++ b/ROS/drift/src/communication/ros_subscriber.cpp
@@ -672,6 +672,10 @@ void ROSSubscriber::Odom2VelocityCallback(
   double curr_time = odom_ptr->get_time();
 
   double time_diff = curr_time - prev_time;
+  if (time_diff == 0) {
+    // No velocity can be computed between two poses with the same time stamp
+    return;
+  }
 
   // Set current odometry as previous odometry
   prev_odom_map_[odom_src_id] = odom_ptr;
-- 
2.43.0


From c41c2e4244348dac0d4c4d0bb803d8c47d1d30d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:06 +0000
Subject: [PATCH 34/51] fix: normalise IMU orientations received from ROS

---
 .../src/communication/ros_subscriber.cpp      | 34 +++++++++++--------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/ROS/drift/src/communication/ros_subscriber.cpp b/ROS/drift/src/communication/ros_subscriber.cpp
index b73a8f3..947563d 100644
--- a/ROS/drift/src/communication/ros_subscriber.cpp
+++ b/ROS/drift/src/communication/ros_subscriber.cpp
@@ -336,13 +336,16 @@ void ROSSubscriber::IMUCallback(
                                imu_msg->linear_acceleration.z);
   // Set orientation estimate
   // Check if IMU has quaternion data:
-  if (Eigen::Vector4d({imu_msg->orientation.w, imu_msg->orientation.x,
-                       imu_msg->orientation.y, imu_msg->orientation.z})
-          .norm()
-      != 0) {
-    imu_measurement->set_quaternion(
-        imu_msg->orientation.w, imu_msg->orientation.x, imu_msg->orientation.y,
-        imu_msg->orientation.z);
+  const double quat_norm
+      = Eigen::Vector4d({imu_msg->orientation.w, imu_msg->orientation.x,
+                         imu_msg->orientation.y, imu_msg->orientation.z})
+            .norm();
+  if (std::isfinite(quat_norm) && quat_norm != 0) {
+    // set_quaternion() only accepts unit quaternions
+    imu_measurement->set_quaternion(imu_msg->orientation.w / quat_norm,
+                                    imu_msg->orientation.x / quat_norm,
+                                    imu_msg->orientation.y / quat_norm,
+                                    imu_msg->orientation.z / quat_norm);
   }
 
   mutex.get()->lock();
@@ -628,13 +631,16 @@ void ROSSubscriber::FetchIMUCallBack(
                                imu_msg->linear_acceleration.z);
   // Set orientation estimate
   // Check if IMU has quaternion data:
-  if (Eigen::Vector4d({imu_msg->orientation.w, imu_msg->orientation.x,
-                       imu_msg->orientation.y, imu_msg->orientation.z})
-          .norm()
-      != 0) {
-    imu_measurement->set_quaternion(
-        imu_msg->orientation.w, imu_msg->orientation.x, imu_msg->orientation.y,
-        imu_msg->orientation.z);
+  const double quat_norm
+      = Eigen::Vector4d({imu_msg->orientation.w, imu_msg->orientation.x,
+                         imu_msg->orientation.y, imu_msg->orientation.z})
+            .norm();
+  if (std::isfinite(quat_norm) && quat_norm != 0) {
+    // set_quaternion() only accepts unit quaternions
+    imu_measurement->set_quaternion(imu_msg->orientation.w / quat_norm,
+                                    imu_msg->orientation.x / quat_norm,
+                                    imu_msg->orientation.y / quat_norm,
+                                    imu_msg->orientation.z / quat_norm);
   }
 
   // std::lock_guard<std::mutex> lock(*mutex);
-- 
2.43.0


From 37ec33cd09e84b9817319538e28db6e8078a49a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:15 +0000
Subject: [PATCH 35/51] fix: initialise enable_slip_publisher_ in the first
 ROSPublisher constructor

---
 ROS/drift/include/communication/ros_publisher.h | 2 +-
 ROS/drift/src/communication/ros_publisher.cpp   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ROS/drift/include/communication/ros_publisher.h b/ROS/drift/include/communication/ros_publisher.h
index 8486124..037ad71 100644
--- a/ROS/drift/include/communication/ros_publisher.h
+++ b/ROS/drift/include/communication/ros_publisher.h
@@ -55,7 +55,7 @@ class ROSPublisher {
    */
   ROSPublisher(ros::NodeHandle* nh, RobotStateQueuePtr& robot_state_queue,
                std::shared_ptr<std::mutex> robot_state_queue_mutex,
-               bool enable_slip_publisher_ = false);
+               bool enable_slip_publisher = false);
   /**
    * @brief Construct a new ROS Publisher object with configuration file
    *
diff --git a/ROS/drift/src/communication/ros_publisher.cpp b/ROS/drift/src/communication/ros_publisher.cpp
index 27c6530..91a31d0 100644
--- a/ROS/drift/src/communication/ros_publisher.cpp
+++ b/ROS/drift/src/communication/ros_publisher.cpp
@@ -18,11 +18,12 @@ namespace ros_wrapper {
 ROSPublisher::ROSPublisher(ros::NodeHandle* nh,
                            RobotStateQueuePtr& robot_state_queue_ptr,
                            std::shared_ptr<std::mutex> robot_state_queue_mutex,
-                           bool enable_slip_publisher_)
+                           bool enable_slip_publisher)
     : nh_(nh),
       robot_state_queue_ptr_(robot_state_queue_ptr),
       robot_state_queue_mutex_(robot_state_queue_mutex),
-      thread_started_(false) {
+      thread_started_(false),
+      enable_slip_publisher_(enable_slip_publisher) {
   std::string pose_topic = "/robot/inekf_estimation/pose";
   std::string path_topic = "/robot/inekf_estimation/path";
   pose_frame_ = "/odom";
-- 
2.43.0


From 562cac484ea53ee5140329bf5b1c98eb538aa0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:41 +0000
Subject: [PATCH 36/51] fix: publish the position and rotation covariance in
 ROS order

---
 ROS/drift/src/communication/ros_publisher.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ROS/drift/src/communication/ros_publisher.cpp b/ROS/drift/src/communication/ros_publisher.cpp
index 91a31d0..b83d8f6 100644
--- a/ROS/drift/src/communication/ros_publisher.cpp
+++ b/ROS/drift/src/communication/ros_publisher.cpp
@@ -132,9 +132,11 @@ void ROSPublisher::PosePublish() {
   // Get the 6x6 covariance matrix in the following order:
   // (x, y, z, rotation about X axis, rotation about Y axis, rotation
   // about Z axis)
+  // The state covariance is ordered (rotation, velocity, position, ...)
+  const int cov_index[6] = {6, 7, 8, 0, 1, 2};
   for (int i = 0; i < 6; i++) {
     for (int j = 0; j < 6; j++) {
-      pose_msg.pose.covariance[i * 6 + j] = cov(i, j);
+      pose_msg.pose.covariance[i * 6 + j] = cov(cov_index[i], cov_index[j]);
     }
   }
 
-- 
2.43.0


From 34437933e16f4a8251c31a85ef31eb44deb5f0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:02 +0000
Subject: [PATCH 37/51] fix: pose publish rate below the path publish rate
 divides by zero

---
 ROS/drift/src/communication/ros_publisher.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ROS/drift/src/communication/ros_publisher.cpp b/ROS/drift/src/communication/ros_publisher.cpp
index b83d8f6..01b0495 100644
--- a/ROS/drift/src/communication/ros_publisher.cpp
+++ b/ROS/drift/src/communication/ros_publisher.cpp
@@ -146,6 +146,9 @@ void ROSPublisher::PosePublish() {
   int pose_skip = pose_publish_rate_
                   / path_publish_rate_;    // Pose publish rate must be faster
                                            // than path publish rate
+  if (pose_skip < 1) {
+    pose_skip = 1;
+  }
   if (int(pose_seq_) % pose_skip == 0) {
     geometry_msgs::PoseStamped pose_stamped;
     pose_stamped.header = pose_msg.header;
-- 
2.43.0


From 027894257d7b05fcc309c5b8fe9ae98943eab675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:32 +0000
Subject: [PATCH 38/51] fix: default prior covariances of an estimator built
 without a config file

---
 include/drift/estimator/inekf_estimator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/drift/estimator/inekf_estimator.h b/include/drift/estimator/inekf_estimator.h
index e453a1c..d4ea871 100644
--- a/include/drift/estimator/inekf_estimator.h
+++ b/include/drift/estimator/inekf_estimator.h
@@ -306,9 +306,9 @@ class InekfEstimator {
   RobotStateQueuePtr robot_state_log_queue_ptr_;    // Pointer to the robot
                                                     // state log queue
 
-  double rotation_cov_val_;                  // Covariance value for rotation
-  double velocity_cov_val_;                  // Covariance value for velocity
-  double position_cov_val_;                  // Covariance value for position
+  double rotation_cov_val_ = 0.03;           // Covariance value for rotation
+  double velocity_cov_val_ = 0.01;           // Covariance value for velocity
+  double position_cov_val_ = 0.00001;        // Covariance value for position
   std::atomic<bool> stop_signal_ = false;    // Stop signal for pose logger
   bool enabled_slip_estimator_ = false;      // Slip estimator enabled
   std::string pose_log_file_ = "";           // Pose log file path
-- 
2.43.0


From 243d05af3828ef8938971d75c2d54b199911225e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:29 +0000
Subject: [PATCH 39/51] fix: a configuration list that is too short is read
 past its end

---
 .../inekf/correction/velocity_correction.cpp     |  2 +-
 src/filter/inekf/propagation/imu_propagation.cpp | 13 +++++++------
 src/imu_filter/imu_ang_vel_ekf.cpp               | 16 ++++++++--------
 3 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/filter/inekf/correction/velocity_correction.cpp b/src/filter/inekf/correction/velocity_correction.cpp
index e032a03..3ab5d47 100644
--- a/src/filter/inekf/correction/velocity_correction.cpp
+++ b/src/filter/inekf/correction/velocity_correction.cpp
@@ -54,7 +54,7 @@ VelocityCorrection::VelocityCorrection(
 
   // Convert quaternion to rotation matrix for frame transformation
   Eigen::Quaternion<double> quarternion_vel2body(
-      quat_vel2body[0], quat_vel2body[1], quat_vel2body[2], quat_vel2body[3]);
+      quat_vel2body.at(0), quat_vel2body.at(1), quat_vel2body.at(2), quat_vel2body.at(3));
   R_vel2body_ = quarternion_vel2body.toRotationMatrix();
 
 
diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 79f55ff..bd16e97 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -61,7 +61,7 @@ ImuPropagation::ImuPropagation(
             : std::vector<double>({1, 0, 0, 0});
 
   Eigen::Quaternion<double> quarternion_imu2body(
-      quat_imu2body[0], quat_imu2body[1], quat_imu2body[2], quat_imu2body[3]);
+      quat_imu2body.at(0), quat_imu2body.at(1), quat_imu2body.at(2), quat_imu2body.at(3));
   R_imu2body_ = quarternion_imu2body.toRotationMatrix();
 
   // Set the noise parameters
@@ -92,15 +92,15 @@ ImuPropagation::ImuPropagation(
       = config_["priors"]["gyroscope_bias"]
             ? config_["priors"]["gyroscope_bias"].as<std::vector<double>>()
             : std::vector<double>({0, 0, 0});
-  bg0_ = Eigen::Vector3d(gyroscope_bias[0], gyroscope_bias[1],
-                         gyroscope_bias[2]);
+  bg0_ = Eigen::Vector3d(gyroscope_bias.at(0), gyroscope_bias.at(1),
+                         gyroscope_bias.at(2));
 
   std::vector<double> accelerometer_bias
       = config_["priors"]["accelerometer_bias"]
             ? config_["priors"]["accelerometer_bias"].as<std::vector<double>>()
             : std::vector<double>({0, 0, 0});
-  ba0_ = Eigen::Vector3d(accelerometer_bias[0], accelerometer_bias[1],
-                         accelerometer_bias[2]);
+  ba0_ = Eigen::Vector3d(accelerometer_bias.at(0), accelerometer_bias.at(1),
+                         accelerometer_bias.at(2));
 
   enable_imu_bias_update_
       = config_["settings"]["enable_imu_bias_update"]
@@ -113,7 +113,8 @@ ImuPropagation::ImuPropagation(
             ? config_["settings"]["translation_imu2body"]
                   .as<std::vector<double>>()
             : std::vector<double>({0, 0, 0});    // meters
-  t_imu2body_ << trans_imu2body[0], trans_imu2body[1], trans_imu2body[2];
+  t_imu2body_ = Eigen::Vector3d(trans_imu2body.at(0), trans_imu2body.at(1),
+                                trans_imu2body.at(2));
   std::cout << "Translation from body center to IMU is set to: ["
             << t_imu2body_.transpose() << "]" << std::endl;
 }
diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 04122d1..ec92f6a 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -51,7 +51,7 @@ ImuAngVelEKF::ImuAngVelEKF(
                          : false;
 
   Eigen::Quaternion<double> quarternion_imu2body(
-      quat_imu2body[0], quat_imu2body[1], quat_imu2body[2], quat_imu2body[3]);
+      quat_imu2body.at(0), quat_imu2body.at(1), quat_imu2body.at(2), quat_imu2body.at(3));
   R_imu2body_inverse_ = quarternion_imu2body.toRotationMatrix().transpose();
 
   // Set time threshold between propagation and correction
@@ -82,9 +82,9 @@ ImuAngVelEKF::ImuAngVelEKF(
         = config_["priors"]["ang_vel_bias"]
               ? config_["priors"]["ang_vel_bias"].as<std::vector<double>>()
               : std::vector<double>({0, 0, 0});
-    ang_vel_and_bias_est_(3) = ang_vel_bias[0];
-    ang_vel_and_bias_est_(4) = ang_vel_bias[1];
-    ang_vel_and_bias_est_(5) = ang_vel_bias[2];
+    ang_vel_and_bias_est_(3) = ang_vel_bias.at(0);
+    ang_vel_and_bias_est_(4) = ang_vel_bias.at(1);
+    ang_vel_and_bias_est_(5) = ang_vel_bias.at(2);
 
     std::cout
         << "Static bias initialization is set to false for the gyro filter. \n "
@@ -191,7 +191,7 @@ ImuAngVelEKF::ImuAngVelEKF(const std::string& yaml_filepath)
                          : false;
 
   Eigen::Quaternion<double> quarternion_imu2body(
-      quat_imu2body[0], quat_imu2body[1], quat_imu2body[2], quat_imu2body[3]);
+      quat_imu2body.at(0), quat_imu2body.at(1), quat_imu2body.at(2), quat_imu2body.at(3));
   R_imu2body_inverse_ = quarternion_imu2body.toRotationMatrix().transpose();
 
   // Set time threshold between propagation and correction
@@ -286,9 +286,9 @@ ImuAngVelEKF::ImuAngVelEKF(const std::string& yaml_filepath)
         = config_["priors"]["ang_vel_bias"]
               ? config_["priors"]["ang_vel_bias"].as<std::vector<double>>()
               : std::vector<double>({0, 0, 0});
-    ang_vel_and_bias_est_(3) = ang_vel_bias[0];
-    ang_vel_and_bias_est_(4) = ang_vel_bias[1];
-    ang_vel_and_bias_est_(5) = ang_vel_bias[2];
+    ang_vel_and_bias_est_(3) = ang_vel_bias.at(0);
+    ang_vel_and_bias_est_(4) = ang_vel_bias.at(1);
+    ang_vel_and_bias_est_(5) = ang_vel_bias.at(2);
 
     std::cout
         << "Static bias initialization is set to false for the gyro filter. \n "
-- 
2.43.0


From d03b23ceeece59788c63b4b17fc328b790372bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:55 +0000
Subject: [PATCH 40/51] fix: log file name cut at a dot in one of its
 directories

---
 baselines/src/wheel_odometry/wheel_odometry.cpp | 4 ++--
 src/estimator/inekf_estimator.cpp               | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/baselines/src/wheel_odometry/wheel_odometry.cpp b/baselines/src/wheel_odometry/wheel_odometry.cpp
index ecd7364..30a740f 100644
--- a/baselines/src/wheel_odometry/wheel_odometry.cpp
+++ b/baselines/src/wheel_odometry/wheel_odometry.cpp
@@ -39,8 +39,8 @@ WheelOdometry::WheelOdometry(VelocityQueuePtr vel_queue,
     // Erase the ".txt" or ".csv" from the file name.
     // This is helpful to make new file names when InekfEstimator::clear() is
     // called
-    std::string::size_type pos = pose_log_file_.find_last_of(".");
-    if (pos != std::string::npos)
+    std::string::size_type pos = pose_log_file_.find_last_of("./");
+    if (pos != std::string::npos && pose_log_file_[pos] == '.')
       pose_log_file_.erase(pos, pose_log_file_.length());
 
     // Define logger settings
diff --git a/src/estimator/inekf_estimator.cpp b/src/estimator/inekf_estimator.cpp
index 95fc15c..e36c7a4 100644
--- a/src/estimator/inekf_estimator.cpp
+++ b/src/estimator/inekf_estimator.cpp
@@ -49,13 +49,13 @@ InekfEstimator::InekfEstimator(ErrorType error_type, std::string config_file)
     // Erase the ".txt" or ".csv" from the file name.
     // This is helpful to make new file names when InekfEstimator::clear() is
     // called
-    std::string::size_type pos = pose_log_file_.find_last_of(".");
-    if (pos != std::string::npos)
+    std::string::size_type pos = pose_log_file_.find_last_of("./");
+    if (pos != std::string::npos && pose_log_file_[pos] == '.')
       pose_log_file_.erase(pos, pose_log_file_.length());
 
 
-    std::string::size_type v_pos = vel_log_file_.find_last_of(".");
-    if (v_pos != std::string::npos)
+    std::string::size_type v_pos = vel_log_file_.find_last_of("./");
+    if (v_pos != std::string::npos && vel_log_file_[v_pos] == '.')
       vel_log_file_.erase(v_pos, vel_log_file_.length());
 
     // Define logger settings
-- 
2.43.0


From b0f66fa6f5d43e8269095b8a44fa4a01ebc945fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:43 +0000
Subject: [PATCH 41/51] fix: state initialization looks at the IMU queue
 without its lock

---
 src/filter/inekf/propagation/imu_propagation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index bd16e97..4607117 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -509,10 +509,11 @@ const bool ImuPropagation::get_bias_initialized() const {
 // IMU propagation initialization for robot state
 bool ImuPropagation::set_initial_state(RobotState& state) {
   // Do not initialize if the buffer is emptys
+  sensor_data_buffer_mutex_ptr_.get()->lock();
   if (sensor_data_buffer_ptr_->empty()) {
+    sensor_data_buffer_mutex_ptr_.get()->unlock();
     return false;
   }
-  sensor_data_buffer_mutex_ptr_.get()->lock();
   const ImuMeasurementPtr imu_measurement = sensor_data_buffer_ptr_->front();
   sensor_data_buffer_ptr_->pop();
   sensor_data_buffer_mutex_ptr_.get()->unlock();
-- 
2.43.0


From 34a0e4edd349b07a57c313f91c7e330f01f7a49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:43 +0000
Subject: [PATCH 42/51] fix: state initialization looks at the velocity queue
 without its lock

---
 src/filter/inekf/correction/velocity_correction.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/filter/inekf/correction/velocity_correction.cpp b/src/filter/inekf/correction/velocity_correction.cpp
index 3ab5d47..0d3be28 100644
--- a/src/filter/inekf/correction/velocity_correction.cpp
+++ b/src/filter/inekf/correction/velocity_correction.cpp
@@ -139,12 +139,13 @@ bool VelocityCorrection::initialize(RobotState& state) {
 
   // Get measurement from sensor data buffer
   // Do not initialize if the buffer is emptys
-  while (sensor_data_buffer_ptr_->empty()) {
+  sensor_data_buffer_mutex_ptr_.get()->lock();
+  if (sensor_data_buffer_ptr_->empty()) {
+    sensor_data_buffer_mutex_ptr_.get()->unlock();
     // std::cout << "Waiting for velocity related encoder data..." << std::endl;
     return false;
   }
 
-  sensor_data_buffer_mutex_ptr_.get()->lock();
   // Get the latest measurement
   while (sensor_data_buffer_ptr_->size() > 1) {
     // std::cout << "Discarding old sensor data..." << std::endl;
-- 
2.43.0


From 0a44f997ace937cb942a3eb1a7aeb95fe2ddb619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:43 +0000
Subject: [PATCH 43/51] fix: state initialization looks at the leg queue
 without its lock

---
 src/filter/inekf/correction/legged_kinematics_correction.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/filter/inekf/correction/legged_kinematics_correction.cpp b/src/filter/inekf/correction/legged_kinematics_correction.cpp
index 58eec9c..59f3ce7 100644
--- a/src/filter/inekf/correction/legged_kinematics_correction.cpp
+++ b/src/filter/inekf/correction/legged_kinematics_correction.cpp
@@ -249,12 +249,13 @@ bool LeggedKinematicsCorrection::initialize(RobotState& state) {
 
   // Get measurement from sensor data buffer
   // Do not initialize if the buffer is emptys
-  while (sensor_data_buffer_ptr_->empty()) {
+  sensor_data_buffer_mutex_ptr_.get()->lock();
+  if (sensor_data_buffer_ptr_->empty()) {
+    sensor_data_buffer_mutex_ptr_.get()->unlock();
     // std::cout << "Waiting for leg encoder data..." << std::endl;
     return false;
   }
 
-  sensor_data_buffer_mutex_ptr_.get()->lock();
   // Get the lates measurement
   while (sensor_data_buffer_ptr_->size() > 1) {
     // std::cout << "Discarding old sensor data..." << std::endl;
-- 
2.43.0


From 28a4e5a92566d18203cab9e88ff6561ef8bcc273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:43 +0000
Subject: [PATCH 44/51] fix: the publisher looks at the state queue without its
 lock

---
 ROS/drift/src/communication/ros_publisher.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ROS/drift/src/communication/ros_publisher.cpp b/ROS/drift/src/communication/ros_publisher.cpp
index 01b0495..f29b529 100644
--- a/ROS/drift/src/communication/ros_publisher.cpp
+++ b/ROS/drift/src/communication/ros_publisher.cpp
@@ -95,12 +95,12 @@ void ROSPublisher::StartPublishingThread() {
 
 // Publishes pose
 void ROSPublisher::PosePublish() {
+  // Get the first pose
+  robot_state_queue_mutex_.get()->lock();
   if (robot_state_queue_ptr_->empty()) {
+    robot_state_queue_mutex_.get()->unlock();
     return;
   }
-
-  // Get the first pose
-  robot_state_queue_mutex_.get()->lock();
   const std::shared_ptr<RobotState> state_ptr = robot_state_queue_ptr_->front();
   robot_state_queue_ptr_->pop();
   robot_state_queue_mutex_.get()->unlock();
-- 
2.43.0


From 31f8824fd93134e9233847a1a1133ab91dc8b8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:36 +0000
Subject: [PATCH 45/51] fix: clearing the gyro filter races with its thread

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index ec92f6a..24df118 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -873,6 +873,13 @@ ImuAngVelEKF::get_filtered_imu_data_buffer_and_mutex_ptr() {
 };
 
 void ImuAngVelEKF::clear() {
+  // The filter thread must not run while the buffers are cleared
+  const bool thread_running = imu_filter_thread_.joinable();
+  if (thread_running) {
+    stop_thread_ = true;
+    imu_filter_thread_.join();
+  }
+
   // Clear Imu data buffer
   if (imu_data_buffer_ptr_) {
     imu_data_buffer_mutex_ptr_.get()->lock();
@@ -914,5 +921,10 @@ void ImuAngVelEKF::clear() {
     filtered_imu_data_buffer_ptr_->pop();
   }
   filtered_imu_data_buffer_mutex_ptr_.get()->unlock();
+
+  if (thread_running) {
+    stop_thread_ = false;
+    StartImuFilterThread();
+  }
 }
 }    // namespace imu_filter
\ No newline at end of file
-- 
2.43.0


From aac6b25d2d8bc69efafbeeff0261fb0467523843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:15 +0000
Subject: [PATCH 46/51] fix: skew_symmetric of the MEKF baseline fails for a
 3x1 vector

---
 baselines/python/MEKF/MEKF.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/baselines/python/MEKF/MEKF.py b/baselines/python/MEKF/MEKF.py
index 58225f5..60ac060 100644
--- a/baselines/python/MEKF/MEKF.py
+++ b/baselines/python/MEKF/MEKF.py
@@ -22,6 +22,7 @@ from scipy.linalg import expm
 
 def skew_symmetric(v):
     """Skew symmetric form of a 3x1 vector."""
+    v = np.asarray(v, dtype=np.float64).flatten()
     return np.array(
         [[0, -v[2], v[1]],
          [v[2], 0, -v[0]],
-- 
2.43.0


From 9050e93fbbe7215426d4f819c165b9bb145c7b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:15 +0000
Subject: [PATCH 47/51] fix: quat2rot of the MEKF baseline normalizes the
 caller's array

---
 baselines/python/MEKF/MEKF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baselines/python/MEKF/MEKF.py b/baselines/python/MEKF/MEKF.py
index 60ac060..d452424 100644
--- a/baselines/python/MEKF/MEKF.py
+++ b/baselines/python/MEKF/MEKF.py
@@ -65,7 +65,7 @@ def quat2rot(quaternion):
         raise ValueError("Input quaternion must be a 4-element numpy array or list.")
 
     # Normalize the quaternion to ensure it is a unit quaternion
-    quaternion /= np.linalg.norm(quaternion)
+    quaternion = quaternion / np.linalg.norm(quaternion)
 
     w, x, y, z = quaternion
 
-- 
2.43.0


From 720563b9324e87f28561397ecc3676ad13447e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:07 +0000
Subject: [PATCH 48/51] fix: rot2quat of the MEKF baseline for rotations by 180
 degrees

---
 baselines/python/MEKF/MEKF.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/baselines/python/MEKF/MEKF.py b/baselines/python/MEKF/MEKF.py
index d452424..812fc45 100644
--- a/baselines/python/MEKF/MEKF.py
+++ b/baselines/python/MEKF/MEKF.py
@@ -39,16 +39,24 @@ def rot2quat(rot_matrix):
     m21, m22, m23 = rot_matrix[1, 0], rot_matrix[1, 1], rot_matrix[1, 2]
     m31, m32, m33 = rot_matrix[2, 0], rot_matrix[2, 1], rot_matrix[2, 2]
 
-    # Calculate the components of the quaternion
-    w = np.sqrt(max(0, 1 + m11 + m22 + m33)) / 2
-    x = np.sqrt(max(0, 1 + m11 - m22 - m33)) / 2
-    y = np.sqrt(max(0, 1 - m11 + m22 - m33)) / 2
-    z = np.sqrt(max(0, 1 - m11 - m22 + m33)) / 2
-
-    # Determine the signs of the quaternion components
-    x = np.copysign(x, m32 - m23)
-    y = np.copysign(y, m13 - m31)
-    z = np.copysign(z, m21 - m12)
+    # Calculate the components of the quaternion from its largest component,
+    # the signs of which are also right for rotations by (nearly) 180 degrees
+    candidates = [1 + m11 + m22 + m33, 1 + m11 - m22 - m33,
+                  1 - m11 + m22 - m33, 1 - m11 - m22 + m33]
+    largest = int(np.argmax(candidates))
+    s = 2 * np.sqrt(candidates[largest])
+    if largest == 0:
+        w, x, y, z = s / 4, (m32 - m23) / s, (m13 - m31) / s, (m21 - m12) / s
+    elif largest == 1:
+        w, x, y, z = (m32 - m23) / s, s / 4, (m12 + m21) / s, (m13 + m31) / s
+    elif largest == 2:
+        w, x, y, z = (m13 - m31) / s, (m12 + m21) / s, s / 4, (m23 + m32) / s
+    else:
+        w, x, y, z = (m21 - m12) / s, (m13 + m31) / s, (m23 + m32) / s, s / 4
+
+    # Choose the quaternion with a non-negative w
+    if w < 0:
+        w, x, y, z = -w, -x, -y, -z
 
     # Assemble the quaternion
     quaternion = np.array([w, x, y, z])
-- 
2.43.0


From 838db8968f56710d51248bade32c121e387f2bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:00 +0000
Subject: [PATCH 49/51] fix: MEKF bias initialisation removes gravity in the
 body frame

---
 baselines/python/MEKF/MEKF.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/baselines/python/MEKF/MEKF.py b/baselines/python/MEKF/MEKF.py
index 812fc45..47a5020 100644
--- a/baselines/python/MEKF/MEKF.py
+++ b/baselines/python/MEKF/MEKF.py
@@ -136,7 +136,8 @@ def read_husky(bag, topic_name):
 
 def init_bias(imu_data, R_imu2body, window_size=250):
     gyro_bias = R_imu2body@(np.mean(imu_data[:window_size, 1:4], axis=0)).T
-    accel_bias = R_imu2body@(np.mean(imu_data[:window_size, 4:7], axis=0)-np.array([0, 0, 9.8]).reshape(3)).T
+    # gravity is removed in the body frame, where the bias is used
+    accel_bias = R_imu2body@(np.mean(imu_data[:window_size, 4:7], axis=0)).T - np.array([0, 0, 9.8]).reshape(3)
     return gyro_bias, accel_bias
 
 def save_pose_to_tum(t, p, q, filename='tum_traj.txt'):
-- 
2.43.0


From 81452eb7c262b9b13024e5544e1c2f8c9dea7c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:22 +0000
Subject: [PATCH 50/51] fix: get_aug_bias and del_aug_bias address the
 augmented bias asked for

---
 src/state/robot_state.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index 895f82b..a481d46 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -296,7 +296,7 @@ void RobotState::add_aug_bias(const Eigen::Vector3d& baug) {
 
 
 void RobotState::del_aug_bias(int matrix_idx) {
-  int start = matrix_idx - 5 + 6;
+  int start = 3 * (matrix_idx - 5) + 6;
   Theta_.block(start, 0, Theta_.rows() - start - 3, 1)
       = Theta_.block(start + 3, 0, Theta_.rows() - start - 3, 1);
   Theta_.conservativeResize(Theta_.rows() - 3);
@@ -304,7 +304,7 @@ void RobotState::del_aug_bias(int matrix_idx) {
 
 
 const Eigen::Vector3d RobotState::get_aug_bias(int matrix_idx) {
-  return Theta_.block<3, 1>(Theta_.rows() - 3, 0);
+  return Theta_.block<3, 1>(3 * (matrix_idx - 5) + 6, 0);
 }
 
 void RobotState::set_rotation_covariance(const Eigen::Matrix3d& cov) {
-- 
2.43.0


From 87c9411f3548782de2cd39d9d5d74fc0ef2aedfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:03 +0000
Subject: [PATCH 51/51] fix: keep the covariance symmetric in propagation and
 update

---
 src/filter/inekf/inekf.cpp                       | 4 ++--
 src/filter/inekf/propagation/imu_propagation.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/filter/inekf/inekf.cpp b/src/filter/inekf/inekf.cpp
index fbf4f72..d5af14c 100644
--- a/src/filter/inekf/inekf.cpp
+++ b/src/filter/inekf/inekf.cpp
@@ -94,7 +94,7 @@ void CorrectRightInvariant(const Eigen::MatrixXd& Z, const Eigen::MatrixXd& H,
   }
 
   // Set new covariance
-  state.set_P(P_new);
+  state.set_P(0.5 * (P_new + P_new.transpose()));
 }
 
 
@@ -162,7 +162,7 @@ void CorrectLeftInvariant(const Eigen::MatrixXd& Z, const Eigen::MatrixXd& H,
   }
 
   // Set new covariance
-  state.set_P(P_new);
+  state.set_P(0.5 * (P_new + P_new.transpose()));
 }
 
 }    // namespace filter::inekf
\ No newline at end of file
diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 4607117..827f37d 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -213,7 +213,7 @@ bool ImuPropagation::Propagate(RobotState& state) {
 
   //  ------------ Update State --------------- //
   state.set_X(X_pred);
-  state.set_P(P_pred);
+  state.set_P(0.5 * (P_pred + P_pred.transpose()));
 
   return true;
 }
-- 
2.43.0

