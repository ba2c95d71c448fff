From 6e656b33952d920e98c854389a92832c7c470cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:14 +0000
Subject: [PATCH 01/75] fix: state size counts every augmented state, not every
 camera

---
 src/ekf/types.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ekf/types.cpp b/src/ekf/types.cpp
index 3cdbdad..ed8eb82 100644
--- a/src/ekf/types.cpp
+++ b/src/ekf/types.cpp
@@ -414,7 +414,9 @@ unsigned int State::GetStateSize() const
     }
   }
 
-  state_size += g_aug_state_size * aug_states.size();
+  for (auto const & aug_iter : aug_states) {
+    state_size += g_aug_state_size * static_cast<unsigned int>(aug_iter.second.size());
+  }
 
   return state_size;
 }
-- 
2.43.0


From 6968cd4ae2e05f9516649ed1a57a30bee317b94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:15 +0000
Subject: [PATCH 02/75] fix: state vector includes IMUs with only intrinsic
 calibration

---
 src/ekf/types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ekf/types.cpp b/src/ekf/types.cpp
index ed8eb82..7c12c4a 100644
--- a/src/ekf/types.cpp
+++ b/src/ekf/types.cpp
@@ -306,7 +306,7 @@ Eigen::VectorXd State::ToVector() const
   unsigned int idx = g_body_state_size;
 
   for (auto const & imu_iter : imu_states) {
-    if (imu_iter.second.GetIsExtrinsic() || imu_iter.second.GetIsExtrinsic()) {
+    if (imu_iter.second.GetIsExtrinsic() || imu_iter.second.GetIsIntrinsic()) {
       Eigen::VectorXd temp_vec = imu_iter.second.ToVector();
       out_vec.segment(idx, temp_vec.size()) = temp_vec;
       idx += static_cast<unsigned int>(temp_vec.size());
-- 
2.43.0


From 37415894b15ae411f85bc9173598054beac21cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:15 +0000
Subject: [PATCH 03/75] fix: setting the state from a vector includes augmented
 states

---
 src/ekf/types.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ekf/types.cpp b/src/ekf/types.cpp
index 7c12c4a..d0e515c 100644
--- a/src/ekf/types.cpp
+++ b/src/ekf/types.cpp
@@ -381,6 +381,14 @@ void State::SetState(const Eigen::VectorXd & state)
       idx += g_fid_extrinsic_state_size;
     }
   }
+
+  for (auto & aug_iter : aug_states) {
+    for (auto & aug_state : aug_iter.second) {
+      aug_state.pos_b_in_l = state.segment<3>(idx + 0);
+      aug_state.ang_b_to_l = RotVecToQuat(state.segment<3>(idx + 3));
+      idx += g_aug_state_size;
+    }
+  }
 }
 
 unsigned int State::GetStateSize() const
-- 
2.43.0


From df9c1cee952f66704880570f64836e7c43c65743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:15 +0000
Subject: [PATCH 04/75] fix: camera state correction uses each camera's own
 part of the vector

---
 src/ekf/types.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ekf/types.cpp b/src/ekf/types.cpp
index d0e515c..994679a 100644
--- a/src/ekf/types.cpp
+++ b/src/ekf/types.cpp
@@ -195,9 +195,12 @@ std::map<unsigned int, CamState> & operator+=(
   unsigned int idx {0};
   for (auto & cam_iter : l_cam_state) {
     unsigned int cam_id = cam_iter.first;
-    l_cam_state[cam_id].pos_c_in_b += r_vector.segment<3>(idx + 0);
-    l_cam_state[cam_id].ang_c_to_b =
-      l_cam_state[cam_id].ang_c_to_b * RotVecToQuat(r_vector.segment<3>(idx + 3));
+    if (l_cam_state[cam_id].GetIsExtrinsic()) {
+      l_cam_state[cam_id].pos_c_in_b += r_vector.segment<3>(idx + 0);
+      l_cam_state[cam_id].ang_c_to_b =
+        l_cam_state[cam_id].ang_c_to_b * RotVecToQuat(r_vector.segment<3>(idx + 3));
+      idx += g_cam_extrinsic_state_size;
+    }
   }
 
   return l_cam_state;
-- 
2.43.0


From e57ef4ef5b1a41e90919d87cb1e47f31c09dd0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:32 +0000
Subject: [PATCH 05/75] fix: out-of-range coordinates do not return an
 uninitialized position

---
 src/utility/gps_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/gps_helper.cpp b/src/utility/gps_helper.cpp
index 7653089..0926245 100644
--- a/src/utility/gps_helper.cpp
+++ b/src/utility/gps_helper.cpp
@@ -28,7 +28,7 @@ static constexpr double g_deg_to_rad = M_PI / 180.0;
 
 Eigen::Vector3d lla_to_ecef(const Eigen::Vector3d & lla)
 {
-  Eigen::Vector3d out;
+  Eigen::Vector3d out = Eigen::Vector3d::Zero();
 
   if ((lla(0) < -90.0) || (lla(0) > +90.0) || (lla(1) < -180.0) || (lla(1) > +180.0)) {
     /// @todo: Replace with logger
-- 
2.43.0


From deebead84451eb26cb55d161fb04c0d8d5a2a77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:32 +0000
Subject: [PATCH 06/75] fix: second radial distortion coefficient is used for
 the fourth-order term

---
 src/ekf/update/msckf_updater.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 3ef53cf..5e5620f 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -236,10 +236,10 @@ Eigen::Vector2d MsckfUpdater::Distort(
   double r2 = x2 + y2;
   Eigen::Vector2d xy;
 
-  xy(0) = xy_norm(0) * (1 + intrinsics.k_1 * r2 + intrinsics.k_1 * r2 * r2) +
+  xy(0) = xy_norm(0) * (1 + intrinsics.k_1 * r2 + intrinsics.k_2 * r2 * r2) +
     2 * intrinsics.p_1 * xy_norm(0) * xy_norm(1) + intrinsics.p_2 * (r2 + 2 * x2);
 
-  xy(1) = xy_norm(1) * (1 + intrinsics.k_1 * r2 + intrinsics.k_1 * r2 * r2) +
+  xy(1) = xy_norm(1) * (1 + intrinsics.k_1 * r2 + intrinsics.k_2 * r2 * r2) +
     2 * intrinsics.p_2 * xy_norm(0) * xy_norm(1) + intrinsics.p_1 * (r2 + 2 * y2);
 
   return xy;
-- 
2.43.0


From af6a127ff71bc7b6efbd354e967b7305d7465841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:32 +0000
Subject: [PATCH 07/75] fix: left nullspace is spanned by the last columns of
 Q, not its last rows

---
 src/utility/math_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index 3c1893d..59d1d96 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -110,7 +110,7 @@ void ApplyLeftNullspace(const Eigen::MatrixXd & H_f, Eigen::MatrixXd & H_x, Eige
 {
   Eigen::HouseholderQR<Eigen::MatrixXd> QR_decomp(H_f);
   Eigen::MatrixXd Q_decomp = QR_decomp.householderQ();
-  Eigen::MatrixXd Q_null = Q_decomp.block(H_f.cols(), 0, H_f.rows() - H_f.cols(), H_f.rows());
+  Eigen::MatrixXd Q_null = Q_decomp.rightCols(H_f.rows() - H_f.cols()).transpose();
   H_x = Q_null * H_x;
   res = Q_null * res;
 }
-- 
2.43.0


From 927433b0f08afe779cb4f5d9b03a5e6a017d14ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:32 +0000
Subject: [PATCH 08/75] fix: planar angle of a transform keeps its sign

---
 src/utility/math_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index 59d1d96..88dbecf 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -198,7 +198,7 @@ Eigen::MatrixXd matrix2d_from_vectors3d(const std::vector<Eigen::Vector3d> & inp
 
 double affine_angle(const Eigen::Affine3d & transform)
 {
-  return std::acos((transform.linear().trace() - 1) / 2);
+  return std::atan2(transform.linear()(1, 0), transform.linear()(0, 0));
 }
 
 bool kabsch_2d(
-- 
2.43.0


From 29977c6a8e7ef51848ed68e7d0254decae289138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:32 +0000
Subject: [PATCH 09/75] fix: configuration vectors of any length are converted

---
 src/utility/type_helper.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/utility/type_helper.cpp b/src/utility/type_helper.cpp
index 3ac2524..4da359a 100644
--- a/src/utility/type_helper.cpp
+++ b/src/utility/type_helper.cpp
@@ -27,7 +27,6 @@
 
 Eigen::VectorXd StdToEigVec(std::vector<double> const & std_vec)
 {
-  assert(std_vec.size() == 3);
   Eigen::VectorXd eig_vec(std_vec.size());
   for (unsigned int i = 0; i < std_vec.size(); ++i) {
     eig_vec(i) = std_vec[i];
-- 
2.43.0


From 5acfc47dd05e3d73d554cd87935d69adfe895416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:26 +0000
Subject: [PATCH 10/75] fix: measurement compression keeps every non-zero row

---
 src/utility/math_helper.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index 88dbecf..7d74926 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -134,8 +134,15 @@ void CompressMeasurements(Eigen::MatrixXd & jacobian, Eigen::VectorXd & residual
       }
     }
 
-    // Count non-zero rows after compression
-    unsigned int rows = (jacobian.array().abs() > 1e-9).rowwise().any().cast<unsigned int>().sum();
+    // Gather the non-zero rows after compression
+    unsigned int rows {0};
+    for (unsigned int i = 0; i < m_rows; ++i) {
+      if ((jacobian.row(i).array().abs() > 1e-9).any()) {
+        jacobian.row(rows) = jacobian.row(i).eval();
+        residual(rows) = residual(i);
+        ++rows;
+      }
+    }
 
     // Construct the smaller jacobian and residual after measurement compression
     jacobian.conservativeResize(rows, jacobian.cols());
-- 
2.43.0


From 38c5aa5d8791aa8d78f63d2e699f288b4dbaa254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:00 +0000
Subject: [PATCH 11/75] fix: initial sensor covariance is inserted at the index
 of the sensor state

---
 src/ekf/ekf.cpp | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 9fb2011..f6114f7 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -262,13 +262,7 @@ void EKF::RegisterIMU(
     return;
   }
 
-  unsigned int imu_state_end = g_body_state_size + GetImuStateSize();
-
   m_state.imu_states[imu_id] = imu_state;
-  if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, imu_state.size, imu_state.size), m_cov, imu_state_end, imu_state_end);
-  }
   if (imu_state.GetIsExtrinsic()) {
     m_state_size += g_imu_extrinsic_state_size;
     m_imu_state_size += g_imu_extrinsic_state_size;
@@ -280,6 +274,12 @@ void EKF::RegisterIMU(
 
   RefreshIndices();
 
+  if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
+    unsigned int imu_index = m_state.imu_states[imu_id].index;
+    m_cov = InsertInMatrix(
+      covariance.block(0, 0, imu_state.size, imu_state.size), m_cov, imu_index, imu_index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register IMU: " << imu_id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
@@ -298,17 +298,20 @@ void EKF::RegisterGPS(
     return;
   }
 
-  unsigned int gps_state_end = g_body_state_size + GetImuStateSize() + GetGpsStateSize();
   m_state.gps_states[gps_id] = gps_state;
   if (gps_state.GetIsExtrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, gps_state.size, gps_state.size), m_cov, gps_state_end, gps_state_end);
     m_state_size += g_gps_extrinsic_state_size;
     m_gps_state_size += g_gps_extrinsic_state_size;
   }
 
   RefreshIndices();
 
+  if (gps_state.GetIsExtrinsic()) {
+    unsigned int gps_index = m_state.gps_states[gps_id].index;
+    m_cov = InsertInMatrix(
+      covariance.block(0, 0, gps_state.size, gps_state.size), m_cov, gps_index, gps_index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register GPS: " << gps_id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
@@ -331,23 +334,24 @@ void EKF::RegisterCamera(
   m_max_track_duration = m_max_frame_period * (m_max_track_length + 1);
   m_min_aug_period = std::min(m_min_aug_period, 1 / cam_state.rate);
 
-  unsigned int cam_state_end = g_body_state_size +
-    GetImuStateSize() + GetGpsStateSize() + GetCamStateSize();
-
   if (m_primary_camera_id == 0) {
     m_primary_camera_id = cam_id;
   }
 
   m_state.cam_states[cam_id] = cam_state;
   if (cam_state.GetIsExtrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, cam_state.size, cam_state.size), m_cov, cam_state_end, cam_state_end);
     m_state_size += g_cam_extrinsic_state_size;
     m_cam_state_size += g_cam_extrinsic_state_size;
   }
 
   RefreshIndices();
 
+  if (cam_state.GetIsExtrinsic()) {
+    unsigned int cam_index = m_state.cam_states[cam_id].index;
+    m_cov = InsertInMatrix(
+      covariance.block(0, 0, cam_state.size, cam_state.size), m_cov, cam_index, cam_index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register Camera: " << cam_id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
@@ -365,14 +369,18 @@ void EKF::RegisterFiducial(const FidState & fid_state, const Eigen::MatrixXd & c
 
   m_state.fid_states[fid_state.id] = fid_state;
   if (fid_state.GetIsExtrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, fid_state.size, fid_state.size), m_cov, m_state_size, m_state_size);
     m_state_size += g_fid_extrinsic_state_size;
     m_fid_state_size += g_fid_extrinsic_state_size;
   }
 
   RefreshIndices();
 
+  if (fid_state.GetIsExtrinsic()) {
+    unsigned int fid_index = m_state.fid_states[fid_state.id].index;
+    m_cov = InsertInMatrix(
+      covariance.block(0, 0, fid_state.size, fid_state.size), m_cov, fid_index, fid_index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register Fiducial: " << fid_state.id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
-- 
2.43.0


From baaa3747560e6e928511af8bfd41a6cf46fc19a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:40 +0000
Subject: [PATCH 12/75] fix: initial sensor covariance is converted to root
 form when the filter uses it

---
 src/ekf/ekf.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index f6114f7..902f836 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -276,8 +276,9 @@ void EKF::RegisterIMU(
 
   if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
     unsigned int imu_index = m_state.imu_states[imu_id].index;
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, imu_state.size, imu_state.size), m_cov, imu_index, imu_index);
+    Eigen::MatrixXd imu_cov = covariance.block(0, 0, imu_state.size, imu_state.size);
+    if (m_use_root_covariance) {imu_cov = imu_cov.cwiseSqrt().eval();}
+    m_cov = InsertInMatrix(imu_cov, m_cov, imu_index, imu_index);
   }
 
   std::stringstream log_msg;
@@ -308,8 +309,9 @@ void EKF::RegisterGPS(
 
   if (gps_state.GetIsExtrinsic()) {
     unsigned int gps_index = m_state.gps_states[gps_id].index;
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, gps_state.size, gps_state.size), m_cov, gps_index, gps_index);
+    Eigen::MatrixXd gps_cov = covariance.block(0, 0, gps_state.size, gps_state.size);
+    if (m_use_root_covariance) {gps_cov = gps_cov.cwiseSqrt().eval();}
+    m_cov = InsertInMatrix(gps_cov, m_cov, gps_index, gps_index);
   }
 
   std::stringstream log_msg;
@@ -348,8 +350,9 @@ void EKF::RegisterCamera(
 
   if (cam_state.GetIsExtrinsic()) {
     unsigned int cam_index = m_state.cam_states[cam_id].index;
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, cam_state.size, cam_state.size), m_cov, cam_index, cam_index);
+    Eigen::MatrixXd cam_cov = covariance.block(0, 0, cam_state.size, cam_state.size);
+    if (m_use_root_covariance) {cam_cov = cam_cov.cwiseSqrt().eval();}
+    m_cov = InsertInMatrix(cam_cov, m_cov, cam_index, cam_index);
   }
 
   std::stringstream log_msg;
@@ -377,8 +380,9 @@ void EKF::RegisterFiducial(const FidState & fid_state, const Eigen::MatrixXd & c
 
   if (fid_state.GetIsExtrinsic()) {
     unsigned int fid_index = m_state.fid_states[fid_state.id].index;
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, fid_state.size, fid_state.size), m_cov, fid_index, fid_index);
+    Eigen::MatrixXd fid_cov = covariance.block(0, 0, fid_state.size, fid_state.size);
+    if (m_use_root_covariance) {fid_cov = fid_cov.cwiseSqrt().eval();}
+    m_cov = InsertInMatrix(fid_cov, m_cov, fid_index, fid_index);
   }
 
   std::stringstream log_msg;
-- 
2.43.0


From b57198cfec6a0bfc8e1ae017bd606001177b73a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:17 +0000
Subject: [PATCH 13/75] fix: root covariance prediction matches the standard
 form

---
 src/ekf/ekf.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 902f836..75966c4 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -154,17 +154,18 @@ void EKF::PredictModel(double local_time)
     m_state.body_state.ang_b_to_l = RotVecToQuat(rot_vec) * m_state.body_state.ang_b_to_l;
 
     Eigen::MatrixXd state_transition = GetStateTransition(delta_time);
-    unsigned int alt_size = m_state_size - g_body_state_size;
 
     if (m_use_root_covariance) {
-      m_cov.block<g_body_state_size, g_body_state_size>(0, 0) =
-        m_cov.block<g_body_state_size, g_body_state_size>(0, 0) * state_transition.transpose();
-
-      m_cov.block(0, g_body_state_size, g_body_state_size, alt_size) =
-        state_transition * m_cov.block(0, g_body_state_size, g_body_state_size, alt_size);
-
-      m_cov = QR_r(m_cov, m_process_noise * std::sqrt(delta_time));
+      // P = U^T * U, so F * P * F^T only transforms the body columns of the root
+      Eigen::MatrixXd noise_root = m_process_noise * std::sqrt(delta_time);
+      m_cov.leftCols(g_body_state_size) =
+        (m_cov.leftCols(g_body_state_size) * state_transition.transpose()).eval();
+      noise_root.leftCols(g_body_state_size) =
+        (noise_root.leftCols(g_body_state_size) * state_transition.transpose()).eval();
+
+      m_cov = QR_r(m_cov, noise_root);
     } else {
+      unsigned int alt_size = m_state_size - g_body_state_size;
       m_cov.diagonal() += m_process_noise.diagonal() * delta_time;
       m_cov.block<g_body_state_size, g_body_state_size>(0, 0) =
         state_transition * (m_cov.block<g_body_state_size, g_body_state_size>(0, 0)) *
-- 
2.43.0


From 3543fc9000794fd2ca79c9042e36a1f379953504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:42 +0000
Subject: [PATCH 14/75] fix: removing an augmented state from a root covariance
 keeps the other states' covariance

---
 src/ekf/ekf.cpp | 21 +++++++++++++++++++--
 src/ekf/ekf.hpp |  8 ++++++++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 75966c4..878e0c6 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -446,6 +446,23 @@ Eigen::MatrixXd EKF::AugmentCovariance(const Eigen::MatrixXd & in_cov, unsigned
   return out_cov;
 }
 
+Eigen::MatrixXd EKF::MarginalizeCovariance(
+  const Eigen::MatrixXd & in_cov, unsigned int index) const
+{
+  if (!m_use_root_covariance) {
+    return RemoveFromMatrix(in_cov, index, index, g_aug_state_size);
+  }
+
+  // P = U^T * U, so only the columns of the root belong to the removed states
+  auto end_index = index + g_aug_state_size;
+  auto out_size = static_cast<unsigned int>(in_cov.cols()) - g_aug_state_size;
+  Eigen::MatrixXd kept_cols(in_cov.rows(), out_size);
+  kept_cols.leftCols(index) = in_cov.leftCols(index);
+  kept_cols.rightCols(out_size - index) = in_cov.rightCols(in_cov.cols() - end_index);
+
+  return QR_r(kept_cols.topRows(out_size), kept_cols.bottomRows(g_aug_state_size));
+}
+
 void EKF::AugmentStateIfNeeded()
 {
   if (
@@ -504,7 +521,7 @@ void EKF::AugmentStateIfNeeded()
 
       // Prune old states
       m_state.aug_states[0].erase(m_state.aug_states[0].begin() + i);
-      m_cov = RemoveFromMatrix(m_cov, aug_index, aug_index, g_aug_state_size);
+      m_cov = MarginalizeCovariance(m_cov, aug_index);
 
       RefreshIndices();
     }
@@ -564,7 +581,7 @@ void EKF::AugmentStateIfNeeded(unsigned int camera_id, unsigned int frame_id)
       m_state.aug_states[camera_id].erase(m_state.aug_states[camera_id].begin());
 
       // Remove first element from covariance
-      m_cov = RemoveFromMatrix(m_cov, aug_start, aug_start, g_aug_state_size);
+      m_cov = MarginalizeCovariance(m_cov, aug_start);
     }
 
     RefreshIndices();
diff --git a/src/ekf/ekf.hpp b/src/ekf/ekf.hpp
index 114dfdf..29644aa 100644
--- a/src/ekf/ekf.hpp
+++ b/src/ekf/ekf.hpp
@@ -208,6 +208,14 @@ public:
   ///
   Eigen::MatrixXd AugmentCovariance(const Eigen::MatrixXd & in_cov, unsigned int index) const;
 
+  ///
+  /// @brief Marginalize an augmented state from the state covariance matrix
+  /// @param in_cov Original state covariance matrix
+  /// @param index Start index of the augmented state to remove
+  /// @return Covariance matrix of the remaining states
+  ///
+  Eigen::MatrixXd MarginalizeCovariance(const Eigen::MatrixXd & in_cov, unsigned int index) const;
+
   ///
   /// @brief Check if state should be augmented using current state
   ///
-- 
2.43.0


From 3b32f3b567f30d74ade0608747bedd2e1cd21b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:47 +0000
Subject: [PATCH 15/75] fix: looking up the pose at the time of the newest
 clone does not divide by zero

---
 src/ekf/ekf.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 878e0c6..7c02ef3 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -640,8 +640,10 @@ AugState EKF::GetAugState(unsigned int camera_id, unsigned int frame_id, double
         }
       }
     } else {
-      alpha = (time - m_state.aug_states[aug_key].back().time) /
-        (m_current_time - m_state.aug_states[aug_key].back().time);
+      double delta_time = m_current_time - m_state.aug_states[aug_key].back().time;
+      if (delta_time > 0.0) {
+        alpha = (time - m_state.aug_states[aug_key].back().time) / delta_time;
+      }
 
       aug_state_0 = m_state.aug_states[aug_key].back();
       aug_state_1.pos_b_in_l = m_state.body_state.pos_b_in_l;
-- 
2.43.0


From 58e6b26c21ad51ac86c79b28b95f47330635260c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:49 +0000
Subject: [PATCH 16/75] fix: feature tracks are not used while there are no
 augmented states

---
 src/ekf/update/msckf_updater.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 5e5620f..65f9924 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -264,6 +264,11 @@ void MsckfUpdater::UpdateEKF(
     return;
   }
 
+  if (ekf.GetAugStateSize() == 0) {
+    m_logger->Log(LogLevel::INFO, "No augmented states available for MSCKF update");
+    return;
+  }
+
   if (!ekf.GetUseFirstEstimateJacobian() || m_is_first_estimate) {
     m_intrinsics = ekf.m_state.cam_states[m_id].intrinsics;
     m_pos_c_in_b = ekf.m_state.cam_states[m_id].pos_c_in_b;
-- 
2.43.0


From b0fbe2cd16cce1548ab612d1d27652c852674a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:40 +0000
Subject: [PATCH 17/75] fix: stationary detection uses the state covariance
 when the filter keeps its root

---
 src/ekf/update/imu_updater.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index ca3ed08..966dc1e 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -220,8 +220,13 @@ bool ImuUpdater::ZeroAccelerationUpdate(
     resid.segment<3>(3) = -(angular_rate - bias_g);
   }
 
+  Eigen::MatrixXd state_cov = ekf.m_cov;
+  if (ekf.GetUseRootCovariance()) {
+    state_cov = ekf.m_cov.transpose() * ekf.m_cov;
+  }
+
   Eigen::MatrixXd score_mat = resid.transpose() *
-    (jacobian * ekf.m_cov * jacobian.transpose() + ekf.GetImuNoiseScaleFactor() *
+    (jacobian * state_cov * jacobian.transpose() + ekf.GetImuNoiseScaleFactor() *
     meas_noise).inverse() * resid;
 
   double score = std::abs(score_mat(0, 0));
-- 
2.43.0


From c0ea03c7d80ee69df960e2a47a9ed019a14e75af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:27 +0000
Subject: [PATCH 18/75] fix: GPS attitude Jacobian matches the body-frame
 attitude correction

---
 src/ekf/update/gps_updater.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ekf/update/gps_updater.cpp b/src/ekf/update/gps_updater.cpp
index ebeb210..e143d60 100644
--- a/src/ekf/update/gps_updater.cpp
+++ b/src/ekf/update/gps_updater.cpp
@@ -68,7 +68,7 @@ Eigen::MatrixXd GpsUpdater::GetMeasurementJacobian(EKF & ekf)
   Eigen::MatrixXd measurement_jacobian = Eigen::MatrixXd::Zero(3, ekf.GetStateSize());
   measurement_jacobian.block<3, 3>(0, 0) = Eigen::Matrix3d::Identity(3, 3);
   measurement_jacobian.block<3, 3>(0, 9) = -ang_b_to_l.toRotationMatrix() *
-    SkewSymmetric(m_pos_a_in_b) * QuaternionJacobian(ang_b_to_l);
+    SkewSymmetric(m_pos_a_in_b);
 
   if (m_is_extrinsic) {
     unsigned int gps_index = ekf.m_state.gps_states[m_id].index;
-- 
2.43.0


From 79f01a9c434dd2c4f5cf4dafb78518d9344804fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:56 +0000
Subject: [PATCH 19/75] fix: GPS and fiducial predictions use the current
 estimate with first-estimate Jacobians

---
 src/ekf/update/fiducial_updater.cpp | 13 ++++++++-----
 src/ekf/update/gps_updater.cpp      |  7 ++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/ekf/update/fiducial_updater.cpp b/src/ekf/update/fiducial_updater.cpp
index 606c38d..e88c21d 100644
--- a/src/ekf/update/fiducial_updater.cpp
+++ b/src/ekf/update/fiducial_updater.cpp
@@ -128,11 +128,14 @@ Eigen::MatrixXd FiducialUpdater::GetMeasurementJacobian(EKF & ekf)
 
 Eigen::VectorXd FiducialUpdater::PredictMeasurement(EKF & ekf)
 {
-  RefreshStates(ekf);
+  Eigen::Vector3d pos_c_in_b = ekf.m_state.cam_states[m_camera_id].pos_c_in_b;
+  Eigen::Quaterniond ang_c_to_b = ekf.m_state.cam_states[m_camera_id].ang_c_to_b;
+  Eigen::Vector3d pos_f_in_l = ekf.m_state.fid_states[m_id].pos_f_in_l;
+  Eigen::Quaterniond ang_f_to_l = ekf.m_state.fid_states[m_id].ang_f_to_l;
   Eigen::VectorXd predicted_measurement = Eigen::VectorXd::Zero(6);
   Eigen::Quaterniond ang_b_to_l = ekf.m_state.body_state.ang_b_to_l;
   Eigen::Vector3d pos_b_in_l = ekf.m_state.body_state.pos_b_in_l;
-  Eigen::Matrix3d rot_b_to_c = m_ang_c_to_b.toRotationMatrix().transpose();
+  Eigen::Matrix3d rot_b_to_c = ang_c_to_b.toRotationMatrix().transpose();
   Eigen::Matrix3d rot_b_to_l = ang_b_to_l.toRotationMatrix();
   Eigen::Matrix3d rot_l_to_b = rot_b_to_l.transpose();
   Eigen::Quaterniond ang_l_to_c(rot_b_to_c * rot_l_to_b);
@@ -141,9 +144,9 @@ Eigen::VectorXd FiducialUpdater::PredictMeasurement(EKF & ekf)
   Eigen::Quaterniond ang_predicted, ang_measured, ang_residual;
 
   // Project the current feature into the current frame of reference
-  Eigen::Vector3d pos_f_in_b = rot_l_to_b * (m_pos_f_in_l - pos_b_in_l);
-  predicted_measurement.segment<3>(0) = rot_b_to_c * (pos_f_in_b - m_pos_c_in_b);
-  predicted_measurement.segment<3>(3) = QuatToRotVec(ang_l_to_c * m_ang_f_to_l);
+  Eigen::Vector3d pos_f_in_b = rot_l_to_b * (pos_f_in_l - pos_b_in_l);
+  predicted_measurement.segment<3>(0) = rot_b_to_c * (pos_f_in_b - pos_c_in_b);
+  predicted_measurement.segment<3>(3) = QuatToRotVec(ang_l_to_c * ang_f_to_l);
   return predicted_measurement;
 }
 
diff --git a/src/ekf/update/gps_updater.cpp b/src/ekf/update/gps_updater.cpp
index e143d60..3b38a3d 100644
--- a/src/ekf/update/gps_updater.cpp
+++ b/src/ekf/update/gps_updater.cpp
@@ -79,12 +79,9 @@ Eigen::MatrixXd GpsUpdater::GetMeasurementJacobian(EKF & ekf)
 
 Eigen::Vector3d GpsUpdater::PredictMeasurement(EKF & ekf)
 {
-  if (!ekf.GetUseFirstEstimateJacobian() || m_is_first_estimate) {
-    m_pos_a_in_b = ekf.m_state.gps_states[m_id].pos_a_in_b;
-    m_is_first_estimate = false;
-  }
+  Eigen::Vector3d pos_a_in_b = ekf.m_state.gps_states[m_id].pos_a_in_b;
 
-  return ekf.m_state.body_state.pos_b_in_l + ekf.m_state.body_state.ang_b_to_l * m_pos_a_in_b;
+  return ekf.m_state.body_state.pos_b_in_l + ekf.m_state.body_state.ang_b_to_l * pos_a_in_b;
 }
 
 void GpsUpdater::UpdateEKF(
-- 
2.43.0


From 78dcf93fd925b4898075b3e2fbd38b87a894bd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:56 +0000
Subject: [PATCH 20/75] fix: fiducial Jacobian is the derivative of the
 fiducial measurement

---
 src/ekf/update/fiducial_updater.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/ekf/update/fiducial_updater.cpp b/src/ekf/update/fiducial_updater.cpp
index e88c21d..aa40943 100644
--- a/src/ekf/update/fiducial_updater.cpp
+++ b/src/ekf/update/fiducial_updater.cpp
@@ -98,11 +98,9 @@ Eigen::MatrixXd FiducialUpdater::GetMeasurementJacobian(EKF & ekf)
   jacobian.block<3, 3>(0, 0) = -rot_l_to_c;
 
   jacobian.block<3, 3>(0, 9) = rot_l_to_c *
-    SkewSymmetric(m_pos_f_in_l - pos_b_in_l) *
-    QuaternionJacobian(ang_b_to_l).transpose();
+    SkewSymmetric(m_pos_f_in_l - pos_b_in_l) * rot_l_to_b.transpose();
 
-  jacobian.block<3, 3>(3, 9) = -rot_l_to_c * rot_f_to_l *
-    QuaternionJacobian(ang_b_to_l).transpose();
+  jacobian.block<3, 3>(3, 9) = -rot_b_to_c;
 
   /// @todo Test camera calibration jacobians
   if (m_is_cam_extrinsic) {
@@ -111,16 +109,15 @@ Eigen::MatrixXd FiducialUpdater::GetMeasurementJacobian(EKF & ekf)
 
     jacobian.block<3, 3>(0, cam_index + 3) = rot_b_to_c *
       SkewSymmetric(rot_l_to_b * (m_pos_f_in_l - pos_b_in_l) - m_pos_c_in_b) *
-      QuaternionJacobian(m_ang_c_to_b).transpose();
+      rot_b_to_c.transpose();
 
-    jacobian.block<3, 3>(3, cam_index + 3) = -rot_b_to_c *
-      QuaternionJacobian(m_ang_c_to_b).transpose() * rot_l_to_b * rot_f_to_l;
+    jacobian.block<3, 3>(3, cam_index + 3) = -Eigen::Matrix3d::Identity();
   }
 
   if (m_is_fid_extrinsic) {
     unsigned int fid_index = ekf.m_state.fid_states[m_id].index;
-    jacobian.block<3, 3>(0, fid_index + 0) = Eigen::Matrix3d::Identity();
-    jacobian.block<3, 3>(3, fid_index + 3) = Eigen::Matrix3d::Identity();
+    jacobian.block<3, 3>(0, fid_index + 0) = rot_l_to_c;
+    jacobian.block<3, 3>(3, fid_index + 3) = rot_l_to_c * rot_f_to_l;
   }
 
   return jacobian;
-- 
2.43.0


From c74fd621b6db018c618cf555a1c411583b59766d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:57 +0000
Subject: [PATCH 21/75] fix: fiducial orientation residual is measured minus
 predicted

---
 src/ekf/update/fiducial_updater.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ekf/update/fiducial_updater.cpp b/src/ekf/update/fiducial_updater.cpp
index aa40943..efa7a7b 100644
--- a/src/ekf/update/fiducial_updater.cpp
+++ b/src/ekf/update/fiducial_updater.cpp
@@ -168,7 +168,7 @@ void FiducialUpdater::UpdateEKF(
   // Residuals for this frame
   Eigen::VectorXd res = Eigen::VectorXd::Zero(g_fid_measurement_size);
   res.segment<3>(0) = pos_measured - pred_meas.segment<3>(0);
-  res.segment<3>(3) = QuatToRotVec(RotVecToQuat(pred_meas.segment<3>(3)) * ang_measured.inverse());
+  res.segment<3>(3) = QuatToRotVec(ang_measured * RotVecToQuat(pred_meas.segment<3>(3)).inverse());
 
   Eigen::MatrixXd jacobian = GetMeasurementJacobian(ekf);
 
-- 
2.43.0


From d84ce7cb091c9996f4d6cfa23c7bede5d6e17d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:59 +0000
Subject: [PATCH 22/75] fix: stationary IMU Jacobian matches the attitude
 corrections it is used for

---
 src/ekf/update/imu_updater.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index 966dc1e..b027e7b 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -164,11 +164,11 @@ Eigen::MatrixXd ImuUpdater::GetZeroAccelerationJacobian(EKF & ekf) const
   jacobian.block<3, 3>(
     0,
     9) = -SkewSymmetric(ang_i_to_b.inverse() * ang_b_to_l.inverse() * g_gravity) *
-    QuaternionJacobian(ang_b_to_l).transpose();
+    ang_i_to_b.inverse().toRotationMatrix();
 
   if (m_is_extrinsic) {
     unsigned int index_extrinsic = ekf.m_state.imu_states[m_id].index_extrinsic;
-    jacobian.block<3, 3>(0, index_extrinsic) = -SkewSymmetric(
+    jacobian.block<3, 3>(0, index_extrinsic + 3) = -SkewSymmetric(
       ang_i_to_b.inverse() * ang_b_to_l.inverse() * g_gravity
     );
   }
-- 
2.43.0


From d56e363b82bc376ed1ba9aeda33e820fd8c9aeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:59 +0000
Subject: [PATCH 23/75] fix: IMU measurement prediction and Jacobian use
 body-frame rates

---
 src/ekf/update/imu_updater.cpp | 71 ++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 33 deletions(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index b027e7b..7589b22 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -307,30 +307,26 @@ bool ImuUpdater::ZeroAccelerationUpdate(
   return true;
 }
 
-/// TODO: The frames are not correct here
 Eigen::VectorXd ImuUpdater::PredictMeasurement(EKF & ekf) const
 {
   Eigen::Vector3d pos_i_in_b = ekf.m_state.imu_states[m_id].pos_i_in_b;
   Eigen::Quaterniond ang_i_to_b = ekf.m_state.imu_states[m_id].ang_i_to_b;
   Eigen::Vector3d acc_bias = ekf.m_state.imu_states[m_id].acc_bias;
   Eigen::Vector3d omg_bias = ekf.m_state.imu_states[m_id].omg_bias;
-  Eigen::Quaterniond ang_b_to_l = ekf.m_state.body_state.ang_b_to_l;
+  Eigen::Quaterniond ang_l_to_b = ekf.m_state.body_state.ang_b_to_l.inverse();
+  Eigen::Vector3d acc_b_in_b = ang_l_to_b * ekf.m_state.body_state.acc_b_in_l;
+  Eigen::Vector3d ang_vel_b_in_b = ang_l_to_b * ekf.m_state.body_state.ang_vel_b_in_l;
+  Eigen::Vector3d ang_acc_b_in_b = ang_l_to_b * ekf.m_state.body_state.ang_acc_b_in_l;
 
   Eigen::VectorXd predicted_measurement(6);
 
-  Eigen::Vector3d imu_acc_b =
-    ekf.m_state.body_state.acc_b_in_l +
-    ekf.m_state.body_state.ang_acc_b_in_l.cross(pos_i_in_b) +
-    ekf.m_state.body_state.ang_vel_b_in_l.cross(
-    (ekf.m_state.body_state.ang_vel_b_in_l.cross(pos_i_in_b))) +
-    2 * ekf.m_state.body_state.ang_vel_b_in_l.cross(
-    ekf.m_state.body_state.vel_b_in_l);
-
-  Eigen::Vector3d imu_omg_b = ang_b_to_l.inverse() * ekf.m_state.body_state.ang_vel_b_in_l;
+  Eigen::Vector3d imu_acc_b = acc_b_in_b +
+    ang_acc_b_in_b.cross(pos_i_in_b) +
+    ang_vel_b_in_b.cross(ang_vel_b_in_b.cross(pos_i_in_b));
 
   // Rotate measurements in place
   predicted_measurement.segment<3>(0) = acc_bias + ang_i_to_b.inverse() * imu_acc_b;
-  predicted_measurement.segment<3>(3) = omg_bias + ang_i_to_b.inverse() * imu_omg_b;
+  predicted_measurement.segment<3>(3) = omg_bias + ang_i_to_b.inverse() * ang_vel_b_in_b;
 
   return predicted_measurement;
 }
@@ -339,52 +335,61 @@ Eigen::MatrixXd ImuUpdater::GetMeasurementJacobian(EKF & ekf) const
 {
   Eigen::Vector3d pos_i_in_b = ekf.m_state.imu_states[m_id].pos_i_in_b;
   Eigen::Quaterniond ang_i_to_b = ekf.m_state.imu_states[m_id].ang_i_to_b;
-  Eigen::Quaterniond ang_b_to_l = ekf.m_state.body_state.ang_b_to_l;
+  Eigen::Matrix3d rot_b_to_i = ang_i_to_b.inverse().toRotationMatrix();
+  Eigen::Matrix3d rot_l_to_b = ekf.m_state.body_state.ang_b_to_l.inverse().toRotationMatrix();
+  Eigen::Vector3d acc_b_in_b = rot_l_to_b * ekf.m_state.body_state.acc_b_in_l;
+  Eigen::Vector3d ang_vel_b_in_b = rot_l_to_b * ekf.m_state.body_state.ang_vel_b_in_l;
+  Eigen::Vector3d ang_acc_b_in_b = rot_l_to_b * ekf.m_state.body_state.ang_acc_b_in_l;
 
   Eigen::MatrixXd measurement_jacobian = Eigen::MatrixXd::Zero(6, ekf.GetStateSize());
 
+  // Derivative of the centripetal acceleration by the body-frame angular velocity
+  Eigen::Matrix3d centripetal_jacobian =
+    SkewSymmetric(ang_vel_b_in_b) * SkewSymmetric(pos_i_in_b).transpose() +
+    SkewSymmetric(ang_vel_b_in_b.cross(pos_i_in_b)).transpose();
+
   // Body Acceleration
-  measurement_jacobian.block<3, 3>(0, 6) = ang_i_to_b.inverse().toRotationMatrix() *
-    ang_b_to_l.inverse().toRotationMatrix();
+  measurement_jacobian.block<3, 3>(0, 6) = rot_b_to_i * rot_l_to_b;
 
-  // Body Angular Velocity
-  measurement_jacobian.block<3, 3>(0, 12) = ang_i_to_b.inverse().toRotationMatrix() * (
-    SkewSymmetric(ekf.m_state.body_state.ang_vel_b_in_l) *
-    SkewSymmetric(pos_i_in_b).transpose() +
-    SkewSymmetric(ekf.m_state.body_state.ang_vel_b_in_l.cross(pos_i_in_b)).transpose()
+  // Body Orientation
+  measurement_jacobian.block<3, 3>(0, 9) = rot_b_to_i * (
+    SkewSymmetric(acc_b_in_b) -
+    SkewSymmetric(pos_i_in_b) * SkewSymmetric(ang_acc_b_in_b) +
+    centripetal_jacobian * SkewSymmetric(ang_vel_b_in_b)
   );
 
+  // Body Angular Velocity
+  measurement_jacobian.block<3, 3>(0, 12) = rot_b_to_i * centripetal_jacobian * rot_l_to_b;
+
   // Body Angular Acceleration
-  measurement_jacobian.block<3, 3>(0, 15) = -ang_i_to_b.inverse().toRotationMatrix() *
-    SkewSymmetric(pos_i_in_b);
+  measurement_jacobian.block<3, 3>(0, 15) = -rot_b_to_i * SkewSymmetric(pos_i_in_b) * rot_l_to_b;
+
+  // Body Orientation
+  measurement_jacobian.block<3, 3>(3, 9) = rot_b_to_i * SkewSymmetric(ang_vel_b_in_b);
 
   // Body Angular Velocity
-  measurement_jacobian.block<3, 3>(3, 12) = ang_i_to_b.inverse().toRotationMatrix() *
-    ang_b_to_l.inverse().toRotationMatrix();
+  measurement_jacobian.block<3, 3>(3, 12) = rot_b_to_i * rot_l_to_b;
 
   if (m_is_extrinsic) {
     unsigned int index_extrinsic = ekf.m_state.imu_states[m_id].index_extrinsic;
-    Eigen::Vector3d ang_vel_b_in_l = ekf.m_state.body_state.ang_vel_b_in_l;
-    Eigen::Vector3d ang_acc_b_in_l = ekf.m_state.body_state.ang_acc_b_in_l;
-
 
     // IMU Positional Offset
     measurement_jacobian.block<3, 3>(0, index_extrinsic + 0) =
-      ang_i_to_b.inverse().toRotationMatrix() * (SkewSymmetric(ang_acc_b_in_l) +
-      SkewSymmetric(ang_vel_b_in_l) * SkewSymmetric(ang_vel_b_in_l)
+      rot_b_to_i * (SkewSymmetric(ang_acc_b_in_b) +
+      SkewSymmetric(ang_vel_b_in_b) * SkewSymmetric(ang_vel_b_in_b)
       );
 
     // IMU Angular Offset
     measurement_jacobian.block<3, 3>(0, index_extrinsic + 3) = SkewSymmetric(
-      ang_i_to_b.inverse() * (ang_acc_b_in_l.cross(pos_i_in_b) +
-      ang_vel_b_in_l.cross(ang_vel_b_in_l.cross(pos_i_in_b)) +
-      ang_b_to_l.inverse() * ekf.m_state.body_state.acc_b_in_l
+      rot_b_to_i * (ang_acc_b_in_b.cross(pos_i_in_b) +
+      ang_vel_b_in_b.cross(ang_vel_b_in_b.cross(pos_i_in_b)) +
+      acc_b_in_b
       )
     );
 
     // IMU Angular Offset
     measurement_jacobian.block<3, 3>(3, index_extrinsic + 3) = SkewSymmetric(
-      ang_i_to_b.inverse() * ang_b_to_l.inverse() * ang_vel_b_in_l);
+      rot_b_to_i * ang_vel_b_in_b);
   }
 
   if (m_is_intrinsic) {
-- 
2.43.0


From 761bc1335c538ec7c19a1e31a8eeb8585e8a4ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:22 +0000
Subject: [PATCH 24/75] fix: feature Jacobian matches the body-frame attitude
 correction

---
 src/ekf/update/msckf_updater.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 65f9924..1f96640 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -348,14 +348,13 @@ void MsckfUpdater::UpdateEKF(
       // Augmented state Jacobian
       Eigen::MatrixXd H_t = Eigen::MatrixXd::Zero(3, g_aug_state_size);
       H_t.block<3, 3>(0, 0) = -rot_l_to_ci;
-      H_t.block<3, 3>(0, 3) = rot_l_to_ci * SkewSymmetric(pos_f_in_l - pos_bi_in_l) *
-        QuaternionJacobian(aug_state_i.ang_b_to_l).transpose();
+      H_t.block<3, 3>(0, 3) = rot_l_to_ci * SkewSymmetric(pos_f_in_l - pos_bi_in_l) * rot_bi_to_l;
 
       if (m_is_cam_extrinsic) {
         H_c.block<2, 3>(2 * i, cam_index + 0) = -H_d * H_p * rot_b_to_ci;
         H_c.block<2, 3>(2 * i, cam_index + 3) = H_d * H_p * rot_b_to_ci *
           SkewSymmetric(rot_bi_to_l.transpose() * (pos_f_in_l - pos_bi_in_l) - m_pos_c_in_b) *
-          QuaternionJacobian(m_ang_c_to_b).transpose();
+          rot_ci_to_b;
       }
 
       if (aug_state_i.alpha != 0.0) {
-- 
2.43.0


From a72b116d82b6f7a5a04aae504a3d83ebacab07de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:22 +0000
Subject: [PATCH 25/75] fix: predicted feature points include the lens
 distortion

---
 src/ekf/update/msckf_updater.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 1f96640..b77d846 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -324,7 +324,8 @@ void MsckfUpdater::UpdateEKF(
       // Project the current feature into the current frame of reference
       Eigen::Vector3d pos_f_in_bi = rot_bi_to_l.transpose() * (pos_f_in_l - pos_bi_in_l);
       Eigen::Vector3d pos_f_in_ci = rot_ci_to_b.transpose() * (pos_f_in_bi - m_pos_c_in_b);
-      Eigen::Vector2d xy_predicted = Project(pos_f_in_ci);
+      Eigen::Vector2d xy_norm = Project(pos_f_in_ci);
+      Eigen::Vector2d xy_predicted = Distort(xy_norm, m_intrinsics);
 
       Eigen::Vector2d xy_measured;
       xy_measured(0) = (static_cast<double>(feature_track.track[i].key_point.pt.x) -
@@ -340,7 +341,7 @@ void MsckfUpdater::UpdateEKF(
 
       // Distortion Jacobian
       Eigen::MatrixXd H_d(2, 2);
-      DistortionJacobian(xy_measured, m_intrinsics, H_d);
+      DistortionJacobian(xy_norm, m_intrinsics, H_d);
 
       // Entire feature Jacobian
       H_f.block<2, 3>(2 * i, 0) = H_d * H_p * rot_l_to_ci;
-- 
2.43.0


From 6334d21c326c57963c67cbf8f2c6db8aaaf4eb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:39 +0000
Subject: [PATCH 26/75] fix: feature predictions use the current estimate with
 first-estimate Jacobians

---
 src/ekf/update/msckf_updater.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index b77d846..613f1a0 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -325,7 +325,12 @@ void MsckfUpdater::UpdateEKF(
       Eigen::Vector3d pos_f_in_bi = rot_bi_to_l.transpose() * (pos_f_in_l - pos_bi_in_l);
       Eigen::Vector3d pos_f_in_ci = rot_ci_to_b.transpose() * (pos_f_in_bi - m_pos_c_in_b);
       Eigen::Vector2d xy_norm = Project(pos_f_in_ci);
-      Eigen::Vector2d xy_predicted = Distort(xy_norm, m_intrinsics);
+
+      // Predict the measurement from the current estimate
+      const CamState & cam_state = ekf.m_state.cam_states[m_id];
+      Eigen::Vector2d xy_predicted = Distort(
+        Project(cam_state.ang_c_to_b.inverse() * (pos_f_in_bi - cam_state.pos_c_in_b)),
+        m_intrinsics);
 
       Eigen::Vector2d xy_measured;
       xy_measured(0) = (static_cast<double>(feature_track.track[i].key_point.pt.x) -
-- 
2.43.0


From 8a3cafadf1a18c01af507dcf529ea9e9d5ae5edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:10 +0000
Subject: [PATCH 27/75] fix: feature tracks with a single observation are
 skipped

---
 src/ekf/update/msckf_updater.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 613f1a0..c83b141 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -296,6 +296,11 @@ void MsckfUpdater::UpdateEKF(
     m_logger->Log(
       LogLevel::DEBUG, "Feature Track size: " + std::to_string(feature_track.track.size()));
 
+    // A single observation is fully used by the position of the feature
+    if (feature_track.track.size() < 2) {
+      continue;
+    }
+
     /// @todo: Add threshold for total distance/angle before triangulating
 
     // Get triangulated estimate of feature pos
-- 
2.43.0


From 37d4893d7c5aea5dd1069dd19b1cd272b64015aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:36 +0000
Subject: [PATCH 28/75] fix: feature tracks without a true position are
 triangulated

---
 src/ekf/types.hpp                | 4 +++-
 src/ekf/update/msckf_updater.cpp | 8 +++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ekf/types.hpp b/src/ekf/types.hpp
index fbb7f43..d050001 100644
--- a/src/ekf/types.hpp
+++ b/src/ekf/types.hpp
@@ -18,6 +18,7 @@
 
 #include <eigen3/Eigen/Eigen>
 
+#include <cmath>
 #include <map>
 #include <vector>
 
@@ -290,7 +291,8 @@ typedef struct FeatureTrack
 {
   std::vector<FeaturePoint> track;        ///< @brief Vector of tracked feature keypoints
   /// @todo: Remove true feature position once MSCKF complete
-  Eigen::Vector3d true_feature_position;  ///< @brief True feature position (sim only)
+  /// @brief True feature position (sim only), not finite when it is not known
+  Eigen::Vector3d true_feature_position{NAN, NAN, NAN};
 } FeatureTrack;
 
 ///
diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index c83b141..6e4eaf3 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -76,7 +76,9 @@ bool MsckfUpdater::TriangulateFeature(
 )
 {
   /// @todo: Need to continue debugging the triangulated features
-  if (m_use_true_triangulation) {
+  const bool use_true_triangulation =
+    m_use_true_triangulation && feature_track.true_feature_position.allFinite();
+  if (use_true_triangulation) {
     pos_f_in_l = feature_track.true_feature_position;
   }
 
@@ -135,7 +137,7 @@ bool MsckfUpdater::TriangulateFeature(
     m_logger->Log(LogLevel::INFO, err_msg.str());
     pos_f_in_l_tri = Eigen::Vector3d::Zero();
     /// @todo: Add input flag
-    if (m_use_true_triangulation) {
+    if (use_true_triangulation) {
       success = true;
     } else {
       pos_f_in_l = pos_f_in_l_tri;
@@ -149,7 +151,7 @@ bool MsckfUpdater::TriangulateFeature(
     msg << "," << std::to_string(feature_track.track[0].key_point.class_id);
     msg << VectorToCommaString(pos_f_in_l_tri);
     m_triangulation_logger.RateLimitedLog(msg.str(), local_time);
-    if (!m_use_true_triangulation) {
+    if (!use_true_triangulation) {
       pos_f_in_l = pos_f_in_l_tri;
     }
     success = true;
-- 
2.43.0


From b11af138ba538105ac3b9b07da03e71d73d6e808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:29 +0000
Subject: [PATCH 29/75] fix: origin of the local frame is found with the
 heading of the frame

---
 src/ekf/ekf.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 7c02ef3..694b3d7 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -821,8 +821,10 @@ void EKF::AttemptGpsInitialization(
       (pos_stddev < m_gps_init_pos_thresh) && (ang_stddev != 0.0) &&
       (ang_stddev < std::tan(m_gps_init_ang_thresh))))
     {
-      Eigen::Vector3d delta_ref_enu = transformation.translation();
-      Eigen::Vector3d pos_e_in_g = enu_to_lla(-delta_ref_enu, init_ref_lla);
+      // East-north-up position of the local origin
+      Eigen::Vector3d delta_ref_enu =
+        -(transformation.linear().transpose() * transformation.translation());
+      Eigen::Vector3d pos_e_in_g = enu_to_lla(delta_ref_enu, init_ref_lla);
       double ang_l_to_e = affine_angle(transformation);
 
       m_debug_logger->Log(LogLevel::INFO, "GPS Updater Initialized");
-- 
2.43.0


From 6c4d8136ef7c389b3cf3d6fe3b8ebed31fa93dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:23 +0000
Subject: [PATCH 30/75] fix: GPS frame initialization aligns fixes with the
 antenna, not the body

---
 src/ekf/ekf.cpp                | 5 +++--
 src/ekf/ekf.hpp                | 4 +++-
 src/ekf/update/gps_updater.cpp | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 694b3d7..f2d7355 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -790,11 +790,12 @@ void EKF::RefreshIndices()
 
 void EKF::AttemptGpsInitialization(
   double time,
-  const Eigen::Vector3d & gps_lla)
+  const Eigen::Vector3d & gps_lla,
+  const Eigen::Vector3d & pos_a_in_l)
 {
   m_gps_time_vec.push_back(time);
   m_gps_ecef_vec.push_back(lla_to_ecef(gps_lla));
-  m_gps_xyz_vec.push_back(m_state.body_state.pos_b_in_l);
+  m_gps_xyz_vec.push_back(pos_a_in_l);
 
   if (m_gps_time_vec.size() >= 4) {
     Eigen::Vector3d init_ref_ecef = average_vectors(m_gps_ecef_vec);
diff --git a/src/ekf/ekf.hpp b/src/ekf/ekf.hpp
index 29644aa..ad5a9e5 100644
--- a/src/ekf/ekf.hpp
+++ b/src/ekf/ekf.hpp
@@ -306,10 +306,12 @@ public:
   /// @brief GPS LLA to ENU Initialization Routine
   /// @param time GPS measured time
   /// @param gps_lla GPS measured lat-lon-alt
+  /// @param pos_a_in_l Predicted antenna position in the local frame
   ///
   void AttemptGpsInitialization(
     double time,
-    const Eigen::Vector3d & gps_lla);
+    const Eigen::Vector3d & gps_lla,
+    const Eigen::Vector3d & pos_a_in_l);
 
   ///
   /// @brief GPS time vector getter
diff --git a/src/ekf/update/gps_updater.cpp b/src/ekf/update/gps_updater.cpp
index 3b38a3d..7445ccb 100644
--- a/src/ekf/update/gps_updater.cpp
+++ b/src/ekf/update/gps_updater.cpp
@@ -101,7 +101,7 @@ void GpsUpdater::UpdateEKF(
   double ang_l_to_e = ekf.GetReferenceAngle();
   if (!ekf.IsLlaInitialized()) {
     m_logger->Log(LogLevel::INFO, "GPS Updater Attempt Initialization");
-    ekf.AttemptGpsInitialization(local_time, gps_lla);
+    ekf.AttemptGpsInitialization(local_time, gps_lla, PredictMeasurement(ekf));
     if (ekf.IsLlaInitialized()) {
       // Perform single update with compressed measurements
       MultiUpdateEKF(ekf);
-- 
2.43.0


From 564be39d5f76f0ad84035bd5ea468d872c01d610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:08 +0000
Subject: [PATCH 31/75] fix: heading deviation of a planar alignment is taken
 about the centroid of the target points

---
 src/utility/math_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index 7d74926..2d20a8e 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -250,7 +250,7 @@ bool kabsch_2d(
   double sum_count{0};
   for (unsigned int i = 0; i < points_tgt.size(); ++i) {
     Eigen::Vector3d pos_error = points_tgt[i] - transform * points_src[i];
-    double baseline_dist = (points_tgt[i] - centroid_src).norm();
+    double baseline_dist = (points_tgt[i] - centroid_tgt).norm();
     pos_errors.push_back(pos_error);
     if (baseline_dist > pos_error.norm()) {
       sum_square_slopes += std::pow(pos_error.norm() / baseline_dist, 2);
-- 
2.43.0


From e0117da190f147492238d2214b56428bae968f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:48 +0000
Subject: [PATCH 32/75] fix: GPS frame is not initialized from an uninitialized
 heading deviation

---
 src/ekf/ekf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index f2d7355..15a4295 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -806,8 +806,8 @@ void EKF::AttemptGpsInitialization(
       gps_states_enu.push_back(ecef_to_enu(gps_ecef, init_ref_lla));
     }
 
-    double pos_stddev;
-    double ang_stddev;
+    double pos_stddev {0.0};
+    double ang_stddev {0.0};
     Eigen::Affine3d transformation;
     bool is_successful = kabsch_2d(
       m_gps_xyz_vec,
-- 
2.43.0


From d139d8a0d9bbdecaf184f5e96d7b99597620aba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:43 +0000
Subject: [PATCH 33/75] fix: data log rate also counts from a first message at
 time zero

---
 src/infrastructure/data_logger.cpp | 3 ++-
 src/infrastructure/data_logger.hpp | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/data_logger.cpp b/src/infrastructure/data_logger.cpp
index 96b3aa2..30d6d33 100644
--- a/src/infrastructure/data_logger.cpp
+++ b/src/infrastructure/data_logger.cpp
@@ -49,7 +49,7 @@ void DataLogger::Log(const std::string & message)
 void DataLogger::RateLimitedLog(const std::string & message, double time)
 {
   if (m_logging_on) {
-    if (m_time_init != 0.0) {
+    if (m_time_initialized) {
       double log_count = static_cast<double>(m_log_count);
       double max_count = m_rate * (time - m_time_init);
       if ((m_rate == 0.0) || (log_count < max_count)) {
@@ -57,6 +57,7 @@ void DataLogger::RateLimitedLog(const std::string & message, double time)
       }
     } else {
       m_time_init = time;
+      m_time_initialized = true;
       Log(message);
     }
   }
diff --git a/src/infrastructure/data_logger.hpp b/src/infrastructure/data_logger.hpp
index a790360..e2e8b36 100644
--- a/src/infrastructure/data_logger.hpp
+++ b/src/infrastructure/data_logger.hpp
@@ -93,6 +93,7 @@ private:
   std::string m_file_name {"default.log"};
   double m_rate{0.0};
   double m_time_init{0};
+  bool m_time_initialized{false};
   unsigned int m_log_count{0};
 };
 
-- 
2.43.0


From 109ba94af4a510f84ff0efcc7f5a00e6522c7b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:24 +0000
Subject: [PATCH 34/75] fix: logged covariances are the variances of the
 estimate in both covariance forms

---
 src/ekf/ekf.cpp                     | 13 +++++++++----
 src/ekf/ekf.hpp                     |  8 ++++++++
 src/ekf/update/fiducial_updater.cpp | 14 ++------------
 src/ekf/update/gps_updater.cpp      |  7 +------
 src/ekf/update/imu_updater.cpp      | 13 +++----------
 src/ekf/update/msckf_updater.cpp    |  7 +------
 6 files changed, 24 insertions(+), 38 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 15a4295..82f5a75 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -98,10 +98,7 @@ void EKF::LogBodyStateIfNeeded(int execution_count)
 {
   if (m_data_log_rate != 0.0) {
     std::stringstream msg;
-    Eigen::VectorXd body_cov = m_cov.block<g_body_state_size, g_body_state_size>(0, 0).diagonal();
-    if (m_use_root_covariance) {
-      body_cov = body_cov.cwiseProduct(body_cov);
-    }
+    Eigen::VectorXd body_cov = GetVariance(0, g_body_state_size);
     msg << m_current_time;
     msg << VectorToCommaString(m_state.body_state.pos_b_in_l);
     msg << VectorToCommaString(m_state.body_state.vel_b_in_l);
@@ -892,6 +889,14 @@ bool EKF::GetUseRootCovariance() const
   return m_use_root_covariance;
 }
 
+Eigen::VectorXd EKF::GetVariance(unsigned int index, unsigned int size) const
+{
+  if (m_use_root_covariance) {
+    return m_cov.middleCols(index, size).colwise().squaredNorm().transpose();
+  }
+  return m_cov.diagonal().segment(index, size);
+}
+
 bool EKF::GetUseFirstEstimateJacobian() const
 {
   return m_use_first_estimate_jacobian;
diff --git a/src/ekf/ekf.hpp b/src/ekf/ekf.hpp
index ad5a9e5..9642e7d 100644
--- a/src/ekf/ekf.hpp
+++ b/src/ekf/ekf.hpp
@@ -385,6 +385,14 @@ public:
   ///
   bool GetUseRootCovariance() const;
 
+  ///
+  /// @brief Getter for the variances of consecutive states, in either covariance form
+  /// @param index Index of the first state
+  /// @param size Number of states
+  /// @return Diagonal of the covariance
+  ///
+  Eigen::VectorXd GetVariance(unsigned int index, unsigned int size) const;
+
   ///
   /// @brief Getter for use first estimate Jacobians
   /// @return Use first estimate Jacobians
diff --git a/src/ekf/update/fiducial_updater.cpp b/src/ekf/update/fiducial_updater.cpp
index efa7a7b..0279f64 100644
--- a/src/ekf/update/fiducial_updater.cpp
+++ b/src/ekf/update/fiducial_updater.cpp
@@ -197,21 +197,11 @@ void FiducialUpdater::UpdateEKF(
     msg << VectorToCommaString(ekf.m_state.fid_states[m_id].pos_f_in_l);
     msg << QuaternionToCommaString(ekf.m_state.fid_states[m_id].ang_f_to_l);
     unsigned int fid_index = ekf.m_state.fid_states[m_id].index;
-    Eigen::VectorXd cov_diag = ekf.m_cov.block(
-      fid_index, fid_index, g_fid_extrinsic_state_size, g_fid_extrinsic_state_size).diagonal();
-    if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
-    }
-    msg << VectorToCommaString(cov_diag);
+    msg << VectorToCommaString(ekf.GetVariance(fid_index, g_fid_extrinsic_state_size));
   }
   if (m_is_cam_extrinsic) {
     unsigned int cam_index = ekf.m_state.cam_states[m_camera_id].index;
-    Eigen::VectorXd cov_diag = ekf.m_cov.block(
-      cam_index, cam_index, g_cam_extrinsic_state_size, g_cam_extrinsic_state_size).diagonal();
-    if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
-    }
-    msg << VectorToCommaString(cov_diag);
+    msg << VectorToCommaString(ekf.GetVariance(cam_index, g_cam_extrinsic_state_size));
   }
   msg << "," << t_execution.count();
   m_fiducial_logger.RateLimitedLog(msg.str(), local_time);
diff --git a/src/ekf/update/gps_updater.cpp b/src/ekf/update/gps_updater.cpp
index 7445ccb..a3fe2ba 100644
--- a/src/ekf/update/gps_updater.cpp
+++ b/src/ekf/update/gps_updater.cpp
@@ -132,12 +132,7 @@ void GpsUpdater::UpdateEKF(
   if (m_is_extrinsic) {
     msg << VectorToCommaString(ekf.m_state.gps_states[m_id].pos_a_in_b);
     unsigned int gps_index = ekf.m_state.gps_states[m_id].index;
-    Eigen::VectorXd cov_diag = ekf.m_cov.block(
-      gps_index, gps_index, g_gps_extrinsic_state_size, g_gps_extrinsic_state_size).diagonal();
-    if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
-    }
-    msg << VectorToCommaString(cov_diag);
+    msg << VectorToCommaString(ekf.GetVariance(gps_index, g_gps_extrinsic_state_size));
   }
   msg << VectorToCommaString(residual);
   msg << "," << t_execution.count();
diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index 7589b22..17582ab 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -137,12 +137,7 @@ void ImuUpdater::UpdateEKF(
   if (m_is_extrinsic || m_is_intrinsic) {
     unsigned int imu_index = ekf.m_state.imu_states[m_id].index;
     unsigned int imu_size = ekf.m_state.imu_states[m_id].size;
-    Eigen::VectorXd cov_diag =
-      ekf.m_cov.block(imu_index, imu_index, imu_size, imu_size).diagonal();
-    if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
-    }
-    msg << VectorToCommaString(cov_diag);
+    msg << VectorToCommaString(ekf.GetVariance(imu_index, imu_size));
   }
   msg << VectorToCommaString(acceleration);
   msg << VectorToCommaString(angular_rate);
@@ -281,14 +276,12 @@ bool ImuUpdater::ZeroAccelerationUpdate(
 
   if (m_is_extrinsic) {
     unsigned int index_extrinsic = ekf.m_state.imu_states[m_id].index_extrinsic;
-    Eigen::VectorXd ex_diag = ekf.m_cov.block(index_extrinsic, index_extrinsic, 6, 6).diagonal();
-    msg << VectorToCommaString(ex_diag.cwiseProduct(ex_diag));
+    msg << VectorToCommaString(ekf.GetVariance(index_extrinsic, g_imu_extrinsic_state_size));
   }
 
   if (m_is_intrinsic) {
     unsigned int index_intrinsic = ekf.m_state.imu_states[m_id].index_intrinsic;
-    Eigen::VectorXd in_diag = ekf.m_cov.block(index_intrinsic, index_intrinsic, 6, 6).diagonal();
-    msg << VectorToCommaString(in_diag.cwiseProduct(in_diag));
+    msg << VectorToCommaString(ekf.GetVariance(index_intrinsic, g_imu_intrinsic_state_size));
   }
 
   msg << VectorToCommaString(acceleration);
diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 6e4eaf3..8c8952c 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -427,12 +427,7 @@ void MsckfUpdater::UpdateEKF(
   msg << VectorToCommaString(ekf.m_state.cam_states[m_id].pos_c_in_b);
   msg << QuaternionToCommaString(ekf.m_state.cam_states[m_id].ang_c_to_b);
   if (m_is_cam_extrinsic) {
-    Eigen::VectorXd cov_diag = ekf.m_cov.block(
-      cam_index, cam_index, g_cam_extrinsic_state_size, g_cam_extrinsic_state_size).diagonal();
-    if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
-    }
-    msg << VectorToCommaString(cov_diag);
+    msg << VectorToCommaString(ekf.GetVariance(cam_index, g_cam_extrinsic_state_size));
   }
   msg << "," << std::to_string(feature_tracks.size());
   msg << "," << t_execution.count();
-- 
2.43.0


From 226483b4e4ca9c98c70f5d45fc5b38247e7d480c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:35 +0000
Subject: [PATCH 35/75] fix: triangulation log times keep their precision

---
 src/ekf/update/msckf_updater.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 8c8952c..679228b 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -20,7 +20,6 @@
 #include <algorithm>
 #include <chrono>
 #include <cmath>
-#include <iomanip>
 #include <map>
 #include <memory>
 #include <ostream>
@@ -147,7 +146,7 @@ bool MsckfUpdater::TriangulateFeature(
     pos_f_in_l_tri = rot_b0_to_l * (m_ang_c_to_b * pos_f_in_c0 + m_pos_c_in_b) + pos_b0_in_l;
 
     std::stringstream msg;
-    msg << std::setprecision(3) << local_time;
+    msg << local_time;
     msg << "," << std::to_string(feature_track.track[0].key_point.class_id);
     msg << VectorToCommaString(pos_f_in_l_tri);
     m_triangulation_logger.RateLimitedLog(msg.str(), local_time);
-- 
2.43.0


From 2eb1f030749da52ec472a6ab3463c1a3db6ffcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:01 +0000
Subject: [PATCH 36/75] fix: fiducial log follows the data log rate

---
 src/ekf/update/fiducial_updater.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ekf/update/fiducial_updater.cpp b/src/ekf/update/fiducial_updater.cpp
index 0279f64..20366d7 100644
--- a/src/ekf/update/fiducial_updater.cpp
+++ b/src/ekf/update/fiducial_updater.cpp
@@ -68,6 +68,7 @@ FiducialUpdater::FiducialUpdater(
 
   m_fiducial_logger.DefineHeader(header.str());
   if (data_log_rate != 0.0) {m_fiducial_logger.EnableLogging();}
+  m_fiducial_logger.SetLogRate(data_log_rate);
 }
 
 void FiducialUpdater::RefreshStates(EKF & ekf)
-- 
2.43.0


From 30e7f2a624d420a9ba3e5f6b9a8abed53774d328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:26 +0000
Subject: [PATCH 37/75] fix: cyclic truth holds its initial orientation while
 stationary

---
 src/infrastructure/sim/truth_engine_cyclic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infrastructure/sim/truth_engine_cyclic.cpp b/src/infrastructure/sim/truth_engine_cyclic.cpp
index 4118ceb..c721ba2 100644
--- a/src/infrastructure/sim/truth_engine_cyclic.cpp
+++ b/src/infrastructure/sim/truth_engine_cyclic.cpp
@@ -107,7 +107,7 @@ Eigen::Vector3d TruthEngineCyclic::GetBodyRollPitchYaw(double time)
   Eigen::Vector3d body_rpy;
   double relative_time = time - m_stationary_time;
   if (relative_time < 0.0) {
-    body_rpy = Eigen::Vector3d::Zero(3);
+    body_rpy = m_ang_offset;
   } else {
     Eigen::Vector3d rpy_vector;
     rpy_vector[0] = m_ang_amplitude / 2.0 *
-- 
2.43.0


From 57efb4d684ee693983ac9c0028667383a352587f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:26 +0000
Subject: [PATCH 38/75] fix: cyclic truth angular acceleration is the
 derivative of its angular rate

---
 .../sim/truth_engine_cyclic.cpp               | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/sim/truth_engine_cyclic.cpp b/src/infrastructure/sim/truth_engine_cyclic.cpp
index c721ba2..5d44976 100644
--- a/src/infrastructure/sim/truth_engine_cyclic.cpp
+++ b/src/infrastructure/sim/truth_engine_cyclic.cpp
@@ -188,7 +188,26 @@ Eigen::Vector3d TruthEngineCyclic::GetBodyAngularAcceleration(double time)
 
     Eigen::Vector3d rpy = GetBodyRollPitchYaw(time);
     Eigen::Matrix3d transform = EulerDerivativeTransform(rpy);
-    body_ang_acc = transform * dd_rpy;
+
+    // Change of the transform with roll and pitch
+    Eigen::Vector3d d_rpy;
+    d_rpy[0] = m_ang_amplitude * m_ang_frequency[0] * M_PI *
+      std::sin(m_ang_frequency[0] * 2 * M_PI * relative_time);
+    d_rpy[1] = m_ang_amplitude * m_ang_frequency[1] * M_PI *
+      std::sin(m_ang_frequency[1] * 2 * M_PI * relative_time);
+    d_rpy[2] = m_ang_amplitude * m_ang_frequency[2] * M_PI *
+      std::sin(m_ang_frequency[2] * 2 * M_PI * relative_time);
+    Eigen::Matrix3d d_transform;
+    d_transform.setZero();
+    d_transform(0, 2) = -std::cos(rpy[1]) * d_rpy[1];
+    d_transform(1, 1) = -std::sin(rpy[0]) * d_rpy[0];
+    d_transform(1, 2) = std::cos(rpy[0]) * std::cos(rpy[1]) * d_rpy[0] -
+      std::sin(rpy[0]) * std::sin(rpy[1]) * d_rpy[1];
+    d_transform(2, 1) = -std::cos(rpy[0]) * d_rpy[0];
+    d_transform(2, 2) = -std::sin(rpy[0]) * std::cos(rpy[1]) * d_rpy[0] -
+      std::cos(rpy[0]) * std::sin(rpy[1]) * d_rpy[1];
+
+    body_ang_acc = transform * dd_rpy + d_transform * d_rpy;
   }
   return body_ang_acc;
 }
-- 
2.43.0


From bda6c9ea81b600b71ab13938b2179634b74fbabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:26 +0000
Subject: [PATCH 39/75] fix: spline truth ends at the maximum time when it
 starts with a stationary time

---
 src/infrastructure/sim/truth_engine_spline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infrastructure/sim/truth_engine_spline.cpp b/src/infrastructure/sim/truth_engine_spline.cpp
index f639db2..cd88a21 100644
--- a/src/infrastructure/sim/truth_engine_spline.cpp
+++ b/src/infrastructure/sim/truth_engine_spline.cpp
@@ -168,7 +168,7 @@ TruthEngineSpline::TruthEngineSpline(
 
 bool TruthEngineSpline::IsTimeInvalid(double time)
 {
-  return time < 0.0 || time > m_max_time;
+  return time < 0.0 || time > m_max_time - m_stationary_time;
 }
 
 bool TruthEngineSpline::IsSplineInvalid(const Eigen::Spline3d & spline)
-- 
2.43.0


From ea1a069856bf5a82c17fc600fbf797b253f9d210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:26 +0000
Subject: [PATCH 40/75] fix: spline truth holds its first pose while stationary
 or when all its poses are the same

---
 .../sim/truth_engine_spline.cpp               | 19 +++++++++++++++++--
 .../sim/truth_engine_spline.hpp               |  2 ++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/infrastructure/sim/truth_engine_spline.cpp b/src/infrastructure/sim/truth_engine_spline.cpp
index cd88a21..5342820 100644
--- a/src/infrastructure/sim/truth_engine_spline.cpp
+++ b/src/infrastructure/sim/truth_engine_spline.cpp
@@ -28,8 +28,13 @@ Eigen::Vector3d TruthEngineSpline::GetBodyPosition(double time)
 {
   Eigen::Vector3d body_pos;
   double relative_time = time - m_stationary_time;
-  if (IsTimeInvalid(relative_time) || IsSplineInvalid(m_pos_spline)) {
+  if (relative_time < 0.0) {
+    body_pos = m_start_pos;
+  } else if (IsTimeInvalid(relative_time)) {
     body_pos = Eigen::Vector3d::Zero(3);
+  } else if (IsSplineInvalid(m_pos_spline)) {
+    // All way points are the same
+    body_pos = m_start_pos;
   } else {
     body_pos = m_pos_spline(relative_time / (m_max_time - m_stationary_time));
   }
@@ -74,8 +79,13 @@ Eigen::Quaterniond TruthEngineSpline::GetBodyAngularPosition(double time)
 {
   Eigen::Quaterniond body_ang_pos;
   double relative_time = time - m_stationary_time;
-  if (IsTimeInvalid(relative_time) || IsSplineInvalid(m_ang_spline)) {
+  if (relative_time < 0.0) {
+    body_ang_pos = EigVecToQuat(m_start_ang);
+  } else if (IsTimeInvalid(relative_time)) {
     body_ang_pos = Eigen::Quaterniond{1.0, 0.0, 0.0, 0.0};
+  } else if (IsSplineInvalid(m_ang_spline)) {
+    // All way points are the same
+    body_ang_pos = EigVecToQuat(m_start_ang);
   } else {
     double spline_param = relative_time / (m_max_time - m_stationary_time);
     Eigen::Vector3d euler_angles = m_ang_spline(spline_param);
@@ -154,6 +164,11 @@ TruthEngineSpline::TruthEngineSpline(
     ang_mat.col(index) << ang[0], ang[1], ang[2];
   }
 
+  if (spline_size > 0) {
+    m_start_pos = pos_mat.col(0);
+    m_start_ang = ang_mat.col(0);
+  }
+
   Eigen::MatrixXd derivatives(3, 1);
   Eigen::VectorXd indices(1);
   derivatives.setZero();
diff --git a/src/infrastructure/sim/truth_engine_spline.hpp b/src/infrastructure/sim/truth_engine_spline.hpp
index 0afcca5..759d833 100644
--- a/src/infrastructure/sim/truth_engine_spline.hpp
+++ b/src/infrastructure/sim/truth_engine_spline.hpp
@@ -93,6 +93,8 @@ private:
   static bool IsSplineInvalid(const Eigen::Spline3d & spline);
 
   double m_stationary_time {0.1};
+  Eigen::Vector3d m_start_pos {0.0, 0.0, 0.0};
+  Eigen::Vector3d m_start_ang {0.0, 0.0, 0.0};
   Eigen::Spline3d m_pos_spline;
   Eigen::Spline3d m_ang_spline;
 };
-- 
2.43.0


From 6ea836dff04bcd2ce11dfb9c56c1616ab54b6d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:26 +0000
Subject: [PATCH 41/75] fix: smoother truth does not read past its last sample

---
 src/infrastructure/sim/truth_engine_smoother.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/infrastructure/sim/truth_engine_smoother.cpp b/src/infrastructure/sim/truth_engine_smoother.cpp
index 4bf97a6..cebd311 100644
--- a/src/infrastructure/sim/truth_engine_smoother.cpp
+++ b/src/infrastructure/sim/truth_engine_smoother.cpp
@@ -31,6 +31,9 @@ Eigen::Vector3d TruthEngineSmoother::GetInterpolatedValue(
   double whole;
   double alpha = std::modf(time * m_rate, &whole);
   auto index = static_cast<unsigned int>(whole);
+  if (index + 1 >= values.size()) {
+    return values.back();
+  }
   return values[index] * (1 - alpha) + values[index + 1] * alpha;
 }
 
-- 
2.43.0


From 4481573959568294973207ce7e11c0e95ba529d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:40 +0000
Subject: [PATCH 42/75] fix: smoother truth includes its first and last pose

---
 src/infrastructure/sim/truth_engine_smoother.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/sim/truth_engine_smoother.cpp b/src/infrastructure/sim/truth_engine_smoother.cpp
index cebd311..a0b3461 100644
--- a/src/infrastructure/sim/truth_engine_smoother.cpp
+++ b/src/infrastructure/sim/truth_engine_smoother.cpp
@@ -121,7 +121,9 @@ std::vector<Eigen::Vector3d> InterpolateVectors(
   unsigned int j{0};
   for (unsigned int i = 0; i < m_time.size(); ++i) {
     Eigen::Vector3d vec {0.0, 0.0, 0.0};
-    if ((m_time[i] > times[0]) && (m_time[i] < times.back())) {
+    if (m_time[i] == times.back()) {
+      vec = vectors[times.size() - 1];
+    } else if ((m_time[i] >= times[0]) && (m_time[i] < times.back())) {
       while (j < times.size() && ((m_time[i] < times[j]) || m_time[i] > times[j + 1])) {
         ++j;
       }
-- 
2.43.0


From 4f4e2f38285b474bb7a2dd8c2d4e3b84e198f258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:40 +0000
Subject: [PATCH 43/75] fix: smoother truth angular rates are body rates

---
 src/infrastructure/sim/truth_engine_smoother.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/infrastructure/sim/truth_engine_smoother.cpp b/src/infrastructure/sim/truth_engine_smoother.cpp
index a0b3461..bfc4a43 100644
--- a/src/infrastructure/sim/truth_engine_smoother.cpp
+++ b/src/infrastructure/sim/truth_engine_smoother.cpp
@@ -19,6 +19,7 @@
 #include <memory>
 #include <vector>
 
+#include "infrastructure/sim/truth_engine_cyclic.hpp"
 #include "utility/sim/sim_rng.hpp"
 #include "utility/type_helper.hpp"
 
@@ -237,7 +238,11 @@ TruthEngineSmoother::TruthEngineSmoother(
   m_vel = Derivative(m_time, m_pos);
   m_acc = Derivative(m_time, m_vel);
 
+  // Roll-pitch-yaw derivatives as angular rates in the body frame
   m_ang_vel = Derivative(m_time, m_ang);
+  for (unsigned int i = 0; i < m_ang_vel.size(); ++i) {
+    m_ang_vel[i] = TruthEngineCyclic::EulerDerivativeTransform(m_ang[i]) * m_ang_vel[i];
+  }
   m_ang_acc = Derivative(m_time, m_ang_vel);
 
   m_stationary_time = stationary_time;
-- 
2.43.0


From 7b480ce1520a2b56e09e938f1321cc283b528eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:27 +0000
Subject: [PATCH 44/75] fix: random numbers without deviation do not break the
 distribution's precondition

---
 src/utility/sim/sim_rng.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utility/sim/sim_rng.cpp b/src/utility/sim/sim_rng.cpp
index 00d02fe..dc9692b 100644
--- a/src/utility/sim/sim_rng.cpp
+++ b/src/utility/sim/sim_rng.cpp
@@ -28,8 +28,9 @@ void SimRNG::SetSeed(unsigned int seed)
 
 double SimRNG::NormRand(double mean, double std_dev)
 {
-  std::normal_distribution<double> normal_distribution(mean, std_dev);
-  return normal_distribution(m_generator);
+  // A standard deviation of zero is not allowed for the distribution itself
+  std::normal_distribution<double> normal_distribution(0.0, 1.0);
+  return normal_distribution(m_generator) * std_dev + mean;
 }
 
 double SimRNG::UniRand(double min, double max)
-- 
2.43.0


From d7f4bf6778c3b40fba38fb19e3c623f33e680bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:44 +0000
Subject: [PATCH 45/75] fix: orientation noise is limited to a quarter turn in
 both directions

---
 src/utility/sim/sim_rng.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utility/sim/sim_rng.cpp b/src/utility/sim/sim_rng.cpp
index dc9692b..0f42fb3 100644
--- a/src/utility/sim/sim_rng.cpp
+++ b/src/utility/sim/sim_rng.cpp
@@ -56,9 +56,9 @@ Eigen::Quaterniond SimRNG::QuatNormRand(
 {
   Eigen::Quaterniond out_quat;
   Eigen::Vector3d ang_error_rpy;
-  ang_error_rpy(0) = std::min(NormRand(0.0, std_dev[0]), M_PI / 2.0);
-  ang_error_rpy(1) = std::min(NormRand(0.0, std_dev[1]), M_PI / 2.0);
-  ang_error_rpy(2) = std::min(NormRand(0.0, std_dev[2]), M_PI / 2.0);
+  ang_error_rpy(0) = std::max(std::min(NormRand(0.0, std_dev[0]), M_PI / 2.0), -M_PI / 2.0);
+  ang_error_rpy(1) = std::max(std::min(NormRand(0.0, std_dev[1]), M_PI / 2.0), -M_PI / 2.0);
+  ang_error_rpy(2) = std::max(std::min(NormRand(0.0, std_dev[2]), M_PI / 2.0), -M_PI / 2.0);
   out_quat = RotVecToQuat(ang_error_rpy) * mean;
   return out_quat;
 }
-- 
2.43.0


From e5a99718e790b70593bff80cc2cc3c8300933073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:44 +0000
Subject: [PATCH 46/75] fix: simulated IMU measurements without errors contain
 the true biases

---
 src/sensors/sim/sim_imu.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sensors/sim/sim_imu.cpp b/src/sensors/sim/sim_imu.cpp
index 768d2b0..11e463e 100644
--- a/src/sensors/sim/sim_imu.cpp
+++ b/src/sensors/sim/sim_imu.cpp
@@ -99,7 +99,10 @@ std::vector<std::shared_ptr<SimImuMessage>> SimIMU::GenerateMessages() const
     sim_imu_msg->acceleration = imu_acc_i;
     sim_imu_msg->angular_rate = imu_omg_i;
 
-    if (!m_no_errors) {
+    if (m_no_errors) {
+      sim_imu_msg->acceleration += acc_bias_true;
+      sim_imu_msg->angular_rate += gyr_bias_true;
+    } else {
       sim_imu_msg->acceleration += SimRNG::VecNormRand(acc_bias_true, m_acc_error);
       sim_imu_msg->angular_rate += SimRNG::VecNormRand(gyr_bias_true, m_omg_error);
     }
-- 
2.43.0


From a50a3fe8fc89abe08df7789c4964144d50a8ba39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:20 +0000
Subject: [PATCH 47/75] fix: an IMU with only intrinsic calibration starts with
 its bias variances

---
 src/sensors/imu.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sensors/imu.cpp b/src/sensors/imu.cpp
index 43b46c0..e72ed7f 100644
--- a/src/sensors/imu.cpp
+++ b/src/sensors/imu.cpp
@@ -52,8 +52,10 @@ IMU::IMU(IMU::Parameters params)
   Eigen::MatrixXd cov;
   if (imu_state.GetIsExtrinsic() && imu_state.GetIsIntrinsic()) {
     cov = params.variance.segment<12>(0).asDiagonal();
-  } else if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
+  } else if (imu_state.GetIsExtrinsic()) {
     cov = params.variance.segment<6>(0).asDiagonal();
+  } else if (imu_state.GetIsIntrinsic()) {
+    cov = params.variance.tail<6>().asDiagonal();
   }
 
   m_ekf->RegisterIMU(m_id, imu_state, cov);
-- 
2.43.0


From e6d2028791bb4285fdf8b13a6b60c9381b47bbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:21 +0000
Subject: [PATCH 48/75] fix: detected aruco boards are used

---
 src/trackers/fiducial_tracker.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/trackers/fiducial_tracker.cpp b/src/trackers/fiducial_tracker.cpp
index 338c1ce..cf3e566 100644
--- a/src/trackers/fiducial_tracker.cpp
+++ b/src/trackers/fiducial_tracker.cpp
@@ -87,6 +87,7 @@ int FiducialTracker::InterpolateCorners(
       marker_corners, marker_ids, image, temp_board,
       corners, ids, camera_matrix, dist_coefficients);
   } else if (m_detector_type == FiducialType::ARUCO_BOARD) {
+    ids = marker_ids;
     corners_found = static_cast<int>(marker_ids.size());
   }
   return corners_found;
-- 
2.43.0


From a864d899ca74d4a3f35c4d749072153e37ad8483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:21 +0000
Subject: [PATCH 49/75] fix: boards without a valid pose are not used

---
 src/trackers/fiducial_tracker.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/trackers/fiducial_tracker.cpp b/src/trackers/fiducial_tracker.cpp
index cf3e566..e22c04c 100644
--- a/src/trackers/fiducial_tracker.cpp
+++ b/src/trackers/fiducial_tracker.cpp
@@ -166,19 +166,19 @@ void FiducialTracker::Track(
       // if marker pose is valid
       if (valid) {
         cv::drawFrameAxes(img_out, camera_matrix, distortion, r_vec, t_vec, 0.5);
-      }
 
-      Eigen::Vector3d pos_f_in_c = CvVectorToEigen(t_vec);
-      Eigen::Quaterniond ang_f_to_c = RodriguesToQuat(r_vec);
+        Eigen::Vector3d pos_f_in_c = CvVectorToEigen(t_vec);
+        Eigen::Quaterniond ang_f_to_c = RodriguesToQuat(r_vec);
 
-      BoardDetection board_detection;
-      board_detection.frame_id = frame_id;
-      board_detection.pos_f_in_c = pos_f_in_c;
-      board_detection.ang_f_to_c = ang_f_to_c;
-      board_detection.pos_error = m_pos_error;
-      board_detection.ang_error = m_ang_error;
+        BoardDetection board_detection;
+        board_detection.frame_id = frame_id;
+        board_detection.pos_f_in_c = pos_f_in_c;
+        board_detection.ang_f_to_c = ang_f_to_c;
+        board_detection.pos_error = m_pos_error;
+        board_detection.ang_error = m_ang_error;
 
-      m_fiducial_updater.UpdateEKF(*m_ekf, time, board_detection);
+        m_fiducial_updater.UpdateEKF(*m_ekf, time, board_detection);
+      }
     }
   }
 }
-- 
2.43.0


From 580ba51cce9a6b9682fcde9d7af43c25bd999da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:38 +0000
Subject: [PATCH 50/75] fix: features of down-sampled images are in pixels of
 the camera

---
 src/trackers/feature_tracker.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/trackers/feature_tracker.cpp b/src/trackers/feature_tracker.cpp
index cb7d4be..7592b8b 100644
--- a/src/trackers/feature_tracker.cpp
+++ b/src/trackers/feature_tracker.cpp
@@ -196,6 +196,16 @@ void FeatureTracker::Track(
   m_descriptor_extractor->compute(img_down, curr_key_points, curr_descriptors);
   curr_descriptors.convertTo(curr_descriptors, CV_32F);
 
+  // Express key points in pixels of the input image, which the camera intrinsics describe
+  if (m_down_sample) {
+    auto scale_x = static_cast<float>(img_in.cols) / static_cast<float>(img_down.cols);
+    auto scale_y = static_cast<float>(img_in.rows) / static_cast<float>(img_down.rows);
+    for (auto & key_point : curr_key_points) {
+      key_point.pt.x = (key_point.pt.x + 0.5F) * scale_x - 0.5F;
+      key_point.pt.y = (key_point.pt.y + 0.5F) * scale_y - 0.5F;
+    }
+  }
+
   m_logger->Log(LogLevel::DEBUG, "Called Tracker for frame ID: " + std::to_string(frame_id));
 
   if (m_prev_descriptors.rows > 0 && curr_descriptors.rows > 0) {
-- 
2.43.0


From 72f2744d6ac74502494bf7dbbe92fafd961d8ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:12 +0000
Subject: [PATCH 51/75] fix: matching features needs two of them in both images

---
 src/trackers/feature_tracker.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trackers/feature_tracker.cpp b/src/trackers/feature_tracker.cpp
index 7592b8b..c269fea 100644
--- a/src/trackers/feature_tracker.cpp
+++ b/src/trackers/feature_tracker.cpp
@@ -208,7 +208,8 @@ void FeatureTracker::Track(
 
   m_logger->Log(LogLevel::DEBUG, "Called Tracker for frame ID: " + std::to_string(frame_id));
 
-  if (m_prev_descriptors.rows > 0 && curr_descriptors.rows > 0) {
+  // Matching needs two nearest neighbors
+  if (m_prev_descriptors.rows > 1 && curr_descriptors.rows > 1) {
     std::vector<std::vector<cv::DMatch>> matches_forward;
     std::vector<std::vector<cv::DMatch>> matches_backward;
 
-- 
2.43.0


From 19009f585512387d8d9f8bca9eaae91edf151c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:12 +0000
Subject: [PATCH 52/75] fix: simulation reads the documented minimum feature
 distance

---
 src/application/sim/simulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/application/sim/simulation.cpp b/src/application/sim/simulation.cpp
index a3fa3de..617724d 100644
--- a/src/application/sim/simulation.cpp
+++ b/src/application/sim/simulation.cpp
@@ -338,7 +338,7 @@ int main(int argc, char * argv[])
     track_params.px_error = trk_node["pixel_error"].as<double>(1.0);
     track_params.min_track_length = trk_node["min_track_length"].as<unsigned int>(2);
     track_params.max_track_length = trk_node["max_track_length"].as<unsigned int>(20);
-    track_params.min_feat_dist = trk_node["min_feat_dist"].as<double>(1.0);
+    track_params.min_feat_dist = trk_node["min_feature_distance"].as<double>(1.0);
     track_params.down_sample = trk_node["down_sample"].as<bool>(false);
     track_params.down_sample_height = trk_node["down_sample_height"].as<int>(480);
     track_params.down_sample_width = trk_node["down_sample_width"].as<int>(640);
-- 
2.43.0


From b8803c5ecdbde593c47afd7d5ce3cc5d417c9a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:12 +0000
Subject: [PATCH 53/75] fix: simulation reads the documented antenna position
 error

---
 src/application/sim/simulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/application/sim/simulation.cpp b/src/application/sim/simulation.cpp
index 617724d..94af031 100644
--- a/src/application/sim/simulation.cpp
+++ b/src/application/sim/simulation.cpp
@@ -476,7 +476,7 @@ int main(int argc, char * argv[])
     sim_gps_params.gps_params = gps_params;
     sim_gps_params.lla_error = StdToEigVec(sim_node["lla_error"].as<std::vector<double>>(def_vec));
     sim_gps_params.pos_a_in_b_err =
-      StdToEigVec(sim_node["pos_a_in_b_error"].as<std::vector<double>>(def_vec));
+      StdToEigVec(sim_node["pos_a_in_b_err"].as<std::vector<double>>(def_vec));
     sim_gps_params.pos_e_in_g_err =
       StdToEigVec(sim_node["pos_e_in_g_error"].as<std::vector<double>>(def_vec));
     sim_gps_params.ang_l_to_e_err = sim_node["ang_l_to_e_error"].as<double>(1e-9);
-- 
2.43.0


From 7f59499c1df27b71abf6f1f23521f8486f627ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:12 +0000
Subject: [PATCH 54/75] fix: simulation reads the track lengths of fiducials

---
 src/application/sim/simulation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/application/sim/simulation.cpp b/src/application/sim/simulation.cpp
index 94af031..c02283e 100644
--- a/src/application/sim/simulation.cpp
+++ b/src/application/sim/simulation.cpp
@@ -373,6 +373,8 @@ int main(int argc, char * argv[])
     fiducial_params.square_length = fid_node["square_length"].as<double>(0.0);
     fiducial_params.marker_length = fid_node["marker_length"].as<double>(0.0);
     fiducial_params.id = fid_node["id"].as<unsigned int>(0);
+    fiducial_params.min_track_length = fid_node["min_track_length"].as<unsigned int>(2);
+    fiducial_params.max_track_length = fid_node["max_track_length"].as<unsigned int>(20);
     fiducial_params.is_extrinsic = fid_node["is_extrinsic"].as<bool>(false);
     fiducial_params.ekf = ekf;
     max_track_length = std::max(max_track_length, fiducial_params.max_track_length);
-- 
2.43.0


From 6d236a0dc2bfc3ce6af7aaefd67f7ac70c99587e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:27 +0000
Subject: [PATCH 55/75] fix: the filter starts from the configured body pose

---
 src/application/ros/node/ekf_cal_node.cpp | 2 +-
 src/ekf/ekf.cpp                           | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/application/ros/node/ekf_cal_node.cpp b/src/application/ros/node/ekf_cal_node.cpp
index b912515..857e606 100644
--- a/src/application/ros/node/ekf_cal_node.cpp
+++ b/src/application/ros/node/ekf_cal_node.cpp
@@ -66,7 +66,7 @@ EkfCalNode::EkfCalNode()
   declare_parameter("process_noise.vel", 1.0e-2);
   declare_parameter("process_noise.ang_pos", 1.0e-2);
   declare_parameter("pos_b_in_l", std::vector<double>{0, 0, 0});
-  declare_parameter("ang_b_to_l", std::vector<double>{0, 0, 0, 0});
+  declare_parameter("ang_b_to_l", std::vector<double>{1, 0, 0, 0});
   declare_parameter("pos_e_in_g", std::vector<double>{0, 0, 0});
   declare_parameter("ang_l_to_e", 0.0);
   declare_parameter("gps_init_type", 0);
diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 82f5a75..5ae1b08 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -54,6 +54,9 @@ EKF::EKF(Parameters params)
   m_use_root_covariance(params.use_root_covariance),
   m_use_first_estimate_jacobian(params.use_first_estimate_jacobian)
 {
+  m_state.body_state.pos_b_in_l = params.pos_b_in_l;
+  m_state.body_state.ang_b_to_l = params.ang_b_to_l;
+
   std::stringstream body_header;
   body_header << "time";
   body_header << EnumerateHeader("body_pos", 3);
-- 
2.43.0


From 8eb340c6a7903bb195343397cf6bce7967e324a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:08 +0000
Subject: [PATCH 56/75] fix: ROS node sets the whole body process noise

---
 src/application/ros/node/ekf_cal_node.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/application/ros/node/ekf_cal_node.cpp b/src/application/ros/node/ekf_cal_node.cpp
index 857e606..c5d230e 100644
--- a/src/application/ros/node/ekf_cal_node.cpp
+++ b/src/application/ros/node/ekf_cal_node.cpp
@@ -64,7 +64,10 @@ EkfCalNode::EkfCalNode()
   declare_parameter("augmenting_ang_error", 0.0);
   declare_parameter("process_noise.pos", 1.0e-2);
   declare_parameter("process_noise.vel", 1.0e-2);
+  declare_parameter("process_noise.acc", 1.0e-2);
   declare_parameter("process_noise.ang_pos", 1.0e-2);
+  declare_parameter("process_noise.ang_vel", 1.0e-2);
+  declare_parameter("process_noise.ang_acc", 1.0e-2);
   declare_parameter("pos_b_in_l", std::vector<double>{0, 0, 0});
   declare_parameter("ang_b_to_l", std::vector<double>{1, 0, 0, 0});
   declare_parameter("pos_e_in_g", std::vector<double>{0, 0, 0});
@@ -623,12 +626,18 @@ Eigen::VectorXd EkfCalNode::LoadProcessNoise()
 {
   double pos_noise = get_parameter("process_noise.pos").as_double();
   double vel_noise = get_parameter("process_noise.vel").as_double();
+  double acc_noise = get_parameter("process_noise.acc").as_double();
   double ang_pos_noise = get_parameter("process_noise.ang_pos").as_double();
+  double ang_vel_noise = get_parameter("process_noise.ang_vel").as_double();
+  double ang_acc_noise = get_parameter("process_noise.ang_acc").as_double();
 
   Eigen::VectorXd process_noise(g_body_state_size);
   process_noise.segment<3>(0) = Eigen::Vector3d::Ones() * pos_noise;
   process_noise.segment<3>(3) = Eigen::Vector3d::Ones() * vel_noise;
-  process_noise.segment<3>(6) = Eigen::Vector3d::Ones() * ang_pos_noise;
+  process_noise.segment<3>(6) = Eigen::Vector3d::Ones() * acc_noise;
+  process_noise.segment<3>(9) = Eigen::Vector3d::Ones() * ang_pos_noise;
+  process_noise.segment<3>(12) = Eigen::Vector3d::Ones() * ang_vel_noise;
+  process_noise.segment<3>(15) = Eigen::Vector3d::Ones() * ang_acc_noise;
 
   return process_noise;
 }
-- 
2.43.0


From f2bcbca24095b269907120f46afaf0998849264c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:34 +0000
Subject: [PATCH 57/75] fix: ROS GPS message carries its position covariance

---
 src/sensors/ros/ros_gps_message.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sensors/ros/ros_gps_message.cpp b/src/sensors/ros/ros_gps_message.cpp
index de33eae..f8640c9 100644
--- a/src/sensors/ros/ros_gps_message.cpp
+++ b/src/sensors/ros/ros_gps_message.cpp
@@ -24,5 +24,6 @@ RosGpsMessage::RosGpsMessage(const sensor_msgs::msg::NavSatFix::SharedPtr msg)
 {
   time = RosHeaderToTime(msg->header);
   gps_lla = Eigen::Vector3d{msg->latitude, msg->longitude, msg->altitude};
+  pos_covariance = RosToEigen(msg->position_covariance);
   sensor_type = SensorType::GPS;
 }
-- 
2.43.0


From 1f5d10de79ebfccad329a95a119c7f5516977774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:51 +0000
Subject: [PATCH 58/75] fix: ROS node tracks in colour images

---
 src/sensors/ros/ros_camera_message.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/sensors/ros/ros_camera_message.cpp b/src/sensors/ros/ros_camera_message.cpp
index 4937531..db3cdbd 100644
--- a/src/sensors/ros/ros_camera_message.cpp
+++ b/src/sensors/ros/ros_camera_message.cpp
@@ -16,16 +16,25 @@
 #include "sensors/ros/ros_camera_message.hpp"
 
 #include <memory>
+#include <string>
 
 #include <cv_bridge/cv_bridge.hpp>
+#include <sensor_msgs/image_encodings.hpp>
 #include <sensor_msgs/msg/image.hpp>
 
 #include "sensors/camera_message.hpp"
 #include "utility/ros_helper.hpp"
 
 
+/// @brief Encoding to convert an image to: trackers require a single channel
+static std::string TrackedEncoding(const std::string & encoding)
+{
+  return sensor_msgs::image_encodings::isColor(encoding) ?
+         sensor_msgs::image_encodings::MONO8 : encoding;
+}
+
 RosCameraMessage::RosCameraMessage(const sensor_msgs::msg::Image::SharedPtr msg)
-: CameraMessage(cv_bridge::toCvCopy(msg)->image)
+: CameraMessage(cv_bridge::toCvCopy(msg, TrackedEncoding(msg->encoding))->image)
 {
   time = RosHeaderToTime(msg->header);
   sensor_type = SensorType::Camera;
-- 
2.43.0


From dfb098d6b83423d42a0889d02c8f620391f744d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:02 +0000
Subject: [PATCH 59/75] fix: ROS node reads whether to calibrate a GPS

---
 src/application/ros/node/ekf_cal_node.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/application/ros/node/ekf_cal_node.cpp b/src/application/ros/node/ekf_cal_node.cpp
index c5d230e..1c352fa 100644
--- a/src/application/ros/node/ekf_cal_node.cpp
+++ b/src/application/ros/node/ekf_cal_node.cpp
@@ -444,6 +444,7 @@ void EkfCalNode::DeclareGpsParameters(const std::string & gps_name)
   declare_parameter(gps_prefix + ".pos_a_in_b", std::vector<double>{0, 0, 0});
   declare_parameter(gps_prefix + ".pos_stability", 1e-9);
   declare_parameter(gps_prefix + ".variance", std::vector<double>{1, 1, 1});
+  declare_parameter(gps_prefix + ".is_extrinsic", false);
 }
 
 GPS::Parameters EkfCalNode::GetGpsParameters(const std::string & gps_name)
@@ -459,6 +460,7 @@ GPS::Parameters EkfCalNode::GetGpsParameters(const std::string & gps_name)
   gps_params.pos_a_in_b = StdToEigVec(pos_a_in_b);
   gps_params.variance = StdToEigVec(variance);
   gps_params.pos_stability = pos_stability;
+  gps_params.is_extrinsic = get_parameter(gps_prefix + ".is_extrinsic").as_bool();
   return gps_params;
 }
 
-- 
2.43.0


From e88cddfdcc4694159e73b5d0fa676773584e74d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:09 +0000
Subject: [PATCH 60/75] fix: ROS node keeps the camera frames of the longest
 tracks

---
 src/application/ros/node/ekf_cal_node.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/application/ros/node/ekf_cal_node.cpp b/src/application/ros/node/ekf_cal_node.cpp
index 1c352fa..fc032e3 100644
--- a/src/application/ros/node/ekf_cal_node.cpp
+++ b/src/application/ros/node/ekf_cal_node.cpp
@@ -17,6 +17,7 @@
 
 #include <eigen3/Eigen/Eigen>
 
+#include <algorithm>
 #include <array>
 #include <chrono>
 #include <functional>
@@ -193,6 +194,18 @@ void EkfCalNode::LoadSensors()
     LoadImu(imu_name);
   }
 
+  // Keep as many camera frames as the longest track requires
+  unsigned int max_track_length {0};
+  for (std::string & tracker_name : m_tracker_list) {
+    max_track_length =
+      std::max(max_track_length, GetTrackerParameters(tracker_name).max_track_length);
+  }
+  for (std::string & fiducial_name : m_fiducial_list) {
+    max_track_length =
+      std::max(max_track_length, GetFiducialParameters(fiducial_name).max_track_length);
+  }
+  m_ekf->SetMaxTrackLength(max_track_length);
+
   // Load Camera sensor parameters
   for (std::string & cam_name : m_camera_list) {
     LoadCamera(cam_name);
-- 
2.43.0


From 4ebba26492fcf82cd443c4c36cc2670d12ee0177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:10 +0000
Subject: [PATCH 61/75] fix: ROS node calibrates cameras through their trackers

---
 src/application/ros/node/ekf_cal_node.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/application/ros/node/ekf_cal_node.cpp b/src/application/ros/node/ekf_cal_node.cpp
index fc032e3..f508ac6 100644
--- a/src/application/ros/node/ekf_cal_node.cpp
+++ b/src/application/ros/node/ekf_cal_node.cpp
@@ -513,6 +513,8 @@ void EkfCalNode::LoadCamera(const std::string & camera_name)
   if (!camera_params.tracker.empty()) {
     FeatureTracker::Parameters trk_params = GetTrackerParameters(camera_params.tracker);
     trk_params.camera_id = camera_ptr->GetId();
+    trk_params.intrinsics = camera_params.intrinsics;
+    trk_params.is_cam_extrinsic = camera_params.is_extrinsic;
     trk_params.data_log_rate = camera_params.data_log_rate;
     std::shared_ptr<FeatureTracker> trk_ptr = std::make_shared<FeatureTracker>(trk_params);
     camera_ptr->AddTracker(trk_ptr);
@@ -521,6 +523,8 @@ void EkfCalNode::LoadCamera(const std::string & camera_name)
   if (!camera_params.fiducial.empty()) {
     FiducialTracker::Parameters fid_params = GetFiducialParameters(camera_params.fiducial);
     fid_params.camera_id = camera_ptr->GetId();
+    fid_params.intrinsics = camera_params.intrinsics;
+    fid_params.is_cam_extrinsic = camera_params.is_extrinsic;
     fid_params.data_log_rate = camera_params.data_log_rate;
     std::shared_ptr<FiducialTracker> fid_ptr = std::make_shared<FiducialTracker>(fid_params);
     camera_ptr->AddFiducial(fid_ptr);
-- 
2.43.0


From b2ef3f470c1f2f587d2559922ad2888c6c3cd270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:15 +0000
Subject: [PATCH 62/75] fix: ROS node can down-sample images as the simulation
 can

---
 src/application/ros/node/ekf_cal_node.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/application/ros/node/ekf_cal_node.cpp b/src/application/ros/node/ekf_cal_node.cpp
index f508ac6..f5a438b 100644
--- a/src/application/ros/node/ekf_cal_node.cpp
+++ b/src/application/ros/node/ekf_cal_node.cpp
@@ -356,6 +356,7 @@ void EkfCalNode::DeclareTrackerParameters(const std::string & tracker_name)
   declare_parameter(tracker_prefix + ".descriptor_matcher", 0);
   declare_parameter(tracker_prefix + ".detector_threshold", 20);
   declare_parameter(tracker_prefix + ".pixel_error", 1.0);
+  declare_parameter(tracker_prefix + ".down_sample", false);
   declare_parameter(tracker_prefix + ".down_sample_height", 480);
   declare_parameter(tracker_prefix + ".down_sample_width", 640);
   declare_parameter(tracker_prefix + ".min_feature_distance", 1.0);
@@ -372,6 +373,7 @@ FeatureTracker::Parameters EkfCalNode::GetTrackerParameters(const std::string &
   auto matcher = get_parameter(tracker_prefix + ".descriptor_matcher").as_int();
   auto threshold = get_parameter(tracker_prefix + ".detector_threshold").as_int();
   auto px_error = get_parameter(tracker_prefix + ".pixel_error").as_double();
+  auto down_sample = get_parameter(tracker_prefix + ".down_sample").as_bool();
   auto down_height = get_parameter(tracker_prefix + ".down_sample_height").as_int();
   auto down_width = get_parameter(tracker_prefix + ".down_sample_width").as_int();
   auto min_feat_dist = get_parameter(tracker_prefix + ".min_feature_distance").as_double();
@@ -384,6 +386,7 @@ FeatureTracker::Parameters EkfCalNode::GetTrackerParameters(const std::string &
   tracker_params.matcher = static_cast<Matcher>(matcher);
   tracker_params.threshold = static_cast<int>(threshold);
   tracker_params.px_error = px_error;
+  tracker_params.down_sample = down_sample;
   tracker_params.down_sample_height = static_cast<int>(down_height);
   tracker_params.down_sample_width = static_cast<int>(down_width);
   tracker_params.min_feat_dist = min_feat_dist;
-- 
2.43.0


From 9123fb0b897a97bfc2733ed2d29d121616f49011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:23 +0000
Subject: [PATCH 63/75] fix: correlated measurement noise in the root
 covariance form

---
 src/ekf/update/updater.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ekf/update/updater.cpp b/src/ekf/update/updater.cpp
index 52d3d3c..69dc799 100644
--- a/src/ekf/update/updater.cpp
+++ b/src/ekf/update/updater.cpp
@@ -36,7 +36,17 @@ void Updater::KalmanUpdate(
   Eigen::MatrixXd observation_noise;
 
   if (ekf.GetUseRootCovariance()) {
-    observation_noise = measurement_noise.cwiseSqrt();
+    if (measurement_noise.isDiagonal()) {
+      observation_noise = measurement_noise.diagonal().cwiseSqrt().asDiagonal();
+    } else {
+      // R = P^T * L * D * L^T * P, such that R = S^T * S with S = sqrt(D) * L^T * P
+      Eigen::LDLT<Eigen::MatrixXd> ldlt(measurement_noise);
+      Eigen::MatrixXd permutation = ldlt.transpositionsP() *
+        Eigen::MatrixXd::Identity(measurement_noise.rows(), measurement_noise.cols());
+      Eigen::VectorXd diagonal_root = ldlt.vectorD().cwiseMax(0.0).cwiseSqrt();
+      Eigen::MatrixXd upper = ldlt.matrixU();
+      observation_noise = diagonal_root.asDiagonal() * upper * permutation;
+    }
     innovation = QR_r(ekf.m_cov * jacobian.transpose(), observation_noise);
     gain = ekf.m_cov.transpose() * ekf.m_cov * jacobian.transpose() *
       (innovation.transpose() * innovation).inverse();
-- 
2.43.0


From 9a21a728838105acb2200ff224bb7bfb21c20426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:27 +0000
Subject: [PATCH 64/75] fix: ROS logger prints messages as they are

---
 src/infrastructure/ros/ros_debug_logger.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/infrastructure/ros/ros_debug_logger.cpp b/src/infrastructure/ros/ros_debug_logger.cpp
index 054bbbe..c57e261 100644
--- a/src/infrastructure/ros/ros_debug_logger.cpp
+++ b/src/infrastructure/ros/ros_debug_logger.cpp
@@ -51,23 +51,23 @@ void DebugLogger::Log(LogLevel level, const std::string & message)
   if (m_log_level >= level) {
     switch (level) {
       case LogLevel::DEBUG:
-        RCLCPP_DEBUG(rclcpp::get_logger("Logger"), message_c_str);
+        RCLCPP_DEBUG(rclcpp::get_logger("Logger"), "%s", message_c_str);
         break;
 
       case LogLevel::INFO:
-        RCLCPP_INFO(rclcpp::get_logger("Logger"), message_c_str);
+        RCLCPP_INFO(rclcpp::get_logger("Logger"), "%s", message_c_str);
         break;
 
       case LogLevel::WARN:
-        RCLCPP_WARN(rclcpp::get_logger("Logger"), message_c_str);
+        RCLCPP_WARN(rclcpp::get_logger("Logger"), "%s", message_c_str);
         break;
 
       case LogLevel::ERROR:
-        RCLCPP_ERROR(rclcpp::get_logger("Logger"), message_c_str);
+        RCLCPP_ERROR(rclcpp::get_logger("Logger"), "%s", message_c_str);
         break;
 
       case LogLevel::FATAL:
-        RCLCPP_FATAL(rclcpp::get_logger("Logger"), message_c_str);
+        RCLCPP_FATAL(rclcpp::get_logger("Logger"), "%s", message_c_str);
         break;
     }
   }
-- 
2.43.0


From 54220638bdfaafe5d1c4be08bdfb1edb2d7ff15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:27 +0000
Subject: [PATCH 65/75] fix: ROS logger announces the new log level

---
 src/infrastructure/ros/ros_debug_logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infrastructure/ros/ros_debug_logger.cpp b/src/infrastructure/ros/ros_debug_logger.cpp
index c57e261..fc2e7ba 100644
--- a/src/infrastructure/ros/ros_debug_logger.cpp
+++ b/src/infrastructure/ros/ros_debug_logger.cpp
@@ -29,7 +29,7 @@ void DebugLogger::SetLogLevel(LogLevel level)
     RCLCPP_INFO_STREAM(
       rclcpp::get_logger(
         "Logger"), "Log level set to: " <<
-        m_log_level_names[static_cast<std::underlying_type<LogLevel>::type>(m_log_level)]);
+        m_log_level_names[static_cast<std::underlying_type<LogLevel>::type>(level)]);
   }
   m_log_level = level;
 }
-- 
2.43.0


From 1c86d119174738dfbd5b4a2a7972d7e1b424d39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:27 +0000
Subject: [PATCH 66/75] fix: example values have the types the parameters are
 declared with

---
 config/example.yaml | 2 +-
 docs/parameters.md  | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/config/example.yaml b/config/example.yaml
index 046cf2c..c63812b 100644
--- a/config/example.yaml
+++ b/config/example.yaml
@@ -168,7 +168,7 @@
                 descriptor_matcher: 0       # DescriptorMatcher:
                                             #   0: BRUTE_FORCE
                                             #   1: FLANN
-                detector_threshold: 10.0    # Threshold used for detection (if available)
+                detector_threshold: 10      # Threshold used for detection (if available)
                 pixel_error: 0.5            # Average pixel error
                 min_feature_distance: 1.0   # Minimum feature distance to consider
                 min_track_length: 2         # Minimum track length
diff --git a/docs/parameters.md b/docs/parameters.md
index a8729fe..b9e208a 100644
--- a/docs/parameters.md
+++ b/docs/parameters.md
@@ -178,8 +178,8 @@ The following is an example of an camera input configuration.
                     p_1: 0.0                        # Tangential coefficient 1
                     p_2: 0.0                        # Tangential coefficient 1
                     pixel_size: 5.0e-6              # Pixel size
-                    width: 1920                     # Image width
-                    height: 1080                    # Image height
+                    width: 1920.0                   # Image width
+                    height: 1080.0                  # Image height
                 is_extrinsic: false                 # Flag to calibrate camera extrinsics
                 sim_params:
                     no_errors: false                # Flag to disable errors in simulation
@@ -213,7 +213,7 @@ The following is an example of a tracker input configuration.
                 descriptor_matcher: 0       # DescriptorMatcher:
                                             #   0: BRUTE_FORCE
                                             #   1: FLANN
-                detector_threshold: 10.0    # Threshold used for detection (if available)
+                detector_threshold: 10      # Threshold used for detection (if available)
                 pixel_error: 0.5            # Average pixel error
                 min_feature_distance: 1.0   # Minimum feature distance to consider
                 min_track_length: 2         # Minimum track length
@@ -275,7 +275,7 @@ The following is an example of a GPS input configuration.
             gps_1:
                 rate: 5.0                            # Sensor Rate
                 topic: "/gps_1"                      # ROS topic
-                pos_a_in_b: [0.0, 0, 0]              # Antenna position in body frame
+                pos_a_in_b: [0.0, 0.0, 0.0]          # Antenna position in body frame
                 variance: [5.0, 5.0, 5.0]            # Antenna position variance
                 data_log_rate: 5.0                   # Data log rate
                 is_extrinsic: false                  # Flag to calibrate GPS extrinsics
-- 
2.43.0


From ec09864cf259d1ccae9c0fc0b6d1174919620eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:36 +0000
Subject: [PATCH 67/75] fix: documentation numbers the debug levels as they are
 read

---
 config/example.yaml | 10 +++++-----
 docs/parameters.md  | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/config/example.yaml b/config/example.yaml
index c63812b..ec3ffe2 100644
--- a/config/example.yaml
+++ b/config/example.yaml
@@ -1,11 +1,11 @@
 /EkfCalNode:
     ros__parameters:
         debug_log_level: 2                    # Debug_Log_Level:
-                                              #   1: FATAL
-                                              #   2: ERROR
-                                              #   3: WARN
-                                              #   4: INFO
-                                              #   5: DEBUG
+                                              #   0: FATAL
+                                              #   1: ERROR
+                                              #   2: WARN
+                                              #   3: INFO
+                                              #   4: DEBUG
         data_log_rate: 10.0                   # EKF body data logging rate
         augmenting_type: 1                    # Camera state augmentation type
                                               #   0: No camera frames are augmented
diff --git a/docs/parameters.md b/docs/parameters.md
index b9e208a..60da92b 100644
--- a/docs/parameters.md
+++ b/docs/parameters.md
@@ -9,11 +9,11 @@ The basic structure of the YAML files is a set of ROS parameters, lists that def
 /EkfCalNode:
     ros__parameters:
         debug_log_level: 2                    # Debug_Log_Level:
-                                              #   1: FATAL
-                                              #   2: ERROR
-                                              #   3: WARN
-                                              #   4: INFO
-                                              #   5: DEBUG
+                                              #   0: FATAL
+                                              #   1: ERROR
+                                              #   2: WARN
+                                              #   3: INFO
+                                              #   4: DEBUG
         data_logging_on: true                 # Flag to enable data logging
         data_log_rate: 10.0                   # EKF body data logging rate
         augmenting_type: 0                    # Camera state augmentation type
-- 
2.43.0


From d5dc374579d90de65b54bc304e1e0a3bad9f01f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:35 +0000
Subject: [PATCH 68/75] fix: Monte Carlo runs are numbered consecutively

---
 eval/run.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eval/run.py b/eval/run.py
index bd96f24..dc6ceb9 100755
--- a/eval/run.py
+++ b/eval/run.py
@@ -29,6 +29,7 @@ python3 eval/run_sim.py --help
 ```
 """
 
+import copy
 import math
 import multiprocessing
 import os
@@ -112,7 +113,7 @@ def generate_mc_from_yaml(
 
                 n_digits = math.ceil(math.log10(num_runs))
                 for i in range(num_runs):
-                    sub_yaml = top_yaml
+                    sub_yaml = copy.deepcopy(top_yaml)
                     if (seed):
                         new_seed = random.randint(0, 1000000000)
                         sub_yaml['/EkfCalNode']['ros__parameters']['sim_params']['seed'] = new_seed
-- 
2.43.0


From 28b1e39c4611f7b32f0c568a65b12ec5ef4139c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:32 +0000
Subject: [PATCH 69/75] fix: report shows update times in microseconds

---
 eval/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/utilities.py b/eval/utilities.py
index 4c2196d..40b8bba 100644
--- a/eval/utilities.py
+++ b/eval/utilities.py
@@ -130,7 +130,7 @@ def plot_update_timing(data_frames, rate=None):
                  y_axis_label='Count', title=f'{df_prefix} {df_id} Update Time')
     durations = np.array([])
     for df in data_frames:
-        durations = np.append(durations, df['duration_0'] / 1e3)
+        durations = np.append(durations, df['duration_0'])
     hist, edges = np.histogram(durations)
     fig.quad(top=hist, bottom=0, left=edges[:-1], right=edges[1:], legend_label='Duration [us]')
     if rate:
-- 
2.43.0


From 3e5f6cdd1376327100d48a1c3e6dadccb00144aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:27 +0000
Subject: [PATCH 70/75] fix: report's NEES uses angles in radians and variances
 as variances

---
 eval/tab_body.py     | 36 ++++++++++++++++++------------------
 eval/tab_fiducial.py | 26 +++++++++++++-------------
 eval/tab_gps.py      |  6 +++---
 eval/tab_imu.py      | 32 ++++++++++++++++----------------
 eval/tab_msckf.py    | 20 ++++++++++----------
 eval/utilities.py    |  8 ++++----
 6 files changed, 64 insertions(+), 64 deletions(-)

diff --git a/eval/tab_body.py b/eval/tab_body.py
index b252b6e..893b1bf 100644
--- a/eval/tab_body.py
+++ b/eval/tab_body.py
@@ -465,24 +465,24 @@ class tab_body:
             e17 = interpolate_error(tt, t17, xt, x17)
 
             nees = \
-                e00 * e00 / c00 / c00 + \
-                e01 * e01 / c01 / c01 + \
-                e02 * e02 / c02 / c02 + \
-                e03 * e03 / c03 / c03 + \
-                e04 * e04 / c04 / c04 + \
-                e05 * e05 / c05 / c05 + \
-                e06 * e06 / c06 / c06 + \
-                e07 * e07 / c07 / c07 + \
-                e08 * e08 / c08 / c08 + \
-                e09 * e09 / c09 / c09 + \
-                e10 * e10 / c10 / c10 + \
-                e11 * e11 / c11 / c11 + \
-                e12 * e12 / c12 / c12 + \
-                e13 * e13 / c13 / c13 + \
-                e14 * e14 / c14 / c14 + \
-                e15 * e15 / c15 / c15 + \
-                e16 * e16 / c16 / c16 + \
-                e17 * e17 / c17 / c17
+                e00 * e00 / c00 + \
+                e01 * e01 / c01 + \
+                e02 * e02 / c02 + \
+                e03 * e03 / c03 + \
+                e04 * e04 / c04 + \
+                e05 * e05 / c05 + \
+                e06 * e06 / c06 + \
+                e07 * e07 / c07 + \
+                e08 * e08 / c08 + \
+                e09 * e09 / c09 + \
+                e10 * e10 / c10 + \
+                e11 * e11 / c11 + \
+                e12 * e12 / c12 + \
+                e13 * e13 / c13 + \
+                e14 * e14 / c14 + \
+                e15 * e15 / c15 + \
+                e16 * e16 / c16 + \
+                e17 * e17 / c17
 
             fig.line(xt, nees, alpha=self.alpha, color=self.colors[0])
 
diff --git a/eval/tab_fiducial.py b/eval/tab_fiducial.py
index 2387908..6d2d85e 100644
--- a/eval/tab_fiducial.py
+++ b/eval/tab_fiducial.py
@@ -123,13 +123,13 @@ class tab_fiducial:
             true_y = body_truth[f"cam_ang_pos_{fiducial_df.attrs['id']}_2"]
             true_z = body_truth[f"cam_ang_pos_{fiducial_df.attrs['id']}_3"]
 
-            eul_err_x, eul_err_y, eul_err_z = interpolate_quat_error(
+            ang_x, ang_y, ang_z = interpolate_quat_error(
                 true_t, true_w, true_x, true_y, true_z,
                 time, est_w, est_x, est_y, est_z)
 
-            fig.line(time, eul_err_x, alpha=self.alpha, color=self.colors[0], legend_label='X')
-            fig.line(time, eul_err_y, alpha=self.alpha, color=self.colors[1], legend_label='Y')
-            fig.line(time, eul_err_z, alpha=self.alpha, color=self.colors[2], legend_label='Z')
+            fig.line(time, ang_x * 1e3, alpha=self.alpha, color=self.colors[0], legend_label='X')
+            fig.line(time, ang_y * 1e3, alpha=self.alpha, color=self.colors[1], legend_label='Y')
+            fig.line(time, ang_z * 1e3, alpha=self.alpha, color=self.colors[2], legend_label='Z')
         return fig
 
     def plot_cam_pos_cov(self):
@@ -252,9 +252,9 @@ class tab_fiducial:
                 qe = Rotation.from_quat([ew, ex, ey, ez], scalar_first=True)
                 q_err = qt * qe.inv()
                 error_euler = q_err.as_euler('XYZ')
-                e03.append(error_euler[0] * 1e3)
-                e04.append(error_euler[1] * 1e3)
-                e05.append(error_euler[2] * 1e3)
+                e03.append(error_euler[0])
+                e04.append(error_euler[1])
+                e05.append(error_euler[2])
             e03 = np.array(e03)
             e04 = np.array(e04)
             e05 = np.array(e05)
@@ -267,12 +267,12 @@ class tab_fiducial:
             c05 = fiducial_df['fid_cov_5']
 
             nees = \
-                e00 * e00 / c00 / c00 + \
-                e01 * e01 / c01 / c01 + \
-                e02 * e02 / c02 / c02 + \
-                e03 * e03 / c03 / c03 + \
-                e04 * e04 / c04 / c04 + \
-                e05 * e05 / c05 / c05
+                e00 * e00 / c00 + \
+                e01 * e01 / c01 + \
+                e02 * e02 / c02 + \
+                e03 * e03 / c03 + \
+                e04 * e04 / c04 + \
+                e05 * e05 / c05
 
             fig.line(xt, nees, alpha=self.alpha, color=self.colors[0])
 
diff --git a/eval/tab_gps.py b/eval/tab_gps.py
index 772e767..9bb7dad 100644
--- a/eval/tab_gps.py
+++ b/eval/tab_gps.py
@@ -152,9 +152,9 @@ class tab_gps:
             e02 = interpolate_error(tt, t02, xt, x02)
 
             nees = \
-                e00 * e00 / c00 / c00 + \
-                e01 * e01 / c01 / c01 + \
-                e02 * e02 / c02 / c02
+                e00 * e00 / c00 + \
+                e01 * e01 / c01 + \
+                e02 * e02 / c02
 
             fig.line(xt, nees, alpha=self.alpha, color=self.colors[0])
 
diff --git a/eval/tab_imu.py b/eval/tab_imu.py
index 22b3d2f..39b9503 100644
--- a/eval/tab_imu.py
+++ b/eval/tab_imu.py
@@ -158,12 +158,12 @@ class tab_imu:
             true_y = body_truth[f"imu_ang_pos_{imu_df.attrs['id']}_2"]
             true_z = body_truth[f"imu_ang_pos_{imu_df.attrs['id']}_3"]
 
-            eul_err_x, eul_err_y, eul_err_z = interpolate_quat_error(
+            ang_x, ang_y, ang_z = interpolate_quat_error(
                 true_t, true_w, true_x, true_y, true_z, est_t, est_w, est_x, est_y, est_z)
 
-            fig.line(est_t, eul_err_x, alpha=self.alpha, color=self.colors[0], legend_label='X')
-            fig.line(est_t, eul_err_y, alpha=self.alpha, color=self.colors[1], legend_label='Y')
-            fig.line(est_t, eul_err_z, alpha=self.alpha, color=self.colors[2], legend_label='Z')
+            fig.line(est_t, ang_x * 1e3, alpha=self.alpha, color=self.colors[0], legend_label='X')
+            fig.line(est_t, ang_y * 1e3, alpha=self.alpha, color=self.colors[1], legend_label='Y')
+            fig.line(est_t, ang_z * 1e3, alpha=self.alpha, color=self.colors[2], legend_label='Z')
         return fig
 
     def plot_acc_bias_err(self):
@@ -377,12 +377,12 @@ class tab_imu:
                 e03, e04, e05 = interpolate_quat_error(tt, tw, tx, ty, tz, xt, xw, xx, xy, xz)
 
                 nees += \
-                    e00 * e00 / c00 / c00 + \
-                    e01 * e01 / c01 / c01 + \
-                    e02 * e02 / c02 / c02 + \
-                    e03 * e03 / c03 / c03 + \
-                    e04 * e04 / c04 / c04 + \
-                    e05 * e05 / c05 / c05
+                    e00 * e00 / c00 + \
+                    e01 * e01 / c01 + \
+                    e02 * e02 / c02 + \
+                    e03 * e03 / c03 + \
+                    e04 * e04 / c04 + \
+                    e05 * e05 / c05
 
             if self.is_intrinsic:
                 dof += 6
@@ -415,12 +415,12 @@ class tab_imu:
                 e11 = interpolate_error(tt, t11, xt, x11)
 
                 nees += \
-                    e06 * e06 / c06 / c06 + \
-                    e07 * e07 / c07 / c07 + \
-                    e08 * e08 / c08 / c08 + \
-                    e09 * e09 / c09 / c09 + \
-                    e10 * e10 / c10 / c10 + \
-                    e11 * e11 / c11 / c11
+                    e06 * e06 / c06 + \
+                    e07 * e07 / c07 + \
+                    e08 * e08 / c08 + \
+                    e09 * e09 / c09 + \
+                    e10 * e10 / c10 + \
+                    e11 * e11 / c11
 
             fig.line(xt, nees, alpha=self.alpha, color=self.colors[0])
 
diff --git a/eval/tab_msckf.py b/eval/tab_msckf.py
index 86c3973..7da05e6 100644
--- a/eval/tab_msckf.py
+++ b/eval/tab_msckf.py
@@ -123,12 +123,12 @@ class tab_msckf:
             true_y = body_truth[f"cam_ang_pos_{msckf_df.attrs['id']}_2"]
             true_z = body_truth[f"cam_ang_pos_{msckf_df.attrs['id']}_3"]
 
-            eul_err_x, eul_err_y, eul_err_z = interpolate_quat_error(
+            ang_x, ang_y, ang_z = interpolate_quat_error(
                 true_t, true_w, true_x, true_y, true_z, time, est_w, est_x, est_y, est_z)
 
-            fig.line(time, eul_err_x, alpha=self.alpha, color=self.colors[0], legend_label='X')
-            fig.line(time, eul_err_y, alpha=self.alpha, color=self.colors[1], legend_label='Y')
-            fig.line(time, eul_err_z, alpha=self.alpha, color=self.colors[2], legend_label='Z')
+            fig.line(time, ang_x * 1e3, alpha=self.alpha, color=self.colors[0], legend_label='X')
+            fig.line(time, ang_y * 1e3, alpha=self.alpha, color=self.colors[1], legend_label='Y')
+            fig.line(time, ang_z * 1e3, alpha=self.alpha, color=self.colors[2], legend_label='Z')
         return fig
 
     def plot_cam_pos_cov(self):
@@ -322,12 +322,12 @@ class tab_msckf:
             e03, e04, e05 = interpolate_quat_error(tt, tw, tx, ty, tz, xt, xw, xx, xy, xz)
 
             nees = \
-                e00 * e00 / c00 / c00 + \
-                e01 * e01 / c01 / c01 + \
-                e02 * e02 / c02 / c02 + \
-                e03 * e03 / c03 / c03 + \
-                e04 * e04 / c04 / c04 + \
-                e05 * e05 / c05 / c05
+                e00 * e00 / c00 + \
+                e01 * e01 / c01 + \
+                e02 * e02 / c02 + \
+                e03 * e03 / c03 + \
+                e04 * e04 / c04 + \
+                e05 * e05 / c05
 
             fig.line(xt, nees, alpha=self.alpha, color=self.colors[0])
 
diff --git a/eval/utilities.py b/eval/utilities.py
index 40b8bba..ac92865 100644
--- a/eval/utilities.py
+++ b/eval/utilities.py
@@ -60,7 +60,7 @@ def interpolate_quat_error(
         estimate_x,
         estimate_y,
         estimate_z):
-    """Calculate an interpolated quaternion error using truth and estimates."""
+    """Calculate an interpolated quaternion error in radians using truth and estimates."""
     interp_w = np.interp(estimate_t, true_t, true_w)
     interp_x = np.interp(estimate_t, true_t, true_x)
     interp_y = np.interp(estimate_t, true_t, true_y)
@@ -82,9 +82,9 @@ def interpolate_quat_error(
         qe = Rotation.from_quat([ew, ex, ey, ez], scalar_first=True)
         q_err = qi * qe.inv()
         error_euler = q_err.as_euler('XYZ')
-        err_x.append(error_euler[0] * 1e3)
-        err_y.append(error_euler[1] * 1e3)
-        err_z.append(error_euler[2] * 1e3)
+        err_x.append(error_euler[0])
+        err_y.append(error_euler[1])
+        err_z.append(error_euler[2])
 
     return np.array(err_x), np.array(err_y), np.array(err_z)
 
-- 
2.43.0


From a6f48a9e95a3acd193d5dc70061f6f7132be8222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:52 +0000
Subject: [PATCH 71/75] fix: statistics give orientation errors as rotations in
 radians

---
 eval/stats.py | 40 +++++++++++++++-------------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/eval/stats.py b/eval/stats.py
index 1e96398..5eb63b2 100755
--- a/eval/stats.py
+++ b/eval/stats.py
@@ -33,7 +33,8 @@ import os
 
 from input_parser import InputParser
 import numpy as np
-from utilities import find_and_read_data_frames, generate_mc_lists, interpolate_error
+from utilities import find_and_read_data_frames, generate_mc_lists, interpolate_error, \
+    interpolate_quat_error
 
 
 def RMSE_from_vectors(x_list, y_list, z_list):
@@ -108,27 +109,23 @@ def body_err_acc(body_state_dfs, body_truth_dfs):
     return RMSE_list
 
 
+def rotation_error(true_time, true_quat, est_time, est_quat):
+    """Calculate the root mean square error of a list of orientations in radians."""
+    err_0, err_1, err_2 = interpolate_quat_error(true_time, *true_quat, est_time, *est_quat)
+    return RMSE_from_vectors(err_0, err_1, err_2)
+
+
 def body_err_ang_pos(body_state_dfs, body_truth_dfs):
     """Calculate the body state angular error."""
-    # TODO: Calculate quaternion error
     RMSE_list = []
     for body_state, body_truth in zip(body_state_dfs, body_truth_dfs):
         true_time = body_truth['time'].to_list()
-        true_ang_pos_0 = body_truth['body_ang_pos_0'].to_list()
-        true_ang_pos_1 = body_truth['body_ang_pos_1'].to_list()
-        true_ang_pos_2 = body_truth['body_ang_pos_2'].to_list()
-        # true_ang_pos_3 = body_truth['body_ang_pos_3'].to_list()
+        true_quat = [body_truth[f'body_ang_pos_{i}'].to_list() for i in range(4)]
 
         est_time = body_state['time'].to_list()
-        est_ang_pos_0 = body_state['body_ang_pos_0'].to_list()
-        est_ang_pos_1 = body_state['body_ang_pos_1'].to_list()
-        est_ang_pos_2 = body_state['body_ang_pos_2'].to_list()
-        # est_ang_pos_3 = body_state['body_ang_pos_3'].to_list()
-
-        err_ang_vel_0 = interpolate_error(true_time, true_ang_pos_0, est_time, est_ang_pos_0)
-        err_ang_vel_1 = interpolate_error(true_time, true_ang_pos_1, est_time, est_ang_pos_1)
-        err_ang_vel_2 = interpolate_error(true_time, true_ang_pos_2, est_time, est_ang_pos_2)
-        RMSE_list.append(RMSE_from_vectors(err_ang_vel_0, err_ang_vel_1, err_ang_vel_2))
+        est_quat = [body_state[f'body_ang_pos_{i}'].to_list() for i in range(4)]
+
+        RMSE_list.append(rotation_error(true_time, true_quat, est_time, est_quat))
     return RMSE_list
 
 
@@ -210,19 +207,12 @@ def sensor_err_ang(sensor_dfs, body_truth_dfs_dict, prefix):
     for sensor_state, body_truth in zip(sensor_dfs, body_truth_dfs_dict):
         sensor_id = sensor_state.attrs['id']
         true_time = body_truth['time'].to_list()
-        true_ang_vel_0 = body_truth[f'{prefix}_ang_pos_{sensor_id}_0'].to_list()
-        true_ang_vel_1 = body_truth[f'{prefix}_ang_pos_{sensor_id}_1'].to_list()
-        true_ang_vel_2 = body_truth[f'{prefix}_ang_pos_{sensor_id}_2'].to_list()
+        true_quat = [body_truth[f'{prefix}_ang_pos_{sensor_id}_{i}'].to_list() for i in range(4)]
 
         est_time = sensor_state['time'].to_list()
-        est_ang_vel_0 = sensor_state[f'{prefix}_ang_pos_0'].to_list()
-        est_ang_vel_1 = sensor_state[f'{prefix}_ang_pos_1'].to_list()
-        est_ang_vel_2 = sensor_state[f'{prefix}_ang_pos_2'].to_list()
+        est_quat = [sensor_state[f'{prefix}_ang_pos_{i}'].to_list() for i in range(4)]
 
-        err_ang_vel_0 = interpolate_error(true_time, true_ang_vel_0, est_time, est_ang_vel_0)
-        err_ang_vel_1 = interpolate_error(true_time, true_ang_vel_1, est_time, est_ang_vel_1)
-        err_ang_vel_2 = interpolate_error(true_time, true_ang_vel_2, est_time, est_ang_vel_2)
-        RMSE_list.append(RMSE_from_vectors(err_ang_vel_0, err_ang_vel_1, err_ang_vel_2))
+        RMSE_list.append(rotation_error(true_time, true_quat, est_time, est_quat))
     return RMSE_list
 
 
-- 
2.43.0


From 411fbeb44698e889fbdfac74554c409bf19257c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:52 +0000
Subject: [PATCH 72/75] fix: report draws IMU bias errors of runs of any length

---
 eval/tab_imu.py | 59 ++++++++++++++++++++-----------------------------
 1 file changed, 24 insertions(+), 35 deletions(-)

diff --git a/eval/tab_imu.py b/eval/tab_imu.py
index 39b9503..a7efad8 100644
--- a/eval/tab_imu.py
+++ b/eval/tab_imu.py
@@ -172,32 +172,27 @@ class tab_imu:
             width=800,
             height=300,
             x_axis_label='Time [s]',
-            y_axis_label='Bias Error [m]',
+            y_axis_label='Bias Error [m/s/s]',
             title='Accelerometer Bias Error')
-        n = np.max([len(imu_df) for imu_df in self.imu_dfs])
-        a_bias_err_x = np.zeros([len(self.imu_dfs), n])
-        a_bias_err_y = np.zeros([len(self.imu_dfs), n])
-        a_bias_err_z = np.zeros([len(self.imu_dfs), n])
 
-        for i, (imu_df, body_truth) in enumerate(zip(self.imu_dfs, self.body_truth_dfs)):
-            m = len(self.imu_dfs[i]['time'])
-            time = self.imu_dfs[i]['time']
-            est_x = np.array(self.imu_dfs[i]['imu_acc_bias_0'])
-            est_y = np.array(self.imu_dfs[i]['imu_acc_bias_1'])
-            est_z = np.array(self.imu_dfs[i]['imu_acc_bias_2'])
+        for imu_df, body_truth in zip(self.imu_dfs, self.body_truth_dfs):
+            time = imu_df['time']
+            est_x = np.array(imu_df['imu_acc_bias_0'])
+            est_y = np.array(imu_df['imu_acc_bias_1'])
+            est_z = np.array(imu_df['imu_acc_bias_2'])
 
             true_t = body_truth['time']
             true_x = body_truth[f"imu_acc_bias_{imu_df.attrs['id']}_0"]
             true_y = body_truth[f"imu_acc_bias_{imu_df.attrs['id']}_1"]
             true_z = body_truth[f"imu_acc_bias_{imu_df.attrs['id']}_2"]
 
-            a_bias_err_x[i, 0:m] = interpolate_error(true_t, true_x, time, est_x)
-            a_bias_err_y[i, 0:m] = interpolate_error(true_t, true_y, time, est_y)
-            a_bias_err_z[i, 0:m] = interpolate_error(true_t, true_z, time, est_z)
+            err_x = interpolate_error(true_t, true_x, time, est_x)
+            err_y = interpolate_error(true_t, true_y, time, est_y)
+            err_z = interpolate_error(true_t, true_z, time, est_z)
 
-            fig.line(time, a_bias_err_x[i, :], color=self.colors[0], alpha=self.alpha)
-            fig.line(time, a_bias_err_y[i, :], color=self.colors[1], alpha=self.alpha)
-            fig.line(time, a_bias_err_z[i, :], color=self.colors[2], alpha=self.alpha)
+            fig.line(time, err_x, alpha=self.alpha, color=self.colors[0], legend_label='X')
+            fig.line(time, err_y, alpha=self.alpha, color=self.colors[1], legend_label='Y')
+            fig.line(time, err_z, alpha=self.alpha, color=self.colors[2], legend_label='Z')
 
         return fig
 
@@ -207,33 +202,27 @@ class tab_imu:
             width=800,
             height=300,
             x_axis_label='Time [s]',
-            y_axis_label='Bias Error [m]',
+            y_axis_label='Bias Error [rad/s]',
             title='Gyroscope Bias Error')
-        n = np.max([len(imu_df) for imu_df in self.imu_dfs])
-        w_bias_t = np.zeros([len(self.imu_dfs), n])
-        w_bias_err_x = np.zeros([len(self.imu_dfs), n])
-        w_bias_err_y = np.zeros([len(self.imu_dfs), n])
-        w_bias_err_z = np.zeros([len(self.imu_dfs), n])
 
-        for i, (imu_df, body_truth) in enumerate(zip(self.imu_dfs, self.body_truth_dfs)):
-            m = len(self.imu_dfs[i]['time'])
-            w_bias_t[i, 0:m] = self.imu_dfs[i]['time']
-            w_bias_x = np.array(self.imu_dfs[i]['imu_gyr_bias_0'])
-            w_bias_y = np.array(self.imu_dfs[i]['imu_gyr_bias_1'])
-            w_bias_z = np.array(self.imu_dfs[i]['imu_gyr_bias_2'])
+        for imu_df, body_truth in zip(self.imu_dfs, self.body_truth_dfs):
+            time = imu_df['time']
+            est_x = np.array(imu_df['imu_gyr_bias_0'])
+            est_y = np.array(imu_df['imu_gyr_bias_1'])
+            est_z = np.array(imu_df['imu_gyr_bias_2'])
 
             true_t = body_truth['time']
             true_x = body_truth[f"imu_gyr_bias_{imu_df.attrs['id']}_0"]
             true_y = body_truth[f"imu_gyr_bias_{imu_df.attrs['id']}_1"]
             true_z = body_truth[f"imu_gyr_bias_{imu_df.attrs['id']}_2"]
 
-            w_bias_err_x[i, 0:m] = interpolate_error(true_t, true_x, w_bias_err_x[i, :], w_bias_x)
-            w_bias_err_y[i, 0:m] = interpolate_error(true_t, true_y, w_bias_err_y[i, :], w_bias_y)
-            w_bias_err_z[i, 0:m] = interpolate_error(true_t, true_z, w_bias_err_z[i, :], w_bias_z)
+            err_x = interpolate_error(true_t, true_x, time, est_x)
+            err_y = interpolate_error(true_t, true_y, time, est_y)
+            err_z = interpolate_error(true_t, true_z, time, est_z)
 
-            fig.line(w_bias_t[i, :], w_bias_err_x[i, :], color=self.colors[0], alpha=self.alpha)
-            fig.line(w_bias_t[i, :], w_bias_err_y[i, :], color=self.colors[1], alpha=self.alpha)
-            fig.line(w_bias_t[i, :], w_bias_err_z[i, :], color=self.colors[2], alpha=self.alpha)
+            fig.line(time, err_x, alpha=self.alpha, color=self.colors[0], legend_label='X')
+            fig.line(time, err_y, alpha=self.alpha, color=self.colors[1], legend_label='Y')
+            fig.line(time, err_z, alpha=self.alpha, color=self.colors[2], legend_label='Z')
 
         return fig
 
-- 
2.43.0


From 680cad6b5b927c0531e6855c08c12165d6174330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:52 +0000
Subject: [PATCH 73/75] fix: reports include sensors with identifiers above
 nine

---
 eval/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/utilities.py b/eval/utilities.py
index ac92865..955cb70 100644
--- a/eval/utilities.py
+++ b/eval/utilities.py
@@ -189,7 +189,7 @@ def find_and_read_data_frames(directories, prefix):
     data_frame_sets = collections.defaultdict(list)
     for directory in directories:
         file_paths_id = glob.glob(os.path.join(directory, prefix + '.csv'))
-        file_paths_id.extend(glob.glob(os.path.join(directory, prefix + '_[0-9].csv')))
+        file_paths_id.extend(glob.glob(os.path.join(directory, prefix + '_[0-9]*.csv')))
         for file_path in file_paths_id:
             file_name = os.path.basename(file_path)
             df = pd.read_csv(file_path).dropna()
-- 
2.43.0


From b0aa431769eb380f6280f5608ce7594a3b494ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:14 +0000
Subject: [PATCH 74/75] fix: reports cope with incomplete rows in the middle of
 a log

---
 eval/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/utilities.py b/eval/utilities.py
index 955cb70..96b0852 100644
--- a/eval/utilities.py
+++ b/eval/utilities.py
@@ -192,7 +192,7 @@ def find_and_read_data_frames(directories, prefix):
         file_paths_id.extend(glob.glob(os.path.join(directory, prefix + '_[0-9]*.csv')))
         for file_path in file_paths_id:
             file_name = os.path.basename(file_path)
-            df = pd.read_csv(file_path).dropna()
+            df = pd.read_csv(file_path).dropna().reset_index(drop=True)
             df.attrs['prefix'] = format_prefix(prefix)
             matches = re.findall(r'_[0-9]*\.csv', file_name)
             if matches:
-- 
2.43.0


From 7f9fb4f38b4de93a7e5d6d1e1e517d7ad5a7baed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:45 +0000
Subject: [PATCH 75/75] fix: with several IMUs a sample corrects the motion at
 its own time

The update was applied to the estimate of the time of the previous
measurement, and the prediction to the time of the sample only made after
it. The change of the motion since then was taken for measurement noise and
went into the attitude: two ideal IMUs lost the true pose by tens of metres
in seconds. Predict first, as the other updates do.
---
 src/ekf/update/imu_updater.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index 17582ab..a4ca2b6 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -102,7 +102,11 @@ void ImuUpdater::UpdateEKF(
     ekf.m_state.body_state.acc_b_in_l = ang_b_to_l * ang_i_to_b * (acceleration - acc_bias);
     ekf.m_state.body_state.ang_vel_b_in_l = ang_b_to_l * ang_i_to_b * (angular_rate - omg_bias);
     ekf.m_state.body_state.ang_acc_b_in_l = Eigen::Vector3d::Zero();
+
+    ekf.PredictModel(local_time);
   } else {
+    ekf.PredictModel(local_time);
+
     Eigen::VectorXd measurement(acceleration.size() + angular_rate.size());
     measurement.segment<3>(0) = acceleration;
     measurement.segment<3>(3) = angular_rate;
@@ -120,8 +124,6 @@ void ImuUpdater::UpdateEKF(
     KalmanUpdate(ekf, jacobian, resid, meas_noise);
   }
 
-  ekf.PredictModel(local_time);
-
   auto t_end = std::chrono::high_resolution_clock::now();
   auto t_execution = std::chrono::duration_cast<std::chrono::microseconds>(t_end - t_start);
 
-- 
2.43.0

