From 385c692b7e147ebe340f54bdd50ae565e05c2a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:34 +0000
Subject: [PATCH 01/33] fix: include intrinsic-only IMUs in the state vector

State::ToVector skipped an IMU with only intrinsic calibration, so every
later sub-state was written at the wrong index.
---
 src/ekf/types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ekf/types.cpp b/src/ekf/types.cpp
index 3cdbdad..965a72a 100644
--- a/src/ekf/types.cpp
+++ b/src/ekf/types.cpp
@@ -306,7 +306,7 @@ Eigen::VectorXd State::ToVector() const
   unsigned int idx = g_body_state_size;
 
   for (auto const & imu_iter : imu_states) {
-    if (imu_iter.second.GetIsExtrinsic() || imu_iter.second.GetIsExtrinsic()) {
+    if (imu_iter.second.GetIsExtrinsic() || imu_iter.second.GetIsIntrinsic()) {
       Eigen::VectorXd temp_vec = imu_iter.second.ToVector();
       out_vec.segment(idx, temp_vec.size()) = temp_vec;
       idx += static_cast<unsigned int>(temp_vec.size());
-- 
2.43.0


From 6e2f28d57ca6fa72d2caf8f71653734dc3d7451c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:34 +0000
Subject: [PATCH 02/33] fix: count every augmented state in State::GetStateSize

The number of cameras was counted instead of the number of clones, so
State::ToVector wrote past the end of its output.
---
 src/ekf/types.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ekf/types.cpp b/src/ekf/types.cpp
index 965a72a..7c12c4a 100644
--- a/src/ekf/types.cpp
+++ b/src/ekf/types.cpp
@@ -414,7 +414,9 @@ unsigned int State::GetStateSize() const
     }
   }
 
-  state_size += g_aug_state_size * aug_states.size();
+  for (auto const & aug_iter : aug_states) {
+    state_size += g_aug_state_size * static_cast<unsigned int>(aug_iter.second.size());
+  }
 
   return state_size;
 }
-- 
2.43.0


From 7024c8185d3a5d2d0ecbd9f59267aa7c9aeabe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:34 +0000
Subject: [PATCH 03/33] fix: restore augmented states in State::SetState

---
 src/ekf/types.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ekf/types.cpp b/src/ekf/types.cpp
index 7c12c4a..d0e515c 100644
--- a/src/ekf/types.cpp
+++ b/src/ekf/types.cpp
@@ -381,6 +381,14 @@ void State::SetState(const Eigen::VectorXd & state)
       idx += g_fid_extrinsic_state_size;
     }
   }
+
+  for (auto & aug_iter : aug_states) {
+    for (auto & aug_state : aug_iter.second) {
+      aug_state.pos_b_in_l = state.segment<3>(idx + 0);
+      aug_state.ang_b_to_l = RotVecToQuat(state.segment<3>(idx + 3));
+      idx += g_aug_state_size;
+    }
+  }
 }
 
 unsigned int State::GetStateSize() const
-- 
2.43.0


From 3b22546512dc96d1f493bd433546ce6425305662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:34 +0000
Subject: [PATCH 04/33] fix: apply each camera its own part of a camera
 correction vector

The index was never advanced, so every camera received the correction of
the first one.
---
 src/ekf/types.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ekf/types.cpp b/src/ekf/types.cpp
index d0e515c..994679a 100644
--- a/src/ekf/types.cpp
+++ b/src/ekf/types.cpp
@@ -195,9 +195,12 @@ std::map<unsigned int, CamState> & operator+=(
   unsigned int idx {0};
   for (auto & cam_iter : l_cam_state) {
     unsigned int cam_id = cam_iter.first;
-    l_cam_state[cam_id].pos_c_in_b += r_vector.segment<3>(idx + 0);
-    l_cam_state[cam_id].ang_c_to_b =
-      l_cam_state[cam_id].ang_c_to_b * RotVecToQuat(r_vector.segment<3>(idx + 3));
+    if (l_cam_state[cam_id].GetIsExtrinsic()) {
+      l_cam_state[cam_id].pos_c_in_b += r_vector.segment<3>(idx + 0);
+      l_cam_state[cam_id].ang_c_to_b =
+        l_cam_state[cam_id].ang_c_to_b * RotVecToQuat(r_vector.segment<3>(idx + 3));
+      idx += g_cam_extrinsic_state_size;
+    }
   }
 
   return l_cam_state;
-- 
2.43.0


From 553825d60e07b8936a0bfc1bd2aa6930b73e5608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:08 +0000
Subject: [PATCH 05/33] fix: insert the covariance of a new sensor at its own
 state index

States are ordered by sensor ID, but the covariance of a newly registered
sensor was inserted after all sensors of its kind (or, for fiducials, after
the augmented states), so registering IDs out of order gave sensors each
other's covariance.
---
 src/ekf/ekf.cpp | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 9fb2011..f6114f7 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -262,13 +262,7 @@ void EKF::RegisterIMU(
     return;
   }
 
-  unsigned int imu_state_end = g_body_state_size + GetImuStateSize();
-
   m_state.imu_states[imu_id] = imu_state;
-  if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, imu_state.size, imu_state.size), m_cov, imu_state_end, imu_state_end);
-  }
   if (imu_state.GetIsExtrinsic()) {
     m_state_size += g_imu_extrinsic_state_size;
     m_imu_state_size += g_imu_extrinsic_state_size;
@@ -280,6 +274,12 @@ void EKF::RegisterIMU(
 
   RefreshIndices();
 
+  if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
+    unsigned int imu_index = m_state.imu_states[imu_id].index;
+    m_cov = InsertInMatrix(
+      covariance.block(0, 0, imu_state.size, imu_state.size), m_cov, imu_index, imu_index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register IMU: " << imu_id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
@@ -298,17 +298,20 @@ void EKF::RegisterGPS(
     return;
   }
 
-  unsigned int gps_state_end = g_body_state_size + GetImuStateSize() + GetGpsStateSize();
   m_state.gps_states[gps_id] = gps_state;
   if (gps_state.GetIsExtrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, gps_state.size, gps_state.size), m_cov, gps_state_end, gps_state_end);
     m_state_size += g_gps_extrinsic_state_size;
     m_gps_state_size += g_gps_extrinsic_state_size;
   }
 
   RefreshIndices();
 
+  if (gps_state.GetIsExtrinsic()) {
+    unsigned int gps_index = m_state.gps_states[gps_id].index;
+    m_cov = InsertInMatrix(
+      covariance.block(0, 0, gps_state.size, gps_state.size), m_cov, gps_index, gps_index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register GPS: " << gps_id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
@@ -331,23 +334,24 @@ void EKF::RegisterCamera(
   m_max_track_duration = m_max_frame_period * (m_max_track_length + 1);
   m_min_aug_period = std::min(m_min_aug_period, 1 / cam_state.rate);
 
-  unsigned int cam_state_end = g_body_state_size +
-    GetImuStateSize() + GetGpsStateSize() + GetCamStateSize();
-
   if (m_primary_camera_id == 0) {
     m_primary_camera_id = cam_id;
   }
 
   m_state.cam_states[cam_id] = cam_state;
   if (cam_state.GetIsExtrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, cam_state.size, cam_state.size), m_cov, cam_state_end, cam_state_end);
     m_state_size += g_cam_extrinsic_state_size;
     m_cam_state_size += g_cam_extrinsic_state_size;
   }
 
   RefreshIndices();
 
+  if (cam_state.GetIsExtrinsic()) {
+    unsigned int cam_index = m_state.cam_states[cam_id].index;
+    m_cov = InsertInMatrix(
+      covariance.block(0, 0, cam_state.size, cam_state.size), m_cov, cam_index, cam_index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register Camera: " << cam_id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
@@ -365,14 +369,18 @@ void EKF::RegisterFiducial(const FidState & fid_state, const Eigen::MatrixXd & c
 
   m_state.fid_states[fid_state.id] = fid_state;
   if (fid_state.GetIsExtrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, fid_state.size, fid_state.size), m_cov, m_state_size, m_state_size);
     m_state_size += g_fid_extrinsic_state_size;
     m_fid_state_size += g_fid_extrinsic_state_size;
   }
 
   RefreshIndices();
 
+  if (fid_state.GetIsExtrinsic()) {
+    unsigned int fid_index = m_state.fid_states[fid_state.id].index;
+    m_cov = InsertInMatrix(
+      covariance.block(0, 0, fid_state.size, fid_state.size), m_cov, fid_index, fid_index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register Fiducial: " << fid_state.id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
-- 
2.43.0


From 0519a7a4e87ab20863c9a5715a0c3f6714b488ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:26 +0000
Subject: [PATCH 06/33] fix: register sensor covariances as square roots in
 root form

With use_root_covariance the filter stores a square root of the covariance,
but newly registered sensors were inserted with their variances.
---
 src/ekf/ekf.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index f6114f7..ed49343 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -276,8 +276,11 @@ void EKF::RegisterIMU(
 
   if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
     unsigned int imu_index = m_state.imu_states[imu_id].index;
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, imu_state.size, imu_state.size), m_cov, imu_index, imu_index);
+    Eigen::MatrixXd imu_cov = covariance.block(0, 0, imu_state.size, imu_state.size);
+    if (m_use_root_covariance) {
+      imu_cov = imu_cov.cwiseSqrt().eval();
+    }
+    m_cov = InsertInMatrix(imu_cov, m_cov, imu_index, imu_index);
   }
 
   std::stringstream log_msg;
@@ -308,8 +311,11 @@ void EKF::RegisterGPS(
 
   if (gps_state.GetIsExtrinsic()) {
     unsigned int gps_index = m_state.gps_states[gps_id].index;
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, gps_state.size, gps_state.size), m_cov, gps_index, gps_index);
+    Eigen::MatrixXd gps_cov = covariance.block(0, 0, gps_state.size, gps_state.size);
+    if (m_use_root_covariance) {
+      gps_cov = gps_cov.cwiseSqrt().eval();
+    }
+    m_cov = InsertInMatrix(gps_cov, m_cov, gps_index, gps_index);
   }
 
   std::stringstream log_msg;
@@ -348,8 +354,11 @@ void EKF::RegisterCamera(
 
   if (cam_state.GetIsExtrinsic()) {
     unsigned int cam_index = m_state.cam_states[cam_id].index;
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, cam_state.size, cam_state.size), m_cov, cam_index, cam_index);
+    Eigen::MatrixXd cam_cov = covariance.block(0, 0, cam_state.size, cam_state.size);
+    if (m_use_root_covariance) {
+      cam_cov = cam_cov.cwiseSqrt().eval();
+    }
+    m_cov = InsertInMatrix(cam_cov, m_cov, cam_index, cam_index);
   }
 
   std::stringstream log_msg;
@@ -377,8 +386,11 @@ void EKF::RegisterFiducial(const FidState & fid_state, const Eigen::MatrixXd & c
 
   if (fid_state.GetIsExtrinsic()) {
     unsigned int fid_index = m_state.fid_states[fid_state.id].index;
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, fid_state.size, fid_state.size), m_cov, fid_index, fid_index);
+    Eigen::MatrixXd fid_cov = covariance.block(0, 0, fid_state.size, fid_state.size);
+    if (m_use_root_covariance) {
+      fid_cov = fid_cov.cwiseSqrt().eval();
+    }
+    m_cov = InsertInMatrix(fid_cov, m_cov, fid_index, fid_index);
   }
 
   std::stringstream log_msg;
-- 
2.43.0


From ddd6d82abf6dcf6cb43553d684843edf6429e5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:26 +0000
Subject: [PATCH 07/33] fix: do not propagate the sensor columns of the
 covariance root twice

With P = R^T R, the prediction F P F^T is R F^T: only the body columns of R
change. Multiplying the rows of the remaining columns as well corrupted the
body/sensor cross covariance.
---
 src/ekf/ekf.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index ed49343..3aae175 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -154,17 +154,13 @@ void EKF::PredictModel(double local_time)
     m_state.body_state.ang_b_to_l = RotVecToQuat(rot_vec) * m_state.body_state.ang_b_to_l;
 
     Eigen::MatrixXd state_transition = GetStateTransition(delta_time);
-    unsigned int alt_size = m_state_size - g_body_state_size;
-
     if (m_use_root_covariance) {
       m_cov.block<g_body_state_size, g_body_state_size>(0, 0) =
         m_cov.block<g_body_state_size, g_body_state_size>(0, 0) * state_transition.transpose();
 
-      m_cov.block(0, g_body_state_size, g_body_state_size, alt_size) =
-        state_transition * m_cov.block(0, g_body_state_size, g_body_state_size, alt_size);
-
       m_cov = QR_r(m_cov, m_process_noise * std::sqrt(delta_time));
     } else {
+      unsigned int alt_size = m_state_size - g_body_state_size;
       m_cov.diagonal() += m_process_noise.diagonal() * delta_time;
       m_cov.block<g_body_state_size, g_body_state_size>(0, 0) =
         state_transition * (m_cov.block<g_body_state_size, g_body_state_size>(0, 0)) *
-- 
2.43.0


From 63498eac184326f7fb16922db658259032d47c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:15 +0000
Subject: [PATCH 08/33] fix: marginalize clones out of a covariance root by
 re-triangularizing

---
 src/ekf/ekf.cpp | 21 +++++++++++++++++++--
 src/ekf/ekf.hpp | 12 ++++++++++++
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 3aae175..07218df 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -449,6 +449,23 @@ Eigen::MatrixXd EKF::AugmentCovariance(const Eigen::MatrixXd & in_cov, unsigned
   return out_cov;
 }
 
+Eigen::MatrixXd EKF::MarginalizeCovariance(
+  const Eigen::MatrixXd & in_cov,
+  unsigned int index,
+  unsigned int size) const
+{
+  if (!m_use_root_covariance) {
+    return RemoveFromMatrix(in_cov, index, index, size);
+  }
+
+  // Only the columns of a covariance root belong to states. Its rows must be re-triangularized
+  auto out_size = static_cast<unsigned int>(in_cov.cols()) - size;
+  Eigen::MatrixXd out_root(in_cov.rows(), out_size);
+  out_root.leftCols(index) = in_cov.leftCols(index);
+  out_root.rightCols(out_size - index) = in_cov.rightCols(out_size - index);
+  return QR_r(out_root.topRows(out_size), out_root.bottomRows(in_cov.rows() - out_size));
+}
+
 void EKF::AugmentStateIfNeeded()
 {
   if (
@@ -507,7 +524,7 @@ void EKF::AugmentStateIfNeeded()
 
       // Prune old states
       m_state.aug_states[0].erase(m_state.aug_states[0].begin() + i);
-      m_cov = RemoveFromMatrix(m_cov, aug_index, aug_index, g_aug_state_size);
+      m_cov = MarginalizeCovariance(m_cov, aug_index, g_aug_state_size);
 
       RefreshIndices();
     }
@@ -567,7 +584,7 @@ void EKF::AugmentStateIfNeeded(unsigned int camera_id, unsigned int frame_id)
       m_state.aug_states[camera_id].erase(m_state.aug_states[camera_id].begin());
 
       // Remove first element from covariance
-      m_cov = RemoveFromMatrix(m_cov, aug_start, aug_start, g_aug_state_size);
+      m_cov = MarginalizeCovariance(m_cov, aug_start, g_aug_state_size);
     }
 
     RefreshIndices();
diff --git a/src/ekf/ekf.hpp b/src/ekf/ekf.hpp
index 114dfdf..ffd5bef 100644
--- a/src/ekf/ekf.hpp
+++ b/src/ekf/ekf.hpp
@@ -208,6 +208,18 @@ public:
   ///
   Eigen::MatrixXd AugmentCovariance(const Eigen::MatrixXd & in_cov, unsigned int index) const;
 
+  ///
+  /// @brief Marginalize states out of the covariance (or covariance root) matrix
+  /// @param in_cov Original state covariance matrix
+  /// @param index Start index of the states to remove
+  /// @param size Number of states to remove
+  /// @return Covariance matrix of the remaining states
+  ///
+  Eigen::MatrixXd MarginalizeCovariance(
+    const Eigen::MatrixXd & in_cov,
+    unsigned int index,
+    unsigned int size) const;
+
   ///
   /// @brief Check if state should be augmented using current state
   ///
-- 
2.43.0


From e4c42d89dfa310c96a08299b8eb698dac654f7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:15 +0000
Subject: [PATCH 09/33] fix: project measurements onto the left nullspace of
 the feature Jacobian

---
 src/utility/math_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index 3c1893d..59d1d96 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -110,7 +110,7 @@ void ApplyLeftNullspace(const Eigen::MatrixXd & H_f, Eigen::MatrixXd & H_x, Eige
 {
   Eigen::HouseholderQR<Eigen::MatrixXd> QR_decomp(H_f);
   Eigen::MatrixXd Q_decomp = QR_decomp.householderQ();
-  Eigen::MatrixXd Q_null = Q_decomp.block(H_f.cols(), 0, H_f.rows() - H_f.cols(), H_f.rows());
+  Eigen::MatrixXd Q_null = Q_decomp.rightCols(H_f.rows() - H_f.cols()).transpose();
   H_x = Q_null * H_x;
   res = Q_null * res;
 }
-- 
2.43.0


From 05d0c3e262a157ae672def5ed647260d89805a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:15 +0000
Subject: [PATCH 10/33] fix: keep every non-zero row of a compressed
 measurement

---
 src/utility/math_helper.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index 59d1d96..fab6129 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -134,8 +134,11 @@ void CompressMeasurements(Eigen::MatrixXd & jacobian, Eigen::VectorXd & residual
       }
     }
 
-    // Count non-zero rows after compression
-    unsigned int rows = (jacobian.array().abs() > 1e-9).rowwise().any().cast<unsigned int>().sum();
+    // Count rows up to the last non-zero one after compression
+    unsigned int rows = m_rows;
+    while (rows > 0 && !(jacobian.row(rows - 1).array().abs() > 1e-9).any()) {
+      --rows;
+    }
 
     // Construct the smaller jacobian and residual after measurement compression
     jacobian.conservativeResize(rows, jacobian.cols());
-- 
2.43.0


From 8554f31e503d6b74828ff8bd63c3e58f596e2ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:15 +0000
Subject: [PATCH 11/33] fix: use the second radial coefficient in the
 distortion model

---
 src/ekf/update/msckf_updater.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 3ef53cf..5e5620f 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -236,10 +236,10 @@ Eigen::Vector2d MsckfUpdater::Distort(
   double r2 = x2 + y2;
   Eigen::Vector2d xy;
 
-  xy(0) = xy_norm(0) * (1 + intrinsics.k_1 * r2 + intrinsics.k_1 * r2 * r2) +
+  xy(0) = xy_norm(0) * (1 + intrinsics.k_1 * r2 + intrinsics.k_2 * r2 * r2) +
     2 * intrinsics.p_1 * xy_norm(0) * xy_norm(1) + intrinsics.p_2 * (r2 + 2 * x2);
 
-  xy(1) = xy_norm(1) * (1 + intrinsics.k_1 * r2 + intrinsics.k_1 * r2 * r2) +
+  xy(1) = xy_norm(1) * (1 + intrinsics.k_1 * r2 + intrinsics.k_2 * r2 * r2) +
     2 * intrinsics.p_2 * xy_norm(0) * xy_norm(1) + intrinsics.p_1 * (r2 + 2 * y2);
 
   return xy;
-- 
2.43.0


From d3e177a430d12370886aef4271ad5b38ad137112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:15 +0000
Subject: [PATCH 12/33] fix: score stationarity with the covariance rather than
 its root

---
 src/ekf/update/imu_updater.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index ca3ed08..966dc1e 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -220,8 +220,13 @@ bool ImuUpdater::ZeroAccelerationUpdate(
     resid.segment<3>(3) = -(angular_rate - bias_g);
   }
 
+  Eigen::MatrixXd state_cov = ekf.m_cov;
+  if (ekf.GetUseRootCovariance()) {
+    state_cov = ekf.m_cov.transpose() * ekf.m_cov;
+  }
+
   Eigen::MatrixXd score_mat = resid.transpose() *
-    (jacobian * ekf.m_cov * jacobian.transpose() + ekf.GetImuNoiseScaleFactor() *
+    (jacobian * state_cov * jacobian.transpose() + ekf.GetImuNoiseScaleFactor() *
     meas_noise).inverse() * resid;
 
   double score = std::abs(score_mat(0, 0));
-- 
2.43.0


From 24338306d15410edffc5a7af06267269ed07625d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:15 +0000
Subject: [PATCH 13/33] fix: log IMU variances instead of their squares while
 stationary

---
 src/ekf/update/imu_updater.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index 966dc1e..bec1fb7 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -282,13 +282,19 @@ bool ImuUpdater::ZeroAccelerationUpdate(
   if (m_is_extrinsic) {
     unsigned int index_extrinsic = ekf.m_state.imu_states[m_id].index_extrinsic;
     Eigen::VectorXd ex_diag = ekf.m_cov.block(index_extrinsic, index_extrinsic, 6, 6).diagonal();
-    msg << VectorToCommaString(ex_diag.cwiseProduct(ex_diag));
+    if (ekf.GetUseRootCovariance()) {
+      ex_diag = ex_diag.cwiseProduct(ex_diag);
+    }
+    msg << VectorToCommaString(ex_diag);
   }
 
   if (m_is_intrinsic) {
     unsigned int index_intrinsic = ekf.m_state.imu_states[m_id].index_intrinsic;
     Eigen::VectorXd in_diag = ekf.m_cov.block(index_intrinsic, index_intrinsic, 6, 6).diagonal();
-    msg << VectorToCommaString(in_diag.cwiseProduct(in_diag));
+    if (ekf.GetUseRootCovariance()) {
+      in_diag = in_diag.cwiseProduct(in_diag);
+    }
+    msg << VectorToCommaString(in_diag);
   }
 
   msg << VectorToCommaString(acceleration);
-- 
2.43.0


From 6749b3409f15bbcc887388e23adc090670aa224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:15 +0000
Subject: [PATCH 14/33] fix: log variances from whole columns of the covariance
 root

---
 src/ekf/ekf.cpp                     | 2 +-
 src/ekf/update/fiducial_updater.cpp | 6 ++++--
 src/ekf/update/gps_updater.cpp      | 3 ++-
 src/ekf/update/imu_updater.cpp      | 6 +++---
 src/ekf/update/msckf_updater.cpp    | 3 ++-
 5 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 07218df..1e06c80 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -100,7 +100,7 @@ void EKF::LogBodyStateIfNeeded(int execution_count)
     std::stringstream msg;
     Eigen::VectorXd body_cov = m_cov.block<g_body_state_size, g_body_state_size>(0, 0).diagonal();
     if (m_use_root_covariance) {
-      body_cov = body_cov.cwiseProduct(body_cov);
+      body_cov = m_cov.leftCols(g_body_state_size).colwise().squaredNorm();
     }
     msg << m_current_time;
     msg << VectorToCommaString(m_state.body_state.pos_b_in_l);
diff --git a/src/ekf/update/fiducial_updater.cpp b/src/ekf/update/fiducial_updater.cpp
index 606c38d..7f3d521 100644
--- a/src/ekf/update/fiducial_updater.cpp
+++ b/src/ekf/update/fiducial_updater.cpp
@@ -200,7 +200,8 @@ void FiducialUpdater::UpdateEKF(
     Eigen::VectorXd cov_diag = ekf.m_cov.block(
       fid_index, fid_index, g_fid_extrinsic_state_size, g_fid_extrinsic_state_size).diagonal();
     if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
+      cov_diag =
+        ekf.m_cov.middleCols(fid_index, g_fid_extrinsic_state_size).colwise().squaredNorm();
     }
     msg << VectorToCommaString(cov_diag);
   }
@@ -209,7 +210,8 @@ void FiducialUpdater::UpdateEKF(
     Eigen::VectorXd cov_diag = ekf.m_cov.block(
       cam_index, cam_index, g_cam_extrinsic_state_size, g_cam_extrinsic_state_size).diagonal();
     if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
+      cov_diag =
+        ekf.m_cov.middleCols(cam_index, g_cam_extrinsic_state_size).colwise().squaredNorm();
     }
     msg << VectorToCommaString(cov_diag);
   }
diff --git a/src/ekf/update/gps_updater.cpp b/src/ekf/update/gps_updater.cpp
index ebeb210..27a923f 100644
--- a/src/ekf/update/gps_updater.cpp
+++ b/src/ekf/update/gps_updater.cpp
@@ -138,7 +138,8 @@ void GpsUpdater::UpdateEKF(
     Eigen::VectorXd cov_diag = ekf.m_cov.block(
       gps_index, gps_index, g_gps_extrinsic_state_size, g_gps_extrinsic_state_size).diagonal();
     if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
+      cov_diag =
+        ekf.m_cov.middleCols(gps_index, g_gps_extrinsic_state_size).colwise().squaredNorm();
     }
     msg << VectorToCommaString(cov_diag);
   }
diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index bec1fb7..5a8c9c7 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -140,7 +140,7 @@ void ImuUpdater::UpdateEKF(
     Eigen::VectorXd cov_diag =
       ekf.m_cov.block(imu_index, imu_index, imu_size, imu_size).diagonal();
     if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
+      cov_diag = ekf.m_cov.middleCols(imu_index, imu_size).colwise().squaredNorm();
     }
     msg << VectorToCommaString(cov_diag);
   }
@@ -283,7 +283,7 @@ bool ImuUpdater::ZeroAccelerationUpdate(
     unsigned int index_extrinsic = ekf.m_state.imu_states[m_id].index_extrinsic;
     Eigen::VectorXd ex_diag = ekf.m_cov.block(index_extrinsic, index_extrinsic, 6, 6).diagonal();
     if (ekf.GetUseRootCovariance()) {
-      ex_diag = ex_diag.cwiseProduct(ex_diag);
+      ex_diag = ekf.m_cov.middleCols(index_extrinsic, 6).colwise().squaredNorm();
     }
     msg << VectorToCommaString(ex_diag);
   }
@@ -292,7 +292,7 @@ bool ImuUpdater::ZeroAccelerationUpdate(
     unsigned int index_intrinsic = ekf.m_state.imu_states[m_id].index_intrinsic;
     Eigen::VectorXd in_diag = ekf.m_cov.block(index_intrinsic, index_intrinsic, 6, 6).diagonal();
     if (ekf.GetUseRootCovariance()) {
-      in_diag = in_diag.cwiseProduct(in_diag);
+      in_diag = ekf.m_cov.middleCols(index_intrinsic, 6).colwise().squaredNorm();
     }
     msg << VectorToCommaString(in_diag);
   }
diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 5e5620f..e76a86f 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -413,7 +413,8 @@ void MsckfUpdater::UpdateEKF(
     Eigen::VectorXd cov_diag = ekf.m_cov.block(
       cam_index, cam_index, g_cam_extrinsic_state_size, g_cam_extrinsic_state_size).diagonal();
     if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
+      cov_diag =
+        ekf.m_cov.middleCols(cam_index, g_cam_extrinsic_state_size).colwise().squaredNorm();
     }
     msg << VectorToCommaString(cov_diag);
   }
-- 
2.43.0


From b704bee78a87cf64881c064b5acd472e391d20df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:15 +0000
Subject: [PATCH 15/33] fix: set the angular deviation of a fit without usable
 baselines

---
 src/utility/math_helper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index fab6129..7b5743c 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -255,6 +255,7 @@ bool kabsch_2d(
   }
 
   pos_stddev = mean_standard_deviation(pos_errors);
+  ang_stddev = 0.0;
   if (sum_count != 0.0) {
     ang_stddev = std::sqrt(sum_square_slopes) / sum_count;
   }
-- 
2.43.0


From 650a939ce8001e9e6bdbe1304c7d0eacaa08c1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:15 +0000
Subject: [PATCH 16/33] fix: measure target baselines from the target centroid

---
 src/utility/math_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index 7b5743c..e0d521e 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -246,7 +246,7 @@ bool kabsch_2d(
   double sum_count{0};
   for (unsigned int i = 0; i < points_tgt.size(); ++i) {
     Eigen::Vector3d pos_error = points_tgt[i] - transform * points_src[i];
-    double baseline_dist = (points_tgt[i] - centroid_src).norm();
+    double baseline_dist = (points_tgt[i] - centroid_tgt).norm();
     pos_errors.push_back(pos_error);
     if (baseline_dist > pos_error.norm()) {
       sum_square_slopes += std::pow(pos_error.norm() / baseline_dist, 2);
-- 
2.43.0


From 6f09cfc3ef2b995f723ed4ad80a74679e4d61563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:15 +0000
Subject: [PATCH 17/33] fix: keep the sign of the fitted heading

---
 src/utility/math_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index e0d521e..8aa5941 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -201,7 +201,7 @@ Eigen::MatrixXd matrix2d_from_vectors3d(const std::vector<Eigen::Vector3d> & inp
 
 double affine_angle(const Eigen::Affine3d & transform)
 {
-  return std::acos((transform.linear().trace() - 1) / 2);
+  return std::atan2(transform.linear()(1, 0), transform.linear()(0, 0));
 }
 
 bool kabsch_2d(
-- 
2.43.0


From 87b38da80cda65cc4c7c7fc8f4e1990df81e9db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:15 +0000
Subject: [PATCH 18/33] fix: express the local origin in the ENU frame when
 initializing GPS

---
 src/ekf/ekf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 1e06c80..21e9935 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -822,7 +822,8 @@ void EKF::AttemptGpsInitialization(
       (pos_stddev < m_gps_init_pos_thresh) && (ang_stddev != 0.0) &&
       (ang_stddev < std::tan(m_gps_init_ang_thresh))))
     {
-      Eigen::Vector3d delta_ref_enu = transformation.translation();
+      Eigen::Vector3d delta_ref_enu =
+        transformation.linear().transpose() * transformation.translation();
       Eigen::Vector3d pos_e_in_g = enu_to_lla(-delta_ref_enu, init_ref_lla);
       double ang_l_to_e = affine_angle(transformation);
 
-- 
2.43.0


From 4084c169ff193ee042469aa8d92d8e485e749c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:15 +0000
Subject: [PATCH 19/33] fix: do not interpolate a zero-length interval after
 the last clone

---
 src/ekf/ekf.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 21e9935..9eb3360 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -643,8 +643,10 @@ AugState EKF::GetAugState(unsigned int camera_id, unsigned int frame_id, double
         }
       }
     } else {
-      alpha = (time - m_state.aug_states[aug_key].back().time) /
-        (m_current_time - m_state.aug_states[aug_key].back().time);
+      if (m_current_time > m_state.aug_states[aug_key].back().time) {
+        alpha = (time - m_state.aug_states[aug_key].back().time) /
+          (m_current_time - m_state.aug_states[aug_key].back().time);
+      }
 
       aug_state_0 = m_state.aug_states[aug_key].back();
       aug_state_1.pos_b_in_l = m_state.body_state.pos_b_in_l;
-- 
2.43.0


From b6769bf73b37bbd7275f70a587a18f2535c90427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:15 +0000
Subject: [PATCH 20/33] fix: return a defined position for out-of-range
 coordinates

---
 src/utility/gps_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/gps_helper.cpp b/src/utility/gps_helper.cpp
index 7653089..0926245 100644
--- a/src/utility/gps_helper.cpp
+++ b/src/utility/gps_helper.cpp
@@ -28,7 +28,7 @@ static constexpr double g_deg_to_rad = M_PI / 180.0;
 
 Eigen::Vector3d lla_to_ecef(const Eigen::Vector3d & lla)
 {
-  Eigen::Vector3d out;
+  Eigen::Vector3d out = Eigen::Vector3d::Zero();
 
   if ((lla(0) < -90.0) || (lla(0) > +90.0) || (lla(1) < -180.0) || (lla(1) > +180.0)) {
     /// @todo: Replace with logger
-- 
2.43.0


From dccb2ce6cd2677fc91861fa14a33147f71c8391f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:34 +0000
Subject: [PATCH 21/33] fix: rate limit data logs that start at time zero

---
 src/infrastructure/data_logger.cpp | 3 ++-
 src/infrastructure/data_logger.hpp | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/data_logger.cpp b/src/infrastructure/data_logger.cpp
index 96b3aa2..f9ea7d2 100644
--- a/src/infrastructure/data_logger.cpp
+++ b/src/infrastructure/data_logger.cpp
@@ -49,7 +49,7 @@ void DataLogger::Log(const std::string & message)
 void DataLogger::RateLimitedLog(const std::string & message, double time)
 {
   if (m_logging_on) {
-    if (m_time_init != 0.0) {
+    if (m_is_time_init) {
       double log_count = static_cast<double>(m_log_count);
       double max_count = m_rate * (time - m_time_init);
       if ((m_rate == 0.0) || (log_count < max_count)) {
@@ -57,6 +57,7 @@ void DataLogger::RateLimitedLog(const std::string & message, double time)
       }
     } else {
       m_time_init = time;
+      m_is_time_init = true;
       Log(message);
     }
   }
diff --git a/src/infrastructure/data_logger.hpp b/src/infrastructure/data_logger.hpp
index a790360..366f9e2 100644
--- a/src/infrastructure/data_logger.hpp
+++ b/src/infrastructure/data_logger.hpp
@@ -93,6 +93,7 @@ private:
   std::string m_file_name {"default.log"};
   double m_rate{0.0};
   double m_time_init{0};
+  bool m_is_time_init{false};
   unsigned int m_log_count{0};
 };
 
-- 
2.43.0


From 1604be84b80bc9919d79a84ec0699c6ef1afc05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:07 +0000
Subject: [PATCH 22/33] fix: let fiducial orientation residuals point from
 prediction to measurement

---
 src/ekf/update/fiducial_updater.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ekf/update/fiducial_updater.cpp b/src/ekf/update/fiducial_updater.cpp
index 7f3d521..fd89f6e 100644
--- a/src/ekf/update/fiducial_updater.cpp
+++ b/src/ekf/update/fiducial_updater.cpp
@@ -168,7 +168,7 @@ void FiducialUpdater::UpdateEKF(
   // Residuals for this frame
   Eigen::VectorXd res = Eigen::VectorXd::Zero(g_fid_measurement_size);
   res.segment<3>(0) = pos_measured - pred_meas.segment<3>(0);
-  res.segment<3>(3) = QuatToRotVec(RotVecToQuat(pred_meas.segment<3>(3)) * ang_measured.inverse());
+  res.segment<3>(3) = QuatToRotVec(ang_measured * RotVecToQuat(pred_meas.segment<3>(3)).inverse());
 
   Eigen::MatrixXd jacobian = GetMeasurementJacobian(ekf);
 
-- 
2.43.0


From 40b1307bcd85a2b3bd9c145ee9e6ea0e3c9490ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:50 +0000
Subject: [PATCH 23/33] fix: put the gravity derivative in the IMU orientation
 columns while stationary

---
 src/ekf/update/imu_updater.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index 5a8c9c7..02dfe46 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -168,7 +168,7 @@ Eigen::MatrixXd ImuUpdater::GetZeroAccelerationJacobian(EKF & ekf) const
 
   if (m_is_extrinsic) {
     unsigned int index_extrinsic = ekf.m_state.imu_states[m_id].index_extrinsic;
-    jacobian.block<3, 3>(0, index_extrinsic) = -SkewSymmetric(
+    jacobian.block<3, 3>(0, index_extrinsic + 3) = -SkewSymmetric(
       ang_i_to_b.inverse() * ang_b_to_l.inverse() * g_gravity
     );
   }
-- 
2.43.0


From 47e64313f19a7aa77748bea49d02eeeb2a21f771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:05 +0000
Subject: [PATCH 24/33] fix: differentiate the stationary measurement with the
 IMU rotated in the body

---
 src/ekf/update/imu_updater.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index 02dfe46..5eb8e22 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -164,13 +164,13 @@ Eigen::MatrixXd ImuUpdater::GetZeroAccelerationJacobian(EKF & ekf) const
   jacobian.block<3, 3>(
     0,
     9) = -SkewSymmetric(ang_i_to_b.inverse() * ang_b_to_l.inverse() * g_gravity) *
-    QuaternionJacobian(ang_b_to_l).transpose();
+    ang_i_to_b.inverse().toRotationMatrix() * QuaternionJacobian(ang_b_to_l);
 
   if (m_is_extrinsic) {
     unsigned int index_extrinsic = ekf.m_state.imu_states[m_id].index_extrinsic;
     jacobian.block<3, 3>(0, index_extrinsic + 3) = -SkewSymmetric(
       ang_i_to_b.inverse() * ang_b_to_l.inverse() * g_gravity
-    );
+    ) * QuaternionJacobian(ang_i_to_b);
   }
 
   if (m_is_intrinsic) {
-- 
2.43.0


From 0b8314e3cc9bf5efde21c0765d5ea9a5151476d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:19 +0000
Subject: [PATCH 25/33] fix: predict accelerations in the IMU frame by the
 documented model

---
 src/ekf/update/imu_updater.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index 5eb8e22..fc6570f 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -325,12 +325,10 @@ Eigen::VectorXd ImuUpdater::PredictMeasurement(EKF & ekf) const
   Eigen::VectorXd predicted_measurement(6);
 
   Eigen::Vector3d imu_acc_b =
-    ekf.m_state.body_state.acc_b_in_l +
+    ang_b_to_l.inverse() * ekf.m_state.body_state.acc_b_in_l +
     ekf.m_state.body_state.ang_acc_b_in_l.cross(pos_i_in_b) +
     ekf.m_state.body_state.ang_vel_b_in_l.cross(
-    (ekf.m_state.body_state.ang_vel_b_in_l.cross(pos_i_in_b))) +
-    2 * ekf.m_state.body_state.ang_vel_b_in_l.cross(
-    ekf.m_state.body_state.vel_b_in_l);
+    (ekf.m_state.body_state.ang_vel_b_in_l.cross(pos_i_in_b)));
 
   Eigen::Vector3d imu_omg_b = ang_b_to_l.inverse() * ekf.m_state.body_state.ang_vel_b_in_l;
 
-- 
2.43.0


From 2e5668bdcfeb1bd07ca5afce21b41c858765bde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:32 +0000
Subject: [PATCH 26/33] fix: differentiate IMU measurements by the body and IMU
 orientations

---
 src/ekf/update/imu_updater.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index fc6570f..8626879 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -351,6 +351,15 @@ Eigen::MatrixXd ImuUpdater::GetMeasurementJacobian(EKF & ekf) const
   measurement_jacobian.block<3, 3>(0, 6) = ang_i_to_b.inverse().toRotationMatrix() *
     ang_b_to_l.inverse().toRotationMatrix();
 
+  // Body Angular Position
+  measurement_jacobian.block<3, 3>(0, 9) = ang_i_to_b.inverse().toRotationMatrix() *
+    ang_b_to_l.inverse().toRotationMatrix() * SkewSymmetric(ekf.m_state.body_state.acc_b_in_l) *
+    QuaternionJacobian(ang_b_to_l).transpose();
+  measurement_jacobian.block<3, 3>(3, 9) = ang_i_to_b.inverse().toRotationMatrix() *
+    ang_b_to_l.inverse().toRotationMatrix() *
+    SkewSymmetric(ekf.m_state.body_state.ang_vel_b_in_l) *
+    QuaternionJacobian(ang_b_to_l).transpose();
+
   // Body Angular Velocity
   measurement_jacobian.block<3, 3>(0, 12) = ang_i_to_b.inverse().toRotationMatrix() * (
     SkewSymmetric(ekf.m_state.body_state.ang_vel_b_in_l) *
@@ -384,11 +393,12 @@ Eigen::MatrixXd ImuUpdater::GetMeasurementJacobian(EKF & ekf) const
       ang_vel_b_in_l.cross(ang_vel_b_in_l.cross(pos_i_in_b)) +
       ang_b_to_l.inverse() * ekf.m_state.body_state.acc_b_in_l
       )
-    );
+    ) * QuaternionJacobian(ang_i_to_b);
 
     // IMU Angular Offset
     measurement_jacobian.block<3, 3>(3, index_extrinsic + 3) = SkewSymmetric(
-      ang_i_to_b.inverse() * ang_b_to_l.inverse() * ang_vel_b_in_l);
+      ang_i_to_b.inverse() * ang_b_to_l.inverse() * ang_vel_b_in_l) *
+      QuaternionJacobian(ang_i_to_b);
   }
 
   if (m_is_intrinsic) {
-- 
2.43.0


From 04e993d22b54b61a351158b165506ea139bc5c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:41 +0000
Subject: [PATCH 27/33] fix: differentiate the fiducial pose in the camera
 frame

---
 src/ekf/update/fiducial_updater.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/ekf/update/fiducial_updater.cpp b/src/ekf/update/fiducial_updater.cpp
index fd89f6e..c1bebf0 100644
--- a/src/ekf/update/fiducial_updater.cpp
+++ b/src/ekf/update/fiducial_updater.cpp
@@ -88,7 +88,6 @@ Eigen::MatrixXd FiducialUpdater::GetMeasurementJacobian(EKF & ekf)
   Eigen::Vector3d pos_b_in_l = ekf.m_state.body_state.pos_b_in_l;
   Eigen::Quaterniond ang_b_to_l = ekf.m_state.body_state.ang_b_to_l;
   Eigen::Matrix3d rot_b_to_c = m_ang_c_to_b.toRotationMatrix().transpose();
-  Eigen::Matrix3d rot_f_to_l = m_ang_f_to_l.toRotationMatrix();
   Eigen::Matrix3d rot_l_to_b = ang_b_to_l.toRotationMatrix().transpose();
   Eigen::Matrix3d rot_l_to_c = rot_b_to_c * rot_l_to_b;
 
@@ -101,8 +100,7 @@ Eigen::MatrixXd FiducialUpdater::GetMeasurementJacobian(EKF & ekf)
     SkewSymmetric(m_pos_f_in_l - pos_b_in_l) *
     QuaternionJacobian(ang_b_to_l).transpose();
 
-  jacobian.block<3, 3>(3, 9) = -rot_l_to_c * rot_f_to_l *
-    QuaternionJacobian(ang_b_to_l).transpose();
+  jacobian.block<3, 3>(3, 9) = -rot_l_to_c * QuaternionJacobian(ang_b_to_l).transpose();
 
   /// @todo Test camera calibration jacobians
   if (m_is_cam_extrinsic) {
@@ -114,13 +112,14 @@ Eigen::MatrixXd FiducialUpdater::GetMeasurementJacobian(EKF & ekf)
       QuaternionJacobian(m_ang_c_to_b).transpose();
 
     jacobian.block<3, 3>(3, cam_index + 3) = -rot_b_to_c *
-      QuaternionJacobian(m_ang_c_to_b).transpose() * rot_l_to_b * rot_f_to_l;
+      QuaternionJacobian(m_ang_c_to_b).transpose();
   }
 
   if (m_is_fid_extrinsic) {
     unsigned int fid_index = ekf.m_state.fid_states[m_id].index;
-    jacobian.block<3, 3>(0, fid_index + 0) = Eigen::Matrix3d::Identity();
-    jacobian.block<3, 3>(3, fid_index + 3) = Eigen::Matrix3d::Identity();
+    jacobian.block<3, 3>(0, fid_index + 0) = rot_l_to_c;
+    jacobian.block<3, 3>(3, fid_index + 3) = rot_l_to_c *
+      QuaternionJacobian(m_ang_f_to_l).transpose();
   }
 
   return jacobian;
-- 
2.43.0


From ebe2b755c2c92a306858a8c79de33da92926ca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:15 +0000
Subject: [PATCH 28/33] fix: compare measured features with distorted
 projections

---
 src/ekf/update/msckf_updater.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index e76a86f..664bd27 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -319,7 +319,8 @@ void MsckfUpdater::UpdateEKF(
       // Project the current feature into the current frame of reference
       Eigen::Vector3d pos_f_in_bi = rot_bi_to_l.transpose() * (pos_f_in_l - pos_bi_in_l);
       Eigen::Vector3d pos_f_in_ci = rot_ci_to_b.transpose() * (pos_f_in_bi - m_pos_c_in_b);
-      Eigen::Vector2d xy_predicted = Project(pos_f_in_ci);
+      Eigen::Vector2d xy_projected = Project(pos_f_in_ci);
+      Eigen::Vector2d xy_predicted = Distort(xy_projected, m_intrinsics);
 
       Eigen::Vector2d xy_measured;
       xy_measured(0) = (static_cast<double>(feature_track.track[i].key_point.pt.x) -
@@ -335,7 +336,7 @@ void MsckfUpdater::UpdateEKF(
 
       // Distortion Jacobian
       Eigen::MatrixXd H_d(2, 2);
-      DistortionJacobian(xy_measured, m_intrinsics, H_d);
+      DistortionJacobian(xy_projected, m_intrinsics, H_d);
 
       // Entire feature Jacobian
       H_f.block<2, 3>(2 * i, 0) = H_d * H_p * rot_l_to_ci;
-- 
2.43.0


From 7d0a610700b746e0e7dd1293b8eda6b75fd7bcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:49 +0000
Subject: [PATCH 29/33] fix: cyclic truth keeps its initial attitude while
 stationary

---
 src/infrastructure/sim/truth_engine_cyclic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infrastructure/sim/truth_engine_cyclic.cpp b/src/infrastructure/sim/truth_engine_cyclic.cpp
index 4118ceb..c721ba2 100644
--- a/src/infrastructure/sim/truth_engine_cyclic.cpp
+++ b/src/infrastructure/sim/truth_engine_cyclic.cpp
@@ -107,7 +107,7 @@ Eigen::Vector3d TruthEngineCyclic::GetBodyRollPitchYaw(double time)
   Eigen::Vector3d body_rpy;
   double relative_time = time - m_stationary_time;
   if (relative_time < 0.0) {
-    body_rpy = Eigen::Vector3d::Zero(3);
+    body_rpy = m_ang_offset;
   } else {
     Eigen::Vector3d rpy_vector;
     rpy_vector[0] = m_ang_amplitude / 2.0 *
-- 
2.43.0


From 4615b0660ff7fec64e2d43f27f404ca6b52f4096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:55 +0000
Subject: [PATCH 30/33] fix: cyclic truth's angular acceleration is the
 derivative of its angular rate

---
 .../sim/truth_engine_cyclic.cpp               | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/sim/truth_engine_cyclic.cpp b/src/infrastructure/sim/truth_engine_cyclic.cpp
index c721ba2..0a0c0b3 100644
--- a/src/infrastructure/sim/truth_engine_cyclic.cpp
+++ b/src/infrastructure/sim/truth_engine_cyclic.cpp
@@ -186,9 +186,30 @@ Eigen::Vector3d TruthEngineCyclic::GetBodyAngularAcceleration(double time)
     dd_rpy[2] = m_ang_amplitude * 2 * M_PI * M_PI * m_ang_frequency[2] *
       m_ang_frequency[2] * std::cos(m_ang_frequency[2] * 2 * M_PI * relative_time);
 
+    Eigen::Vector3d d_rpy;
+    d_rpy[0] = m_ang_amplitude * m_ang_frequency[0] * M_PI *
+      std::sin(m_ang_frequency[0] * 2 * M_PI * relative_time);
+    d_rpy[1] = m_ang_amplitude * m_ang_frequency[1] * M_PI *
+      std::sin(m_ang_frequency[1] * 2 * M_PI * relative_time);
+    d_rpy[2] = m_ang_amplitude * m_ang_frequency[2] * M_PI *
+      std::sin(m_ang_frequency[2] * 2 * M_PI * relative_time);
+
     Eigen::Vector3d rpy = GetBodyRollPitchYaw(time);
     Eigen::Matrix3d transform = EulerDerivativeTransform(rpy);
-    body_ang_acc = transform * dd_rpy;
+
+    // The transform changes along with the roll and pitch angles
+    double sin_r = std::sin(rpy[0]);
+    double cos_r = std::cos(rpy[0]);
+    double sin_p = std::sin(rpy[1]);
+    double cos_p = std::cos(rpy[1]);
+    Eigen::Matrix3d d_transform = Eigen::Matrix3d::Zero();
+    d_transform(0, 2) = -cos_p * d_rpy[1];
+    d_transform(1, 1) = -sin_r * d_rpy[0];
+    d_transform(1, 2) = cos_r * cos_p * d_rpy[0] - sin_r * sin_p * d_rpy[1];
+    d_transform(2, 1) = -cos_r * d_rpy[0];
+    d_transform(2, 2) = -sin_r * cos_p * d_rpy[0] - cos_r * sin_p * d_rpy[1];
+
+    body_ang_acc = transform * dd_rpy + d_transform * d_rpy;
   }
   return body_ang_acc;
 }
-- 
2.43.0


From 0bc6d46375d78dd842a8a21260d8f3df072caa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:52 +0000
Subject: [PATCH 31/33] fix: an IMU with only intrinsic calibration took the
 pose variances for its biases

---
 src/sensors/imu.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sensors/imu.cpp b/src/sensors/imu.cpp
index 43b46c0..018425e 100644
--- a/src/sensors/imu.cpp
+++ b/src/sensors/imu.cpp
@@ -52,8 +52,10 @@ IMU::IMU(IMU::Parameters params)
   Eigen::MatrixXd cov;
   if (imu_state.GetIsExtrinsic() && imu_state.GetIsIntrinsic()) {
     cov = params.variance.segment<12>(0).asDiagonal();
-  } else if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
+  } else if (imu_state.GetIsExtrinsic()) {
     cov = params.variance.segment<6>(0).asDiagonal();
+  } else if (imu_state.GetIsIntrinsic()) {
+    cov = params.variance.segment<6>(6).asDiagonal();
   }
 
   m_ekf->RegisterIMU(m_id, imu_state, cov);
-- 
2.43.0


From c88cf91f9b6f4bce6029d51af38055630f149db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:52 +0000
Subject: [PATCH 32/33] fix: detections of ArUco boards were never used

---
 src/trackers/fiducial_tracker.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/trackers/fiducial_tracker.cpp b/src/trackers/fiducial_tracker.cpp
index 338c1ce..cf3e566 100644
--- a/src/trackers/fiducial_tracker.cpp
+++ b/src/trackers/fiducial_tracker.cpp
@@ -87,6 +87,7 @@ int FiducialTracker::InterpolateCorners(
       marker_corners, marker_ids, image, temp_board,
       corners, ids, camera_matrix, dist_coefficients);
   } else if (m_detector_type == FiducialType::ARUCO_BOARD) {
+    ids = marker_ids;
     corners_found = static_cast<int>(marker_ids.size());
   }
   return corners_found;
-- 
2.43.0


From 6fc31461229905de5f09be3a6f3760224509ed99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:52 +0000
Subject: [PATCH 33/33] fix: a marker whose pose could not be estimated was
 used as a measurement at the camera

---
 src/trackers/fiducial_tracker.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/trackers/fiducial_tracker.cpp b/src/trackers/fiducial_tracker.cpp
index cf3e566..e22c04c 100644
--- a/src/trackers/fiducial_tracker.cpp
+++ b/src/trackers/fiducial_tracker.cpp
@@ -166,19 +166,19 @@ void FiducialTracker::Track(
       // if marker pose is valid
       if (valid) {
         cv::drawFrameAxes(img_out, camera_matrix, distortion, r_vec, t_vec, 0.5);
-      }
 
-      Eigen::Vector3d pos_f_in_c = CvVectorToEigen(t_vec);
-      Eigen::Quaterniond ang_f_to_c = RodriguesToQuat(r_vec);
+        Eigen::Vector3d pos_f_in_c = CvVectorToEigen(t_vec);
+        Eigen::Quaterniond ang_f_to_c = RodriguesToQuat(r_vec);
 
-      BoardDetection board_detection;
-      board_detection.frame_id = frame_id;
-      board_detection.pos_f_in_c = pos_f_in_c;
-      board_detection.ang_f_to_c = ang_f_to_c;
-      board_detection.pos_error = m_pos_error;
-      board_detection.ang_error = m_ang_error;
+        BoardDetection board_detection;
+        board_detection.frame_id = frame_id;
+        board_detection.pos_f_in_c = pos_f_in_c;
+        board_detection.ang_f_to_c = ang_f_to_c;
+        board_detection.pos_error = m_pos_error;
+        board_detection.ang_error = m_ang_error;
 
-      m_fiducial_updater.UpdateEKF(*m_ekf, time, board_detection);
+        m_fiducial_updater.UpdateEKF(*m_ekf, time, board_detection);
+      }
     }
   }
 }
-- 
2.43.0

