From b008af3ff3ac5434f0c6619d9fce6915894edd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:07 +0000
Subject: [PATCH 01/52] fix: stop timers, spinners and the parameter thread
 before AvoidanceNode is destroyed

---
 avoidance/include/avoidance/avoidance_node.h |  7 +++++-
 avoidance/src/avoidance_node.cpp             | 25 +++++++++++++++-----
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/avoidance/include/avoidance/avoidance_node.h b/avoidance/include/avoidance/avoidance_node.h
index 9cbb0e4..b5f8024 100644
--- a/avoidance/include/avoidance/avoidance_node.h
+++ b/avoidance/include/avoidance/avoidance_node.h
@@ -10,6 +10,9 @@
 #include "avoidance/common.h"
 #include "mavros_msgs/CompanionProcessStatus.h"
 
+#include <atomic>
+#include <condition_variable>
+#include <mutex>
 #include <thread>
 
 namespace avoidance {
@@ -70,6 +73,8 @@ class AvoidanceNode {
   std::unique_ptr<std::mutex> param_cb_mutex_;
 
   std::thread worker_;
+  std::mutex worker_mutex_;
+  std::condition_variable worker_cv_;
 
   double cmdloop_dt_, statusloop_dt_;
   double timeout_termination_;
@@ -77,7 +82,7 @@ class AvoidanceNode {
   double timeout_startup_;
 
   bool position_received_;
-  bool should_exit_;
+  std::atomic<bool> should_exit_;
 
   float mission_item_speed_;
 
diff --git a/avoidance/src/avoidance_node.cpp b/avoidance/src/avoidance_node.cpp
index 75881ec..fc1c7bc 100644
--- a/avoidance/src/avoidance_node.cpp
+++ b/avoidance/src/avoidance_node.cpp
@@ -15,7 +15,22 @@ AvoidanceNode::AvoidanceNode(const ros::NodeHandle& nh, const ros::NodeHandle& n
   param_cb_mutex_.reset(new std::mutex);
 }
 
-AvoidanceNode::~AvoidanceNode() {}
+AvoidanceNode::~AvoidanceNode() {
+  // no callback may run on the queues and no thread may use the members once they are destroyed
+  px4_param_sub_.shutdown();
+  mission_sub_.shutdown();
+  cmdloop_timer_.stop();
+  statusloop_timer_.stop();
+  if (cmdloop_spinner_) cmdloop_spinner_->stop();
+  if (statusloop_spinner_) statusloop_spinner_->stop();
+
+  {
+    std::lock_guard<std::mutex> lck(worker_mutex_);
+    should_exit_ = true;
+  }
+  worker_cv_.notify_all();
+  if (worker_.joinable()) worker_.join();
+}
 
 void AvoidanceNode::init() {
   mavros_system_status_pub_ = nh_.advertise<mavros_msgs::CompanionProcessStatus>("mavros/companion_process/status", 1);
@@ -157,11 +172,9 @@ void AvoidanceNode::checkPx4Parameters() {
           !std::isfinite(px4_.param_mpc_yawrauto_max);
     }
 
-    if (is_param_not_initialized) {
-      std::this_thread::sleep_for(std::chrono::seconds(5));
-    } else {
-      std::this_thread::sleep_for(std::chrono::seconds(30));
-    }
+    std::unique_lock<std::mutex> lck(worker_mutex_);
+    worker_cv_.wait_for(lck, std::chrono::seconds(is_param_not_initialized ? 5 : 30),
+                        [this]() { return static_cast<bool>(should_exit_); });
   }
 }
 
-- 
2.43.0


From 0ab253b98de319a2f3b00fb1e33a1c0b7eefe6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:07 +0000
Subject: [PATCH 02/52] fix: do not hold the parameter lock across the FCU
 parameter requests

---
 avoidance/src/avoidance_node.cpp | 42 ++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/avoidance/src/avoidance_node.cpp b/avoidance/src/avoidance_node.cpp
index fc1c7bc..e99065d 100644
--- a/avoidance/src/avoidance_node.cpp
+++ b/avoidance/src/avoidance_node.cpp
@@ -139,30 +139,40 @@ void AvoidanceNode::px4ParamsCallback(const mavros_msgs::Param& msg) {
 }
 
 void AvoidanceNode::checkPx4Parameters() {
-  auto& client = get_px4_param_client_;
-  auto request_param = [&client](const std::string& name, float& val) {
+  // the lock is not held across the service call, which can take arbitrarily long
+  auto request_param = [this](const std::string& name, float& val) {
+    if (should_exit_) return;
+    float val_before_request;
+    {
+      std::lock_guard<std::mutex> lck(*(param_cb_mutex_));
+      val_before_request = val;
+    }
     mavros_msgs::ParamGet req;
     req.request.param_id = name;
-    if (client.call(req) && req.response.success) {
-      val = req.response.value.real;
+    if (get_px4_param_client_.call(req) && req.response.success) {
+      std::lock_guard<std::mutex> lck(*(param_cb_mutex_));
+      // don't overwrite a value the FCU has pushed while the request was pending
+      if (val == val_before_request || (std::isnan(val) && std::isnan(val_before_request))) {
+        val = req.response.value.real;
+      }
     }
   };
   while (!should_exit_) {
     bool is_param_not_initialized = true;
+    request_param("MPC_ACC_HOR", px4_.param_mpc_acc_hor);
+    request_param("MPC_ACC_DOWN_MAX", px4_.param_mpc_acc_down_max);
+    request_param("MPC_ACC_UP_MAX", px4_.param_mpc_acc_up_max);
+    request_param("MPC_XY_CRUISE", px4_.param_mpc_xy_cruise);
+    request_param("MPC_Z_VEL_MAX_DN", px4_.param_mpc_z_vel_max_dn);
+    request_param("MPC_Z_VEL_MAX_UP", px4_.param_mpc_z_vel_max_up);
+    request_param("CP_DIST", px4_.param_cp_dist);
+    request_param("MPC_LAND_SPEED", px4_.param_mpc_land_speed);
+    request_param("MPC_JERK_MAX", px4_.param_mpc_jerk_max);
+    request_param("NAV_ACC_RAD", px4_.param_nav_acc_rad);
+    request_param("MPC_YAWRAUTO_MAX", px4_.param_mpc_yawrauto_max);
+
     {
       std::lock_guard<std::mutex> lck(*(param_cb_mutex_));
-      request_param("MPC_ACC_HOR", px4_.param_mpc_acc_hor);
-      request_param("MPC_ACC_DOWN_MAX", px4_.param_mpc_acc_down_max);
-      request_param("MPC_ACC_UP_MAX", px4_.param_mpc_acc_up_max);
-      request_param("MPC_XY_CRUISE", px4_.param_mpc_xy_cruise);
-      request_param("MPC_Z_VEL_MAX_DN", px4_.param_mpc_z_vel_max_dn);
-      request_param("MPC_Z_VEL_MAX_UP", px4_.param_mpc_z_vel_max_up);
-      request_param("CP_DIST", px4_.param_cp_dist);
-      request_param("MPC_LAND_SPEED", px4_.param_mpc_land_speed);
-      request_param("MPC_JERK_MAX", px4_.param_mpc_jerk_max);
-      request_param("NAV_ACC_RAD", px4_.param_nav_acc_rad);
-      request_param("MPC_YAWRAUTO_MAX", px4_.param_mpc_yawrauto_max);
-
       is_param_not_initialized =
           !std::isfinite(px4_.param_mpc_xy_cruise) || !std::isfinite(px4_.param_cp_dist) ||
           !std::isfinite(px4_.param_mpc_land_speed) || !std::isfinite(px4_.param_nav_acc_rad) ||
-- 
2.43.0


From 29c25a787f05cd681d02e4505315fd82229065cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 03/52] fix: recognise points inside a field of view that spans
 the rear azimuth

---
 avoidance/src/common.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/avoidance/src/common.cpp b/avoidance/src/common.cpp
index 9a8e21a..ebcbc9e 100644
--- a/avoidance/src/common.cpp
+++ b/avoidance/src/common.cpp
@@ -18,9 +18,8 @@ bool pointInsideFOV(const std::vector<FOV>& fov_vec, const PolarPoint& p_pol) {
 }
 
 bool pointInsideFOV(const FOV& fov, const PolarPoint& p_pol) {
-  return p_pol.z <= wrapAngleToPlusMinus180(fov.yaw_deg + fov.h_fov_deg / 2.f) &&
-         p_pol.z >= wrapAngleToPlusMinus180(fov.yaw_deg - fov.h_fov_deg / 2.f) &&
-         p_pol.e <= fov.pitch_deg + fov.v_fov_deg / 2.f && p_pol.e >= fov.pitch_deg - fov.v_fov_deg / 2.f;
+  return pointInsideYawFOV(fov, p_pol) && p_pol.e <= fov.pitch_deg + fov.v_fov_deg / 2.f &&
+         p_pol.e >= fov.pitch_deg - fov.v_fov_deg / 2.f;
 }
 
 bool histogramIndexYawInsideFOV(const std::vector<FOV>& fov_vec, const int idx, Eigen::Vector3f position,
@@ -64,8 +63,8 @@ bool pointInsideYawFOV(const std::vector<FOV>& fov_vec, const PolarPoint& p_pol)
 }
 
 bool pointInsideYawFOV(const FOV& fov, const PolarPoint& p_pol) {
-  return p_pol.z <= wrapAngleToPlusMinus180(fov.yaw_deg + fov.h_fov_deg / 2.f) &&
-         p_pol.z >= wrapAngleToPlusMinus180(fov.yaw_deg - fov.h_fov_deg / 2.f);
+  // compare the wrapped difference such that a FOV containing +-180 degrees works as well
+  return std::abs(angleDifference(p_pol.z, fov.yaw_deg)) <= fov.h_fov_deg / 2.f;
 }
 
 bool isInWhichFOV(const std::vector<FOV>& fov_vec, const PolarPoint& p_pol, int& idx) {
-- 
2.43.0


From 29f18fe54e368c1ae4f63478278286d1727067b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 04/52] fix: no NaN velocity scaling for a field of view of
 zero width

---
 avoidance/src/common.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/avoidance/src/common.cpp b/avoidance/src/common.cpp
index ebcbc9e..c5e4deb 100644
--- a/avoidance/src/common.cpp
+++ b/avoidance/src/common.cpp
@@ -109,6 +109,7 @@ bool isOnEdgeOfFOV(const std::vector<FOV>& fov_vec, const PolarPoint& p_pol, int
 float scaleToFOV(const std::vector<FOV>& fov, const PolarPoint& p_pol) {
   int i;
   if (isOnEdgeOfFOV(fov, p_pol, i)) {
+    if (!(fov[i].h_fov_deg > 0.f)) return 0.f;  // nothing has been seen yet, avoid dividing by zero
     float angle_diff_deg = std::abs(fov[i].yaw_deg - p_pol.z);
     angle_diff_deg = std::min(angle_diff_deg, std::abs(360.f - angle_diff_deg));
     angle_diff_deg = std::min(fov[i].h_fov_deg / 2.0f, angle_diff_deg);  // Clamp at h_FOV/2
-- 
2.43.0


From 4f59d755d547e6919294651041d2029964ce6cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 05/52] fix: stop the callbacks of LocalPlannerNodelet before
 it is destroyed

---
 .../src/nodes/local_planner_nodelet.cpp        | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/local_planner/src/nodes/local_planner_nodelet.cpp b/local_planner/src/nodes/local_planner_nodelet.cpp
index 9e83709..424c1c0 100644
--- a/local_planner/src/nodes/local_planner_nodelet.cpp
+++ b/local_planner/src/nodes/local_planner_nodelet.cpp
@@ -19,6 +19,20 @@ LocalPlannerNodelet::LocalPlannerNodelet() : tf_buffer_(5.f), spin_dt_(0.1) {}
 
 LocalPlannerNodelet::~LocalPlannerNodelet() {
   should_exit_ = true;
+
+  // no callback may be running anymore once the members it uses are destroyed
+  cmdloop_timer_.stop();
+  if (cmdloop_spinner_) cmdloop_spinner_->stop();
+  pose_sub_.shutdown();
+  velocity_sub_.shutdown();
+  state_sub_.shutdown();
+  clicked_point_sub_.shutdown();
+  clicked_goal_sub_.shutdown();
+  fcu_input_sub_.shutdown();
+  goal_topic_sub_.shutdown();
+  distance_sensor_sub_.shutdown();
+  for (size_t i = 0; i < cameras_.size(); ++i) cameras_[i].pointcloud_sub_.shutdown();
+
   {
     std::lock_guard<std::mutex> guard(buffered_transforms_mutex_);
     tf_buffer_cv_.notify_all();
@@ -237,7 +251,7 @@ void LocalPlannerNodelet::cmdLoopCallback(const ros::TimerEvent& event) {
   // Process callbacks & wait for a position update
   ros::Time start_query_position = ros::Time::now();
 
-  while (!position_received_ && ros::ok()) {
+  while (!position_received_ && ros::ok() && !should_exit_) {
     ros::getGlobalCallbackQueue()->callAvailable(ros::WallDuration(0.1));
     ros::Duration since_query = ros::Time::now() - start_query_position;
     if (since_query > ros::Duration(local_planner_->timeout_termination_)) {
@@ -259,6 +273,8 @@ void LocalPlannerNodelet::cmdLoopCallback(const ros::TimerEvent& event) {
     }
   }
 
+  if (should_exit_) return;
+
   // Check if all information was received
   ros::Time now = ros::Time::now();
   ros::Duration since_last_cloud = now - last_wp_time_;
-- 
2.43.0


From 71c0386accfee339cf46be93decad85daba3f9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 06/52] fix: do not lose wake-ups between the cloud callback,
 the transform thread and the planner

---
 local_planner/src/nodes/local_planner_nodelet.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/local_planner/src/nodes/local_planner_nodelet.cpp b/local_planner/src/nodes/local_planner_nodelet.cpp
index 424c1c0..2392ab8 100644
--- a/local_planner/src/nodes/local_planner_nodelet.cpp
+++ b/local_planner/src/nodes/local_planner_nodelet.cpp
@@ -474,7 +474,9 @@ void LocalPlannerNodelet::threadFunction() {
 
     while ((cameras_.size() == 0 || cameras_.size() != numTransformedClouds()) && !should_exit_) {
       std::unique_lock<std::mutex> lock(transformed_cloud_mutex_);
-      transformed_cloud_cv_.wait_for(lock, std::chrono::milliseconds(5000));
+      transformed_cloud_cv_.wait_for(lock, std::chrono::milliseconds(5000),
+                                     [this]() { return data_ready_ || should_exit_; });
+      data_ready_ = false;
     }
 
     if (should_exit_) break;
@@ -541,6 +543,7 @@ void LocalPlannerNodelet::pointCloudTransformThread(int index) {
           cameras_[index].received_ = false;
           waiting_on_cloud = true;
           std::lock_guard<std::mutex> lock(transformed_cloud_mutex_);
+          data_ready_ = true;
           transformed_cloud_cv_.notify_all();
         } else {
           waiting_on_transform = true;
@@ -556,10 +559,11 @@ void LocalPlannerNodelet::pointCloudTransformThread(int index) {
 
     if (waiting_on_transform) {
       std::unique_lock<std::mutex> lck(buffered_transforms_mutex_);
-      tf_buffer_cv_.wait_for(lck, std::chrono::milliseconds(5000));
+      if (!should_exit_) tf_buffer_cv_.wait_for(lck, std::chrono::milliseconds(5000));
     } else if (waiting_on_cloud) {
       std::unique_lock<std::mutex> lck(*(cameras_[index].camera_mutex_));
-      cameras_[index].camera_cv_->wait_for(lck, std::chrono::milliseconds(5000));
+      cameras_[index].camera_cv_->wait_for(lck, std::chrono::milliseconds(5000),
+                                           [&]() { return cameras_[index].received_ || should_exit_; });
     }
   }
 }
-- 
2.43.0


From bba52834ac8610f0decc849c37e2ce9181fe364a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 07/52] fix: do not reset the goal height when another
 parameter is reconfigured

---
 local_planner/include/local_planner/local_planner.h | 1 +
 local_planner/src/nodes/local_planner.cpp           | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/local_planner/include/local_planner/local_planner.h b/local_planner/include/local_planner/local_planner.h
index 99ae5e0..a14a2db 100644
--- a/local_planner/include/local_planner/local_planner.h
+++ b/local_planner/include/local_planner/local_planner.h
@@ -59,6 +59,7 @@ class LocalPlanner {
 
   Eigen::Vector3f position_ = Eigen::Vector3f::Zero();
   Eigen::Vector3f velocity_ = Eigen::Vector3f::Zero();
+  double goal_z_param_ = NAN;
   Eigen::Vector3f goal_ = Eigen::Vector3f::Zero();
   Eigen::Vector3f prev_goal_ = Eigen::Vector3f::Zero();
   Eigen::Vector3f closest_pt_ = Eigen::Vector3f::Zero();
diff --git a/local_planner/src/nodes/local_planner.cpp b/local_planner/src/nodes/local_planner.cpp
index 560cd78..cddf797 100644
--- a/local_planner/src/nodes/local_planner.cpp
+++ b/local_planner/src/nodes/local_planner.cpp
@@ -38,11 +38,13 @@ void LocalPlanner::dynamicReconfigureSetParams(avoidance::LocalPlannerNodeConfig
   n_expanded_nodes_ = config.n_expanded_nodes_;
   smoothing_margin_degrees_ = static_cast<float>(config.smoothing_margin_degrees_);
 
-  if (getGoal().z() != config.goal_z_param) {
+  // only move the goal if its height parameter has been changed, not on the reconfiguration of any other parameter
+  if (std::isfinite(goal_z_param_) && goal_z_param_ != config.goal_z_param) {
     auto goal = getGoal();
     goal.z() = config.goal_z_param;
     setGoal(goal);
   }
+  goal_z_param_ = config.goal_z_param;
 
   star_planner_->dynamicReconfigureSetStarParams(config, level);
 
-- 
2.43.0


From 9ad2aecf095920d719f0b9ddad0e4dfc8085e506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:19 +0000
Subject: [PATCH 08/52] fix: hand the goal over to the planner atomically

---
 .../local_planner/local_planner_nodelet.h     |  7 +++---
 .../src/nodes/local_planner_nodelet.cpp       | 25 +++++++++++++------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/local_planner/include/local_planner/local_planner_nodelet.h b/local_planner/include/local_planner/local_planner_nodelet.h
index d34e4d4..4b3ef2a 100644
--- a/local_planner/include/local_planner/local_planner_nodelet.h
+++ b/local_planner/include/local_planner/local_planner_nodelet.h
@@ -208,6 +208,7 @@ class LocalPlannerNodelet : public nodelet::Nodelet {
   geometry_msgs::PoseStamped goal_mission_item_msg_;
   mavros_msgs::Altitude ground_distance_msg_;
 
+  std::mutex goal_mutex_;  ///< guards the goal, shared by the callbacks, the planner thread and the setpoint loop
   bool new_goal_ = false;
 
   std::mutex waypoints_mutex_;
@@ -220,9 +221,9 @@ class LocalPlannerNodelet : public nodelet::Nodelet {
   Eigen::Vector3f last_position_;
   Eigen::Quaternionf last_orientation_;
   Eigen::Vector3f velocity_;
-  Eigen::Vector3f desired_velocity_;
-  Eigen::Vector3f goal_position_;
-  Eigen::Vector3f prev_goal_position_;
+  Eigen::Vector3f desired_velocity_ = Eigen::Vector3f::Constant(NAN);
+  Eigen::Vector3f goal_position_ = Eigen::Vector3f::Zero();
+  Eigen::Vector3f prev_goal_position_ = Eigen::Vector3f::Zero();
 
   NavigationState nav_state_ = NavigationState::none;
 
diff --git a/local_planner/src/nodes/local_planner_nodelet.cpp b/local_planner/src/nodes/local_planner_nodelet.cpp
index 2392ab8..eeb024a 100644
--- a/local_planner/src/nodes/local_planner_nodelet.cpp
+++ b/local_planner/src/nodes/local_planner_nodelet.cpp
@@ -196,10 +196,13 @@ void LocalPlannerNodelet::updatePlannerInfo() {
   local_planner_->currently_armed_ = armed_;
 
   // update goal
-  if (new_goal_) {
-    local_planner_->setGoal(goal_position_);
-    local_planner_->setPreviousGoal(prev_goal_position_);
-    new_goal_ = false;
+  {
+    std::lock_guard<std::mutex> goal_guard(goal_mutex_);
+    if (new_goal_) {
+      local_planner_->setGoal(goal_position_);
+      local_planner_->setPreviousGoal(prev_goal_position_);
+      new_goal_ = false;
+    }
   }
 
   // update last sent waypoint
@@ -299,9 +302,12 @@ MAV_STATE LocalPlannerNodelet::getSystemStatus() { return avoidance_node_->getSy
 void LocalPlannerNodelet::calculateWaypoints(bool hover) {
   bool is_airborne = armed_ && (nav_state_ != NavigationState::none);
 
-  wp_generator_->updateState(newest_position_, newest_orientation_, goal_position_, prev_goal_position_, velocity_,
-                             hover, is_airborne, nav_state_, is_land_waypoint_, is_takeoff_waypoint_,
-                             desired_velocity_);
+  {
+    std::lock_guard<std::mutex> goal_guard(goal_mutex_);
+    wp_generator_->updateState(newest_position_, newest_orientation_, goal_position_, prev_goal_position_, velocity_,
+                               hover, is_airborne, nav_state_, is_land_waypoint_, is_takeoff_waypoint_,
+                               desired_velocity_);
+  }
   waypointResult result = wp_generator_->getWaypoints();
 
   Eigen::Vector3f closest_pt = Eigen::Vector3f(NAN, NAN, NAN);
@@ -336,6 +342,7 @@ void LocalPlannerNodelet::clickedPointCallback(const geometry_msgs::PointStamped
 }
 
 void LocalPlannerNodelet::clickedGoalCallback(const geometry_msgs::PoseStamped& msg) {
+  std::lock_guard<std::mutex> goal_guard(goal_mutex_);
   new_goal_ = true;
   prev_goal_position_ = goal_position_;
   goal_position_ = toEigen(msg.pose.position);
@@ -346,6 +353,7 @@ void LocalPlannerNodelet::clickedGoalCallback(const geometry_msgs::PoseStamped&
 
 void LocalPlannerNodelet::updateGoalCallback(const visualization_msgs::MarkerArray& msg) {
   if (accept_goal_input_topic_ && msg.markers.size() > 0) {
+    std::lock_guard<std::mutex> goal_guard(goal_mutex_);
     prev_goal_position_ = goal_position_;
     goal_position_ = toEigen(msg.markers[0].pose.position);
     new_goal_ = true;
@@ -353,6 +361,7 @@ void LocalPlannerNodelet::updateGoalCallback(const visualization_msgs::MarkerArr
 }
 
 void LocalPlannerNodelet::fcuInputGoalCallback(const mavros_msgs::Trajectory& msg) {
+  std::lock_guard<std::mutex> goal_guard(goal_mutex_);
   bool update =
       ((avoidance::toEigen(msg.point_2.position) - avoidance::toEigen(goal_mission_item_msg_.pose.position)).norm() >
        0.01) ||
@@ -368,6 +377,8 @@ void LocalPlannerNodelet::fcuInputGoalCallback(const mavros_msgs::Trajectory& ms
   if (msg.point_valid[1] == true) {
     goal_mission_item_msg_.pose.position = msg.point_2.position;
     if (msg.command[1] == UINT16_MAX) {
+      // also the planner has to follow if the goal changes
+      if ((toEigen(msg.point_2.position) - goal_position_).norm() > 0.f) new_goal_ = true;
       goal_position_ = toEigen(msg.point_2.position);
       desired_velocity_ << NAN, NAN, NAN;
     }
-- 
2.43.0


From a5b70f66c9a797dce77bed6efb7196e806ca5a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:19 +0000
Subject: [PATCH 09/52] fix: initialise the vehicle state of
 LocalPlannerNodelet

---
 .../local_planner/local_planner_nodelet.h      | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/local_planner/include/local_planner/local_planner_nodelet.h b/local_planner/include/local_planner/local_planner_nodelet.h
index 4b3ef2a..927b157 100644
--- a/local_planner/include/local_planner/local_planner_nodelet.h
+++ b/local_planner/include/local_planner/local_planner_nodelet.h
@@ -212,15 +212,15 @@ class LocalPlannerNodelet : public nodelet::Nodelet {
   bool new_goal_ = false;
 
   std::mutex waypoints_mutex_;
-  Eigen::Vector3f newest_waypoint_position_;
-  Eigen::Vector3f last_waypoint_position_;
-  Eigen::Vector3f newest_adapted_waypoint_position_;
-  Eigen::Vector3f last_adapted_waypoint_position_;
-  Eigen::Vector3f newest_position_;
-  Eigen::Quaternionf newest_orientation_;
-  Eigen::Vector3f last_position_;
-  Eigen::Quaternionf last_orientation_;
-  Eigen::Vector3f velocity_;
+  Eigen::Vector3f newest_waypoint_position_ = Eigen::Vector3f::Zero();
+  Eigen::Vector3f last_waypoint_position_ = Eigen::Vector3f::Zero();
+  Eigen::Vector3f newest_adapted_waypoint_position_ = Eigen::Vector3f::Zero();
+  Eigen::Vector3f last_adapted_waypoint_position_ = Eigen::Vector3f::Zero();
+  Eigen::Vector3f newest_position_ = Eigen::Vector3f::Zero();
+  Eigen::Quaternionf newest_orientation_ = Eigen::Quaternionf::Identity();
+  Eigen::Vector3f last_position_ = Eigen::Vector3f::Zero();
+  Eigen::Quaternionf last_orientation_ = Eigen::Quaternionf::Identity();
+  Eigen::Vector3f velocity_ = Eigen::Vector3f::Zero();
   Eigen::Vector3f desired_velocity_ = Eigen::Vector3f::Constant(NAN);
   Eigen::Vector3f goal_position_ = Eigen::Vector3f::Zero();
   Eigen::Vector3f prev_goal_position_ = Eigen::Vector3f::Zero();
-- 
2.43.0


From 8e321014383d6336455bf27de46ab965e4448f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 10/52] fix: do not hold the waypoint lock while waiting for a
 position

---
 local_planner/src/nodes/local_planner_nodelet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/local_planner/src/nodes/local_planner_nodelet.cpp b/local_planner/src/nodes/local_planner_nodelet.cpp
index eeb024a..b949541 100644
--- a/local_planner/src/nodes/local_planner_nodelet.cpp
+++ b/local_planner/src/nodes/local_planner_nodelet.cpp
@@ -248,7 +248,6 @@ void LocalPlannerNodelet::stateCallback(const mavros_msgs::State& msg) {
 }
 
 void LocalPlannerNodelet::cmdLoopCallback(const ros::TimerEvent& event) {
-  std::lock_guard<std::mutex> lock(waypoints_mutex_);
   hover_ = false;
 
   // Process callbacks & wait for a position update
@@ -278,6 +277,9 @@ void LocalPlannerNodelet::cmdLoopCallback(const ros::TimerEvent& event) {
 
   if (should_exit_) return;
 
+  // only lock now, such that the planner can hand over its results while there is no position
+  std::lock_guard<std::mutex> lock(waypoints_mutex_);
+
   // Check if all information was received
   ros::Time now = ros::Time::now();
   ros::Duration since_last_cloud = now - last_wp_time_;
-- 
2.43.0


From 9817b4840468123ac72abcd2afdd3b8cb241d7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:48 +0000
Subject: [PATCH 11/52] fix: connect the landing nodes: topics are global,
 parameters private

---
 .../src/nodes/safe_landing_planner_node.cpp                 | 6 ++++--
 .../src/nodes/safe_landing_planner_node_main.cpp            | 2 +-
 safe_landing_planner/src/nodes/waypoint_generator_node.cpp  | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
index c60eeed..e1e0fb5 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
@@ -12,9 +12,11 @@ SafeLandingPlannerNode::SafeLandingPlannerNode(const ros::NodeHandle &nh) : nh_(
 #endif
   visualizer_.initializePublishers(nh_);
 
+  // topics are global, parameters are private to the node
+  ros::NodeHandle nh_private("~");
   std::string camera_topic;
-  nh_.getParam("pointcloud_topics", camera_topic);
-  nh_.param<bool>("play_rosbag", safe_landing_planner_->play_rosbag_, false);
+  nh_private.getParam("pointcloud_topics", camera_topic);
+  nh_private.param<bool>("play_rosbag", safe_landing_planner_->play_rosbag_, false);
 
   dynamic_reconfigure::Server<safe_landing_planner::SafeLandingPlannerNodeConfig>::CallbackType f;
   f = boost::bind(&SafeLandingPlannerNode::dynamicReconfigureCallback, this, _1, _2);
diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node_main.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node_main.cpp
index 0e6de8c..40c82d4 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node_main.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node_main.cpp
@@ -3,7 +3,7 @@
 int main(int argc, char **argv) {
   using namespace avoidance;
   ros::init(argc, argv, "safe_landing_planner_node");
-  ros::NodeHandle nh("~");
+  ros::NodeHandle nh("");
   SafeLandingPlannerNode NodeSLP(nh);
   NodeSLP.startNode();
 
diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index bf8887c..ee56369 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -263,7 +263,7 @@ void WaypointGeneratorNode::goalVisualization() {
 int main(int argc, char **argv) {
   using namespace avoidance;
   ros::init(argc, argv, "waypoint_generator_node");
-  ros::NodeHandle nh("~");
+  ros::NodeHandle nh("");
 
   WaypointGeneratorNode NodeWG(nh);
   NodeWG.startNode();
-- 
2.43.0


From 0a1fdd0ad7fb4632fa4177ac3f4fdd60255941a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 12/52] fix: centre the landing area marker for every grid size

---
 safe_landing_planner/src/nodes/waypoint_generator_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index ee56369..1b08166 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -208,7 +208,7 @@ void WaypointGeneratorNode::landingAreaVisualization() {
   Eigen::MatrixXi kernel(waypointGenerator_.can_land_hysteresis_matrix_.rows(),
                          waypointGenerator_.can_land_hysteresis_matrix_.cols());
   kernel.fill(0);
-  kernel.block(20 - waypointGenerator_.smoothing_land_cell_, 20 - waypointGenerator_.smoothing_land_cell_,
+  kernel.block(offset - waypointGenerator_.smoothing_land_cell_, offset - waypointGenerator_.smoothing_land_cell_,
                waypointGenerator_.mask_.rows(), waypointGenerator_.mask_.cols()) = waypointGenerator_.mask_;
 
   Eigen::MatrixXi result = waypointGenerator_.can_land_hysteresis_result_.cwiseProduct(kernel);
-- 
2.43.0


From 8fc51eebad03b3e65d1fc720cf325da75f21342b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 13/52] fix: keep the landing patch inside the grid

---
 .../safe_landing_planner/waypoint_generator_node.hpp     | 7 +++++++
 safe_landing_planner/src/nodes/waypoint_generator.cpp    | 4 ++--
 .../src/nodes/waypoint_generator_node.cpp                | 9 ++++++++-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/safe_landing_planner/include/safe_landing_planner/waypoint_generator_node.hpp b/safe_landing_planner/include/safe_landing_planner/waypoint_generator_node.hpp
index 2d5a2c1..3b289e5 100644
--- a/safe_landing_planner/include/safe_landing_planner/waypoint_generator_node.hpp
+++ b/safe_landing_planner/include/safe_landing_planner/waypoint_generator_node.hpp
@@ -51,6 +51,7 @@ class WaypointGeneratorNode final {
   ros::Publisher marker_goal_pub_;
 
   bool grid_received_ = false;
+  int smoothing_land_cell_param_ = 6;
   double spin_dt_ = 0.1;
   Eigen::Vector3f goal_visualization_ = Eigen::Vector3f::Zero();
 
@@ -69,6 +70,12 @@ class WaypointGeneratorNode final {
   **/
   void dynamicReconfigureCallback(safe_landing_planner::WaypointGeneratorNodeConfig& config, uint32_t level);
 
+  /**
+  * @brief     limits the size of the evaluated landing patch to what fits into
+  *the current grid
+  **/
+  void limitSmoothingToGrid();
+
   /**
   * @brif callback for vehicle position and orientation
   * @param[in] msg, pose message coming fro the FCU
diff --git a/safe_landing_planner/src/nodes/waypoint_generator.cpp b/safe_landing_planner/src/nodes/waypoint_generator.cpp
index f6dd9cf..c5a24b9 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator.cpp
@@ -336,7 +336,7 @@ float WaypointGenerator::landingAreaHeightPercentile(float percentile) {
   }
 
   std::sort(altitude_landing_area.begin(), altitude_landing_area.end());
-  int index = static_cast<int>(std::round(percentile / 100.f * altitude_landing_area.size()));
-  return altitude_landing_area[index];
+  size_t index = static_cast<size_t>(std::round(percentile / 100.f * altitude_landing_area.size()));
+  return altitude_landing_area[std::min(index, altitude_landing_area.size() - 1)];
 }
 }
diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index 1b08166..bb5e978 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -53,7 +53,8 @@ void WaypointGeneratorNode::dynamicReconfigureCallback(safe_landing_planner::Way
   waypointGenerator_.beta_ = static_cast<float>(config.beta);
   waypointGenerator_.can_land_thr_ = static_cast<float>(config.can_land_thr);
   waypointGenerator_.loiter_height_ = static_cast<float>(config.loiter_height);
-  waypointGenerator_.smoothing_land_cell_ = config.smoothing_land_cell;
+  smoothing_land_cell_param_ = config.smoothing_land_cell;
+  limitSmoothingToGrid();
   waypointGenerator_.vertical_range_error_ = static_cast<float>(config.vertical_range_error);
   waypointGenerator_.spiral_width_ = static_cast<float>(config.spiral_width);
 
@@ -62,6 +63,11 @@ void WaypointGeneratorNode::dynamicReconfigureCallback(safe_landing_planner::Way
   }
 }
 
+void WaypointGeneratorNode::limitSmoothingToGrid() {
+  const int max_smoothing = (waypointGenerator_.grid_slp_.getRowColSize() - 1) / 2;
+  waypointGenerator_.smoothing_land_cell_ = std::min(smoothing_land_cell_param_, max_smoothing);
+}
+
 void WaypointGeneratorNode::positionCallback(const geometry_msgs::PoseStamped &msg) {
   waypointGenerator_.position_ = avoidance::toEigen(msg.pose.position);
   double roll, pitch, yaw;
@@ -112,6 +118,7 @@ void WaypointGeneratorNode::gridCallback(const safe_landing_planner::SLPGridMsg
   if (waypointGenerator_.grid_slp_.getGridSize() != msg.grid_size ||
       waypointGenerator_.grid_slp_.getCellSize() != msg.cell_size) {
     waypointGenerator_.grid_slp_.resize(msg.grid_size, msg.cell_size);
+    limitSmoothingToGrid();
   }
 
   for (int i = 0; i < msg.mean.layout.dim[0].size; i++) {
-- 
2.43.0


From bbd5cc8e8a6830fb18eedc7c1654d7d54f39050d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 14/52] fix: stop the landing waypoint loop before its node is
 destroyed

---
 .../safe_landing_planner/waypoint_generator_node.hpp       | 2 +-
 safe_landing_planner/src/nodes/waypoint_generator_node.cpp | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/safe_landing_planner/include/safe_landing_planner/waypoint_generator_node.hpp b/safe_landing_planner/include/safe_landing_planner/waypoint_generator_node.hpp
index 3b289e5..8e2f5ee 100644
--- a/safe_landing_planner/include/safe_landing_planner/waypoint_generator_node.hpp
+++ b/safe_landing_planner/include/safe_landing_planner/waypoint_generator_node.hpp
@@ -22,7 +22,7 @@ namespace avoidance {
 class WaypointGeneratorNode final {
  public:
   WaypointGeneratorNode(const ros::NodeHandle& nh);
-  ~WaypointGeneratorNode() = default;
+  ~WaypointGeneratorNode();
 
   /**
   * @brief spins node
diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index bb5e978..d8b2d94 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -27,6 +27,12 @@ WaypointGeneratorNode::WaypointGeneratorNode(const ros::NodeHandle &nh) : nh_(nh
   };
 }
 
+WaypointGeneratorNode::~WaypointGeneratorNode() {
+  // the spinner thread uses the members below, it has to be gone before they are
+  cmdloop_timer_.stop();
+  if (cmdloop_spinner_) cmdloop_spinner_->stop();
+}
+
 void WaypointGeneratorNode::startNode() {
   ros::TimerOptions timer_options(ros::Duration(spin_dt_),
                                   boost::bind(&WaypointGeneratorNode::cmdLoopCallback, this, _1), &cmdloop_queue_);
@@ -39,6 +45,7 @@ void WaypointGeneratorNode::cmdLoopCallback(const ros::TimerEvent &event) {
   while (!grid_received_ && ros::ok()) {
     ros::getGlobalCallbackQueue()->callAvailable(ros::WallDuration(0.1));
   }
+  if (!grid_received_) return;  // shutting down
 
   waypointGenerator_.calculateWaypoint();
   landingAreaVisualization();
-- 
2.43.0


From 657f01b40802dea196c0d6af10999d2357edf477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 15/52] fix: mark landing setpoints without a vertical
 component as invalid

---
 safe_landing_planner/src/nodes/waypoint_generator_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index d8b2d94..c9820f4 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -171,7 +171,7 @@ void WaypointGeneratorNode::publishTrajectorySetpoints(const Eigen::Vector3f &po
   bool xy_vel_sp_valid = std::isfinite(setpoint.point_1.velocity.x) && std::isfinite(setpoint.point_1.velocity.y);
 
   if ((xy_pos_sp_valid || xy_vel_sp_valid) &&
-      (std::isfinite(setpoint.point_1.position.z || std::isfinite(setpoint.point_1.velocity.z)))) {
+      (std::isfinite(setpoint.point_1.position.z) || std::isfinite(setpoint.point_1.velocity.z))) {
     setpoint.point_valid = {true, false, false, false, false};
   } else {
     setpoint.point_valid = {false, false, false, false, false};
-- 
2.43.0


From 8f083b0026086edde70f289bfb769830d501f38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 16/52] fix: do not carry the altitude change setpoint over
 into other landing states

---
 .../src/nodes/waypoint_generator.cpp                 | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator.cpp b/safe_landing_planner/src/nodes/waypoint_generator.cpp
index c5a24b9..bc61eab 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator.cpp
@@ -200,13 +200,15 @@ usm::Transition WaypointGenerator::runAltitudeChange() {
   if (state_changed_) {
     loiter_yaw_ = yaw_;
   }
-  goal_.z() = NAN;
+  Eigen::Vector3f pos_sp = goal_;
+  Eigen::Vector3f vel_sp = velocity_setpoint_;
+  pos_sp.z() = NAN;
   altitude_landing_area_percentile_ = landingAreaHeightPercentile(80.f);
   float direction = (fabsf(position_.z() - altitude_landing_area_percentile_) - loiter_height_) < 0.f ? 1.f : -1.f;
-  velocity_setpoint_.z() = direction * LAND_SPEED;
-  publishTrajectorySetpoints_(goal_, velocity_setpoint_, loiter_yaw_, yaw_speed_setpoint_);
-  ROS_INFO("\033[1;35m [WGN] altitudeChange %f %f %f - %f %f %f yaw %f \033[0m", goal_.x(), goal_.y(), goal_.z(),
-           velocity_setpoint_.x(), velocity_setpoint_.y(), velocity_setpoint_.z(), yaw_setpoint_);
+  vel_sp.z() = direction * LAND_SPEED;
+  publishTrajectorySetpoints_(pos_sp, vel_sp, loiter_yaw_, yaw_speed_setpoint_);
+  ROS_INFO("\033[1;35m [WGN] altitudeChange %f %f %f - %f %f %f yaw %f \033[0m", pos_sp.x(), pos_sp.y(), pos_sp.z(),
+           vel_sp.x(), vel_sp.y(), vel_sp.z(), yaw_setpoint_);
 
   ROS_INFO("[WGN] Landing Radius: xy  %f, z %f ", (goal_.topRows<2>() - position_.topRows<2>()).norm(),
            fabsf(position_.z() - altitude_landing_area_percentile_));
-- 
2.43.0


From 1ffb4eba6a65ba0cc6ed8f01c00447f13d7fc6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 17/52] fix: abandon a landing when the flight controller sends
 another waypoint

---
 safe_landing_planner/src/nodes/waypoint_generator.cpp      | 4 ++--
 safe_landing_planner/src/nodes/waypoint_generator_node.cpp | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator.cpp b/safe_landing_planner/src/nodes/waypoint_generator.cpp
index bc61eab..888578d 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator.cpp
@@ -74,7 +74,7 @@ void WaypointGenerator::updateSLPState() {
     can_land_hysteresis_result_.fill(0);
   }
 
-  if (!is_land_waypoint_) {
+  if (!is_land_waypoint_ || trigger_reset_) {
     decision_taken_ = false;
     can_land_ = true;
     can_land_hysteresis_matrix_.fill(0.0f);
@@ -82,7 +82,7 @@ void WaypointGenerator::updateSLPState() {
     n_explored_pattern_ = -1;
     factor_exploration_ = 1.f;
     landing_radius_ = 2.0f;
-    ROS_INFO("[WGN] Not a land waypoint");
+    ROS_INFO("[WGN] Not a land waypoint or reset");
   }
 
   return;
diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index c9820f4..d6ad57f 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -93,9 +93,14 @@ void WaypointGeneratorNode::trajectoryCallback(const mavros_msgs::Trajectory &ms
   if (update && msg.point_valid[0] == true) {
     waypointGenerator_.goal_ = avoidance::toEigen(msg.point_1.position);
     waypointGenerator_.velocity_setpoint_ = avoidance::toEigen(msg.point_1.velocity);
+    const bool was_land_waypoint = waypointGenerator_.is_land_waypoint_;
     waypointGenerator_.is_land_waypoint_ = (msg.command[1] == static_cast<int>(MavCommand::MAV_CMD_NAV_LAND));
     ROS_INFO_STREAM("\033[1;33m [WGN] Set New goal from FCU " << waypointGenerator_.goal_.transpose()
                                                               << " - nan nan nan \033[0m");
+    // a landing sequence or exploration under way belongs to the previous waypoint
+    if (was_land_waypoint) {
+      waypointGenerator_.trigger_reset_ = true;
+    }
   }
   if (msg.point_valid[1] == true) {
     goal_visualization_ = avoidance::toEigen(msg.point_2.position);
-- 
2.43.0


From 60fd419e8b8c57228a1f6411730ebc3dfbcb26ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 18/52] fix: create the landing planner's mutexes before the
 thread that uses them

---
 safe_landing_planner/src/nodes/safe_landing_planner_node.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
index e1e0fb5..e65f81f 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
@@ -67,11 +67,11 @@ void SafeLandingPlannerNode::rawGridCallback(const safe_landing_planner::SLPGrid
 }
 
 void SafeLandingPlannerNode::startNode() {
-  // initialize thread
-  worker_ = std::thread(&SafeLandingPlannerNode::pointCloudTransformThread, this);
   cloud_msg_mutex_.reset(new std::mutex);
   transformed_cloud_mutex_.reset(new std::mutex);
   cloud_ready_cv_.reset(new std::condition_variable);
+  // initialize thread
+  worker_ = std::thread(&SafeLandingPlannerNode::pointCloudTransformThread, this);
 
   ros::TimerOptions timer_options(ros::Duration(spin_dt_),
                                   boost::bind(&SafeLandingPlannerNode::cmdLoopCallback, this, _1), &cmdloop_queue_);
-- 
2.43.0


From 2b49444c49fe9c124232c64348681d5b453ec831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 19/52] fix: use each cloud once and do not lose wake-ups in
 the landing planner

---
 .../safe_landing_planner_node.hpp                    |  3 ++-
 .../src/nodes/safe_landing_planner_node.cpp          | 12 ++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp b/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
index 00b7fd0..ec45586 100644
--- a/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
+++ b/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
@@ -84,7 +84,8 @@ class SafeLandingPlannerNode {
   SafeLandingPlannerVisualization visualizer_;
 
   bool position_received_ = false;
-  bool cloud_transformed_ = false;
+  std::atomic<bool> cloud_transformed_{false};
+  std::atomic<bool> new_cloud_{false};
   double spin_dt_ = 0.1;
 
   dynamic_reconfigure::Server<safe_landing_planner::SafeLandingPlannerNodeConfig> server_;
diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
index e65f81f..4e24944 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
@@ -55,6 +55,7 @@ void SafeLandingPlannerNode::pointCloudCallback(const sensor_msgs::PointCloud2 &
   {
     std::lock_guard<std::mutex> lck(*(cloud_msg_mutex_));
     newest_cloud_msg_ = msg;  // FIXME: avoid a copy
+    new_cloud_ = true;
   }
 
   cloud_ready_cv_->notify_one();
@@ -108,6 +109,11 @@ void SafeLandingPlannerNode::cmdLoopCallback(const ros::TimerEvent &event) {
     safe_landing_planner_->runSafeLandingPlanner();
     cloud_transformed_ = false;
   }
+  {
+    // the worker must not miss that the next cloud is wanted
+    std::lock_guard<std::mutex> lck(*(cloud_msg_mutex_));
+  }
+  cloud_ready_cv_->notify_one();
   visualizer_.visualizeSafeLandingPlanner(*(safe_landing_planner_.get()), current_pose_.pose.position,
                                           previous_pose_.pose.position, rqt_param_config_);
   publishSerialGrid();
@@ -211,14 +217,16 @@ void SafeLandingPlannerNode::pointCloudTransformThread() {
   while (!should_exit_) {
     {
       std::unique_lock<std::mutex> cloud_msg_lock(*(cloud_msg_mutex_));
-      cloud_ready_cv_->wait(cloud_msg_lock);
+      cloud_ready_cv_->wait(cloud_msg_lock, [this]() { return should_exit_ || (new_cloud_ && !cloud_transformed_); });
     }
-    while (cloud_transformed_ == false) {
+    while (new_cloud_ && cloud_transformed_ == false) {
       if (should_exit_) break;
 
       std::unique_ptr<std::lock_guard<std::mutex>> cloud_msg_lock(new std::lock_guard<std::mutex>(*(cloud_msg_mutex_)));
       if (tf_listener_.canTransform("local_origin", newest_cloud_msg_.header.frame_id,
                                     newest_cloud_msg_.header.stamp)) {
+        // each cloud goes into the grid only once
+        new_cloud_ = false;
         try {
           pcl::PointCloud<pcl::PointXYZ> pcl_cloud;
           // transform message to pcl type
-- 
2.43.0


From d3374ed94b1e9d03099f0dd43a89d191c14eef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 20/52] fix: let the landing planner node shut down

---
 .../safe_landing_planner_node.hpp                  |  2 +-
 .../src/nodes/safe_landing_planner_node.cpp        | 14 ++++++++++++++
 .../src/nodes/safe_landing_planner_node_main.cpp   |  2 +-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp b/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
index ec45586..bbb057b 100644
--- a/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
+++ b/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
@@ -29,7 +29,7 @@ namespace avoidance {
 class SafeLandingPlannerNode {
  public:
   SafeLandingPlannerNode(const ros::NodeHandle& nh);
-  ~SafeLandingPlannerNode() = default;
+  ~SafeLandingPlannerNode();
 
   std::unique_ptr<SafeLandingPlanner> safe_landing_planner_;
 
diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
index 4e24944..66b70bf 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
@@ -39,6 +39,19 @@ SafeLandingPlannerNode::SafeLandingPlannerNode(const ros::NodeHandle &nh) : nh_(
   start_time_ = ros::Time::now();
 }
 
+SafeLandingPlannerNode::~SafeLandingPlannerNode() {
+  cmdloop_timer_.stop();
+  if (cmdloop_spinner_) cmdloop_spinner_->stop();
+  if (worker_.joinable()) {
+    {
+      std::lock_guard<std::mutex> lck(*(cloud_msg_mutex_));
+      should_exit_ = true;
+    }
+    cloud_ready_cv_->notify_all();
+    worker_.join();
+  }
+}
+
 void SafeLandingPlannerNode::dynamicReconfigureCallback(safe_landing_planner::SafeLandingPlannerNodeConfig &config,
                                                         uint32_t level) {
   rqt_param_config_ = config;
@@ -93,6 +106,7 @@ void SafeLandingPlannerNode::cmdLoopCallback(const ros::TimerEvent &event) {
       publishSystemStatus();
     }
   }
+  if (!cloud_transformed_) return;  // shutting down
 
   // Check if all information was received
   ros::Time now = ros::Time::now();
diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node_main.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node_main.cpp
index 40c82d4..7eed4d4 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node_main.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node_main.cpp
@@ -7,7 +7,7 @@ int main(int argc, char **argv) {
   SafeLandingPlannerNode NodeSLP(nh);
   NodeSLP.startNode();
 
-  NodeSLP.worker_.join();
+  ros::waitForShutdown();
 
   return 0;
 }
-- 
2.43.0


From d453e7d45d375973cc8896ecd97f185bdf08eb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 21/52] fix: keep reporting the landing planner's status while
 no cloud arrives

---
 .../src/nodes/safe_landing_planner_node.cpp              | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
index 66b70bf..1efade3 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
@@ -97,14 +97,11 @@ void SafeLandingPlannerNode::startNode() {
 void SafeLandingPlannerNode::cmdLoopCallback(const ros::TimerEvent &event) {
   status_msg_.state = static_cast<int>(avoidance::MAV_STATE::MAV_STATE_ACTIVE);
 
-  ros::Time start_query_position = ros::Time::now();
   while (!cloud_transformed_ && ros::ok()) {
     ros::getGlobalCallbackQueue()->callAvailable(ros::WallDuration(0.1));
-    ros::Duration since_query = ros::Time::now() - start_query_position;
-    if (since_query > ros::Duration(safe_landing_planner_->timeout_termination_)) {
-      status_msg_.state = static_cast<int>(avoidance::MAV_STATE::MAV_STATE_FLIGHT_TERMINATION);
-      publishSystemStatus();
-    }
+    ros::Time query_time = ros::Time::now();
+    checkFailsafe(query_time - last_algo_time_, query_time - start_time_);
+    if (query_time - t_status_sent_ > ros::Duration(0.2)) publishSystemStatus();
   }
   if (!cloud_transformed_) return;  // shutting down
 
-- 
2.43.0


From 4b96b99586ebb47e8b3b7697aa3712fdafa7e103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 22/52] fix: no landing grid index outside the grid through
 rounding

---
 safe_landing_planner/src/nodes/safe_landing_planner.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner.cpp b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
index 66849cf..536868f 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
@@ -148,6 +148,10 @@ Eigen::Vector2i SafeLandingPlanner::computeGridIndexes(float x, float y) {
   grid_.getGridLimits(grid_min, grid_max);
   Eigen::Vector2i idx(static_cast<int>(std::floor((x - grid_min.x()) / grid_.getCellSize())),
                       static_cast<int>(std::floor((y - grid_min.y()) / grid_.getCellSize())));
+  // rounding may yield an index just outside for a position at the rim
+  const int max_idx = grid_.getRowColSize() - 1;
+  idx.x() = std::max(0, std::min(idx.x(), max_idx));
+  idx.y() = std::max(0, std::min(idx.y(), max_idx));
   return idx;
 }
 
-- 
2.43.0


From de704c6b2c317dfbc34fa8ae4b685fa1a7f4cd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 23/52] fix: resize both grids when a replayed landing grid
 changes its size

---
 safe_landing_planner/src/nodes/safe_landing_planner.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner.cpp b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
index 536868f..8eb1999 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
@@ -59,6 +59,7 @@ void SafeLandingPlanner::processRawGrid() {
 
   if (grid_.getGridSize() != raw_grid_.grid_size || grid_.getCellSize() != raw_grid_.cell_size) {
     grid_.resize(raw_grid_.grid_size, raw_grid_.cell_size);
+    previous_grid_.resize(raw_grid_.grid_size, raw_grid_.cell_size);
   }
 
   for (int i = 0; i < raw_grid_.mean.layout.dim[0].size; i++) {
-- 
2.43.0


From 8ddd36301dfd41cccba9f0fc1e2602f289575b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:26 +0000
Subject: [PATCH 24/52] fix: allow landing areas when no height difference is
 tolerated

---
 safe_landing_planner/src/nodes/safe_landing_planner.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner.cpp b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
index 8eb1999..ec62f6e 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
@@ -123,8 +123,7 @@ void SafeLandingPlanner::isLandingPossible() {
 
     // threshold each cell based on the number of cells in the neighborhood with
     // mean value difference greater than mean_diff_thr_
-    mean_accumulator = (mean_accumulator.array() <= max_n_mean_diff_cells_).select(1, mean_accumulator);
-    mean_accumulator = (mean_accumulator.array() > max_n_mean_diff_cells_).select(0, mean_accumulator);
+    mean_accumulator = (mean_accumulator.array() <= max_n_mean_diff_cells_).cast<int>().eval();
 
     // logical AND between mean_accumulator and land_accumulator
     land_accumulator = mean_accumulator.cwiseProduct(land_accumulator);
-- 
2.43.0


From f6cdf2c0d19c7cc51338e1a54af611f59ff2b712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:45 +0000
Subject: [PATCH 25/52] fix: only a speed change item of type ground speed sets
 the mission speed

The comparison with 1 (ground speed) lacked the absolute value: an item of type airspeed (0)
was taken for the ground speed of the mission.
---
 avoidance/src/avoidance_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/avoidance/src/avoidance_node.cpp b/avoidance/src/avoidance_node.cpp
index e99065d..288b427 100644
--- a/avoidance/src/avoidance_node.cpp
+++ b/avoidance/src/avoidance_node.cpp
@@ -193,7 +193,7 @@ void AvoidanceNode::missionCallback(const mavros_msgs::WaypointList& msg) {
     if (msg.waypoints[index].is_current) {
       for (int i = index; i >= 0; i--) {
         if (msg.waypoints[i].command == static_cast<int>(MavCommand::MAV_CMD_DO_CHANGE_SPEED) &&
-            (msg.waypoints[i].param1 - 1.0f) < FLT_MIN && msg.waypoints[i].param2 > 0.0f) {
+            std::abs(msg.waypoints[i].param1 - 1.0f) < FLT_MIN && msg.waypoints[i].param2 > 0.0f) {
           // 1MAV_CMD_DO_CHANGE_SPEED, speed type: ground speed, speed valid
           mission_item_speed_ = msg.waypoints[i].param2;
           break;
-- 
2.43.0


From a16afd00d5f51fa7cfe8861b11d4be8715c0dc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:38 +0000
Subject: [PATCH 26/52] fix: resolve the topics of the global planner in the
 public namespace and its parameters in the private one

---
 .../src/nodes/global_planner_node.cpp          | 18 +++++++++---------
 .../src/nodes/global_planner_node_main.cpp     |  4 ++--
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 877907b..7dff225 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -75,21 +75,21 @@ GlobalPlannerNode::~GlobalPlannerNode() {}
 void GlobalPlannerNode::readParams() {
   std::vector<std::string> camera_topics;
 
-  nh_.param<double>("start_pos_x", start_pos_.x, 0.5);
-  nh_.param<double>("start_pos_y", start_pos_.y, 0.5);
-  nh_.param<double>("start_pos_z", start_pos_.z, 3.5);
-  nh_.param<std::string>("frame_id", frame_id_, "local_origin");
-  nh_.getParam("pointcloud_topics", camera_topics);
-  if (!nh_.hasParam("camera_frame_id")) {
-    nh_.setParam("camera_frame_id", "camera_link");
+  nh_private_.param<double>("start_pos_x", start_pos_.x, 0.5);
+  nh_private_.param<double>("start_pos_y", start_pos_.y, 0.5);
+  nh_private_.param<double>("start_pos_z", start_pos_.z, 3.5);
+  nh_private_.param<std::string>("frame_id", frame_id_, "local_origin");
+  nh_private_.getParam("pointcloud_topics", camera_topics);
+  if (!nh_private_.hasParam("camera_frame_id")) {
+    nh_private_.setParam("camera_frame_id", "camera_link");
   } else {
-    nh_.getParam("camera_frame_id", camera_frame_id_);
+    nh_private_.getParam("camera_frame_id", camera_frame_id_);
   }
 
   initializeCameraSubscribers(camera_topics);
   global_planner_.goal_pos_ = GoalCell(start_pos_.x, start_pos_.y, start_pos_.z);
   double robot_radius;
-  nh_.param<double>("robot_radius", robot_radius, 0.5);
+  nh_private_.param<double>("robot_radius", robot_radius, 0.5);
   global_planner_.setFrame(frame_id_);
   global_planner_.setRobotRadius(robot_radius);
 }
diff --git a/global_planner/src/nodes/global_planner_node_main.cpp b/global_planner/src/nodes/global_planner_node_main.cpp
index 5c892ae..10291f7 100644
--- a/global_planner/src/nodes/global_planner_node_main.cpp
+++ b/global_planner/src/nodes/global_planner_node_main.cpp
@@ -3,8 +3,8 @@
 int main(int argc, char** argv) {
   ros::init(argc, argv, "global_planner_node");
 
-  ros::NodeHandle nh("~");
-  ros::NodeHandle nh_private("");
+  ros::NodeHandle nh("");
+  ros::NodeHandle nh_private("~");
 
   global_planner::GlobalPlannerNode global_planner_node(nh, nh_private);
 
-- 
2.43.0


From 003952c8a6ed7053a4e0d0ef1d3d1e207888453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:38 +0000
Subject: [PATCH 27/52] fix: use the default camera frame of the global planner
 when none is given

---
 global_planner/src/nodes/global_planner_node.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 7dff225..21e311d 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -80,11 +80,7 @@ void GlobalPlannerNode::readParams() {
   nh_private_.param<double>("start_pos_z", start_pos_.z, 3.5);
   nh_private_.param<std::string>("frame_id", frame_id_, "local_origin");
   nh_private_.getParam("pointcloud_topics", camera_topics);
-  if (!nh_private_.hasParam("camera_frame_id")) {
-    nh_private_.setParam("camera_frame_id", "camera_link");
-  } else {
-    nh_private_.getParam("camera_frame_id", camera_frame_id_);
-  }
+  nh_private_.param<std::string>("camera_frame_id", camera_frame_id_, "camera_link");
 
   initializeCameraSubscribers(camera_topics);
   global_planner_.goal_pos_ = GoalCell(start_pos_.x, start_pos_.y, start_pos_.z);
-- 
2.43.0


From 82f7811f2dc3fc84933ae66131622514a58d97b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:38 +0000
Subject: [PATCH 28/52] fix: initialise the map resolution, the robot radius
 and the yaw of the global planner

---
 global_planner/include/global_planner/global_planner.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global_planner/include/global_planner/global_planner.h b/global_planner/include/global_planner/global_planner.h
index eaf464c..61baead 100644
--- a/global_planner/include/global_planner/global_planner.h
+++ b/global_planner/include/global_planner/global_planner.h
@@ -59,7 +59,7 @@ class GlobalPlanner {
   // TODO: rename and remove not needed
   std::vector<Cell> path_back_;
   geometry_msgs::Point curr_pos_;
-  double curr_yaw_;
+  double curr_yaw_ = 0.0;
   geometry_msgs::Vector3 curr_vel_;
   GoalCell goal_pos_ = GoalCell(0.5, 0.5, 3.5);
   bool going_back_ = true;  // we start by just finding the start position
@@ -145,8 +145,8 @@ class GlobalPlanner {
   void setRobotRadius(double radius);
 
  private:
-  double robot_radius_;
-  double octree_resolution_;
+  double robot_radius_ = 0.5;
+  double octree_resolution_ = 1.0;
 };
 
 }  // namespace global_planner
-- 
2.43.0


From 80c4c43f519e8617b3826b1b3cda9a8fc0234bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 29/52] fix: keep the last map when the global planner receives
 an unusable one

---
 .../include/global_planner/global_planner.h          |  2 +-
 global_planner/src/library/global_planner.cpp        | 12 +++++++++---
 global_planner/src/nodes/global_planner_node.cpp     |  8 +++++---
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/global_planner/include/global_planner/global_planner.h b/global_planner/include/global_planner/global_planner.h
index 61baead..93be094 100644
--- a/global_planner/include/global_planner/global_planner.h
+++ b/global_planner/include/global_planner/global_planner.h
@@ -108,7 +108,7 @@ class GlobalPlanner {
   void setPath(const std::vector<Cell>& path);
   void setFrame(std::string frame_id);
 
-  void updateFullOctomap(octomap::AbstractOcTree* tree);
+  bool updateFullOctomap(octomap::AbstractOcTree* tree);
 
   void getOpenNeighbors(const Cell& cell, std::vector<CellDistancePair>& neighbors, bool is_3D);
   bool isNearWall(const Cell& cell);
diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index d04f49f..9f1348a 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -63,16 +63,22 @@ void GlobalPlanner::setPath(const std::vector<Cell>& path) {
 
 void GlobalPlanner::setFrame(std::string frame_id) { frame_id_ = frame_id; }
 
-// Returns false iff current path has an obstacle
+// Replaces the map and takes over the ownership of tree, returns false iff tree is not usable, then the old map is kept
 // Going through the octomap can take more than 50 ms for 100m x 100m explored
 // map
-void GlobalPlanner::updateFullOctomap(octomap::AbstractOcTree* tree) {
+bool GlobalPlanner::updateFullOctomap(octomap::AbstractOcTree* tree) {
+  octomap::OcTree* octree = dynamic_cast<octomap::OcTree*>(tree);
+  if (!octree) {
+    delete tree;
+    return false;
+  }
   risk_cache_.clear();
   if (octree_) {
     delete octree_;
   }
-  octree_ = dynamic_cast<octomap::OcTree*>(tree);
+  octree_ = octree;
   octree_resolution_ = octree_->getResolution();
+  return true;
 }
 
 // TODO: simplify and return neighbors
diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 21e311d..b570f0c 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -265,11 +265,13 @@ void GlobalPlannerNode::octomapFullCallback(const octomap_msgs::Octomap& msg) {
   if ((current - last_wp_time_).toSec() < mapupdate_dt_) {
     return;
   }
-  last_wp_time_ = ros::Time::now();
-
   octomap::AbstractOcTree* tree = octomap_msgs::msgToMap(msg);
 
-  global_planner_.updateFullOctomap(tree);
+  if (!global_planner_.updateFullOctomap(tree)) {
+    ROS_WARN("Received a map which is not a valid OcTree, keep the last one");
+    return;
+  }
+  last_wp_time_ = ros::Time::now();
 }
 
 // Go through obstacle points and store them
-- 
2.43.0


From 455e1cf67b53abb6310628df1469ed37158ceac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 30/52] fix: keep the altitude prior within its table for cells
 below the ground and high cells

---
 .../include/global_planner/global_planner.h        |  1 +
 global_planner/src/library/global_planner.cpp      | 14 +++++++++-----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/global_planner/include/global_planner/global_planner.h b/global_planner/include/global_planner/global_planner.h
index 93be094..76a33d6 100644
--- a/global_planner/include/global_planner/global_planner.h
+++ b/global_planner/include/global_planner/global_planner.h
@@ -116,6 +116,7 @@ class GlobalPlanner {
   double getEdgeDist(const Cell& u, const Cell& v);
   double getSingleCellRisk(const Cell& cell);
   double getAltPrior(const Cell& cell);
+  double getAccumulatedAltPrior(const Cell& cell);
   bool isOccupied(const Cell& cell);
   bool isLegal(const Node& node);
   double getRisk(const Cell& cell);
diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index 9f1348a..62aea75 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -169,15 +169,20 @@ double GlobalPlanner::getSingleCellRisk(const Cell& cell) {
 double GlobalPlanner::getAltPrior(const Cell& cell) {
   int index = std::round(cell.zPos());
 
-  if (index > alt_prior_.size() - 1) {
-    return alt_prior_.back();
-  } else if (index < 0) {
+  if (index < 0) {
     return alt_prior_.front();
+  } else if (index > static_cast<int>(alt_prior_.size()) - 1) {
+    return alt_prior_.back();
   } else {
     return alt_prior_.at(index);
   }
 }
 
+double GlobalPlanner::getAccumulatedAltPrior(const Cell& cell) {
+  int last_index = static_cast<int>(accumulated_alt_prior_.size()) - 1;
+  return accumulated_alt_prior_[std::max(0, std::min(cell.zIndex(), last_index))];
+}
+
 bool GlobalPlanner::isOccupied(const Cell& cell) { return getSingleCellRisk(cell) > 0.5; }
 
 bool GlobalPlanner::isLegal(const Node& node) {
@@ -261,8 +266,7 @@ double GlobalPlanner::riskHeuristic(const Cell& u, const Cell& goal) {
   double unexplored_risk = (1.0 + 6.0 * neighbor_risk_flow_) * explore_penalty_ * risk_factor_;
   double xy_dist = u.diagDistance2D(goal) - 1.0;  // XY distance excluding the goal cell
   double xy_risk = xy_dist * unexplored_risk * getAltPrior(u);
-  double z_risk =
-      unexplored_risk * std::abs(accumulated_alt_prior_[u.zIndex()] - accumulated_alt_prior_[goal.zIndex()]);
+  double z_risk = unexplored_risk * std::abs(getAccumulatedAltPrior(u) - getAccumulatedAltPrior(goal));
   // TODO: instead of subtracting 1 from the xy_dist, subtract 1 from the
   // combined xy and z dist
   double goal_risk = getRisk(goal) * risk_factor_;
-- 
2.43.0


From 2aeb4edb1595fe9892628e6dec27ec3fc5d7aff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 31/52] fix: do not look up a clicked point while there is no
 map

---
 global_planner/include/global_planner/analysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/include/global_planner/analysis.h b/global_planner/include/global_planner/analysis.h
index 9ce202b..6d64e66 100644
--- a/global_planner/include/global_planner/analysis.h
+++ b/global_planner/include/global_planner/analysis.h
@@ -116,7 +116,7 @@ void printPointStats(GlobalPlanner* global_planner, double x, double y, double z
   double heuristics = global_planner->getHeuristic(Node(cell, cell), global_planner->goal_pos_);
   ROS_INFO("Heuristics: %2.2f", heuristics);
 
-  octomap::OcTreeNode* node = global_planner->octree_->search(x, y, z);
+  octomap::OcTreeNode* node = global_planner->octree_ ? global_planner->octree_->search(x, y, z) : NULL;
   if (node) {
     double prob = octomap::probability(node->getValue());
     double post_prob = posterior(global_planner->getAltPrior(cell), prob);
-- 
2.43.0


From b482bc91bc32f6d8e231ec3571cb910fd253e6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 32/52] fix: take over mission goals that differ in altitude
 only

---
 global_planner/src/nodes/global_planner_node.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index b570f0c..8025940 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -251,7 +251,8 @@ void GlobalPlannerNode::moveBaseSimpleCallback(const geometry_msgs::PoseStamped&
 void GlobalPlannerNode::fcuInputGoalCallback(const mavros_msgs::Trajectory& msg) {
   const GoalCell new_goal = GoalCell(msg.point_2.position.x, msg.point_2.position.y, msg.point_2.position.z, 1.0);
   if (msg.point_valid[1] == true && ((std::fabs(global_planner_.goal_pos_.xPos() - new_goal.xPos()) > 0.001) ||
-                                     (std::fabs(global_planner_.goal_pos_.yPos() - new_goal.yPos()) > 0.001))) {
+                                     (std::fabs(global_planner_.goal_pos_.yPos() - new_goal.yPos()) > 0.001) ||
+                                     (std::fabs(global_planner_.goal_pos_.zPos() - new_goal.zPos()) > 0.001))) {
     setNewGoal(new_goal);
   }
 }
-- 
2.43.0


From 396d6d73f84a73fc2c2cdd388d0b20dfba1614f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 33/52] fix: ignore goals of the global planner which are not
 finite

---
 global_planner/src/nodes/global_planner_node.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 8025940..30cd5c7 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -245,10 +245,18 @@ void GlobalPlannerNode::clickedPointCallback(const geometry_msgs::PointStamped&
 }
 
 void GlobalPlannerNode::moveBaseSimpleCallback(const geometry_msgs::PoseStamped& msg) {
+  if (!std::isfinite(msg.pose.position.x) || !std::isfinite(msg.pose.position.y)) {
+    return;
+  }
   setNewGoal(GoalCell(msg.pose.position.x, msg.pose.position.y, clicked_goal_alt_, clicked_goal_radius_));
 }
 
 void GlobalPlannerNode::fcuInputGoalCallback(const mavros_msgs::Trajectory& msg) {
+  // A coordinate the flight controller has no value for is not a number
+  if (!std::isfinite(msg.point_2.position.x) || !std::isfinite(msg.point_2.position.y) ||
+      !std::isfinite(msg.point_2.position.z)) {
+    return;
+  }
   const GoalCell new_goal = GoalCell(msg.point_2.position.x, msg.point_2.position.y, msg.point_2.position.z, 1.0);
   if (msg.point_valid[1] == true && ((std::fabs(global_planner_.goal_pos_.xPos() - new_goal.xPos()) > 0.001) ||
                                      (std::fabs(global_planner_.goal_pos_.yPos() - new_goal.yPos()) > 0.001) ||
-- 
2.43.0


From c8aaa72bace67ef3b9c357d9e59c3fa47095b6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 34/52] fix: do not return to the previous goal after a new
 goal was given to the global planner

---
 global_planner/src/nodes/global_planner_node.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 30cd5c7..f6f52b5 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -248,6 +248,7 @@ void GlobalPlannerNode::moveBaseSimpleCallback(const geometry_msgs::PoseStamped&
   if (!std::isfinite(msg.pose.position.x) || !std::isfinite(msg.pose.position.y)) {
     return;
   }
+  waypoints_.clear();  // The temporary goals lead to the previous goal
   setNewGoal(GoalCell(msg.pose.position.x, msg.pose.position.y, clicked_goal_alt_, clicked_goal_radius_));
 }
 
@@ -261,6 +262,7 @@ void GlobalPlannerNode::fcuInputGoalCallback(const mavros_msgs::Trajectory& msg)
   if (msg.point_valid[1] == true && ((std::fabs(global_planner_.goal_pos_.xPos() - new_goal.xPos()) > 0.001) ||
                                      (std::fabs(global_planner_.goal_pos_.yPos() - new_goal.yPos()) > 0.001) ||
                                      (std::fabs(global_planner_.goal_pos_.zPos() - new_goal.zPos()) > 0.001))) {
+    waypoints_.clear();  // The temporary goals lead to the previous goal
     setNewGoal(new_goal);
   }
 }
-- 
2.43.0


From 0351f27e62f0ba6f3326138ee93af0f91016c94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 35/52] fix: pass the margin and the iterations of the path
 simplification in the right order

---
 global_planner/src/nodes/global_planner_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index f6f52b5..021c9f1 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -383,7 +383,7 @@ void GlobalPlannerNode::publishPath() {
   setCurrentPath(path_msg.poses);
   smooth_path_pub_.publish(smoothPath(path_msg));
 
-  auto simple_path = simplifyPath(&global_planner_, global_planner_.curr_path_, simplify_iterations_, simplify_margin_);
+  auto simple_path = simplifyPath(&global_planner_, global_planner_.curr_path_, simplify_margin_, simplify_iterations_);
   auto simple_path_msg = global_planner_.getPathMsg(simple_path);
   global_temp_path_pub_.publish(simple_path_msg);
   setCurrentPath(simple_path_msg.poses);
-- 
2.43.0


From 0209cd095af546903a5022df523ba16a46436b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 36/52] fix: do not simplify the path of the global planner
 through obstacles

---
 global_planner/include/global_planner/search_tools.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global_planner/include/global_planner/search_tools.h b/global_planner/include/global_planner/search_tools.h
index 65ac372..bc76784 100644
--- a/global_planner/include/global_planner/search_tools.h
+++ b/global_planner/include/global_planner/search_tools.h
@@ -91,8 +91,8 @@ std::vector<Cell> simplifyPath(GlobalPlanner* global_planner, std::vector<Cell>&
       // w is the new edge instead of u and v
       double curr_cost = global_planner->getEdgeCost(parent, u) + global_planner->getEdgeCost(u, v);
       double new_cost = global_planner->getEdgeCost(parent, w);
-      if (new_cost > simplify_margin * curr_cost) {
-        // The cost of w is too high, can't simplify this part of the path
+      if (new_cost > simplify_margin * curr_cost || !global_planner->isLegal(w)) {
+        // The cost of w is too high or its way is blocked, can't simplify this part of the path
         simple_path.push_back(curr_path[i - 1]);
       }
       simple_path.push_back(curr_path[i]);
-- 
2.43.0


From cdcd7cef7f827b41a074a83835355e7c53669865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 37/52] fix: send a finite setpoint when the vehicle is exactly
 at the waypoint

---
 global_planner/src/nodes/global_planner_node.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 021c9f1..d287b64 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -417,8 +417,9 @@ void GlobalPlannerNode::publishSetpoint() {
 
   // If we are less than 1.0 away, then we should stop at the goal
   double new_len = vec.length() < 1.0 ? vec.length() : speed_;
-  vec.normalize();
-  vec *= new_len;
+  if (vec.length() > 0.0) {
+    vec *= new_len / vec.length();
+  }
 
   auto setpoint = current_goal_;  // The intermediate position sent to Mavros
   setpoint.pose.position.x = last_pos_.pose.position.x + vec.getX();
-- 
2.43.0


From f1316f150c98d17848e963550f0851123f7bf0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 38/52] fix: do not send setpoints before the first position
 was received

---
 global_planner/include/global_planner/global_planner_node.h | 2 +-
 global_planner/src/nodes/global_planner_node.cpp            | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/global_planner/include/global_planner/global_planner_node.h b/global_planner/include/global_planner/global_planner_node.h
index 3f3c1d4..f1fcbdd 100644
--- a/global_planner/include/global_planner/global_planner_node.h
+++ b/global_planner/include/global_planner/global_planner_node.h
@@ -108,7 +108,7 @@ class GlobalPlannerNode {
   double mapupdate_dt_;
   double speed_;
   double start_yaw_;
-  bool position_received_;
+  bool position_received_ = false;
   std::string frame_id_;
   std::string camera_frame_id_;
 
diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index d287b64..873489b 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -338,7 +338,9 @@ void GlobalPlannerNode::cmdLoopCallback(const ros::TimerEvent& event) {
   ros::Duration since_start = now - start_time_;
 
   avoidance_node_.checkFailsafe(since_last_cloud, since_start, hover_);
-  publishSetpoint();
+  if (position_received_) {
+    publishSetpoint();
+  }
 }
 
 void GlobalPlannerNode::plannerLoopCallback(const ros::TimerEvent& event) {
-- 
2.43.0


From d4d7f1435506b775c9a296dbcb96e9d65694cc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 39/52] fix: initialise the members of the global planner node
 before its loops run

---
 .../src/nodes/global_planner_node.cpp           | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 873489b..1d1bc03 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -45,6 +45,15 @@ GlobalPlannerNode::GlobalPlannerNode(const ros::NodeHandle& nh, const ros::NodeH
 
   actual_path_.header.frame_id = frame_id_;
 
+  // The loops below use these members as soon as their spinners are started
+  current_goal_.header.frame_id = frame_id_;
+  current_goal_.pose.position = start_pos_;
+  current_goal_.pose.orientation = tf::createQuaternionMsgFromYaw(start_yaw_);
+  last_goal_ = current_goal_;
+
+  speed_ = global_planner_.default_speed_;
+  start_time_ = ros::Time::now();
+
   ros::TimerOptions cmdlooptimer_options(ros::Duration(cmdloop_dt_),
                                          boost::bind(&GlobalPlannerNode::cmdLoopCallback, this, _1), &cmdloop_queue_);
   cmdloop_timer_ = nh_.createTimer(cmdlooptimer_options);
@@ -59,14 +68,6 @@ GlobalPlannerNode::GlobalPlannerNode(const ros::NodeHandle& nh, const ros::NodeH
 
   plannerloop_spinner_.reset(new ros::AsyncSpinner(1, &plannerloop_queue_));
   plannerloop_spinner_->start();
-
-  current_goal_.header.frame_id = frame_id_;
-  current_goal_.pose.position = start_pos_;
-  current_goal_.pose.orientation = tf::createQuaternionMsgFromYaw(start_yaw_);
-  last_goal_ = current_goal_;
-
-  speed_ = global_planner_.default_speed_;
-  start_time_ = ros::Time::now();
 }
 
 GlobalPlannerNode::~GlobalPlannerNode() {}
-- 
2.43.0


From 337d0db938d98969773c81c23a009edac1388c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 40/52] fix: stop the loops of the global planner node before
 it is destroyed

---
 global_planner/src/nodes/global_planner_node.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 1d1bc03..287dbe1 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -70,7 +70,13 @@ GlobalPlannerNode::GlobalPlannerNode(const ros::NodeHandle& nh, const ros::NodeH
   plannerloop_spinner_->start();
 }
 
-GlobalPlannerNode::~GlobalPlannerNode() {}
+GlobalPlannerNode::~GlobalPlannerNode() {
+  // No loop may run while the members are destroyed
+  cmdloop_timer_.stop();
+  plannerloop_timer_.stop();
+  cmdloop_spinner_->stop();
+  plannerloop_spinner_->stop();
+}
 
 // Read Ros parameters
 void GlobalPlannerNode::readParams() {
-- 
2.43.0


From 43774c6f9c5a95939f1cc0801b45561a3d4f4bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 41/52] fix: let the vehicle stop when the global planner has
 stopped

---
 global_planner/src/nodes/global_planner_node.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 287dbe1..10f37d3 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -323,7 +323,13 @@ void GlobalPlannerNode::depthCameraCallback(const sensor_msgs::PointCloud2& msg)
 void GlobalPlannerNode::setCurrentPath(const std::vector<geometry_msgs::PoseStamped>& poses) {
   path_.clear();
 
-  if (poses.size() < 2) {
+  if (poses.size() == 1) {
+    // The planner has stopped, stay there
+    last_goal_ = current_goal_;
+    current_goal_ = poses[0];
+    return;
+  }
+  if (poses.empty()) {
     ROS_INFO("  Received empty path\n");
     return;
   }
-- 
2.43.0


From e034f6ecce3e5e3766b01d51b2b619bf68fedead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 42/52] fix: do not lead the way at the maximum altitude
 through blocked cells

---
 global_planner/include/global_planner/search_tools.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/global_planner/include/global_planner/search_tools.h b/global_planner/include/global_planner/search_tools.h
index bc76784..d060f00 100644
--- a/global_planner/include/global_planner/search_tools.h
+++ b/global_planner/include/global_planner/search_tools.h
@@ -207,6 +207,10 @@ bool find2DPath(GlobalPlanner* global_planner, std::vector<Cell>& path, const Ce
   std::vector<Cell> up_path;
   Cell above_s(Cell(s.xIndex(), s.yIndex(), alt));
   Cell above_t(Cell(t.xIndex(), t.yIndex(), alt));
+  if (global_planner->getRisk(above_s) > global_planner->max_cell_risk_ ||
+      global_planner->getRisk(above_t) > global_planner->max_cell_risk_) {
+    return false;  // The searches below do not check the risk of their end
+  }
   bool found_up_path = findPathOld(global_planner, up_path, s, above_s, s, true);
   std::vector<Cell> down_path;
   bool found_down_path = findPathOld(global_planner, down_path, above_t, t, above_t, true);
-- 
2.43.0


From b5ebf87825bcd134fb1c2bdda66be9253d80b94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 43/52] fix: keep the configured number of iterations after a
 search at the maximum altitude

---
 global_planner/src/library/global_planner.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index 62aea75..a986534 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -482,8 +482,10 @@ bool GlobalPlanner::findPath(std::vector<Cell>& path) {
   // Last resort, try 2d search at max_altitude_
   if (!found_path) {
     printf("No path found, search in 2D \n");
+    int max_iterations = max_iterations_;
     max_iterations_ = 5000;
     found_path = find2DPath(this, path, s, t, parent_of_s, max_altitude_);
+    max_iterations_ = max_iterations;
   }
 
   return found_path;
-- 
2.43.0


From 633e97f72600dc55ba190c3c534140f9e20d4357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 44/52] fix: do not search for ever when the start is in the
 goal and no overestimation is allowed

---
 global_planner/src/library/global_planner.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index a986534..013502c 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -475,6 +475,9 @@ bool GlobalPlanner::findPath(std::vector<Cell>& path) {
       break;
     }
     last_iter = search_info.num_iter;
+    if (last_iter == 0) {
+      break;  // The start is in the goal already, there is no better path
+    }
     iter_left -= last_iter;
     overestimate_factor_ = (overestimate_factor_ - 1.0) / 4.0 + 1.0;
   }
-- 
2.43.0


From 506e2662f12e4e33eb0e11ae3c8c6f4fc3725ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 45/52] fix: keep the risk neighbourhood of a large vehicle
 finite

---
 global_planner/src/library/cell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/library/cell.cpp b/global_planner/src/library/cell.cpp
index 80aeacb..fe5d395 100644
--- a/global_planner/src/library/cell.cpp
+++ b/global_planner/src/library/cell.cpp
@@ -67,7 +67,7 @@ std::vector<Cell> Cell::getFlowNeighbors(int radius) const {
   std::vector<Cell> cells;
   auto ceilDistance = [](int radius, int x, int y) {
     auto sqr = [](int i) { return double(i * i); };
-    return static_cast<int>(std::ceil(std::sqrt(sqr(radius) - sqr(x) - sqr(y))));
+    return static_cast<int>(std::ceil(std::sqrt(std::max(0.0, sqr(radius) - sqr(x) - sqr(y)))));
   };
   for (int x = -radius; x <= radius; x++) {
     int y_radius = ceilDistance(radius, x, 0);
-- 
2.43.0


From 8305af6378e094dcb8fea13e0b4f1b407addb4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 46/52] fix: ignore the current yaw when configured to

---
 global_planner/src/library/global_planner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index 013502c..fbfec52 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -430,7 +430,7 @@ bool GlobalPlanner::findPath(std::vector<Cell>& path) {
   // behind the start cell Cell parent_of_s = Cell(curr_pos_);
   Cell parent_of_s(subtractPoints(curr_pos_, scalePoint(curr_vel_, search_time_)));
   if (!use_current_yaw_) {
-    Cell parent_of_s = s;  // Ignore the current yaw
+    parent_of_s = s;  // Ignore the current yaw
   }
 
   ROS_INFO("Planning a path from %s to %s", s.asString().c_str(), t.asString().c_str());
-- 
2.43.0


From 6a54cfaa8009ac24ad9bb639d71d929444055ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:48 +0000
Subject: [PATCH 47/52] fix: take over the search mode of the global planner at
 start-up and together with other parameters

---
 global_planner/src/nodes/global_planner_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 10f37d3..a9e1172 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -194,7 +194,7 @@ void GlobalPlannerNode::dynamicReconfigureCallback(global_planner::GlobalPlanner
   }
 
   // node
-  if (level == 4) {
+  if (level & 4) {
     SPEEDNODE_RADIUS = config.SPEEDNODE_RADIUS;
     global_planner_.default_node_type_ = config.default_node_type_;
   }
-- 
2.43.0


From 052778b0ec226e8337924ea2f09f9f5b26561e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:59 +0000
Subject: [PATCH 48/52] fix: guard what the threads of the global planner node
 share

---
 .../global_planner/global_planner_node.h      |  4 +-
 .../src/nodes/global_planner_node.cpp         | 54 +++++++++++++++----
 2 files changed, 46 insertions(+), 12 deletions(-)

diff --git a/global_planner/include/global_planner/global_planner_node.h b/global_planner/include/global_planner/global_planner_node.h
index f1fcbdd..4b6a9bd 100644
--- a/global_planner/include/global_planner/global_planner_node.h
+++ b/global_planner/include/global_planner/global_planner_node.h
@@ -51,7 +51,8 @@ class GlobalPlannerNode {
   ~GlobalPlannerNode();
 
  private:
-  std::mutex mutex_;
+  std::mutex mutex_;           // guards global_planner_, waypoints_ and the parameters, locked while planning
+  std::mutex setpoint_mutex_;  // guards the pose and velocity, path_, the goals of the path, speed_ and last_wp_time_
 
   ros::NodeHandle nh_;
   ros::NodeHandle nh_private_;
@@ -96,6 +97,7 @@ class GlobalPlannerNode {
   geometry_msgs::PoseStamped current_goal_;
   geometry_msgs::PoseStamped last_goal_;
   geometry_msgs::PoseStamped last_pos_;
+  geometry_msgs::Vector3 last_vel_;
 
   std::vector<geometry_msgs::PoseStamped> last_clicked_points;
   std::vector<geometry_msgs::PoseStamped> path_;
diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index a9e1172..21d346a 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -158,6 +158,8 @@ void GlobalPlannerNode::setIntermediateGoal() {
 }
 
 void GlobalPlannerNode::dynamicReconfigureCallback(global_planner::GlobalPlannerNodeConfig& config, uint32_t level) {
+  std::lock_guard<std::mutex> lock(mutex_);
+
   // global_planner_
   global_planner_.min_altitude_ = config.min_altitude_;
   global_planner_.max_altitude_ = config.max_altitude_;
@@ -201,14 +203,16 @@ void GlobalPlannerNode::dynamicReconfigureCallback(global_planner::GlobalPlanner
 }
 
 void GlobalPlannerNode::velocityCallback(const geometry_msgs::TwistStamped& msg) {
-  global_planner_.curr_vel_ = msg.twist.linear;
+  std::lock_guard<std::mutex> lock(setpoint_mutex_);
+  last_vel_ = msg.twist.linear;
 }
 
 // Sets the current position and checks if the current goal has been reached
 void GlobalPlannerNode::positionCallback(const geometry_msgs::PoseStamped& msg) {
+  std::lock_guard<std::mutex> lock(setpoint_mutex_);
+
   // Update position
   last_pos_ = msg;
-  global_planner_.setPose(last_pos_);
 
   // Check if a new goal is needed
   if (num_pos_msg_++ % 10 == 0) {
@@ -242,12 +246,13 @@ void GlobalPlannerNode::positionCallback(const geometry_msgs::PoseStamped& msg)
 }
 
 void GlobalPlannerNode::clickedPointCallback(const geometry_msgs::PointStamped& msg) {
+  std::lock_guard<std::mutex> lock(mutex_);
   printPointInfo(msg.point.x, msg.point.y, msg.point.z);
 
   geometry_msgs::PoseStamped pose;
   pose.header = msg.header;
   pose.pose.position = msg.point;
-  pose.pose.position.z = global_planner_.curr_pos_.z;
+  pose.pose.position.z = last_pos_.pose.position.z;
   last_clicked_points.push_back(pose);
 }
 
@@ -255,6 +260,7 @@ void GlobalPlannerNode::moveBaseSimpleCallback(const geometry_msgs::PoseStamped&
   if (!std::isfinite(msg.pose.position.x) || !std::isfinite(msg.pose.position.y)) {
     return;
   }
+  std::lock_guard<std::mutex> lock(mutex_);
   waypoints_.clear();  // The temporary goals lead to the previous goal
   setNewGoal(GoalCell(msg.pose.position.x, msg.pose.position.y, clicked_goal_alt_, clicked_goal_radius_));
 }
@@ -265,6 +271,7 @@ void GlobalPlannerNode::fcuInputGoalCallback(const mavros_msgs::Trajectory& msg)
       !std::isfinite(msg.point_2.position.z)) {
     return;
   }
+  std::lock_guard<std::mutex> lock(mutex_);
   const GoalCell new_goal = GoalCell(msg.point_2.position.x, msg.point_2.position.y, msg.point_2.position.z, 1.0);
   if (msg.point_valid[1] == true && ((std::fabs(global_planner_.goal_pos_.xPos() - new_goal.xPos()) > 0.001) ||
                                      (std::fabs(global_planner_.goal_pos_.yPos() - new_goal.yPos()) > 0.001) ||
@@ -289,6 +296,7 @@ void GlobalPlannerNode::octomapFullCallback(const octomap_msgs::Octomap& msg) {
     ROS_WARN("Received a map which is not a valid OcTree, keep the last one");
     return;
   }
+  std::lock_guard<std::mutex> setpoint_lock(setpoint_mutex_);
   last_wp_time_ = ros::Time::now();
 }
 
@@ -306,11 +314,14 @@ void GlobalPlannerNode::depthCameraCallback(const sensor_msgs::PointCloud2& msg)
     pcl::fromROSMsg(transformed_msg, cloud);
 
     // Store the obstacle points
-    for (const auto& p : cloud) {
-      if (!std::isnan(p.x)) {
-        // TODO: Not all points end up here
-        Cell occupied_cell(p.x, p.y, p.z);
-        global_planner_.occupied_.insert(occupied_cell);
+    {
+      std::lock_guard<std::mutex> lock(mutex_);
+      for (const auto& p : cloud) {
+        if (!std::isnan(p.x)) {
+          // TODO: Not all points end up here
+          Cell occupied_cell(p.x, p.y, p.z);
+          global_planner_.occupied_.insert(occupied_cell);
+        }
       }
     }
     pointcloud_pub_.publish(msg);
@@ -321,6 +332,7 @@ void GlobalPlannerNode::depthCameraCallback(const sensor_msgs::PointCloud2& msg)
 }
 
 void GlobalPlannerNode::setCurrentPath(const std::vector<geometry_msgs::PoseStamped>& poses) {
+  std::lock_guard<std::mutex> lock(setpoint_mutex_);
   path_.clear();
 
   if (poses.size() == 1) {
@@ -347,17 +359,30 @@ void GlobalPlannerNode::cmdLoopCallback(const ros::TimerEvent& event) {
   // Check if all information was received
   ros::Time now = ros::Time::now();
 
-  ros::Duration since_last_cloud = now - last_wp_time_;
+  ros::Duration since_last_cloud;
   ros::Duration since_start = now - start_time_;
+  bool position_received;
+  {
+    std::lock_guard<std::mutex> lock(setpoint_mutex_);
+    since_last_cloud = now - last_wp_time_;
+    position_received = position_received_;
+  }
 
   avoidance_node_.checkFailsafe(since_last_cloud, since_start, hover_);
-  if (position_received_) {
+  if (position_received) {
     publishSetpoint();
   }
 }
 
 void GlobalPlannerNode::plannerLoopCallback(const ros::TimerEvent& event) {
   std::lock_guard<std::mutex> lock(mutex_);
+  {
+    std::lock_guard<std::mutex> setpoint_lock(setpoint_mutex_);
+    if (position_received_) {
+      global_planner_.setPose(last_pos_);
+    }
+    global_planner_.curr_vel_ = last_vel_;
+  }
   bool is_in_goal = global_planner_.goal_pos_.withinPositionRadius(global_planner_.curr_pos_);
   if (is_in_goal || global_planner_.goal_is_blocked_) {
     popNextGoal();
@@ -369,6 +394,7 @@ void GlobalPlannerNode::plannerLoopCallback(const ros::TimerEvent& event) {
   if (is_in_goal && !waypoints_.empty()) {
     ROS_INFO("Reached current goal %s, %d goals left\n\n", global_planner_.goal_pos_.asString().c_str(),
              (int)waypoints_.size());
+    std::lock_guard<std::mutex> setpoint_lock(setpoint_mutex_);
     ROS_INFO("Actual travel distance: %2.2f \t Actual energy usage: %2.2f", pathLength(actual_path_),
              pathEnergy(actual_path_, global_planner_.up_cost_));
   }
@@ -412,9 +438,15 @@ void GlobalPlannerNode::printPointInfo(double x, double y, double z) {
 }
 
 void GlobalPlannerNode::publishSetpoint() {
+  // The speed cannot be updated while a path is planned, keep the last one then
+  std::unique_lock<std::mutex> lock(mutex_, std::try_to_lock);
+  std::lock_guard<std::mutex> setpoint_lock(setpoint_mutex_);
+
   // Vector pointing from current position to the current goal
   tf::Vector3 vec = toTfVector3(subtractPoints(current_goal_.pose.position, last_pos_.pose.position));
-  if (global_planner_.use_speedup_heuristics_) {
+  if (!lock.owns_lock()) {
+    ROS_DEBUG("Planning, keep the speed");
+  } else if (global_planner_.use_speedup_heuristics_) {
     Cell cur_cell =
         global_planner::Cell(last_pos_.pose.position.x, last_pos_.pose.position.y, last_pos_.pose.position.z);
     double cur_risk = std::sqrt(global_planner_.getRisk(cur_cell));
-- 
2.43.0


From 5ea861825394a499160659f7375f14736e96a6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:44 +0000
Subject: [PATCH 49/52] fix: no data race on the companion status and the
 mission speed

---
 avoidance/include/avoidance/avoidance_node.h | 5 +++--
 avoidance/src/avoidance_node.cpp             | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/avoidance/include/avoidance/avoidance_node.h b/avoidance/include/avoidance/avoidance_node.h
index b5f8024..9d80c61 100644
--- a/avoidance/include/avoidance/avoidance_node.h
+++ b/avoidance/include/avoidance/avoidance_node.h
@@ -67,7 +67,8 @@ class AvoidanceNode {
   std::unique_ptr<ros::AsyncSpinner> cmdloop_spinner_;
   std::unique_ptr<ros::AsyncSpinner> statusloop_spinner_;
 
-  MAV_STATE companion_state_ = MAV_STATE::MAV_STATE_STANDBY;
+  // written and read by the loops of the owner, the status loop and the callbacks
+  std::atomic<MAV_STATE> companion_state_{MAV_STATE::MAV_STATE_STANDBY};
 
   ModelParameters px4_;  // PX4 Firmware paramters
   std::unique_ptr<std::mutex> param_cb_mutex_;
@@ -84,7 +85,7 @@ class AvoidanceNode {
   bool position_received_;
   std::atomic<bool> should_exit_;
 
-  float mission_item_speed_;
+  std::atomic<float> mission_item_speed_;
 
   void cmdLoopCallback(const ros::TimerEvent& event);
   void statusLoopCallback(const ros::TimerEvent& event);
diff --git a/avoidance/src/avoidance_node.cpp b/avoidance/src/avoidance_node.cpp
index 288b427..8b63185 100644
--- a/avoidance/src/avoidance_node.cpp
+++ b/avoidance/src/avoidance_node.cpp
@@ -69,7 +69,7 @@ void AvoidanceNode::publishSystemStatus() {
   mavros_msgs::CompanionProcessStatus status_msg;
   status_msg.header.stamp = ros::Time::now();
   status_msg.component = 196;  // MAV_COMPONENT_ID_AVOIDANCE
-  status_msg.state = (int)companion_state_;
+  status_msg.state = static_cast<int>(companion_state_.load());
 
   mavros_system_status_pub_.publish(status_msg);
 }
-- 
2.43.0


From da7d282fde5e216c34964f2277b688ac13681de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:17 +0000
Subject: [PATCH 50/52] fix: guard what the threads of LocalPlannerNodelet
 share

The position, velocity, orientation, armed and navigation state of the vehicle
are written by the callbacks and read by the planner thread and the setpoint
loop; newest_waypoint_position_ was read by the planner thread without the
mutex the setpoint loop holds; the smoothing speed and the termination timeout
are reconfigured while the setpoint loop reads them.
---
 .../include/local_planner/local_planner.h     |  3 +-
 .../local_planner/local_planner_nodelet.h     |  7 ++-
 .../local_planner/waypoint_generator.h        |  1 +
 .../src/nodes/local_planner_nodelet.cpp       | 48 ++++++++++++++-----
 4 files changed, 44 insertions(+), 15 deletions(-)

diff --git a/local_planner/include/local_planner/local_planner.h b/local_planner/include/local_planner/local_planner.h
index a14a2db..96f0085 100644
--- a/local_planner/include/local_planner/local_planner.h
+++ b/local_planner/include/local_planner/local_planner.h
@@ -23,6 +23,7 @@
 #include <nav_msgs/Path.h>
 
 #include <ros/time.h>
+#include <atomic>
 #include <deque>
 #include <string>
 #include <vector>
@@ -95,7 +96,7 @@ class LocalPlanner {
 
   double timeout_startup_ = 20.0;
   double timeout_critical_ = 0.5;
-  double timeout_termination_ = 20.0;
+  std::atomic<double> timeout_termination_{20.0};  // read by the setpoint loop while it is reconfigured
   float speed_ = 1.0f;
   float mission_item_speed_ = NAN;
 
diff --git a/local_planner/include/local_planner/local_planner_nodelet.h b/local_planner/include/local_planner/local_planner_nodelet.h
index 927b157..db2e947 100644
--- a/local_planner/include/local_planner/local_planner_nodelet.h
+++ b/local_planner/include/local_planner/local_planner_nodelet.h
@@ -103,7 +103,7 @@ class LocalPlannerNodelet : public nodelet::Nodelet {
   std::mutex running_mutex_;  ///< guard against concurrent access to input &
                               /// output data (point cloud, position, ...)
 
-  bool position_received_ = false;
+  std::atomic<bool> position_received_{false};
 
   /**
   * @brief     handles threads for data publication and subscription
@@ -211,7 +211,10 @@ class LocalPlannerNodelet : public nodelet::Nodelet {
   std::mutex goal_mutex_;  ///< guards the goal, shared by the callbacks, the planner thread and the setpoint loop
   bool new_goal_ = false;
 
-  std::mutex waypoints_mutex_;
+  std::mutex vehicle_mutex_;  ///< guards the state of the vehicle, written by the callbacks and read by the planner
+                              /// thread and the setpoint loop
+
+  std::mutex waypoints_mutex_;  ///< guards the waypoints, computed by the setpoint loop and read by the planner thread
   Eigen::Vector3f newest_waypoint_position_ = Eigen::Vector3f::Zero();
   Eigen::Vector3f last_waypoint_position_ = Eigen::Vector3f::Zero();
   Eigen::Vector3f newest_adapted_waypoint_position_ = Eigen::Vector3f::Zero();
diff --git a/local_planner/include/local_planner/waypoint_generator.h b/local_planner/include/local_planner/waypoint_generator.h
index 15b7c0b..0564106 100644
--- a/local_planner/include/local_planner/waypoint_generator.h
+++ b/local_planner/include/local_planner/waypoint_generator.h
@@ -173,6 +173,7 @@ class WaypointGenerator : public usm::StateMachine<PlannerState> {
   * @param[in] smoothing_speed_z, set to 0 to disable
   **/
   void setSmoothingSpeed(float smoothing_speed_xy, float smoothing_speed_z) {
+    std::lock_guard<std::mutex> lock(running_mutex_);
     smoothing_speed_xy_ = smoothing_speed_xy;
     smoothing_speed_z_ = smoothing_speed_z;
   }
diff --git a/local_planner/src/nodes/local_planner_nodelet.cpp b/local_planner/src/nodes/local_planner_nodelet.cpp
index b949541..39e82a6 100644
--- a/local_planner/src/nodes/local_planner_nodelet.cpp
+++ b/local_planner/src/nodes/local_planner_nodelet.cpp
@@ -189,11 +189,14 @@ void LocalPlannerNodelet::updatePlannerInfo() {
     }
   }
 
-  // update pose
-  local_planner_->setState(newest_position_, velocity_, newest_orientation_);
+  {
+    std::lock_guard<std::mutex> vehicle_guard(vehicle_mutex_);
+    // update pose
+    local_planner_->setState(newest_position_, velocity_, newest_orientation_);
 
-  // update state
-  local_planner_->currently_armed_ = armed_;
+    // update state
+    local_planner_->currently_armed_ = armed_;
+  }
 
   // update goal
   {
@@ -205,8 +208,11 @@ void LocalPlannerNodelet::updatePlannerInfo() {
     }
   }
 
-  // update last sent waypoint
-  local_planner_->last_sent_waypoint_ = newest_waypoint_position_;
+  {
+    std::lock_guard<std::mutex> waypoints_guard(waypoints_mutex_);
+    // update last sent waypoint
+    local_planner_->last_sent_waypoint_ = newest_waypoint_position_;
+  }
 
   // update the Firmware parameters
   local_planner_->px4_ = avoidance_node_->getPX4Parameters();
@@ -214,6 +220,7 @@ void LocalPlannerNodelet::updatePlannerInfo() {
 }
 
 void LocalPlannerNodelet::positionCallback(const geometry_msgs::PoseStamped& msg) {
+  std::lock_guard<std::mutex> vehicle_guard(vehicle_mutex_);
   last_position_ = newest_position_;
   newest_position_ = toEigen(msg.pose.position);
   newest_orientation_ = toEigen(msg.pose.orientation);
@@ -222,10 +229,12 @@ void LocalPlannerNodelet::positionCallback(const geometry_msgs::PoseStamped& msg
 }
 
 void LocalPlannerNodelet::velocityCallback(const geometry_msgs::TwistStamped& msg) {
+  std::lock_guard<std::mutex> vehicle_guard(vehicle_mutex_);
   velocity_ = toEigen(msg.twist.linear);
 }
 
 void LocalPlannerNodelet::stateCallback(const mavros_msgs::State& msg) {
+  std::lock_guard<std::mutex> vehicle_guard(vehicle_mutex_);
   armed_ = msg.armed;
 
   if (msg.mode == "AUTO.MISSION") {
@@ -302,9 +311,12 @@ void LocalPlannerNodelet::setSystemStatus(MAV_STATE state) { avoidance_node_->se
 MAV_STATE LocalPlannerNodelet::getSystemStatus() { return avoidance_node_->getSystemStatus(); }
 
 void LocalPlannerNodelet::calculateWaypoints(bool hover) {
-  bool is_airborne = armed_ && (nav_state_ != NavigationState::none);
-
+  Eigen::Vector3f position, last_position;
   {
+    std::lock_guard<std::mutex> vehicle_guard(vehicle_mutex_);
+    position = newest_position_;
+    last_position = last_position_;
+    bool is_airborne = armed_ && (nav_state_ != NavigationState::none);
     std::lock_guard<std::mutex> goal_guard(goal_mutex_);
     wp_generator_->updateState(newest_position_, newest_orientation_, goal_position_, prev_goal_position_, velocity_,
                                hover, is_airborne, nav_state_, is_land_waypoint_, is_takeoff_waypoint_,
@@ -323,10 +335,10 @@ void LocalPlannerNodelet::calculateWaypoints(bool hover) {
 
   // visualize waypoint topics
   visualizer_.visualizeWaypoints(result.goto_position, result.adapted_goto_position, result.smoothed_goto_position);
-  visualizer_.publishPaths(last_position_, newest_position_, last_waypoint_position_, newest_waypoint_position_,
+  visualizer_.publishPaths(last_position, position, last_waypoint_position_, newest_waypoint_position_,
                            last_adapted_waypoint_position_, newest_adapted_waypoint_position_);
   visualizer_.publishCurrentSetpoint(toTwist(result.linear_velocity_wp, result.angular_velocity_wp),
-                                     result.waypoint_type, newest_position_);
+                                     result.waypoint_type, position);
 
   visualizer_.publishOfftrackPoints(closest_pt, deg60_pt);
 
@@ -499,8 +511,20 @@ void LocalPlannerNodelet::threadFunction() {
       updatePlannerInfo();
       local_planner_->runPlanner();
 
-      visualizer_.visualizePlannerData(*(local_planner_.get()), newest_waypoint_position_,
-                                       newest_adapted_waypoint_position_, newest_position_, newest_orientation_);
+      Eigen::Vector3f waypoint_position, adapted_waypoint_position, position;
+      Eigen::Quaternionf orientation;
+      {
+        std::lock_guard<std::mutex> lock(waypoints_mutex_);
+        waypoint_position = newest_waypoint_position_;
+        adapted_waypoint_position = newest_adapted_waypoint_position_;
+      }
+      {
+        std::lock_guard<std::mutex> vehicle_guard(vehicle_mutex_);
+        position = newest_position_;
+        orientation = newest_orientation_;
+      }
+      visualizer_.visualizePlannerData(*(local_planner_.get()), waypoint_position, adapted_waypoint_position, position,
+                                       orientation);
       publishLaserScan();
 
       std::lock_guard<std::mutex> lock(waypoints_mutex_);
-- 
2.43.0


From 598697209e140a62946477fc3e5c9e2176f84a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:22 +0000
Subject: [PATCH 51/52] fix: initialise what the waypoint generator sends
 before the planner has run

The angular velocity of the setpoint was never written and the cruise velocity
not before the first run of the planner, so that the yaw rate and the first
waypoints sent to the flight controller depended on what the memory happened
to hold.
---
 local_planner/include/local_planner/avoidance_output.h   | 5 +++--
 local_planner/include/local_planner/waypoint_generator.h | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/local_planner/include/local_planner/avoidance_output.h b/local_planner/include/local_planner/avoidance_output.h
index 372faa8..b1c276f 100644
--- a/local_planner/include/local_planner/avoidance_output.h
+++ b/local_planner/include/local_planner/avoidance_output.h
@@ -3,6 +3,7 @@
 #include <ros/time.h>
 #include <Eigen/Dense>
 
+#include <cmath>
 #include <vector>
 
 namespace avoidance {
@@ -10,8 +11,8 @@ namespace avoidance {
 enum waypoint_choice { hover, tryPath, direct, reachHeight };
 
 struct avoidanceOutput {
-  float cruise_velocity;     // mission cruise velocity
-  ros::Time last_path_time;  // finish built time for the VFH+* tree
+  float cruise_velocity = NAN;  // mission cruise velocity, not known until the planner has run
+  ros::Time last_path_time;     // finish built time for the VFH+* tree
 
   std::vector<Eigen::Vector3f> path_node_positions;  // array of tree nodes
                                                      // position, each node
diff --git a/local_planner/include/local_planner/waypoint_generator.h b/local_planner/include/local_planner/waypoint_generator.h
index 0564106..d1c0fe3 100644
--- a/local_planner/include/local_planner/waypoint_generator.h
+++ b/local_planner/include/local_planner/waypoint_generator.h
@@ -22,7 +22,7 @@ struct waypointResult {
   Eigen::Vector3f position_wp;
   Eigen::Quaternionf orientation_wp;
   Eigen::Vector3f linear_velocity_wp;
-  Eigen::Vector3f angular_velocity_wp;
+  Eigen::Vector3f angular_velocity_wp = Eigen::Vector3f(NAN, NAN, NAN);  // not set, the yaw is
   Eigen::Vector3f goto_position;           // correction direction, dist=1
   Eigen::Vector3f adapted_goto_position;   // correction direction & dist
   Eigen::Vector3f smoothed_goto_position;  // what is sent to the drone
-- 
2.43.0


From dedb59bf3c94c6facfca4b63f0d7be89bbebc94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:03 +0000
Subject: [PATCH 52/52] fix: do not command more than the allowed speed within
 1 m of the goal

---
 local_planner/src/nodes/waypoint_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/local_planner/src/nodes/waypoint_generator.cpp b/local_planner/src/nodes/waypoint_generator.cpp
index 730168f..d7aa199 100644
--- a/local_planner/src/nodes/waypoint_generator.cpp
+++ b/local_planner/src/nodes/waypoint_generator.cpp
@@ -355,7 +355,7 @@ void WaypointGenerator::adaptSpeed(float dt) {
   float goal_dist = (goal_ - position_).norm();
   if (goal_dist < 1.f) {
     output_.goto_position = goal_;
-    speed_ = goal_dist;
+    speed_ = std::min(speed_, goal_dist);
     // First time we reach this goal, remember the heading
     if (!std::isfinite(heading_at_goal_rad_)) {
       heading_at_goal_rad_ = curr_yaw_rad_;
-- 
2.43.0

