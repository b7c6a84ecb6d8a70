From 294dbdca2e6bd6901f24a606e3a998aca4059c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:51 +0000
Subject: [PATCH 01/11] fix: keep integer components exact when a grid vector
 is built from integers

Integer arguments after the first were converted through float and lround, so
components beyond 2^24 were silently rounded.
---
 planner_cspace/include/planner_cspace/cyclic_vec.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/planner_cspace/include/planner_cspace/cyclic_vec.h b/planner_cspace/include/planner_cspace/cyclic_vec.h
index 28aa023..f7157f4 100644
--- a/planner_cspace/include/planner_cspace/cyclic_vec.h
+++ b/planner_cspace/include/planner_cspace/cyclic_vec.h
@@ -37,6 +37,7 @@
 #include <list>
 #include <map>
 #include <memory>
+#include <type_traits>
 #include <unordered_map>
 #include <vector>
 
@@ -57,6 +58,11 @@ inline void convert(const int val, float& ret)
 {
   ret = val;
 }
+template <typename T>
+typename std::enable_if<std::is_integral<T>::value>::type convert(const T val, int& ret)
+{
+  ret = static_cast<int>(val);
+}
 inline void convert(const float val, int& ret)
 {
   ret = std::lround(val);
-- 
2.43.0


From 6f61bf096943f8c3d7f18f11ba08489770848f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:55 +0000
Subject: [PATCH 02/11] fix: search one task at a time unless told otherwise,
 also when built with a size

---
 planner_cspace/include/planner_cspace/grid_astar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner_cspace/include/planner_cspace/grid_astar.h b/planner_cspace/include/planner_cspace/grid_astar.h
index 4536a0a..36a4a01 100644
--- a/planner_cspace/include/planner_cspace/grid_astar.h
+++ b/planner_cspace/include/planner_cspace/grid_astar.h
@@ -157,9 +157,9 @@ public:
   {
   }
   explicit GridAstar(const Vec size)
+    : GridAstar()
   {
     reset(size);
-    queue_size_limit_ = 0;
   }
   void setQueueSizeLimit(const size_t size)
   {
-- 
2.43.0


From a732fe167b27d95130902d25c39d9d03dbcfc7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:19 +0000
Subject: [PATCH 03/11] fix: do not transform the accumulated cloud of
 safety_limiter in place

The cloud stays labelled with the fixed frame, so a second prediction before
the next cloud transformed it to the base frame twice.
---
 safety_limiter/src/safety_limiter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/safety_limiter/src/safety_limiter.cpp b/safety_limiter/src/safety_limiter.cpp
index ea1307e..ed4ffd2 100644
--- a/safety_limiter/src/safety_limiter.cpp
+++ b/safety_limiter/src/safety_limiter.cpp
@@ -391,11 +391,12 @@ protected:
             fixed_to_base.transform.rotation.x,
             fixed_to_base.transform.rotation.y,
             fixed_to_base.transform.rotation.z);
-    pcl::transformPointCloud(*cloud_accum_, *cloud_accum_, fixed_to_base_eigen);
+    pcl::PointCloud<pcl::PointXYZ>::Ptr cloud_base(new pcl::PointCloud<pcl::PointXYZ>);
+    pcl::transformPointCloud(*cloud_accum_, *cloud_base, fixed_to_base_eigen);
 
     pcl::PointCloud<pcl::PointXYZ>::Ptr pc(new pcl::PointCloud<pcl::PointXYZ>);
     pcl::VoxelGrid<pcl::PointXYZ> ds;
-    ds.setInputCloud(cloud_accum_);
+    ds.setInputCloud(cloud_base);
     ds.setLeafSize(downsample_grid_, downsample_grid_, downsample_grid_);
     ds.filter(*pc);
 
-- 
2.43.0


From 661c57582706c74f4fd165fbe7da8c3a529938e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:45 +0000
Subject: [PATCH 04/11] fix: inflate walls to the full extent of footprints
 that reach beside the cell

---
 .../costmap_3d_layer/footprint.h              | 35 ++++++++++++++++---
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/footprint.h b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/footprint.h
index 5553935..0547a70 100644
--- a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/footprint.h
+++ b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/footprint.h
@@ -70,6 +70,8 @@ protected:
     int x_min, x_max, y_min, y_max;
   };
   int range_max_;
+  // Range of the template not covered by the template of the adjacent cell, for each angle
+  std::vector<Rect> masked_range_;
   std::vector<bool> unknown_buf_;
 
 public:
@@ -191,6 +193,27 @@ public:
       if (footprint_radius_ == 0)
         cs_template_.e(0, 0, yaw) = 100;
     }
+
+    masked_range_.assign(info.angle, Rect{0, 0, 0, 0});  // NOLINT(whitespace/braces)
+    for (size_t yaw = 0; yaw < info.angle; yaw++)
+    {
+      Rect& masked = masked_range_[yaw];
+      for (int y = -range_max_; y <= range_max_; y++)
+      {
+        for (int x = -range_max_; x <= range_max_; x++)
+        {
+          const char c = cs_template_.e(x, y, yaw);
+          if (x < 0 && cs_template_.e(x + 1, y, yaw) < c)
+            masked.x_min = std::min(masked.x_min, x);
+          if (x > 0 && cs_template_.e(x - 1, y, yaw) < c)
+            masked.x_max = std::max(masked.x_max, x);
+          if (y < 0 && cs_template_.e(x, y + 1, yaw) < c)
+            masked.y_min = std::min(masked.y_min, y);
+          if (y > 0 && cs_template_.e(x, y - 1, yaw) < c)
+            masked.y_max = std::max(masked.y_max, y);
+        }
+      }
+    }
   }
 
 protected:
@@ -276,16 +299,18 @@ protected:
       const nav_msgs::OccupancyGrid::ConstPtr& msg,
       const size_t yaw)
   {
-    const auto getMaskedRange = [this, msg](const int pos, Rect& result)
+    const Rect masked = masked_range_[yaw];
+    const auto getMaskedRange = [this, msg, masked](const int pos, Rect& result)
     {
       const int gx = pos % msg->info.width;
       const int gy = pos / msg->info.width;
       const int8_t* const ptr = msg->data.data() + pos;
-      result.x_min = (gx == 0 || (*(ptr - 1) >= *ptr)) ? 0 : -range_max_;
-      result.x_max = (gx == static_cast<int>(msg->info.width) - 1 || (*(ptr + 1) >= *ptr)) ? 0 : range_max_;
-      result.y_min = (gy == 0 || (*(ptr - msg->info.width) >= *ptr)) ? 0 : -range_max_;
+      result.x_min = (gx == 0) ? 0 : (*(ptr - 1) >= *ptr) ? masked.x_min : -range_max_;
+      result.x_max = (gx == static_cast<int>(msg->info.width) - 1) ? 0 : (*(ptr + 1) >= *ptr) ? masked.x_max : range_max_;
+      result.y_min = (gy == 0) ? 0 : (*(ptr - msg->info.width) >= *ptr) ? masked.y_min : -range_max_;
       result.y_max =
-          (gy == static_cast<int>(msg->info.height) - 1 || (*(ptr + msg->info.width) >= *ptr)) ? 0 : range_max_;
+          (gy == static_cast<int>(msg->info.height) - 1) ? 0 :
+          (*(ptr + msg->info.width) >= *ptr) ? masked.y_max : range_max_;
     };
     const auto getRange = (msg->info.resolution == map->info.linear_resolution) ?
                               getMaskedRange :
-- 
2.43.0


From be45c43860a023d861d49b9c826a52695afd1747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:45 +0000
Subject: [PATCH 05/11] fix: remove costs of previous overlays also beside
 their region and in the layers below

---
 costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h
index 81589dc..5bb4481 100644
--- a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h
+++ b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h
@@ -408,6 +408,8 @@ protected:
     region_prev_now.merge(region_prev_);
     region_prev_ = region_;
 
+    // Costs around the obstacles at the edge of the previous overlay may be outside of its region
+    region_prev_now.expand(getRangeMax());
     region_prev_now.bitblt(map_overlay_, map_);
     if (map_updated_)
     {
@@ -426,6 +428,8 @@ protected:
 
     if (child_)
     {
+      // The child must reload everything reloaded here even if it has been updated by itself in the meantime
+      child_->region_prev_.merge(region_prev_now);
       return child_->updateChainEntry(region_, output);
     }
     return false;
-- 
2.43.0


From 1bf96dabc7351047e9e42c31c884c8e3be0e5963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:45 +0000
Subject: [PATCH 06/11] fix: drop all expired point clouds from the accumulator

---
 costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h b/costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h
index f7d5b41..4728896 100644
--- a/costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h
+++ b/costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h
@@ -74,7 +74,7 @@ public:
 
   void push(const Points& points)
   {
-    for (auto it = points_.begin(); it != points_.end(); ++it)
+    for (auto it = points_.begin(); it != points_.end();)
     {
       if (it->stamp_ + time_to_hold_ < points.stamp_)
       {
-- 
2.43.0


From ff75c6777383c4335430d97b9fdcb72ec16e27a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:41 +0000
Subject: [PATCH 07/11] fix: rescale path progress when path_step is
 reconfigured

---
 trajectory_tracker/src/trajectory_tracker.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/trajectory_tracker/src/trajectory_tracker.cpp b/trajectory_tracker/src/trajectory_tracker.cpp
index 4e26ee8..4719454 100644
--- a/trajectory_tracker/src/trajectory_tracker.cpp
+++ b/trajectory_tracker/src/trajectory_tracker.cpp
@@ -196,6 +196,8 @@ TrackerNode::TrackerNode()
   , tfl_(tfbuf_)
   , is_path_updated_(false)
 {
+  path_step_ = 1;
+  path_step_done_ = 0;
   neonavigation_common::compat::checkCompatMode();
   pnh_.param("frame_robot", frame_robot_, std::string("base_link"));
   pnh_.param("frame_odom", frame_odom_, std::string("odom"));
@@ -250,7 +252,12 @@ void TrackerNode::cbParameter(const TrajectoryTrackerConfig& config, const uint3
   acc_[1] = config.max_angacc;
   acc_toc_[0] = acc_[0] * config.acc_toc_factor;
   acc_toc_[1] = acc_[1] * config.angacc_toc_factor;
-  path_step_ = config.path_step;
+  if (path_step_ != config.path_step)
+  {
+    // path_step_done_ counts in units of path_step_
+    path_step_done_ = path_step_done_ * path_step_ / config.path_step;
+    path_step_ = config.path_step;
+  }
   goal_tolerance_dist_ = config.goal_tolerance_dist;
   goal_tolerance_ang_ = config.goal_tolerance_ang;
   stop_tolerance_dist_ = config.stop_tolerance_dist;
-- 
2.43.0


From 28f17129640683d34616dc2ce6718509c45e0bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:47 +0000
Subject: [PATCH 08/11] fix: judge the goal without prediction at the measured
 pose

---
 trajectory_tracker/src/trajectory_tracker.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trajectory_tracker/src/trajectory_tracker.cpp b/trajectory_tracker/src/trajectory_tracker.cpp
index 4719454..371e173 100644
--- a/trajectory_tracker/src/trajectory_tracker.cpp
+++ b/trajectory_tracker/src/trajectory_tracker.cpp
@@ -561,8 +561,9 @@ TrackerNode::TrackingResult TrackerNode::getTrackingResult(
     return TrackingResult(trajectory_tracker_msgs::TrajectoryTrackerStatus::NO_PATH);
   }
 
-  const Eigen::Vector2d origin_raw = prediction_offset.head<2>();
-  const float yaw_raw = prediction_offset[2];
+  // The pose without prediction is behind the predicted one.
+  const Eigen::Vector2d origin_raw = -prediction_offset.head<2>();
+  const float yaw_raw = -prediction_offset[2];
 
   const float yaw_predicted = w_lim_.get() * look_forward_ / 2;
   const Eigen::Vector2d origin =
@@ -660,6 +661,7 @@ TrackerNode::TrackingResult TrackerNode::getTrackingResult(
     result.distance_remains = distance_remains;
     result.distance_remains_raw = distance_remains_raw;
     result.angle_remains = angle_remains;
+    result.angle_remains_raw = angle_remains + yaw_raw;
   }
   else
   {
-- 
2.43.0


From 19c40ec2899a0bc2d68e9abd0220d7fb9c254c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:36 +0000
Subject: [PATCH 09/11] fix: keep the last pose of the path with path_step

---
 trajectory_tracker/src/trajectory_tracker.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trajectory_tracker/src/trajectory_tracker.cpp b/trajectory_tracker/src/trajectory_tracker.cpp
index 371e173..fdfd86d 100644
--- a/trajectory_tracker/src/trajectory_tracker.cpp
+++ b/trajectory_tracker/src/trajectory_tracker.cpp
@@ -550,10 +550,15 @@ TrackerNode::TrackingResult TrackerNode::getTrackingResult(
         Eigen::Rotation2Dd(robot_yaw);
     const auto robot_to_path_2d = path_to_robot_2d.inverse();
 
-    for (size_t i = 0; i < path_.size(); i += path_step_)
+    for (size_t i = 0;; i = std::min(i + path_step_, path_.size() - 1))
+    {
       lpath.push_back(
           trajectory_tracker::Pose2D(
               robot_to_path_2d * path_[i].pos_, -robot_yaw + path_[i].yaw_, path_[i].velocity_));
+      // The last pose is the goal even if it is not on the step.
+      if (i + 1 >= path_.size())
+        break;
+    }
   }
   catch (tf2::TransformException& e)
   {
-- 
2.43.0


From c1d91a2aadc0181a4cf6bf700c82354c4ee7f3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:23 +0000
Subject: [PATCH 10/11] fix: keep slip and height stable over gaps in the
 odometry

---
 track_odometry/src/track_odometry.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/track_odometry/src/track_odometry.cpp b/track_odometry/src/track_odometry.cpp
index 15e85b9..169c986 100644
--- a/track_odometry/src/track_odometry.cpp
+++ b/track_odometry/src/track_odometry.cpp
@@ -232,7 +232,8 @@ private:
       if (w_imu * w_odom < 0 && !negative_slip_)
         w_imu = w_odom;
 
-      slip_.predict(-slip_.x_ * dt * predict_filter_tc_, dt * sigma_predict_);
+      // Forget all at once, not more, if the odometry has a gap
+      slip_.predict(-slip_.x_ * std::min(1.0, dt * predict_filter_tc_), dt * sigma_predict_);
       if (std::abs(w_odom) > sigma_odom_ * 3)
       {
         // non-kf mode: calculate slip_ratio if angular vel < 3*sigma
@@ -272,7 +273,7 @@ private:
 
       odom.pose.pose.position = toPoint(toEigen(odom_prev_.pose.pose.position) + v);
       if (z_filter_timeconst_ > 0)
-        odom.pose.pose.position.z *= 1.0 - (dt / z_filter_timeconst_);
+        odom.pose.pose.position.z *= std::max(0.0, 1.0 - (dt / z_filter_timeconst_));
 
       odom.child_frame_id = base_link_id_;
       pub_odom_.publish(odom);
-- 
2.43.0


From e5359947b4aa785d69e384b653e56713d7914b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:23 +0000
Subject: [PATCH 11/11] fix: check that the previous path is on the map before
 reading its cells

---
 planner_cspace/src/start_pose_predictor.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/planner_cspace/src/start_pose_predictor.cpp b/planner_cspace/src/start_pose_predictor.cpp
index 759c541..e8e902e 100644
--- a/planner_cspace/src/start_pose_predictor.cpp
+++ b/planner_cspace/src/start_pose_predictor.cpp
@@ -146,6 +146,12 @@ bool StartPosePredictor::buildResults(
       map_info_, start_grid[0], start_grid[1], start_grid[2],
       expected_start_pose_it->pos_.x(), expected_start_pose_it->pos_.y(), expected_start_pose_it->yaw_);
   start_grid.cycleUnsigned(map_info_.angle);
+  if (!cm.validate(start_grid))
+  {
+    ROS_WARN("The previous path leaves the map. An empty path is published.");
+    clear();
+    return false;
+  }
   const size_t previous_path_size = previous_path_2d_.size();
   previous_path_2d_.erase(expected_start_pose_it + 1, previous_path_2d_.end());
   ROS_DEBUG("Robot Pose: (%f, %f, %f), Start Pose: (%f, %f, %f), Start Grid: (%d, %d, %d), path size: %lu -> %lu",
@@ -182,7 +188,8 @@ bool StartPosePredictor::isPathColliding(const trajectory_tracker::Path2D::Const
     Astar::Vec grid;
     grid_metric_converter::metric2Grid(map_info_, grid[0], grid[1], grid[2], it->pos_.x(), it->pos_.y(), it->yaw_);
     grid.cycleUnsigned(map_info_.angle);
-    if (cm[grid] == 100)
+    // The previous path may leave the map if the map has been changed.
+    if (!cm.validate(grid) || cm[grid] == 100)
     {
       ROS_DEBUG("Path colliding at (%f, %f, %f)", it->pos_.x(), it->pos_.y(), it->yaw_);
       return true;
-- 
2.43.0

