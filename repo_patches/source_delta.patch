From d8662626702ffc3f597489100d3418dd37f95271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:42 +0000
Subject: [PATCH 01/10] fix: compute block boundaries in integer arithmetic

Rounding errors in the floating-point interpolation could shift a boundary by one,
which left a block empty (e.g. start 9, end 14, 5 blocks).
---
 extraction/src/index_range.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/extraction/src/index_range.cpp b/extraction/src/index_range.cpp
index 44187f8..0be26d4 100644
--- a/extraction/src/index_range.cpp
+++ b/extraction/src/index_range.cpp
@@ -27,6 +27,8 @@
 // POSSIBILITY OF SUCH DAMAGE.
 
 
+#include <cstdint>
+
 #include "lidar_feature_extraction/index_range.hpp"
 
 IndexRange::IndexRange(const int start_index, const int end_index, const int n_blocks)
@@ -59,10 +61,10 @@ int IndexRange::End(const int j) const
 
 int IndexRange::Boundary(const int j) const
 {
-  const double s = static_cast<double>(start_index_);
-  const double e = static_cast<double>(end_index_);
-  const double n = static_cast<double>(n_blocks_);
-  return static_cast<int>(s * (1. - j / n) + e * j / n);
+  const std::int64_t s = start_index_;
+  const std::int64_t e = end_index_;
+  const std::int64_t n = n_blocks_;
+  return static_cast<int>((s * (n - j) + e * j) / n);
 }
 
 void IndexRange::ThrowExceptionIfOutOfRange(const int j) const
-- 
2.43.0


From 7f29e60465ceffcd4113b314af0053d0e91551fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 02/10] fix: order points on the x axis consistently

The comparison of polar angles claimed that of two points on the positive x
axis each had the smaller angle, which is no strict weak ordering and makes
sorting a ring undefined.
---
 extraction/include/lidar_feature_extraction/ring.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extraction/include/lidar_feature_extraction/ring.hpp b/extraction/include/lidar_feature_extraction/ring.hpp
index bac6aa2..c8472aa 100644
--- a/extraction/include/lidar_feature_extraction/ring.hpp
+++ b/extraction/include/lidar_feature_extraction/ring.hpp
@@ -81,6 +81,10 @@ struct AHasSmallerPolarAngleThanB
     }
 
     if (a.y == 0) {
+      if (b.y == 0) {
+        // both are on the x axis: the angles differ only if the signs of x do
+        return (a.x > 0) && (b.x < 0);
+      }
       return (a.x >= 0) && (b.y >= 0);
     }
 
-- 
2.43.0


From 342d8017d1ede2ecca05c4884f83d08722a414be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:33 +0000
Subject: [PATCH 03/10] fix: keep the argument of acos in its domain

The angle between two points in the same direction was not a number where
rounding made the cosine exceed one, so that they were not neighbours.
---
 extraction/src/math.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/extraction/src/math.cpp b/extraction/src/math.cpp
index d12c786..ad5b2aa 100644
--- a/extraction/src/math.cpp
+++ b/extraction/src/math.cpp
@@ -26,6 +26,7 @@
 // ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 // POSSIBILITY OF SUCH DAMAGE.
 
+#include <algorithm>
 #include <stdexcept>
 
 #include "lidar_feature_extraction/math.hpp"
@@ -41,6 +42,7 @@ double CalcRadian(const double x1, const double y1, const double x2, const doubl
     throw std::invalid_argument("All input values are zero. Angle cannot be calculated");
   }
 
-  const double cos_angle = dot / (norm1 * norm2);
+  // rounding may carry the ratio out of the domain of acos
+  const double cos_angle = std::clamp(dot / (norm1 * norm2), -1., 1.);
   return std::acos(cos_angle);
 }
-- 
2.43.0


From 9549cabb112ebff53b8b9e8c2bb43bcadf35474a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:33 +0000
Subject: [PATCH 04/10] fix: colour values relative to the minimum

Values were scaled by the width of the interval but not shifted to its
beginning, and exceeded the range of a colour channel where the minimum is
positive.
---
 extraction/src/color_points.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extraction/src/color_points.cpp b/extraction/src/color_points.cpp
index 73c5dbe..3e2636c 100644
--- a/extraction/src/color_points.cpp
+++ b/extraction/src/color_points.cpp
@@ -70,6 +70,6 @@ std::vector<uint8_t> LabelToColor(const PointLabel & label)
 std::vector<uint8_t> ValueToColor(const double value, const double min, const double max)
 {
   const double v = std::clamp(value, min, max);
-  const uint8_t c = static_cast<uint8_t>(255. * v / (max - min));
+  const uint8_t c = static_cast<uint8_t>(255. * (v - min) / (max - min));
   return std::vector<uint8_t>{c, c, c};
 }
-- 
2.43.0


From 86b5053e0fd11627c088e4f93094ff8f5fb2d25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:18 +0000
Subject: [PATCH 05/10] fix: apply every queued measurement in each update

---
 ekf_localizer/src/pose_measurement.cpp  | 3 ++-
 ekf_localizer/src/twist_measurement.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ekf_localizer/src/pose_measurement.cpp b/ekf_localizer/src/pose_measurement.cpp
index 7da742a..2549de4 100644
--- a/ekf_localizer/src/pose_measurement.cpp
+++ b/ekf_localizer/src/pose_measurement.cpp
@@ -78,7 +78,8 @@ void PoseMeasurement::Update(
 {
   const Eigen::Matrix<double, 3, 6> C = PoseMeasurementMatrix();
 
-  for (size_t i = 0; i < messages_.size(); ++i) {
+  const size_t n_messages = messages_.size();  // popping may shrink the queue
+  for (size_t i = 0; i < n_messages; ++i) {
     const auto pose = messages_.pop();
 
     CheckFrameId(warning_, pose->header.frame_id, frame_id_);
diff --git a/ekf_localizer/src/twist_measurement.cpp b/ekf_localizer/src/twist_measurement.cpp
index c6a60dc..f796ca0 100644
--- a/ekf_localizer/src/twist_measurement.cpp
+++ b/ekf_localizer/src/twist_measurement.cpp
@@ -74,7 +74,8 @@ void TwistMeasurement::Update(
 {
   const Eigen::Matrix<double, 2, 6> C = TwistMeasurementMatrix();
 
-  for (size_t i = 0; i < messages_.size(); ++i) {
+  const size_t n_messages = messages_.size();  // popping may shrink the queue
+  for (size_t i = 0; i < n_messages; ++i) {
     const auto twist = messages_.pop();
 
     CheckFrameId(warning_, twist->header.frame_id, "base_link");
-- 
2.43.0


From a83528c43d91e8c5f7987ccbfe5810fcbf40c4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:31 +0000
Subject: [PATCH 06/10] fix: ignore an initial pose whose transform is
 unavailable

---
 ekf_localizer/src/ekf_localizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ekf_localizer/src/ekf_localizer.cpp b/ekf_localizer/src/ekf_localizer.cpp
index 6adb883..b1e0cf7 100644
--- a/ekf_localizer/src/ekf_localizer.cpp
+++ b/ekf_localizer/src/ekf_localizer.cpp
@@ -242,6 +242,7 @@ void EKFLocalizer::callbackInitialPose(PoseWithCovarianceStamped::SharedPtr init
       fmt::format(
         "TF transform failed. parent = {}, child = {}",
         params.pose_frame_id_, initialpose->header.frame_id));
+    return;
   }
 
   const Eigen::Vector3d initial_position = ToVector3d(initialpose->pose.pose.position);
-- 
2.43.0


From d5ae95f9d816fa3978316dbc2cd553bc23277c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:31 +0000
Subject: [PATCH 07/10] fix: take the yaw innovation of a pose modulo full
 turns

---
 ekf_localizer/src/pose_measurement.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ekf_localizer/src/pose_measurement.cpp b/ekf_localizer/src/pose_measurement.cpp
index 2549de4..8b612a6 100644
--- a/ekf_localizer/src/pose_measurement.cpp
+++ b/ekf_localizer/src/pose_measurement.cpp
@@ -92,13 +92,14 @@ void PoseMeasurement::Update(
       continue;
     }
 
-    const Eigen::Vector3d y = PoseMeasurementVector(pose->pose.pose);
+    Eigen::Vector3d y = PoseMeasurementVector(pose->pose.pose);
 
     if (!CheckMeasurementMatrixNanInf(warning_, y)) {
       continue;
     }
 
     const Eigen::Vector3d y_ekf = GetPoseState(ekf->getX(delay_step));
+    y(2) = y_ekf(2) + normalizeYaw(y(2) - y_ekf(2));  // the equivalent yaw nearest to the state
     const Eigen::Matrix3d P_y = PoseCovariance(ekf->getLatestP());
 
     if (!CheckMahalanobisGate(warning_, gate_dist_, y_ekf, y, P_y)) {
-- 
2.43.0


From ac41eab58bbb5c9b7d0926e9d98291f95f7e5674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:43 +0000
Subject: [PATCH 08/10] fix: saturate the delay step instead of overflowing

---
 ekf_localizer/include/ekf_localizer/delay.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ekf_localizer/include/ekf_localizer/delay.hpp b/ekf_localizer/include/ekf_localizer/delay.hpp
index e01d921..72b2837 100644
--- a/ekf_localizer/include/ekf_localizer/delay.hpp
+++ b/ekf_localizer/include/ekf_localizer/delay.hpp
@@ -16,6 +16,8 @@
 #define EKF_LOCALIZER__DELAY_HPP_
 
 #include <algorithm>
+#include <cmath>
+#include <limits>
 
 
 inline double ComputeDelayTime(
@@ -27,7 +29,11 @@ inline double ComputeDelayTime(
 
 inline int ComputeDelayStep(const double delay_time, const double dt)
 {
-  return std::roundf(std::max(delay_time, 0.) / dt);
+  const double step = std::roundf(std::max(delay_time, 0.) / dt);
+  if (!(step < std::numeric_limits<int>::max())) {
+    return std::numeric_limits<int>::max();  // too old, or not a number for a zero interval
+  }
+  return static_cast<int>(step);
 }
 
 #endif  // EKF_LOCALIZER__DELAY_HPP_
-- 
2.43.0


From 21d9d59579ade91bf34f86358edda7e79b934c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 09/10] fix: empty the prior queue when every entry is newer
 than the bound

Stepping back from the first entry of the map was undefined; with every entry
newer than the bound one of them was left in the queue.
---
 .../stamp_sorted_objects.hpp                        | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp b/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp
index 1c600a1..c6c7de9 100644
--- a/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp
+++ b/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp
@@ -90,18 +90,7 @@ public:
     // g is the first element in map that satisfies timestamp < g
     const auto g = objects_.upper_bound(timestamp);
 
-    if (g == objects_.end()) {
-      return;
-    }
-
-    const auto boundary = std::prev(g);
-
-    auto curr = std::prev(objects_.end());
-    while (curr != boundary) {
-      auto prev = std::prev(curr);
-      objects_.erase(curr);
-      curr = prev;
-    }
+    objects_.erase(g, objects_.end());
   }
 
 private:
-- 
2.43.0


From 9e6b7b31d774c9bb9e2ff8f830933fd43ef94a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 10/10] fix: broadcast no static transform for an empty map

The centre of an empty cloud is 0 / 0, and the viewer frame was placed at NaN.
---
 map_tf_generator/src/map_tf_generator_node.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/map_tf_generator/src/map_tf_generator_node.cpp b/map_tf_generator/src/map_tf_generator_node.cpp
index 0c140da..0dcd4ba 100644
--- a/map_tf_generator/src/map_tf_generator_node.cpp
+++ b/map_tf_generator/src/map_tf_generator_node.cpp
@@ -57,6 +57,11 @@ private:
     pcl::fromROSMsg<pcl::PointXYZ>(*clouds_ros, clouds);
 
     const unsigned int sum = clouds.points.size();
+    if (sum == 0) {
+      RCLCPP_WARN(get_logger(), "The map point cloud is empty. No static tf is broadcast");
+      return;
+    }
+
     double coordinate[3] = {0, 0, 0};
     for (unsigned int i = 0; i < sum; i++) {
       coordinate[0] += clouds.points[i].x;
-- 
2.43.0

