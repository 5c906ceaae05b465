// L03: conversions between geometry and ROS messages.
#include <cassert>
#include <cmath>
#include <stdexcept>
#include "verif.hpp"
#include "rclcpp/rclcpp.hpp"
#include "lib/src/eigen.cpp"
#include "lib/src/ros_msg.cpp"
#include "lidar_feature_library/qos.hpp"

namespace L03 {
using V3 = Eigen::Vector3d;
using Iso = Eigen::Isometry3d;
using Q = Eigen::Quaterniond;
using Marker = visualization_msgs::msg::Marker;
using Cloud = pcl::PointCloud<pcl::PointXYZ>;
namespace g = geometry_msgs::msg;

sensor_msgs::msg::PointCloud2 impl_cloud(const Cloud::Ptr & c, const rclcpp::Time & t, const std::string f)
{
  return ToRosMsg<pcl::PointXYZ>(c, t, f);
}
sensor_msgs::msg::PointCloud2 spec_cloud(const Cloud::Ptr & c, const rclcpp::Time & t, const std::string f)
{
  sensor_msgs::msg::PointCloud2 m;
  pcl::toROSMsg(*c, m);
  m.header.frame_id = f;
  m.header.stamp = t;
  return m;
}
Cloud::Ptr impl_from_cloud(const sensor_msgs::msg::PointCloud2 & m) {return GetPointCloud<pcl::PointXYZ>(m);}
Cloud::Ptr spec_from_cloud(const sensor_msgs::msg::PointCloud2 & m)
{
  Cloud::Ptr c(new Cloud());
  pcl::fromROSMsg(m, *c);
  return c;
}

Iso impl_isometry(const g::Pose & p) {return GetIsometry3d(p);}
Iso spec_isometry(const g::Pose & p)
{
  Iso m;
  m.linear() = Q(p.orientation.w, p.orientation.x, p.orientation.y, p.orientation.z).toRotationMatrix();
  m.translation() = V3(p.position.x, p.position.y, p.position.z);
  return m;
}
g::Pose impl_pose(const Iso & p) {return MakePose(p);}
g::Pose spec_pose(const Iso & p) {return tf2::toMsg(p);}
g::PoseStamped impl_pose_stamped(const Iso & p, const rclcpp::Time & t, const std::string & f)
{
  return MakePoseStamped(p, t, f);
}
g::PoseStamped spec_pose_stamped(const Iso & p, const rclcpp::Time & t, const std::string & f)
{
  g::PoseStamped m;
  m.header.stamp = t;
  m.header.frame_id = f;
  m.pose = tf2::toMsg(p);
  return m;
}
g::PoseWithCovariance impl_pose_covariance(const Iso & p, const Matrix6d & c) {return MakePoseWithCovariance(p, c);}
g::PoseWithCovariance spec_pose_covariance(const Iso & p, const Matrix6d & c)
{
  g::PoseWithCovariance m;
  m.pose = tf2::toMsg(p);
  for (int i = 0; i < 36; i++) {m.covariance[i] = c(i / 6, i % 6);}
  return m;
}
g::PoseWithCovarianceStamped impl_pose_covariance_stamped(
  const Iso & p, const Matrix6d & c, const rclcpp::Time & t, const std::string & f)
{
  return MakePoseWithCovarianceStamped(p, c, t, f);
}
g::PoseWithCovarianceStamped spec_pose_covariance_stamped(
  const Iso & p, const Matrix6d & c, const rclcpp::Time & t, const std::string & f)
{
  g::PoseWithCovarianceStamped m;
  m.header.stamp = t;
  m.header.frame_id = f;
  m.pose.pose = tf2::toMsg(p);
  for (int i = 0; i < 36; i++) {m.pose.covariance[i] = c(i / 6, i % 6);}
  return m;
}
g::TransformStamped impl_transform_stamped(
  const Iso & p, const rclcpp::Time & t, const std::string & f, const std::string & child)
{
  return MakeTransformStamped(p, t, f, child);
}
g::TransformStamped spec_transform_stamped(
  const Iso & p, const rclcpp::Time & t, const std::string & f, const std::string & child)
{
  g::TransformStamped m = tf2::eigenToTransform(p);
  m.header.stamp = t;
  m.header.frame_id = f;
  m.child_frame_id = child;
  return m;
}

g::Point impl_point(const V3 & p) {return MakePoint(p);}
g::Point spec_point(const V3 & p)
{
  g::Point m;
  m.x = p(0); m.y = p(1); m.z = p(2);
  return m;
}
V3 impl_point_vector(const g::Point & p) {return ToVector3d(p);}
V3 spec_point_vector(const g::Point & p) {return V3(p.x, p.y, p.z);}
V3 impl_vector(const g::Vector3 & p) {return ToVector3d(p);}
V3 spec_vector(const g::Vector3 & p) {return V3(p.x, p.y, p.z);}
Q impl_quaternion(const g::Quaternion & q) {return ToQuaterniond(q);}
Q spec_quaternion(const g::Quaternion & q)
{
  Q r;
  r.x() = q.x; r.y() = q.y; r.z() = q.z; r.w() = q.w;
  return r;
}
g::Vector3 impl_make_vector(const V3 & v) {return MakeVector3(v);}
g::Vector3 spec_make_vector(const V3 & v)
{
  g::Vector3 m;
  m.x = v(0); m.y = v(1); m.z = v(2);
  return m;
}
g::Twist impl_twist(const V3 & l, const V3 & a) {return MakeTwist(l, a);}
g::Twist spec_twist(const V3 & l, const V3 & a)
{
  g::Twist m;
  m.linear = spec_make_vector(l);
  m.angular = spec_make_vector(a);
  return m;
}
g::TwistStamped impl_twist_stamped(const V3 & l, const V3 & a, const rclcpp::Time & t, const std::string & f)
{
  return MakeTwistStamped(l, a, t, f);
}
g::TwistStamped spec_twist_stamped(const V3 & l, const V3 & a, const rclcpp::Time & t, const std::string & f)
{
  g::TwistStamped m;
  m.header.stamp = t;
  m.header.frame_id = f;
  m.twist = spec_twist(l, a);
  return m;
}

// markers
Marker impl_lines(const rclcpp::Time & t, const std::string & f) {return InitLines(t, f);}
Marker spec_lines(const rclcpp::Time & t, const std::string & f)
{
  Marker m;
  m.type = 5;
  m.header.stamp = t;
  m.header.frame_id = f;
  return m;
}
void impl_width(Marker & m, const float w) {SetWidth(m, w);}
void spec_width(Marker & m, const float w)
{
  __verif_assume(w >= 0. && w <= 1.);
  m.scale.x = w;
}
void impl_color(Marker & m, const float r, const float g, const float b, const float a) {SetColor(m, r, g, b, a);}
void spec_color(Marker & m, const float r, const float g, const float b, const float a)
{
  __verif_assume(r >= 0. && r <= 1. && g >= 0. && g <= 1.);
  __verif_assume(b >= 0. && b <= 1. && a >= 0. && a <= 1.);
  m.color.r = r; m.color.g = g; m.color.b = b; m.color.a = a;
}
void impl_line(Marker & m, const V3 & p, const V3 & q) {AddLine(m, p, q);}
void spec_line(Marker & m, const V3 & p, const V3 & q)
{
  m.points.push_back(spec_point(p));
  m.points.push_back(spec_point(q));
}
}  // namespace L03
