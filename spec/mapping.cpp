// M01-M04: building, loading and placing maps, and the path of poses.
#include <cassert>
#include <cmath>
#include <stdexcept>
#include <tuple>
#include "verif.hpp"
#include "rclcpp/rclcpp.hpp"
#define main mapping_main
#include "mapping/src/mapping.cpp"
#undef main
#define main path_main
#include "path_generator/src/node.cpp"
#undef main
#include "map_loader/src/map_loader.cpp"
#include "map_tf_generator/src/map_tf_generator_node.cpp"

namespace {
using Iso = Eigen::Isometry3d;
using Cloud = pcl::PointCloud<PointXYZCR>;
using Msg = sensor_msgs::msg::PointCloud2;
using Pose = geometry_msgs::msg::Pose;
using PoseStamped = geometry_msgs::msg::PoseStamped;
}

namespace M01 {
bool impl_near(const Iso & a, const Iso & b, double shift, double turn)
{
  return PoseDiffIsSufficientlySmall(a, b, shift, turn);
}
bool spec_near(const Iso & a, const Iso & b, double shift, double turn)
{
  const Eigen::Vector3d t = a.linear().transpose() * (b.translation() - a.translation());
  const Eigen::Quaterniond q(Eigen::Matrix3d(a.linear().transpose() * b.linear()));
  return t.norm() < shift && q.vec().norm() < turn;
}
void impl_add(Map<PointXYZCR> & map, const Iso & pose, const Cloud::Ptr & cloud) {map.TransformAdd(pose, cloud);}
void spec_add(Map<PointXYZCR> & map, const Iso & pose, const Cloud::Ptr & cloud)
{
  __verif_opaque("TransformPointCloud");
  *map.map_ptr_ += *TransformPointCloud<PointXYZCR>(pose, cloud);
}
bool impl_empty(const Map<PointXYZCR> & map) {return map.IsEmpty();}
bool spec_empty(const Map<PointXYZCR> & map) {return map.map_ptr_->size() == 0;}
bool impl_fresh() {MapBuilder<PointXYZCR> b; return b.map_->IsEmpty();}
bool spec_fresh() {return true;}

void impl_scan(MapBuilder<PointXYZCR> & b, const Msg::ConstSharedPtr & cloud, const PoseStamped::ConstSharedPtr & pose)
{
  b.Callback(cloud, pose);
}
void spec_scan(MapBuilder<PointXYZCR> & b, const Msg::ConstSharedPtr & cloud, const PoseStamped::ConstSharedPtr & pose)
{
  __verif_opaque("GetIsometry3d");
  __verif_opaque("PoseDiffIsSufficientlySmall");
  __verif_opaque("TransformPointCloud");
  const Iso at = GetIsometry3d(pose->pose);
  const Cloud::Ptr scan = GetPointCloud<PointXYZCR>(*cloud);
  if (scan->size() == 0) {return;}
  Cloud & map = *b.map_->map_ptr_;
  if (map.size() > 0 && PoseDiffIsSufficientlySmall(b.prev_transform_, at, 1.0, 0.1)) {return;}
  map += *TransformPointCloud<PointXYZCR>(at, scan);
  b.prev_transform_ = at;
}
void impl_save(const MapBuilder<PointXYZCR> & b, const std::string & file) {b.SaveMap(file);}
void spec_save(const MapBuilder<PointXYZCR> & b, const std::string & file)
{
  if (b.map_->map_ptr_->size() > 0) {pcl::io::save(file, *b.map_->map_ptr_);}
}
}  // namespace M01

namespace M02 {
using Header = std_msgs::msg::Header;
using WithCovariance = geometry_msgs::msg::PoseWithCovarianceStamped;
using Out = rclcpp::Publisher<nav_msgs::msg::Path>;
using Qos = rmw_qos_profile_t;
Qos keep_all()
{
  Qos q;
  q.keep_all = true;
  return q;
}
Qos latched()
{
  Qos q;
  q.depth = 5;
  q.transient_local = true;
  return q;
}
void impl_publish(PathGenerator & node, const Header & header, const Pose & pose) {node.Publish(header, pose);}
void spec_publish(PathGenerator & node, const Header & header, const Pose & pose)
{
  nav_msgs::msg::Path path = node.path_;
  path.header = header;
  PoseStamped p;
  p.header = header;
  p.pose = pose;
  path.poses.push_back(p);
  node.path_ = path;
  node.path_publisher_->publish(path);
}
// two messages arrive one after the other
std::tuple<std::string, Qos, Out> impl_poses(
  const std::string & out, const std::string & in, const std::shared_ptr<PoseStamped> & a,
  const std::shared_ptr<PoseStamped> & b)
{
  FromPose node(out, in);
  node.subscription_->callback(a);
  node.subscription_->callback(b);
  return std::make_tuple(node.subscription_->topic, node.subscription_->qos, *node.path_publisher_);
}
std::tuple<std::string, Qos, Out> spec_poses(
  const std::string & out, const std::string & in, const std::shared_ptr<PoseStamped> & a,
  const std::shared_ptr<PoseStamped> & b)
{
  Out p;
  p.topic = out;
  p.qos = latched();
  nav_msgs::msg::Path path;
  path.header = a->header;
  path.poses.push_back(*a);
  p.publish(path);
  path.header = b->header;
  path.poses.push_back(*b);
  p.publish(path);
  return std::make_tuple(in, keep_all(), p);
}
std::tuple<std::string, Qos, Out> impl_covariances(
  const std::string & out, const std::string & in, const std::shared_ptr<WithCovariance> & a,
  const std::shared_ptr<WithCovariance> & b)
{
  FromPoseWithCovariance node(out, in);
  node.subscription_->callback(a);
  node.subscription_->callback(b);
  return std::make_tuple(node.subscription_->topic, node.subscription_->qos, *node.path_publisher_);
}
std::tuple<std::string, Qos, Out> spec_covariances(
  const std::string & out, const std::string & in, const std::shared_ptr<WithCovariance> & a,
  const std::shared_ptr<WithCovariance> & b)
{
  Out p;
  p.topic = out;
  p.qos = latched();
  nav_msgs::msg::Path path;
  PoseStamped s;
  path.header = s.header = a->header;
  s.pose = a->pose.pose;
  path.poses.push_back(s);
  p.publish(path);
  path.header = s.header = b->header;
  s.pose = b->pose.pose;
  path.poses.push_back(s);
  p.publish(path);
  return std::make_tuple(in, keep_all(), p);
}
}  // namespace M02

namespace M03 {
using Out = rclcpp::Publisher<Msg>;
Msg impl_load(const std::string & file) {return LoadMap(file);}
Msg spec_load(const std::string & file)
{
  Msg map;
  pcl::io::loadPCDFile(file, map);
  map.header.frame_id = "map";
  return map;
}
Out impl_loader(const rclcpp::NodeOptions & options)
{
  MapLoaderNode node(options);
  return *node.publisher_;
}
Out spec_loader(const rclcpp::NodeOptions & options)
{
  const std::string file = rclcpp::verif_parameter<std::string>("map_loader", "pcd_filename", "");
  if (file == "") {throw std::invalid_argument("");}
  Out p;
  p.topic = "map_topic";
  p.qos.depth = 5;
  p.qos.transient_local = true;
  p.publish(LoadMap(file));
  return p;
}
}  // namespace M03

namespace M04 {
using Centre = pcl::PointCloud<pcl::PointXYZ>;
void impl_place(MapTFGeneratorNode & node, const Msg::ConstSharedPtr & map) {node.onPointCloud(map);}
void spec_place(MapTFGeneratorNode & node, const Msg::ConstSharedPtr & map)
{
  Centre cloud;
  pcl::fromROSMsg<pcl::PointXYZ>(*map, cloud);
  const int n = cloud.size();
  if (n == 0) {return;}
  double x = 0, y = 0, z = 0;
  for (int i = 0; i < n; i++) {
    x += cloud[i].x / static_cast<double>(n);
    y += cloud[i].y / static_cast<double>(n);
    z += cloud[i].z / static_cast<double>(n);
  }
  geometry_msgs::msg::TransformStamped t;
  t.header.stamp = node.now();
  t.header.frame_id = node.map_frame_;
  t.child_frame_id = node.viewer_frame_;
  t.transform.translation.x = x;
  t.transform.translation.y = y;
  t.transform.translation.z = z;
  t.transform.rotation.x = t.transform.rotation.y = t.transform.rotation.z = 0;
  t.transform.rotation.w = 1;
  node.static_broadcaster_->sendTransform(t);
}
// the frames and the topic are the configured ones, and a received map reaches the broadcaster
using Caster = tf2_ros::StaticTransformBroadcaster;
using Wiring = std::tuple<std::string, rmw_qos_profile_t, Caster>;
Wiring impl_wiring(const rclcpp::NodeOptions & options, const std::shared_ptr<Msg> & map)
{
  MapTFGeneratorNode node(options);
  node.sub_->callback(map);
  return std::make_tuple(node.sub_->topic, node.sub_->qos, *node.static_broadcaster_);
}
Wiring spec_wiring(const rclcpp::NodeOptions & options, const std::shared_ptr<Msg> & map)
{
  rmw_qos_profile_t latched;
  latched.depth = 5;
  latched.transient_local = true;
  MapTFGeneratorNode node(options);
  node.static_broadcaster_ = std::make_shared<Caster>(&node);
  node.map_frame_ = rclcpp::verif_parameter<std::string>("map_tf_generator", "map_frame", "map");
  node.viewer_frame_ = rclcpp::verif_parameter<std::string>("map_tf_generator", "viewer_frame", "viewer");
  node.onPointCloud(map);
  return std::make_tuple("/pointcloud_map", latched, *node.static_broadcaster_);
}
}  // namespace M04

namespace N04 {
using Qos = rmw_qos_profile_t;
using End = std::tuple<std::string, Qos>;
using Builder = MapBuilder<PointXYZCR>;
// scans are paired with the pose of exactly their stamp and go to the builder
using Pairs = std::tuple<std::string, bool, uint32_t, End, End>;
Pairs impl_pairs(
  std::shared_ptr<Builder> & builder, const std::string & name, const std::string & cloud, const std::string & pose)
{
  MapSubscriber s(builder, name, cloud, pose);
  const auto & y = *s.sync_;
  return Pairs(s.node_name, y.exact, y.queue, End(y.first_topic, y.first_qos), End(y.second_topic, y.second_qos));
}
Pairs spec_pairs(
  std::shared_ptr<Builder> & builder, const std::string & name, const std::string & cloud, const std::string & pose)
{
  Qos five;
  five.depth = 5;
  return Pairs(name, true, 1000, End(cloud, five), End(pose, five));
}
void impl_pair(
  std::shared_ptr<Builder> & builder, const Msg::ConstSharedPtr & cloud, const PoseStamped::ConstSharedPtr & pose)
{
  MapSubscriber s(builder, "", "", "");
  s.sync_->callback(cloud, pose);
}
void spec_pair(
  std::shared_ptr<Builder> & builder, const Msg::ConstSharedPtr & cloud, const PoseStamped::ConstSharedPtr & pose)
{
  __verif_opaque("GetIsometry3d");
  __verif_opaque("PoseDiffIsSufficientlySmall");
  __verif_opaque("TransformPointCloud");
  builder->Callback(cloud, pose);
}
// the programs: what they run and what they leave behind
int impl_mapping(int argc, char ** argv) {return mapping_main(argc, argv);}
int spec_mapping(int argc, char ** argv)
{
  __verif_opaque("MapBuilder::SaveMap");
  rclcpp::init(argc, argv);
  auto builder = std::make_shared<Builder>();
  rclcpp::spin(std::make_shared<MapSubscriber>(builder, "edge_map_builder", "scan_edge", "pose"));
  builder->SaveMap("maps/edge.pcd");
  rclcpp::verif_running = false;
  return 0;
}
int impl_path(int argc, char ** argv) {return path_main(argc, argv);}
int spec_path(int argc, char ** argv)
{
  rclcpp::init(argc, argv);
  rclcpp::spin(std::make_shared<FromPoseWithCovariance>("path", "pose"));
  rclcpp::verif_running = false;
  return 0;
}
}  // namespace N04
