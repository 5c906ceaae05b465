// O08-O10: the localization node, its store of prior poses, and the maps of recent scans.
#include <cassert>
#include <cmath>
#include <stdexcept>
#include <tuple>
#include "verif.hpp"
#include "rclcpp/rclcpp.hpp"
#include "lidar_feature_localization/subscriber.hpp"
#include "lidar_feature_localization/localizer.hpp"
#include "lidar_feature_localization/odometry.hpp"
#include "lidar_feature_localization/point_cloud_map.hpp"
#include "lidar_feature_localization/filter.hpp"
#include "lidar_feature_localization/rad2deg.hpp"

namespace {
using M = Eigen::MatrixXd;
using Iso = Eigen::Isometry3d;
using Cloud = pcl::PointCloud<pcl::PointXYZ>;
using Msg = sensor_msgs::msg::PointCloud2;
}

template class StampSortedObjects<double>;   // every operation, for the lock analysis

namespace O08 {
// where a scan lies is the matcher's own matter
struct Matcher
{
  void Init(const Iso & pose);
  bool Update(const EdgeSurfaceScan & scan);
  Iso Get() const;
};
using Node = LocalizationSubscriber<Matcher, pcl::PointXYZ>;
void impl_scan(Node & node, const Msg::ConstSharedPtr & edge, const Msg::ConstSharedPtr & surface)
{
  node.PoseUpdateCallback(edge, surface);
}
void spec_scan(Node & node, const Msg::ConstSharedPtr & edge, const Msg::ConstSharedPtr & surface)
{
  __verif_opaque("MakePoseWithCovarianceStamped");
  __verif_opaque("MakeTransformStamped");
  const std::map<double, Iso> priors = node.prior_poses_.objects_;
  if (priors.size() == 0) {return;}
  const builtin_interfaces::msg::Time stamp = edge->header.stamp;
  const double t = rclcpp::Time(stamp).nanoseconds();
  const Iso start = std::get<1>(node.prior_poses_.GetClosest(t));
  std::map<double, Iso> & kept = node.prior_poses_.objects_;
  kept.erase(kept.upper_bound(t + 1e9), kept.end());
  const Cloud::Ptr edges = GetPointCloud<pcl::PointXYZ>(*edge);
  const Cloud::Ptr surfaces = GetPointCloud<pcl::PointXYZ>(*surface);
  node.localizer_.Init(start);
  node.localizer_.Update(EdgeSurfaceScan(edges, surfaces));
  const Iso pose = node.localizer_.Get();
  Matrix6d covariance = Matrix6d::Zero();
  for (int i = 0; i < 3; i++) {
    covariance(i, i) = 1.;
    covariance(3 + i, 3 + i) = 0.1;
  }
  node.pose_publisher_->publish(MakePoseWithCovarianceStamped(pose, covariance, stamp, "map"));
  node.tf_broadcaster_.sendTransform(
    MakeTransformStamped(pose, stamp, "map", "lidar_feature_base_link"));
}
void impl_odom(Node & node, const nav_msgs::msg::Odometry::ConstSharedPtr & m) {node.OptimizationStartOdomCallback(m);}
void spec_odom(Node & node, const nav_msgs::msg::Odometry::ConstSharedPtr & m)
{
  __verif_opaque("GetIsometry3d");
  const double t = rclcpp::Time(m->header.stamp).nanoseconds();
  node.prior_poses_.objects_[t] = GetIsometry3d(m->pose.pose);
}
void impl_pose(Node & node, const geometry_msgs::msg::PoseStamped::ConstSharedPtr & m) {node.OptimizationStartPoseCallback(m);}
void spec_pose(Node & node, const geometry_msgs::msg::PoseStamped::ConstSharedPtr & m)
{
  __verif_opaque("GetIsometry3d");
  const double t = rclcpp::Time(m->header.stamp).nanoseconds();
  node.prior_poses_.objects_[t] = GetIsometry3d(m->pose);
}
using L = Localizer<PointXYZToVector, pcl::PointXYZ>;
std::tuple<bool, bool, Iso> impl_localizer(
  const Cloud::Ptr & edges, const Cloud::Ptr & surfaces, int limit, const Iso & start, const EdgeSurfaceScan & scan)
{
  L l(edges, surfaces, limit);
  l.Init(start);
  const bool ok = l.Update(scan);
  return std::make_tuple(ok, l.IsInitialized(), l.Get());
}
std::tuple<bool, bool, Iso> spec_localizer(
  const Cloud::Ptr & edges, const Cloud::Ptr & surfaces, int limit, const Iso & start, const EdgeSurfaceScan & scan)
{
  __verif_opaque("Optimizer::Run");
  const LOAMOptimizationProblem<PointXYZToVector> problem(edges, surfaces, 15);
  const OptimizationResult r =
    Optimizer<LOAMOptimizationProblem<PointXYZToVector>, EdgeSurfaceScan>(problem, limit).Run(scan, start);
  return std::make_tuple(r.success, true, r.pose);
}
std::tuple<bool, Iso> impl_idle(const Cloud::Ptr & edges, const Cloud::Ptr & surfaces, int limit)
{
  const L l(edges, surfaces, limit);
  return std::make_tuple(l.IsInitialized(), l.Get());
}
std::tuple<bool, Iso> spec_idle(const Cloud::Ptr & edges, const Cloud::Ptr & surfaces, int limit)
{
  return std::make_tuple(false, Iso::Identity());
}
}  // namespace O08

namespace O09 {
// entries are kept in ascending order of their stamps
bool impl_insert(std::map<double, double> & m, double t, double x)
{
  StampSortedObjects<double> s;
  s.objects_ = m;
  s.Insert(t, x);
  m = s.objects_;
  return s.Size() == m.size();
}
bool spec_insert(std::map<double, double> & m, double t, double x)
{
  m[t] = x;
  return true;
}
std::tuple<double, double> impl_closest(const std::map<double, double> & m, double t)
{
  StampSortedObjects<double> s;
  s.objects_ = m;
  return s.GetClosest(t);
}
std::tuple<double, double> spec_closest(const std::map<double, double> & m, double t)
{
  __verif_assume(m.size() > 0);
  const auto after = m.lower_bound(t);
  if (after == m.begin()) {return std::make_tuple(after->first, after->second);}
  const auto before = std::prev(after);
  if (after != m.end() && after->first - t <= t - before->first) {
    return std::make_tuple(after->first, after->second);
  }
  return std::make_tuple(before->first, before->second);
}
void impl_forget(std::map<double, double> & m, double t)
{
  StampSortedObjects<double> s;
  s.objects_ = m;
  s.RemoveOlderThan(t);
  m = s.objects_;
}
void spec_forget(std::map<double, double> & m, double t)
{
  m.erase(m.upper_bound(t), m.end());
}
}  // namespace O09

namespace O10 {
using Scans = std::vector<Cloud::Ptr>;
void impl_merge(const Scans & scans, Cloud & out) {out = *MergeClouds<pcl::PointXYZ>(scans);}
void spec_merge(const Scans & scans, Cloud & out)
{
  Cloud all;
  for (size_t i = 0; i < scans.size(); i++) {all += *scans[i];}
  out = all;
}
void impl_add(RecentScans<pcl::PointXYZ> & r, const Iso & pose, const Cloud::Ptr & scan) {r.Add(pose, scan);}
void spec_add(RecentScans<pcl::PointXYZ> & r, const Iso & pose, const Cloud::Ptr & scan)
{
  __verif_opaque("TransformPointCloud");
  r.scans_.push_back(TransformPointCloud<pcl::PointXYZ>(pose, scan));
}
Cloud::Ptr impl_recent(const RecentScans<pcl::PointXYZ> & r, int n) {return r.GetRecent(n);}
Cloud::Ptr spec_recent(const RecentScans<pcl::PointXYZ> & r, int n)
{
  __verif_opaque("MergeClouds");
  __verif_assume(n >= 0);
  const size_t all = r.scans_.size();
  const size_t k = all < static_cast<size_t>(n) ? all : n;
  Scans last;
  for (size_t i = all - k; i < all; i++) {last.push_back(r.scans_[i]);}
  return MergeClouds<pcl::PointXYZ>(last);
}
Cloud::Ptr impl_all(const RecentScans<pcl::PointXYZ> & r) {return r.GetAll();}
Cloud::Ptr spec_all(const RecentScans<pcl::PointXYZ> & r)
{
  __verif_opaque("MergeClouds");
  return MergeClouds<pcl::PointXYZ>(r.scans_);
}
bool impl_none(const RecentScans<pcl::PointXYZ> & r) {return r.IsEmpty();}
bool spec_none(const RecentScans<pcl::PointXYZ> & r) {return r.scans_.size() == 0;}

// a map keeps what it is given and returns the given number of latest scans
std::tuple<bool, bool, Cloud::Ptr> impl_map(int n, const Iso & a, const Cloud::Ptr & s, const Iso & b, const Cloud::Ptr & t)
{
  PointCloudMap<pcl::PointXYZ> m(n);
  const bool before = m.IsEmpty();
  m.Add(a, s);
  m.Add(b, t);
  return std::make_tuple(before, m.IsEmpty(), m.GetRecent());
}
std::tuple<bool, bool, Cloud::Ptr> spec_map(int n, const Iso & a, const Cloud::Ptr & s, const Iso & b, const Cloud::Ptr & t)
{
  __verif_opaque("TransformPointCloud");
  __verif_opaque("RecentScans::GetRecent");
  RecentScans<pcl::PointXYZ> r;
  r.scans_.push_back(TransformPointCloud<pcl::PointXYZ>(a, s));
  r.scans_.push_back(TransformPointCloud<pcl::PointXYZ>(b, t));
  return std::make_tuple(true, false, r.GetRecent(n));
}

// one step of odometry: the first scan lies at the origin, others are matched from the last pose
struct ScanType;
struct Local;
struct MapType
{
  bool IsEmpty() const;
  void Add(const Iso & pose, const ScanType & scan);
  Local GetRecent() const;
};
struct Local {double x;};
struct Updater
{
  explicit Updater(const Local & map) : map_(map) {}
  Iso operator()(const ScanType & scan, const Iso & pose) const {return Match(map_, scan, pose);}
  static Iso Match(const Local & map, const ScanType & scan, const Iso & pose);
  Local map_;
};
using Od = Odometry<Updater, MapType, ScanType>;
void impl_step(Od & o, const ScanType & scan) {o.Update(scan);}
void spec_step(Od & o, const ScanType & scan)
{
  if (!o.map_->IsEmpty()) {o.pose_ = Updater::Match(o.map_->GetRecent(), scan, o.pose_);}
  o.map_->Add(o.pose_, scan);
}
Iso impl_origin(std::shared_ptr<MapType> & map) {return Od(map).CurrentPose();}
Iso spec_origin(std::shared_ptr<MapType> & map) {return Iso::Identity();}

std::vector<double> impl_filter(const std::vector<bool> & keep, const std::vector<double> & values)
{
  return Filter(keep, values);
}
std::vector<double> spec_filter(const std::vector<bool> & keep, const std::vector<double> & values)
{
  __verif_assume(keep.size() == values.size());
  std::vector<double> out;
  for (size_t i = 0; i < keep.size(); i++) {
    if (keep[i]) {out.push_back(values[i]);}
  }
  return out;
}
M impl_degrees(const M & x) {return Rad2Deg(x);}
M spec_degrees(const M & x)
{
  M d(x.rows(), x.cols());
  for (int i = 0; i < x.rows(); i++) {
    for (int j = 0; j < x.cols(); j++) {d(i, j) = x(i, j) * 180.0 / M_PI;}
  }
  return d;
}
void impl_save(const std::string & name, const Cloud::Ptr & map) {SaveMapIfNotEmpty<pcl::PointXYZ>(name, map);}
void spec_save(const std::string & name, const Cloud::Ptr & map)
{
  if (map->size() > 0) {pcl::io::save(name, *map);}
}
}  // namespace O10

#define main localization_main
#include "localization/app/localization.cpp"
#undef main

namespace N02 {
using O08::Matcher;
using O08::Node;
using Qos = rmw_qos_profile_t;
using End = std::tuple<std::string, Qos>;
using Group = rclcpp::CallbackGroupType;
using Prior = std::tuple<End, Group>;
Qos sensor()
{
  Qos q;
  q.depth = 5;
  return q;
}

// the scans are paired by their exact stamps, and none of them is dropped
using Scans = std::tuple<bool, uint32_t, End, End>;
Scans impl_scans(Matcher & matcher)
{
  Node node(matcher);
  return Scans(
    node.sync_->exact, node.sync_->queue, End(node.sync_->first_topic, node.sync_->first_qos),
    End(node.sync_->second_topic, node.sync_->second_qos));
}
Scans spec_scans(Matcher & matcher)
{
  Qos all;
  all.keep_all = true;
  return Scans(true, 10, End("scan_edge", all), End("scan_surface", all));
}

// priors may arrive while a scan is matched: each source of priors has a group of its own
std::tuple<Prior, Prior, End> impl_priors(Matcher & matcher)
{
  Node node(matcher);
  const auto & odom = *node.optimization_start_odom_subscriber_;
  const auto & pose = *node.optimization_start_pose_subscriber_;
  return std::make_tuple(
    Prior(End(odom.topic, odom.qos), odom.group->type), Prior(End(pose.topic, pose.qos), pose.group->type),
    End(node.pose_publisher_->topic, node.pose_publisher_->qos));
}
std::tuple<Prior, Prior, End> spec_priors(Matcher & matcher)
{
  Qos ten;
  ten.depth = 10;
  return std::make_tuple(
    Prior(End("optimization_start_odom", sensor()), Group::MutuallyExclusive),
    Prior(End("optimization_start_pose", sensor()), Group::MutuallyExclusive), End("estimated_pose", ten));
}

// messages reach the callbacks meant for them
using Store = std::map<double, Iso>;
Store impl_odom(Matcher & matcher, const std::shared_ptr<nav_msgs::msg::Odometry> & m)
{
  Node node(matcher);
  node.optimization_start_odom_subscriber_->callback(m);
  return node.prior_poses_.objects_;
}
Store spec_odom(Matcher & matcher, const std::shared_ptr<nav_msgs::msg::Odometry> & m)
{
  Node node(matcher);
  node.OptimizationStartOdomCallback(m);
  return node.prior_poses_.objects_;
}
Store impl_pose(Matcher & matcher, const std::shared_ptr<geometry_msgs::msg::PoseStamped> & m)
{
  Node node(matcher);
  node.optimization_start_pose_subscriber_->callback(m);
  return node.prior_poses_.objects_;
}
Store spec_pose(Matcher & matcher, const std::shared_ptr<geometry_msgs::msg::PoseStamped> & m)
{
  Node node(matcher);
  node.OptimizationStartPoseCallback(m);
  return node.prior_poses_.objects_;
}
using Out = rclcpp::Publisher<geometry_msgs::msg::PoseWithCovarianceStamped>;
using Sent = std::tuple<Out, Store, Matcher>;
Sent impl_pair(Matcher & matcher, const Store & priors, const Msg::ConstSharedPtr & edge, const Msg::ConstSharedPtr & surface)
{
  Node node(matcher);
  node.prior_poses_.objects_ = priors;
  node.sync_->callback(edge, surface);
  return Sent(*node.pose_publisher_, node.prior_poses_.objects_, node.localizer_);
}
Sent spec_pair(Matcher & matcher, const Store & priors, const Msg::ConstSharedPtr & edge, const Msg::ConstSharedPtr & surface)
{
  __verif_opaque("MakePoseWithCovarianceStamped");
  __verif_opaque("MakeTransformStamped");
  Node node(matcher);
  node.prior_poses_.objects_ = priors;
  node.PoseUpdateCallback(edge, surface);
  return Sent(*node.pose_publisher_, node.prior_poses_.objects_, node.localizer_);
}
// without both maps there is nothing to match against
int impl_program(int argc, char ** argv) {return localization_main(argc, argv);}
int spec_program(int argc, char ** argv)
{
  __verif_opaque("EdgeMap::EdgeMap");
  rclcpp::init(argc, argv);
  const std::string edge = "maps/edge.pcd";
  const std::string surface = "maps/surface.pcd";
  if (!rcpputils::fs::exists(edge) || !rcpputils::fs::exists(surface)) {return -1;}
  Cloud::Ptr e(new Cloud());
  Cloud::Ptr s(new Cloud());
  pcl::io::loadPCDFile(edge, *e);
  pcl::io::loadPCDFile(surface, *s);
  Localizer<PointXYZToVector, pcl::PointXYZ> l(e, s, 40);
  rclcpp::spin(std::make_shared<LocalizationSubscriber<Localizer<PointXYZToVector, pcl::PointXYZ>, pcl::PointXYZ>>(l));
  rclcpp::verif_running = false;
  return 0;
}
}  // namespace N02
