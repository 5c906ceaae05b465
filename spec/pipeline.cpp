// X09: what the extraction node publishes for a scan.
#include <cassert>
#include <cmath>
#include <numeric>
#include <stdexcept>
#include "verif.hpp"
#include "rclcpp/rclcpp.hpp"
#include "extraction/src/color_points.cpp"
#include "extraction/src/convolution.cpp"
#include "extraction/src/curvature.cpp"
#include "extraction/src/index_range.cpp"
#include "extraction/src/iterator.cpp"
#include "extraction/src/ring.cpp"
#define main extraction_main
#include "extraction/app/feature_extraction.cpp"
#undef main

namespace X09 {
using Xyzir = pcl::PointCloud<PointXYZIR>;
using Colored = pcl::PointCloud<pcl::PointXYZRGB>;
using Labels = std::vector<PointLabel>;
using Cloud2 = sensor_msgs::msg::PointCloud2;

void impl_append(const Xyzir::Ptr & out, const std::vector<PointXYZIR> & points, const std::vector<double> & c)
{
  AppendXYZIR<PointXYZIR>(out, points, c);
}
void spec_append(const Xyzir::Ptr & out, const std::vector<PointXYZIR> & points, const std::vector<double> & c)
{
  __verif_assume(points.size() == c.size());
  for (int i = 0; i < static_cast<int>(c.size()); i++) {
    PointXYZIR q;
    q.x = points[i].x; q.y = points[i].y; q.z = points[i].z;
    q.intensity = c[i];
    q.ring = points[i].ring;
    out->push_back(q);
  }
}

// the points with the given label, in ring order, with the curvature as intensity
void append(const Xyzir::Ptr & out, const MappedPoints<PointXYZIR> & points, const std::vector<double> & curvature,
            const Labels & labels, const PointLabel label)
{
  std::vector<int> chosen;
  for (int i = 0; i < static_cast<int>(labels.size()); i++) {
    if (labels[i] == label) {chosen.push_back(i);}
  }
  for (const int i : chosen) {
    const PointXYZIR q = points.at(i);
    out->push_back(PointXYZIR(q.x, q.y, q.z, curvature[i], q.ring));
  }
}

void impl_scan(FeatureExtraction & node, const Cloud2::ConstSharedPtr & msg)
{
  node.Callback(msg);
}
void spec_scan(FeatureExtraction & node, const Cloud2::ConstSharedPtr & msg)
{
  // each decided by its own property
  __verif_opaque("ExtractAngleSortedRings");
  __verif_opaque("RemoveSparseRings");
  __verif_opaque_in_place("AssignLabel");
  __verif_opaque_in_place("LabelOccludedPoints");
  __verif_opaque_in_place("LabelOutOfRange");
  __verif_opaque_in_place("LabelParallelBeamPoints");
  __verif_opaque("ColorPointsByLabel");
  __verif_opaque_pointwise("CalcCurvature");  // its own refusal (n < 2 * padding + 1) is implied by the one below
  __verif_opaque("DegreeToRadian");
  const HyperParameters & p = node.params_;
  __verif_assume(p.padding > 0 && p.n_blocks > 0);

  Xyzir::Ptr cloud = GetPointCloud<PointXYZIR>(*msg);
  // a scan with invalid points or without rings is the last one
  if (!cloud->is_dense || !RingIsAvailable(msg->fields)) {rclcpp::verif_running = false;}
  Xyzir::Ptr edge(new Xyzir());
  Xyzir::Ptr surface(new Xyzir());
  Colored::Ptr colored(new Colored());
  auto rings = ExtractAngleSortedRings(*cloud);
  RemoveSparseRings(rings, p.padding + 1);
  for (const auto & entry : rings) {
    const MappedPoints<PointXYZIR> points(cloud, entry.second);
    const int n = points.size();
    const NeighborCheckXY<PointXYZIR> nb(points, DegreeToRadian(p.neighbor_degree_threshold));
    const Range<PointXYZIR> range(points);
    // too few points: only this ring is left out
    if (n - 2 * p.padding < p.n_blocks) {continue;}
    std::vector<double> ranges;
    for (int i = 0; i < n; i++) {ranges.push_back(range(i));}
    const std::vector<double> curvature = CalcCurvature(ranges, p.padding);
    const PaddedIndexRange blocks(n, p.n_blocks, p.padding);
    Labels labels(n, PointLabel::Default);
    AssignLabel(labels, curvature, nb, blocks, node.edge_label_, node.surface_label_);
    LabelOccludedPoints(labels, nb, range, p.padding, p.distance_diff_threshold);
    LabelOutOfRange(labels, range, p.min_range, p.max_range);
    LabelParallelBeamPoints(labels, range, p.parallel_beam_min_range_ratio);
    append(edge, points, curvature, labels, PointLabel::Edge);
    append(surface, points, curvature, labels, PointLabel::Surface);
    *colored += *ColorPointsByLabel<PointXYZIR>(points, labels);
  }
  const std::string frame = "lidar_feature_base_link";
  const auto stamp = msg->header.stamp;
  node.colored_scan_publisher_->publish(ToRosMsg<pcl::PointXYZRGB>(colored, stamp, frame));
  node.edge_publisher_->publish(ToRosMsg<pcl::PointXYZ>(ToPointXYZ<PointXYZIR>(edge), stamp, frame));
  node.surface_publisher_->publish(ToRosMsg<pcl::PointXYZ>(ToPointXYZ<PointXYZIR>(surface), stamp, frame));
}
}  // namespace X09

namespace N01 {
using rclcpp::verif_parameter;
using Cloud2 = sensor_msgs::msg::PointCloud2;
using Qos = rmw_qos_profile_t;
double real(const char * name, double value) {return verif_parameter<double>("lidar_feature_extraction", name, value);}
int integer(const char * name, int value) {return verif_parameter<int>("lidar_feature_extraction", name, value);}

// every setting is the declared parameter of its name
using Settings = std::tuple<int, double, double, double, double, double, double, double, int>;
Settings settings(const HyperParameters & p)
{
  return Settings(
    p.padding, p.neighbor_degree_threshold, p.distance_diff_threshold, p.parallel_beam_min_range_ratio,
    p.edge_threshold, p.surface_threshold, p.min_range, p.max_range, p.n_blocks);
}
Settings expected()
{
  const int padding = integer("convolution_padding", 5);
  const double neighbor = real("neighbor_degree_threshold", 2.0);
  const double distance = real("distance_diff_threshold", 0.3);
  const double beam = real("parallel_beam_min_range_ratio", 0.02);
  const double edge = real("edge_threshold", 0.05);
  const double surface = real("surface_threshold", 0.05);
  const double nearest = real("min_range", 0.1);
  const double farthest = real("max_range", 100.0);
  const int blocks = integer("n_blocks", 6);
  __verif_assume(padding > 0 && neighbor > 0 && distance > 0 && beam > 0 && edge > 0 && surface > 0 &&
                 nearest > 0 && farthest > 0 && blocks > 0);
  return Settings(padding, neighbor, distance, beam, edge, surface, nearest, farthest, blocks);
}
Settings impl_settings()
{
  FeatureExtraction node;
  return settings(node.params_);
}
Settings spec_settings() {return expected();}

// the labellers work with the configured padding and thresholds
std::tuple<int, double, int, double> impl_labels()
{
  FeatureExtraction node;
  return std::make_tuple(
    node.edge_label_.padding_, node.edge_label_.threshold_, node.surface_label_.padding_,
    node.surface_label_.threshold_);
}
std::tuple<int, double, int, double> spec_labels()
{
  const Settings s = expected();
  return std::make_tuple(std::get<0>(s), std::get<4>(s), std::get<0>(s), std::get<5>(s));
}

using End = std::tuple<std::string, Qos>;
std::tuple<End, End, End, End> impl_topics()
{
  FeatureExtraction node;
  return std::make_tuple(
    End(node.cloud_subscriber_->topic, node.cloud_subscriber_->qos),
    End(node.colored_scan_publisher_->topic, node.colored_scan_publisher_->qos),
    End(node.edge_publisher_->topic, node.edge_publisher_->qos),
    End(node.surface_publisher_->topic, node.surface_publisher_->qos));
}
std::tuple<End, End, End, End> spec_topics()
{
  expected();
  Qos sensor, last;
  sensor.depth = 5;
  last.depth = 1;
  return std::make_tuple(
    End("points_raw", sensor), End("colored_scan", last), End("scan_edge", sensor), End("scan_surface", sensor));
}

// a received scan is handled by the node that received it
using Out = rclcpp::Publisher<Cloud2>;
std::tuple<Out, Out, Out> impl_receive(const std::shared_ptr<Cloud2> & msg)
{
  FeatureExtraction node;
  node.cloud_subscriber_->callback(msg);
  return std::make_tuple(*node.colored_scan_publisher_, *node.edge_publisher_, *node.surface_publisher_);
}
std::tuple<Out, Out, Out> spec_receive(const std::shared_ptr<Cloud2> & msg)
{
  __verif_opaque("ExtractAngleSortedRings");
  __verif_opaque("RemoveSparseRings");
  __verif_opaque_in_place("AssignLabel");
  __verif_opaque_in_place("LabelOccludedPoints");
  __verif_opaque_in_place("LabelOutOfRange");
  __verif_opaque_in_place("LabelParallelBeamPoints");
  __verif_opaque("ColorPointsByLabel");
  __verif_opaque_pointwise("CalcCurvature");
  __verif_opaque("DegreeToRadian");
  expected();
  FeatureExtraction node;
  node.Callback(msg);
  return std::make_tuple(*node.colored_scan_publisher_, *node.edge_publisher_, *node.surface_publisher_);
}
int impl_program(int argc, char ** argv) {return extraction_main(argc, argv);}
int spec_program(int argc, char ** argv)
{
  rclcpp::init(argc, argv);
  expected();
  rclcpp::spin(std::make_shared<FeatureExtraction>());
  rclcpp::verif_running = false;
  return 0;
}
}  // namespace N01
