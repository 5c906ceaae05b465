// X11: the colouring of labels and values, and the composition of the feature clouds.
#include <cassert>
#include <cmath>
#include <cstdint>
#include <stdexcept>
#include "verif.hpp"
#include "rclcpp/rclcpp.hpp"
#include "extraction/src/iterator.cpp"
#include "extraction/src/color_points.cpp"
#include "lidar_feature_extraction/label.hpp"
#include "lidar_feature_library/point_type.hpp"

namespace X11 {
using Mapped = MappedPoints<PointXYZIR>;
using Rgb = std::vector<std::uint8_t>;
using Colored = pcl::PointCloud<pcl::PointXYZRGB>;

Rgb impl_label(PointLabel label) {return LabelToColor(label);}
Rgb spec_label(PointLabel label)
{
  switch (label) {
    case PointLabel::Default: return {255, 255, 255};
    case PointLabel::Edge:
    case PointLabel::Surface: return {255, 0, 0};
    case PointLabel::EdgeNeighbor:
    case PointLabel::SurfaceNeighbor: return {255, 63, 0};
    case PointLabel::OutOfRange: return {127, 127, 127};
    case PointLabel::Occluded: return {255, 0, 255};
    case PointLabel::ParallelBeam: return {0, 255, 0};
  }
  throw std::invalid_argument("");
}
Rgb impl_value(double v, double lo, double hi) {return ValueToColor(v, lo, hi);}
Rgb spec_value(double v, double lo, double hi)
{
  __verif_assume(lo < hi);
  const double x = v < lo ? lo : (hi < v ? hi : v);
  const std::uint8_t c = 255. * (x - lo) / (hi - lo);
  return {c, c, c};
}
pcl::PointXYZRGB colored(const PointXYZIR & p, const Rgb & c)
{
  pcl::PointXYZRGB q;
  q.x = p.x; q.y = p.y; q.z = p.z;
  q.r = c[0]; q.g = c[1]; q.b = c[2];
  return q;
}
pcl::PointXYZRGB impl_point(const PointXYZIR & p, const Rgb & c) {return MakeXYZRGB(p, c);}
pcl::PointXYZRGB spec_point(const PointXYZIR & p, const Rgb & c)
{
  __verif_assume(c.size() == 3);
  return colored(p, c);
}
Colored impl_by_label(const Mapped & m, const std::vector<PointLabel> & labels)
{
  return *ColorPointsByLabel<PointXYZIR>(m, labels);
}
Colored spec_by_label(const Mapped & m, const std::vector<PointLabel> & labels)
{
  __verif_assume(static_cast<int>(labels.size()) == m.size());
  Colored cloud;
  for (int i = 0; i < m.size(); i++) {
    const PointXYZIR p = m.at(i);
    cloud.push_back(colored(p, LabelToColor(labels[i])));
  }
  return cloud;
}
Colored impl_by_value(const Mapped & m, const std::vector<double> & values, double lo, double hi)
{
  return *ColorPointsByValue<PointXYZIR>(m, values, lo, hi);
}
Colored spec_by_value(const Mapped & m, const std::vector<double> & values, double lo, double hi)
{
  __verif_assume(static_cast<int>(values.size()) == m.size());
  Colored cloud;
  for (int i = 0; i < m.size(); i++) {
    const PointXYZIR p = m.at(i);
    cloud.push_back(colored(p, ValueToColor(values[i], lo, hi)));
  }
  return cloud;
}
}  // namespace X11
