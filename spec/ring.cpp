// X08: points are grouped by ring and sorted by polar angle.
#include <cmath>
#include <cstdint>
#include <stdexcept>
#include <string>
#include "verif.hpp"
#include "rclcpp/rclcpp.hpp"
#include "extraction/src/iterator.cpp"
#include "extraction/src/ring.cpp"
#include "lidar_feature_library/point_type.hpp"

namespace X08 {
using Rings = std::unordered_map<int, std::vector<int>>;
using Cloud = pcl::PointCloud<PointXYZIR>;
struct P {double x; double y;};
using Points = std::vector<P>;

// position of the angle within (-pi, pi]: lower half, positive x axis, upper half, negative x axis
int sector(const P & p)
{
  if (p.y < 0) {return 0;}
  if (p.y > 0) {return 2;}
  return p.x >= 0 ? 1 : 3;
}
bool impl_smaller(const P & a, const P & b) {return AHasSmallerPolarAngleThanB<P>()(a, b);}
bool spec_smaller(const P & a, const P & b)
{
  if (sector(a) != sector(b)) {return sector(a) < sector(b);}
  if (a.y == 0) {return false;}
  return a.x * b.y - a.y * b.x > 0;
}
bool law_one_way(const P & a, const P & b)
{
  return !(AHasSmallerPolarAngleThanB<P>()(a, b) && AHasSmallerPolarAngleThanB<P>()(b, a));
}
void impl_sort(std::vector<int> & indices, const Points & points)
{
  SortByAtan2(indices, points);
}
void spec_sort(std::vector<int> & indices, const Points & points)
{
  const int n = points.size();
  for (int i : indices) {__verif_assume(0 <= i && i < n);}
  std::sort(indices.begin(), indices.end(),
    [&](int a, int b) {return spec_smaller(points[a], points[b]);});
}
Rings impl_group(const Cloud & cloud) {return MakePointIndices(cloud);}
Rings spec_group(const Cloud & cloud)
{
  Rings rings;
  for (int i = 0; i < static_cast<int>(cloud.size()); i++) {
    rings[cloud.points[i].ring].push_back(i);
  }
  return rings;
}
void impl_sparse(Rings & rings, int n) {RemoveSparseRings(rings, n);}
void spec_sparse(Rings & rings, int n)
{
  __verif_keep(rings, [&](const std::pair<const int, std::vector<int>> & ring) {
      return static_cast<int>(ring.second.size()) >= n;
    });
}
bool impl_available(const std::vector<sensor_msgs::msg::PointField> & fields)
{
  return RingIsAvailable(fields);
}
bool spec_available(const std::vector<sensor_msgs::msg::PointField> & fields)
{
  return std::any_of(fields.begin(), fields.end(),
    [](const sensor_msgs::msg::PointField & f) {return f.name == "ring";});
}
Rings impl_all(const Cloud & cloud) {return ExtractAngleSortedRings(cloud);}
Rings spec_all(const Cloud & cloud)
{
  Rings rings = spec_group(cloud);
  for (auto & [ring, indices] : rings) {SortByAtan2(indices, cloud);}
  return rings;
}
}  // namespace X08
