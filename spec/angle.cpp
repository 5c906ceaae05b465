// X10: two points are neighbours when the angle between them, seen from the sensor, is small.
#include <cmath>
#include <stdexcept>
#include "verif.hpp"
#include "rclcpp/rclcpp.hpp"
#include <pcl/point_types.h>
#include "extraction/src/iterator.cpp"
#include "extraction/src/math.cpp"
#include "lidar_feature_extraction/neighbor.hpp"
#include "lidar_feature_library/degree_to_radian.hpp"

namespace X10 {
using Mapped = MappedPoints<pcl::PointXYZ>;
using NB = NeighborCheckXY<pcl::PointXYZ>;

double impl_angle(double x1, double y1, double x2, double y2) {return CalcRadian(x1, y1, x2, y2);}
double spec_angle(double x1, double y1, double x2, double y2)
{
  const double a = std::sqrt(x1 * x1 + y1 * y1);
  const double b = std::sqrt(x2 * x2 + y2 * y2);
  if (a == 0 && b == 0) {throw std::invalid_argument("");}
  const double c = (x1 * x2 + y1 * y2) / (a * b);
  // the computed ratio may leave [-1, 1]
  return std::acos(std::clamp(c, -1., 1.));
}
bool impl_neighbor(const pcl::PointXYZ & p, const pcl::PointXYZ & q, double t) {return IsNeighborXY(p, q, t);}
bool spec_neighbor(const pcl::PointXYZ & p, const pcl::PointXYZ & q, double t)
{
  return spec_angle(p.x, p.y, q.x, q.y) < t;
}
bool impl_check(const Mapped & m, double t, int i, int j) {return NB(m, t)(i, j);}
bool spec_check(const Mapped & m, double t, int i, int j)
{
  const int n = m.size();
  if (n < 2) {throw std::invalid_argument("");}
  if (i < 0 || i >= n || j < 0 || j >= n) {throw std::out_of_range("");}
  const pcl::PointXYZ p = m.at(i);
  const pcl::PointXYZ q = m.at(j);
  return spec_angle(p.x, p.y, q.x, q.y) < t;
}
bool impl_slice(const Mapped & m, double t, int begin, int end, int i, int j)
{
  return NB(m, t).Slice(begin, end)(i, j);
}
bool spec_slice(const Mapped & m, double t, int begin, int end, int i, int j)
{
  const int n = m.size();
  __verif_assume(0 <= begin && begin <= end && end <= n);
  if (n < 2 || end - begin < 2) {throw std::invalid_argument("");}
  if (i < 0 || i >= end - begin || j < 0 || j >= end - begin) {throw std::out_of_range("");}
  const pcl::PointXYZ p = m.at(begin + i);
  const pcl::PointXYZ q = m.at(begin + j);
  return spec_angle(p.x, p.y, q.x, q.y) < t;
}
int impl_size(const Mapped & m, double t) {return NB(m, t).size();}
int spec_size(const Mapped & m, double)
{
  if (m.size() < 2) {throw std::invalid_argument("");}
  return m.size();
}
}  // namespace X10
