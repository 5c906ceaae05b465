// X02, X03, X05 .. X09: labelling of one ring. The angle function stays abstract here (see neighbor.cpp).
#include <cassert>
#include <cmath>
#include <numeric>
#include <stdexcept>
#include "verif.hpp"
#include "rclcpp/rclcpp.hpp"
#include "extraction/src/color_points.cpp"
#include "extraction/src/convolution.cpp"
#include "extraction/src/curvature.cpp"
#include "extraction/src/index_range.cpp"
#include "extraction/src/iterator.cpp"
#include "extraction/src/ring.cpp"
#include "lidar_feature_extraction/algorithm.hpp"
#include "lidar_feature_extraction/fill.hpp"
#include "lidar_feature_extraction/label.hpp"
#include "lidar_feature_extraction/occlusion.hpp"
#include "lidar_feature_extraction/out_of_range.hpp"
#include "lidar_feature_extraction/parallel_beam.hpp"
#include "lidar_feature_extraction/range.hpp"

using Labels = std::vector<PointLabel>;
using Reals = std::vector<double>;
using Cloud = pcl::PointCloud<pcl::PointXYZ>;
using Mapped = MappedPoints<pcl::PointXYZ>;

namespace X02 {
void impl_from_left(Labels & labels, const NeighborCheckBase & nb, int begin, int end, const PointLabel & l)
{
  FillFromLeft(labels, nb, begin, end, l);
}
// everything from begin up to the first gap, and never beyond end
void spec_from_left(Labels & labels, const NeighborCheckBase & nb, int begin, int end, const PointLabel & l)
{
  const int size = labels.size();
  __verif_assume(nb.size() == size && begin < end);
  if (end > size || begin < 0) {throw std::invalid_argument("");}
  int last = begin;
  while (last < end - 1 && nb(last, last + 1)) {last++;}
  for (int i = 0; i < size; i++) {
    if (begin <= i && i <= last) {labels[i] = l;}
  }
}
void impl_from_right(Labels & labels, const NeighborCheckBase & nb, int begin, int end, const PointLabel & l)
{
  FillFromRight(labels, nb, begin, end, l);
}
void spec_from_right(Labels & labels, const NeighborCheckBase & nb, int begin, int end, const PointLabel & l)
{
  const int size = labels.size();
  __verif_assume(nb.size() == size && begin < end);
  if (end >= size || begin < -1) {throw std::invalid_argument("");}
  int last = end;
  while (last > begin + 1 && nb(last, last - 1)) {last--;}
  for (int i = 0; i < size; i++) {
    if (last <= i && i <= end) {labels[i] = l;}
  }
}
void impl_neighbors(Labels & labels, const NeighborCheckBase & nb, int index, int padding, const PointLabel & l)
{
  FillNeighbors(labels, nb, index, padding, l);
}
// at most `padding` points on each side, not across a gap, not outside of the ring
void spec_neighbors(Labels & labels, const NeighborCheckBase & nb, int index, int padding, const PointLabel & l)
{
  const int size = labels.size();
  __verif_assume(nb.size() == size && 0 <= index && index < size && 0 <= padding);
  int right = index;
  while (right < index + padding && right < size - 1 && nb(right, right + 1)) {right++;}
  int left = index;
  while (left > index - padding && left > 0 && nb(left, left - 1)) {left--;}
  for (int i = 0; i < size; i++) {
    if (left <= i && i <= right) {labels[i] = l;}
  }
}
}  // namespace X02

namespace X03 {
std::vector<int> impl_argsort(const Reals & v) {return Argsort(v.begin(), v.end());}
// the positions ordered by value
std::vector<int> spec_argsort(const Reals & v)
{
  std::vector<int> order;
  for (int i = 0; i < static_cast<int>(v.size()); i++) {order.push_back(i);}
  std::sort(order.begin(), order.end(), [&](int a, int b) {return v[a] < v[b];});
  return order;
}

// marks point i and its connected surroundings
void mark(
  Labels & labels, const NeighborCheckBase & nb, int index, int padding, PointLabel around, PointLabel own)
{
  FillNeighbors(labels, nb, index, padding, around);
  labels[index] = own;
}

void impl_edge(
  Labels & labels, const Reals & curvature, const NeighborCheckBase & nb, int padding, double threshold)
{
  EdgeLabel(padding, threshold).Assign(labels, curvature, nb);
}
// from the sharpest point down, take each one that is still free and sharp enough
void spec_edge(
  Labels & labels, const Reals & curvature, const NeighborCheckBase & nb, int padding, double threshold)
{
  __verif_opaque("FillNeighbors");
  __verif_assume(curvature.size() == labels.size() && nb.size() == static_cast<int>(labels.size()));
  __verif_assume(0 <= padding);
  const std::vector<int> order = spec_argsort(curvature);
  const int n = order.size();
  for (int k = 0; k < n; k++) {
    const int i = order[n - 1 - k];
    if (labels[i] == PointLabel::Default && curvature[i] >= threshold) {
      mark(labels, nb, i, padding, PointLabel::EdgeNeighbor, PointLabel::Edge);
    }
  }
}
void impl_surface(
  Labels & labels, const Reals & curvature, const NeighborCheckBase & nb, int padding, double threshold)
{
  SurfaceLabel(padding, threshold).Assign(labels, curvature, nb);
}
// from the flattest point up, take each one that is still free and flat enough
void spec_surface(
  Labels & labels, const Reals & curvature, const NeighborCheckBase & nb, int padding, double threshold)
{
  __verif_opaque("FillNeighbors");
  __verif_assume(curvature.size() == labels.size() && nb.size() == static_cast<int>(labels.size()));
  __verif_assume(0 <= padding && labels.size() > 0);
  const std::vector<int> order = spec_argsort(curvature);
  const int n = order.size();
  for (int k = 0; k < n; k++) {
    const int i = order[k];
    if (labels[i] == PointLabel::Default && curvature[i] <= threshold) {
      mark(labels, nb, i, padding, PointLabel::SurfaceNeighbor, PointLabel::Surface);
    }
  }
}

void impl_blocks(
  Labels & labels, const Reals & curvature, const NeighborCheckXY<pcl::PointXYZ> & nb,
  int n_blocks, int padding, double edge_threshold, double surface_threshold)
{
  const EdgeLabel edge(padding, edge_threshold);
  const SurfaceLabel surface(padding, surface_threshold);
  AssignLabel(labels, curvature, nb, PaddedIndexRange(labels.size(), n_blocks, padding), edge, surface);
}
// block by block, edges first, each block seeing only its own points
void spec_blocks(
  Labels & labels, const Reals & curvature, const NeighborCheckXY<pcl::PointXYZ> & nb,
  int n_blocks, int padding, double edge_threshold, double surface_threshold)
{
  const int size = labels.size();
  __verif_assume(static_cast<int>(curvature.size()) == size && nb.size() == size);
  __verif_assume(0 < n_blocks && 0 <= padding);
  __verif_opaque("EdgeLabel::Assign");      // decided by X03.edge and X03.surface
  __verif_opaque("SurfaceLabel::Assign");
  if (size - 2 * padding < n_blocks) {throw std::invalid_argument("");}
  const EdgeLabel edge(padding, edge_threshold);
  const SurfaceLabel surface(padding, surface_threshold);
  const int m = size - 2 * padding;
  for (int j = 0; j < n_blocks; j++) {
    const int b = (padding * n_blocks + m * j) / n_blocks;
    const int e = (padding * n_blocks + m * (j + 1)) / n_blocks;
    span<PointLabel> l(labels.begin() + b, labels.begin() + e);
    const const_span<double> c(curvature.begin() + b, curvature.begin() + e);
    const NeighborCheckXY<pcl::PointXYZ> part = nb.Slice(b, e);
    edge.Assign(l, c, part);
    surface.Assign(l, c, part);
  }
}
}  // namespace X03

namespace X05 {
using NB = NeighborCheckXY<pcl::PointXYZ>;
using RG = Range<pcl::PointXYZ>;
// first index of the run connected to i on the right / left, at most n points long
void spec_hide_right(Labels & labels, const NB & nb, int i, int n)
{
  int last = i;
  while (last < i + n - 1 && nb(last, last + 1)) {last++;}
  for (int k = 0; k < static_cast<int>(labels.size()); k++) {
    if (i <= k && k <= last) {labels[k] = PointLabel::Occluded;}
  }
}
void spec_hide_left(Labels & labels, const NB & nb, int i, int n)
{
  int last = i;
  while (last > i - n + 1 && nb(last, last - 1)) {last--;}
  for (int k = 0; k < static_cast<int>(labels.size()); k++) {
    if (last <= k && k <= i) {labels[k] = PointLabel::Occluded;}
  }
}
void impl_from_left(Labels & labels, const NB & nb, const RG & range, unsigned padding, double t)
{
  FromLeft(labels, nb, range, padding, t);
}
void spec_from_left(Labels & labels, const NB & nb, const RG & range, unsigned padding, double t)
{
  const int n = labels.size();
  const int p = padding;
  __verif_assume(nb.size() == n && range.size() == n && n >= p + 1);
  for (int i = 0; i + p + 1 < n; i++) {
    if (nb(i, i + 1) && range(i + 1) > range(i) + t) {spec_hide_right(labels, nb, i + 1, p + 1);}
  }
}
void impl_from_right(Labels & labels, const NB & nb, const RG & range, unsigned padding, double t)
{
  FromRight(labels, nb, range, padding, t);
}
void spec_from_right(Labels & labels, const NB & nb, const RG & range, unsigned padding, double t)
{
  const int n = labels.size();
  const int p = padding;
  __verif_assume(nb.size() == n && range.size() == n && n >= p + 1);
  for (int i = n - 1; i > p; i--) {
    if (nb(i, i - 1) && range(i - 1) > range(i) + t) {spec_hide_left(labels, nb, i - 1, p + 1);}
  }
}
void impl_both(Labels & labels, const NB & nb, const RG & range, unsigned padding, double t)
{
  LabelOccludedPoints(labels, nb, range, padding, t);
}
void spec_both(Labels & labels, const NB & nb, const RG & range, unsigned padding, double t)
{
  const int n = labels.size();
  __verif_assume(nb.size() == n && range.size() == n && n >= static_cast<int>(padding) + 1);
  FromLeft(labels, nb, range, padding, t);   // decided by X05.from_left and X05.from_right
  FromRight(labels, nb, range, padding, t);
}
}  // namespace X05

namespace X06 {
double planar(const Mapped & m, int i)
{
  const pcl::PointXYZ p = m.at(i);
  const double x = p.x;
  const double y = p.y;
  return std::sqrt(x * x + y * y);
}
double impl_range(const Mapped & m, int i) {return Range<pcl::PointXYZ>(m)(i);}
double spec_range(const Mapped & m, int i) {return planar(m, i);}
Reals impl_ranges(const Mapped & m) {return Range<pcl::PointXYZ>(m)(0, m.size());}
Reals spec_ranges(const Mapped & m)
{
  Reals r;
  for (int i = 0; i < m.size(); i++) {r.push_back(planar(m, i));}
  return r;
}
int impl_size(const Mapped & m) {return Range<pcl::PointXYZ>(m).size();}
int spec_size(const Mapped & m) {return m.size();}
void impl_out_of_range(Labels & labels, const Mapped & m, double lo, double hi)
{
  LabelOutOfRange(labels, Range<pcl::PointXYZ>(m), lo, hi);
}
void spec_out_of_range(Labels & labels, const Mapped & m, double lo, double hi)
{
  __verif_assume(static_cast<int>(labels.size()) == m.size());
  for (int i = 0; i < m.size(); i++) {
    const double r = planar(m, i);
    if (r < lo || r > hi) {labels[i] = PointLabel::OutOfRange;}
  }
}
}  // namespace X06

namespace X07 {
void impl_parallel(Labels & labels, const Mapped & m, double ratio)
{
  LabelParallelBeamPoints(labels, Range<pcl::PointXYZ>(m), ratio);
}
void spec_parallel(Labels & labels, const Mapped & m, double ratio)
{
  const int n = labels.size();
  __verif_assume(n == m.size() && n >= 1);
  for (int i = 1; i + 1 < n; i++) {
    const double r = X06::planar(m, i);
    const float before = std::abs(X06::planar(m, i - 1) - r) / r;
    const float after = std::abs(X06::planar(m, i + 1) - r) / r;
    if (before > ratio && after > ratio) {labels[i] = PointLabel::ParallelBeam;}
  }
}
}  // namespace X07
