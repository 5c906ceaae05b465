// L01, L02: the shared matrix, selection and statistics utilities.
#include "verif.hpp"
#include "lib/src/eigen.cpp"
#include "lib/src/algorithm.cpp"
#include "lib/src/stats.cpp"
#include "lib/src/random.cpp"
#include "lib/src/pcl_utils.cpp"
#include "lidar_feature_library/convert_point_cloud_type.hpp"
#include "lidar_feature_library/degree_to_radian.hpp"
#include "lidar_feature_library/numeric.hpp"
#include "lidar_feature_library/point_type.hpp"
#include "lidar_feature_library/span.hpp"
#include "localization/include/lidar_feature_localization/filter.hpp"
#include "localization/include/lidar_feature_localization/pointcloud_to_matrix.hpp"

namespace L01 {
using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;
using V3 = Eigen::Vector3d;
using Iso = Eigen::Isometry3d;
using Q = Eigen::Quaterniond;
using Cloud = pcl::PointCloud<pcl::PointXYZ>;

// the 36 numbers of a covariance message are the 6x6 matrix in row-major order
Matrix6d impl_covariance(const std::array<double, 36> & c) {return GetEigenCovariance(c);}
Matrix6d spec_covariance(const std::array<double, 36> & c)
{
  Matrix6d m;
  for (int i = 0; i < 6; i++) {
    for (int j = 0; j < 6; j++) {m(i, j) = c[6 * i + j];}
  }
  return m;
}
std::array<double, 36> impl_to_message(const Matrix6d & c) {return FromEigenCovariance(c);}
std::array<double, 36> spec_to_message(const Matrix6d & c)
{
  std::array<double, 36> a;
  for (int i = 0; i < 6; i++) {
    for (int j = 0; j < 6; j++) {a[6 * i + j] = c(i, j);}
  }
  return a;
}
Matrix6d impl_round_trip(const Matrix6d & c) {return GetEigenCovariance(FromEigenCovariance(c));}
Matrix6d spec_round_trip(const Matrix6d & c) {return c;}

// every argument of a point goes to the field of its name
struct Point {double x, y, z, value; int ring;};
Point impl_labelled(float x, float y, float z, float c, std::uint16_t ring)
{
  const PointXYZCR p(x, y, z, c, ring);
  return Point{p.x, p.y, p.z, p.curvature, p.ring};
}
Point spec_labelled(float x, float y, float z, float c, std::uint16_t ring) {return Point{x, y, z, c, ring};}
Point impl_measured(float x, float y, float z, float i, std::uint16_t ring)
{
  const PointXYZIR p(x, y, z, i, ring);
  return Point{p.x, p.y, p.z, p.intensity, p.ring};
}
Point spec_measured(float x, float y, float z, float i, std::uint16_t ring) {return Point{x, y, z, i, ring};}

// the whole cloud is converted, its coordinates kept
pcl::PointCloud<pcl::PointXYZ>::Ptr impl_to_xyz(const pcl::PointCloud<PointXYZIR>::Ptr & cloud)
{
  return ToPointXYZ<PointXYZIR>(cloud);
}
pcl::PointCloud<pcl::PointXYZ>::Ptr spec_to_xyz(const pcl::PointCloud<PointXYZIR>::Ptr & cloud)
{
  pcl::PointCloud<pcl::PointXYZ>::Ptr out(new pcl::PointCloud<pcl::PointXYZ>());
  pcl::copyPointCloud(*cloud, *out);
  return out;
}

// the isometry maps p to R(q) p + t
V3 impl_isometry(const Q & q, const V3 & t, const V3 & p) {return MakeIsometry3d(q, t) * p;}
V3 spec_isometry(const Q & q, const V3 & t, const V3 & p)
{
  __verif_assume(std::abs(q.norm() - 1.0) < 1e-6);
  const double w = q.w(), x = q.x(), y = q.y(), z = q.z();
  return V3(
    (1 - 2 * (y * y + z * z)) * p(0) + 2 * (x * y - w * z) * p(1) + 2 * (x * z + w * y) * p(2) + t(0),
    2 * (x * y + w * z) * p(0) + (1 - 2 * (x * x + z * z)) * p(1) + 2 * (y * z - w * x) * p(2) + t(1),
    2 * (x * z - w * y) * p(0) + 2 * (y * z + w * x) * p(1) + (1 - 2 * (x * x + y * y)) * p(2) + t(2));
}

// only the coordinates are transformed, everything behind them is kept
V impl_transform_xyz(const Iso & T, const V & p) {return TransformXYZ(T, p);}
V spec_transform_xyz(const Iso & T, const V & p)
{
  __verif_assume(p.size() >= 3);
  V r(p.size());
  for (int i = 0; i < p.size(); i++) {
    r(i) = i < 3 ?
      T.linear()(i, 0) * p(0) + T.linear()(i, 1) * p(1) + T.linear()(i, 2) * p(2) + T.translation()(i) :
      p(i);
  }
  return r;
}

V impl_vector_to_eigen(const std::vector<double> & v) {return VectorToEigen(v);}
V spec_vector_to_eigen(const std::vector<double> & v)
{
  V r(v.size());
  for (int i = 0; i < static_cast<int>(v.size()); i++) {r(i) = v[i];}
  return r;
}

M impl_vectors_to_eigen(const std::vector<V3> & v) {return VectorsToEigen<3>(v);}
M spec_vectors_to_eigen(const std::vector<V3> & v)
{
  M r(v.size(), 3);
  for (int i = 0; i < static_cast<int>(v.size()); i++) {
    for (int j = 0; j < 3; j++) {r(i, j) = v[i](j);}
  }
  return r;
}

// the matrices are stacked on top of each other in order
M impl_stack(const std::vector<Eigen::Matrix<double, 2, 3>> & v) {return HorizontalStack<2, 3>(v);}
M spec_stack(const std::vector<Eigen::Matrix<double, 2, 3>> & v)
{
  M r(2 * v.size(), 3);
  for (int i = 0; i < 2 * static_cast<int>(v.size()); i++) {
    for (int j = 0; j < 3; j++) {r(i, j) = v[i / 2](i % 2, j);}
  }
  return r;
}

M impl_rows(const M & m, const std::vector<std::uint64_t> & indices) {return GetRows(m, indices);}
M spec_rows(const M & m, const std::vector<std::uint64_t> & indices)
{
  M r(indices.size(), m.cols());
  for (int i = 0; i < static_cast<int>(indices.size()); i++) {
    for (int j = 0; j < m.cols(); j++) {r(i, j) = m(indices[i], j);}
  }
  return r;
}

M impl_points(const Cloud::Ptr & cloud, const std::vector<int> & indices) {return Get(cloud, indices);}
M spec_points(const Cloud::Ptr & cloud, const std::vector<int> & indices)
{
  M r(indices.size(), 3);
  for (int i = 0; i < static_cast<int>(indices.size()); i++) {
    const pcl::PointXYZ & p = cloud->at(indices[i]);
    r(i, 0) = p.x;
    r(i, 1) = p.y;
    r(i, 2) = p.z;
  }
  return r;
}

std::vector<V3> impl_points_to_eigen(const std::vector<pcl::PointXYZ> & c) {return PointsToEigen(c);}
std::vector<V3> spec_points_to_eigen(const std::vector<pcl::PointXYZ> & c)
{
  std::vector<V3> r;
  for (int i = 0; i < static_cast<int>(c.size()); i++) {r.push_back(V3(c[i].x, c[i].y, c[i].z));}
  return r;
}

V3 impl_get_xyz(const pcl::PointXYZ & p) {return GetXYZ(p);}
V3 spec_get_xyz(const pcl::PointXYZ & p) {return V3(p.x, p.y, p.z);}

struct P3 {float x, y, z;};
P3 impl_make_point(const V3 & v)
{
  const pcl::PointXYZ p = MakePointXYZ(v);
  return P3{p.x, p.y, p.z};
}
P3 spec_make_point(const V3 & v)
{
  return P3{static_cast<float>(v(0)), static_cast<float>(v(1)), static_cast<float>(v(2))};
}

void impl_throws_if_empty(const Cloud::Ptr & c) {ThrowsIfPointCloudIsEmpty<pcl::PointXYZ>(c);}
void spec_throws_if_empty(const Cloud::Ptr & c)
{
  if (c->size() == 0) {throw std::invalid_argument("");}
}

V impl_point_xyz(const pcl::PointXYZ & p) {return PointXYZToVector::Convert(p);}
V spec_point_xyz(const pcl::PointXYZ & p) {return V3(p.x, p.y, p.z);}
V impl_point_xyzcr(const PointXYZCR & p) {return PointXYZCRToVector::Convert(p);}
V spec_point_xyzcr(const PointXYZCR & p) {return Eigen::Vector4d(p.x, p.y, p.z, p.curvature);}
V impl_point_xyzcr_xyz(const PointXYZCR & p) {return PointXYZCRToXYZVector::Convert(p);}
V spec_point_xyzcr_xyz(const PointXYZCR & p) {return V3(p.x, p.y, p.z);}

M impl_cloud_matrix(const pcl::PointCloud<PointXYZCR>::Ptr & c)
{
  return PointCloudToMatrix<PointXYZCRToVector, PointXYZCR>(c);
}
M spec_cloud_matrix(const pcl::PointCloud<PointXYZCR>::Ptr & c)
{
  M r(c->size(), 4);
  for (int i = 0; i < static_cast<int>(c->size()); i++) {
    r(i, 0) = c->at(i).x;
    r(i, 1) = c->at(i).y;
    r(i, 2) = c->at(i).z;
    r(i, 3) = c->at(i).curvature;
  }
  return r;
}
double impl_radian(double d) {return DegreeToRadian(d);}
double spec_radian(double d) {return d * M_PI / 180;}
}  // namespace L01

namespace L02 {
using V = Eigen::VectorXd;
using V3 = Eigen::Vector3d;

// the sorted triple is the ordered rearrangement of the inputs
V3 impl_sort_three(const V3 & v) {return SortThreeValues(v);}
V3 spec_sort_three(const V3 & v)
{
  const double lo = std::min(v(0), std::min(v(1), v(2)));
  const double hi = std::max(v(0), std::max(v(1), v(2)));
  return V3(lo, v(0) + v(1) + v(2) - lo - hi, hi);
}

double middle(std::vector<double> s)
{
  if (s.size() == 0) {throw std::invalid_argument("empty");}
  std::sort(s.begin(), s.end());
  const int n = s.size();
  return n % 2 == 1 ? s[(n - 1) / 2] : (s[n / 2] + s[n / 2 - 1]) / 2.;
}
double impl_median(const V & v) {return Median(v);}
double spec_median(const V & v)
{
  std::vector<double> s;
  for (int i = 0; i < v.size(); i++) {s.push_back(v(i));}
  return middle(s);
}
double impl_median_array(const Eigen::ArrayXd & v) {return Median(v);}
double spec_median_array(const Eigen::ArrayXd & v)
{
  std::vector<double> s;
  for (int i = 0; i < v.size(); i++) {s.push_back(v(i));}
  return middle(s);
}

double impl_stddev(const V & v) {return SampleStandardDeviation(v);}
double spec_stddev(const V & v)
{
  __verif_assume(v.size() > 1);
  double m = 0;
  for (int i = 0; i < v.size(); i++) {m += v(i);}
  m = m / v.size();
  double s = 0;
  for (int i = 0; i < v.size(); i++) {s += (v(i) - m) * (v(i) - m);}
  return std::sqrt(s / (v.size() - 1));
}

std::vector<double> impl_by_indices(const std::vector<size_t> & i, const std::vector<double> & a)
{
  return GetByIndices(i, a);
}
std::vector<double> spec_by_indices(const std::vector<size_t> & i, const std::vector<double> & a)
{
  std::vector<double> r;
  for (size_t k = 0; k < i.size(); k++) {r.push_back(a.at(i[k]));}
  return r;
}

// exactly the positions holding the value, in increasing order
std::vector<size_t> impl_indices_of(const std::vector<int> & a, const int & v)
{
  return GetIndicesByValue(a, v);
}
std::vector<size_t> spec_indices_of(const std::vector<int> & a, const int & v)
{
  std::vector<size_t> r;
  for (size_t k = 0; k < a.size(); k++) {
    if (a[k] == v) {r.push_back(k);}
  }
  return r;
}

std::vector<double> impl_filter(const std::vector<bool> & f, const std::vector<double> & a)
{
  return Filter(f, a);
}
std::vector<double> spec_filter(const std::vector<bool> & f, const std::vector<double> & a)
{
  __verif_assume(f.size() == a.size());
  std::vector<double> r;
  for (size_t k = 0; k < a.size(); k++) {
    if (f[k]) {r.push_back(a[k]);}
  }
  return r;
}

bool impl_has_inf(const Eigen::MatrixXd & m) {return HasInf(m);}
bool spec_has_inf(const Eigen::MatrixXd & m)
{
  for (int i = 0; i < m.rows(); i++) {
    for (int j = 0; j < m.cols(); j++) {
      if (std::isinf(m(i, j))) {return true;}
    }
  }
  return false;
}
bool impl_has_nan(const Eigen::MatrixXd & m) {return HasNan(m);}
bool spec_has_nan(const Eigen::MatrixXd & m)
{
  for (int i = 0; i < m.rows(); i++) {
    for (int j = 0; j < m.cols(); j++) {
      if (std::isnan(m(i, j))) {return true;}
    }
  }
  return false;
}

// a checked view: reads outside the viewed range are refused
double impl_span_at(std::vector<double> & v, int b, int e, int i)
{
  const const_span<double> s(v.begin() + b, v.begin() + e);
  return s.at(i);
}
double spec_span_at(std::vector<double> & v, int b, int e, int i)
{
  __verif_assume(0 <= b && b <= e && e <= static_cast<int>(v.size()));
  if (i < 0 || i >= e - b) {throw std::out_of_range("");}
  return v[b + i];
}
void impl_span_write(std::vector<double> & v, int b, int e, int i, double x)
{
  span<double> s(v.begin() + b, v.begin() + e);
  s.at(i) = x;
}
void spec_span_write(std::vector<double> & v, int b, int e, int i, double x)
{
  __verif_assume(0 <= b && b <= e && e <= static_cast<int>(v.size()));
  if (i < 0 || i >= e - b) {throw std::out_of_range("");}
  v[b + i] = x;
}
int impl_span_size(std::vector<double> & v, int b, int e)
{
  return span<double>(v.begin() + b, v.begin() + e).size();
}
int spec_span_size(std::vector<double> & v, int b, int e) {return e - b;}
}  // namespace L02
