// O01-O09: registration of a scan in the maps.
#include <cassert>
#include <cmath>
#include <stdexcept>
#include <tuple>
#include "verif.hpp"
#include "rclcpp/rclcpp.hpp"
#include "rotationlib/src/hat.cpp"
#include "rotationlib/src/quaternion.cpp"
#include "rotationlib/src/jacobian/quaternion.cpp"
#include "lib/src/algorithm.cpp"
#include "lib/src/eigen.cpp"
#include "lib/src/stats.cpp"
#include "localization/src/alignment.cpp"
#include "localization/src/degenerate.cpp"
#include "localization/src/edge.cpp"
#include "localization/src/jacobian.cpp"
#include "localization/src/kdtree.cpp"
#include "localization/src/optimizer.cpp"
#include "localization/src/posevec.cpp"
#include "localization/src/robust.cpp"
#include "lidar_feature_localization/loam_optimization_problem.hpp"

namespace {
using V = Eigen::VectorXd;
using V3 = Eigen::Vector3d;
using M = Eigen::MatrixXd;
using M3 = Eigen::Matrix3d;
using Q = Eigen::Quaterniond;
using Iso = Eigen::Isometry3d;
using Jacobians = std::vector<Eigen::MatrixXd>;
using Residuals = std::vector<Eigen::VectorXd>;
using Cloud = pcl::PointCloud<pcl::PointXYZ>;
}

namespace O01 {
// the residual of a point is the double area spanned with two points on the line
V3 impl_residual(const Iso & T, const V3 & p0, const V3 & p1, const V3 & p2)
{
  return MakeEdgeResidual(T, p0, p1, p2);
}
V3 spec_residual(const Iso & T, const V3 & p0, const V3 & p1, const V3 & p2)
{
  const V3 p = T * p0;
  const V3 a = p - p1;
  const V3 b = p - p2;
  return V3(a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0));
}

// its derivative with respect to rotation (w, x, y, z) and translation
Eigen::Matrix<double, 3, 7> impl_jacobian(const Q & q, const V3 & p0, const V3 & p1, const V3 & p2)
{
  return MakeEdgeJacobianRow(q, p0, p1, p2);
}
Eigen::Matrix<double, 3, 7> spec_jacobian(const Q & q, const V3 & p0, const V3 & p1, const V3 & p2)
{
  // any position of the transformed point
  const V3 p(__verif_free(0), __verif_free(1), __verif_free(2));
  const V3 a = p - p1;
  const V3 b = p - p2;
  const V3 r(a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0));
  M3 D;
  for (int i = 0; i < 3; i++) {
    for (int j = 0; j < 3; j++) {D(i, j) = __verif_derivative(r(i), p(j));}
  }
  Eigen::Matrix<double, 3, 7> J;
  J.block<3, 4>(0, 0) = D * rotationlib::DRpDq(q, p0);
  J.block<3, 3>(0, 4) = D;
  return J;
}

V impl_center(const M & X) {return Center(X);}
V spec_center(const M & X)
{
  V c(X.cols());
  for (int j = 0; j < X.cols(); j++) {
    double s = 0.;
    for (int i = 0; i < X.rows(); i++) {s += X(i, j);}
    c(j) = s / X.rows();
  }
  return c;
}
std::tuple<V, M> impl_covariance(const M & X) {return CalcMeanAndCovariance(X);}
std::tuple<V, M> spec_covariance(const M & X)
{
  __verif_assume(X.rows() > 0);
  const V c = Center(X);
  M C(X.cols(), X.cols());
  for (int j = 0; j < X.cols(); j++) {
    for (int k = 0; k < X.cols(); k++) {
      double s = 0.;
      for (int i = 0; i < X.rows(); i++) {s += (X(i, j) - c(j)) * (X(i, k) - c(k));}
      C(j, k) = s / X.rows();
    }
  }
  return std::make_tuple(c, C);
}
M impl_xyz(const M & X) {return GetXYZ(X);}
M spec_xyz(const M & X)
{
  __verif_assume(X.cols() >= 3);
  M Y(X.rows(), 3);
  for (int i = 0; i < X.rows(); i++) {
    for (int j = 0; j < 3; j++) {Y(i, j) = X(i, j);}
  }
  return Y;
}
V3 impl_triplet(const V3 & p0, const V3 & p1, const V3 & p2) {return TripletCross(p0, p1, p2);}
V3 spec_triplet(const V3 & p0, const V3 & p1, const V3 & p2)
{
  return (p2 - p1).cross((p0 - p1).cross(p0 - p2));
}
bool impl_reliable(const V3 & e) {return PrincipalIsReliable(e);}
bool spec_reliable(const V3 & e)
{
  __verif_opaque("SortThreeValues");
  const V3 s = SortThreeValues(e);
  return s(2) > 3. * s(1);
}
}  // namespace O01

namespace O02 {
double impl_signed(const V & w, const V & x) {return SignedPointPlaneDistance(w, x);}
double spec_signed(const V & w, const V & x)
{
  __verif_assume(w.size() == x.size());
  return (w.dot(x) + 1.) / w.norm();
}
V impl_residual(const V & w, const V & x) {return SignedPointPlaneDistanceVector1d(w, x);}
V spec_residual(const V & w, const V & x)
{
  __verif_assume(w.size() == x.size());
  return V::Constant(1, (w.dot(x) + 1.) / w.norm());
}
double impl_distance(const V & w, const V & x) {return PointPlaneDistance(w, x);}
double spec_distance(const V & w, const V & x)
{
  __verif_assume(w.size() == x.size());
  return std::abs((w.dot(x) + 1.) / w.norm());
}
bool impl_along(const M & X, const V & w) {return CheckPointsDistributeAlongPlane(X, w);}
bool spec_along(const M & X, const V & w)
{
  __verif_assume(X.cols() == w.size());
  for (int i = 0; i < X.rows(); i++) {
    const V x = X.row(i);
    if (std::abs((w.dot(x) + 1.) / w.norm()) > 0.2) {return false;}
  }
  return true;
}
V impl_plane(const M & X) {return EstimatePlaneCoefficients(X);}
V spec_plane(const M & X)
{
  // least squares of w x = -1
  const V g = V::Constant(X.rows(), -1.);
  return X.householderQr().solve(g);
}
V impl_solve(const M & A, const V & b) {return SolveLinear(A, b);}
V spec_solve(const M & A, const V & b)
{
  __verif_assume(A.rows() == b.size());
  return A.householderQr().solve(b);
}
// the derivative of the residual with respect to rotation (w, x, y, z) and translation
Eigen::Matrix<double, 1, 7> impl_jacobian(const V3 & w, const Q & q, const V3 & p)
{
  return MakeJacobianRow(w, q, p);
}
Eigen::Matrix<double, 1, 7> spec_jacobian(const V3 & w, const Q & q, const V3 & p)
{
  const V3 y(__verif_free(0), __verif_free(1), __verif_free(2));
  const double r = (w(0) * y(0) + w(1) * y(1) + w(2) * y(2) + 1.) / w.norm();
  Eigen::Matrix<double, 1, 3> D;
  for (int j = 0; j < 3; j++) {D(0, j) = __verif_derivative(r, y(j));}
  Eigen::Matrix<double, 1, 7> J;
  J.block<1, 4>(0, 0) = D * rotationlib::DRpDq(q, p);
  J.block<1, 3>(0, 4) = D;
  return J;
}
}  // namespace O02

namespace O03 {
Jacobians impl_jacobian(const Q & q, const M & points) {return MakeJacobian(q, points);}
Jacobians spec_jacobian(const Q & q, const M & points)
{
  __verif_assume(points.cols() == 3);
  Jacobians all;
  for (int k = 0; k < points.rows(); k++) {
    const V3 p(points(k, 0), points(k, 1), points(k, 2));
    const Eigen::Matrix<double, 3, 4> D = rotationlib::DRpDq(q, p);
    M J(3, 7);
    for (int i = 0; i < 3; i++) {
      for (int j = 0; j < 4; j++) {J(i, j) = D(i, j);}
      for (int j = 0; j < 3; j++) {J(i, 4 + j) = i == j ? 1. : 0.;}
    }
    all.push_back(J);
  }
  return all;
}
Residuals impl_residual(const Iso & T, const M & a, const M & b) {return MakeResidual(T, a, b);}
Residuals spec_residual(const Iso & T, const M & a, const M & b)
{
  __verif_assume(a.cols() == 3 && b.cols() == 3 && a.rows() == b.rows());
  Residuals all;
  for (int k = 0; k < a.rows(); k++) {
    const V3 x(a(k, 0), a(k, 1), a(k, 2));
    all.push_back(T.linear() * x + T.translation() - V3(b(k, 0), b(k, 1), b(k, 2)));
  }
  return all;
}
std::tuple<Jacobians, Residuals> impl_problem(const std::tuple<M, M> & points, const Iso & T)
{
  return AlignmentProblem().Make(points, T);
}
std::tuple<Jacobians, Residuals> spec_problem(const std::tuple<M, M> & points, const Iso & T)
{
  __verif_opaque("MakeJacobian");
  __verif_opaque("MakeResidual");
  const Q q(T.rotation());
  return std::make_tuple(
    MakeJacobian(q, std::get<0>(points)), MakeResidual(T, std::get<0>(points), std::get<1>(points)));
}
M impl_rows(const std::vector<V3> & points, const std::vector<V3> & coeffs, const Q & q)
{
  return MakeJacobian(points, coeffs, q);
}
M spec_rows(const std::vector<V3> & points, const std::vector<V3> & coeffs, const Q & q)
{
  __verif_assume(points.size() == coeffs.size());
  M J(points.size(), 7);
  for (size_t k = 0; k < points.size(); k++) {
    const V3 p = points[k];
    const V3 c = coeffs[k];
    const Eigen::Matrix<double, 3, 4> D = rotationlib::DRpDq(q, p);
    for (int j = 0; j < 4; j++) {J(k, j) = c(0) * D(0, j) + c(1) * D(1, j) + c(2) * D(2, j);}
    for (int j = 0; j < 3; j++) {J(k, 4 + j) = c(j);}
  }
  return J;
}
}  // namespace O03

namespace O04 {
double impl_mad(const V & v) {return MedianAbsoluteDeviation(v);}
double spec_mad(const V & v)
{
  __verif_opaque("Median");
  const double m = Median(v);
  Eigen::ArrayXd d(v.size());
  for (int i = 0; i < v.size(); i++) {d(i) = std::abs(v(i) - m);}
  return Median(d);
}
double impl_scale(const V & v) {return Scale(v);}
double spec_scale(const V & v)
{
  __verif_opaque("MedianAbsoluteDeviation");
  return 1.482602218505602 * MedianAbsoluteDeviation(v);
}
double impl_huber(double e, double k) {return Huber(e, k);}
double spec_huber(double e, double k)
{
  return e < k * k ? e : 2. * k * std::sqrt(e) - k * k;
}
// the weight is the derivative of the robust error
double impl_weight(double e, double k) {return HuberDerivative(e, k);}
double spec_weight(double e, double k)
{
  __verif_assume(k > 0);
  const double beyond = 2. * k * std::sqrt(e) - k * k;
  return e < k * k ? 1. : __verif_derivative(beyond, e);
}
V impl_weights(const V & e) {return ComputeWeights(e);}
V spec_weights(const V & e)
{
  V w(e.size());
  for (int i = 0; i < e.size(); i++) {w(i) = HuberDerivative(e(i), 1.345);}
  return w;
}
V impl_errors(const Residuals & r) {return ComputeErrors(r);}
V spec_errors(const Residuals & r)
{
  V e(r.size());
  for (size_t i = 0; i < r.size(); i++) {e(i) = r[i].squaredNorm();}
  return e;
}
std::tuple<V, double> impl_normalize(const V & e) {return NormalizeErrorScale(e);}
std::tuple<V, double> spec_normalize(const V & e)
{
  __verif_opaque("Scale");
  const double s = Scale(e);
  V n(e.size());
  for (int i = 0; i < e.size(); i++) {n(i) = e(i) / (s + 1e-16);}
  return std::make_tuple(n, s);
}
}  // namespace O04

namespace O06 {
// small rotations and translations of the pose, composed on the right
Eigen::Matrix<double, 7, 6> impl_tangent(const Q & q) {return MakeM(q);}
Eigen::Matrix<double, 7, 6> spec_tangent(const Q & q)
{
  const double a = __verif_free(0), b = __verif_free(1), c = __verif_free(2);
  const Q small(1., a / 2, b / 2, c / 2);
  const Q moved = q * small;
  const double r[4] = {moved.w(), moved.x(), moved.y(), moved.z()};
  Eigen::Matrix<double, 7, 6> T = Eigen::Matrix<double, 7, 6>::Zero();
  for (int i = 0; i < 4; i++) {
    T(i, 0) = __verif_derivative(r[i], a);
    T(i, 1) = __verif_derivative(r[i], b);
    T(i, 2) = __verif_derivative(r[i], c);
  }
  for (int i = 0; i < 3; i++) {T(4 + i, 3 + i) = 1.;}
  return T;
}
Q impl_exponential(const V3 & t) {return AngleAxisToQuaternion(t);}
Q spec_exponential(const V3 & t)
{
  const double angle = t.norm();
  if (angle < 1e-8) {return Q(1., 0., 0., 0.);}
  const double s = std::sin(angle / 2) / angle;
  return Q(std::cos(angle / 2), s * t(0), s * t(1), s * t(2));
}
V3 impl_pose(const Q & q, const V3 & t, const V3 & p) {return MakePose(q, t) * p;}
V3 spec_pose(const Q & q, const V3 & t, const V3 & p) {return q.toRotationMatrix() * p + t;}

bool impl_degenerate(const M & C, double threshold) {return IsDegenerate(C, threshold);}
bool spec_degenerate(const M & C, double threshold)
{
  __verif_assume(C.rows() == C.cols() && C.rows() > 0);
  const Eigen::SelfAdjointEigenSolver<M> s(C);
  const V e = s.eigenvalues();
  for (int i = 0; i < e.size(); i++) {
    if (std::abs(e(i)) < threshold) {return true;}
  }
  return false;
}

bool seven_columns(const Jacobians & J)
{
  for (size_t i = 0; i < J.size(); i++) {
    if (J[i].cols() != 7) {return false;}
  }
  return true;
}
Vector6d impl_solve(const Eigen::Matrix<double, 7, 6> & T, const V & w, const Jacobians & J, const Residuals & r)
{
  return WeightedUpdate(T, w, J, r);
}
Vector6d spec_solve(const Eigen::Matrix<double, 7, 6> & T, const V & w, const Jacobians & J, const Residuals & r)
{
  __verif_opaque("IsDegenerate");
  const size_t n = J.size();
  __verif_assume(r.size() == n && static_cast<size_t>(w.size()) == n);
  __verif_assume(seven_columns(J));
  M D = M::Zero(7, 7);
  M A = M::Zero(7, 7);
  V b = V::Zero(7);
  for (size_t i = 0; i < n; i++) {
    const M H = J[i].transpose() * J[i];
    D = D + H;
    A = A + H * w(i);
    b = b + J[i].transpose() * r[i] * w(i);
  }
  if (IsDegenerate(D)) {return Vector6d::Zero();}
  const M H = T.transpose() * A * T;
  const V g = T.transpose() * b;
  return -H.llt().solve(g);
}
std::tuple<Q, V3> impl_update(const Q & q, const V & w, const Jacobians & J, const Residuals & r)
{
  return CalcUpdate(q, w, J, r);
}
std::tuple<Q, V3> spec_update(const Q & q, const V & w, const Jacobians & J, const Residuals & r)
{
  __verif_opaque("WeightedUpdate");
  const Vector6d d = WeightedUpdate(MakeM(q), w, J, r);
  return std::make_tuple(AngleAxisToQuaternion(V3(d(0), d(1), d(2))), V3(d(3), d(4), d(5)));
}
bool impl_converged(const Q & dq, const V3 & dt) {return CheckConvergence(dq, dt);}
bool spec_converged(const Q & dq, const V3 & dt)
{
  return dt.norm() < 1e-3 && V3(dq.x(), dq.y(), dq.z()).norm() < 1e-3;
}
}  // namespace O06

namespace O05 {
struct Scan;
// what a problem makes of a scan and a pose is its own matter
struct Problem
{
  std::tuple<Jacobians, Residuals> Make(const Scan & scan, const Iso & pose) const;
};
OptimizationResult impl_run(const Problem & problem, int limit, const Scan & scan, const Iso & start)
{
  return Optimizer<Problem, Scan>(problem, limit).Run(scan, start);
}
OptimizationResult spec_run(const Problem & problem, int limit, const Scan & scan, const Iso & start)
{
  __verif_opaque("ComputeErrors");
  __verif_opaque("NormalizeErrorScale");
  __verif_opaque("ComputeWeights");
  __verif_opaque("CalcUpdate");
  __verif_opaque("CheckConvergence");
  __verif_assume(limit >= 0);
  Q q(start.linear());
  V3 t = start.translation();
  double error = std::numeric_limits<double>::max();
  double scale = std::numeric_limits<double>::max();
  for (int k = 0; k < limit; k++) {
    const Iso pose = MakePose(q, t);
    const std::tuple<Jacobians, Residuals> made = problem.Make(scan, pose);
    const Jacobians & J = std::get<0>(made);
    const Residuals & r = std::get<1>(made);
    if (r.empty()) {
      return OptimizationResult{pose, "The input data is empty", k, 0., 0., false};
    }
    const V errors = ComputeErrors(r);
    const double next_error = errors.sum();
    const std::tuple<V, double> normalized = NormalizeErrorScale(errors);
    const double next_scale = std::get<1>(normalized);
    if (next_error > error) {
      return OptimizationResult{
        pose, "The error is larger than previous iteration", k, next_error, next_scale, true};
    }
    if (next_scale > scale) {
      return OptimizationResult{
        pose, "The scale is larger than previous iteration", k, next_error, next_scale, true};
    }
    error = next_error;
    scale = next_scale;
    const std::tuple<Q, V3> step = CalcUpdate(q, ComputeWeights(std::get<0>(normalized)), J, r);
    q = q * std::get<0>(step);
    t = t + std::get<1>(step);
    if (CheckConvergence(std::get<0>(step), std::get<1>(step))) {
      return OptimizationResult{
        MakePose(q, t), "Optimization successfully converged", k, error, scale, true};
    }
  }
  return OptimizationResult{
    MakePose(q, t), "The iteration reached the maximum value", limit, error, scale, false};
}
}  // namespace O05

namespace O07 {
// a map of at least k points has k nearest rows
std::tuple<M, std::vector<double>> impl_search(const M & map, const V & query, int k)
{
  return KDTreeEigen(map, 10).NearestKSearch(query, k);
}
std::tuple<M, std::vector<double>> spec_search(const M & map, const V & query, int k)
{
  __verif_assume(k > 0 && map.rows() >= k && map.cols() > 0 && query.size() == map.cols());
  M rows(k, map.cols());
  std::vector<double> distances(k);
  for (int j = 0; j < k; j++) {
    const std::uint64_t i = nanoflann::verif_nearest(map, query, j);
    for (int c = 0; c < map.cols(); c++) {rows(j, c) = map(i, c);}
    distances[j] = nanoflann::verif_distance(map, query, j);
  }
  return std::make_tuple(rows, distances);
}
M impl_matrix(const Cloud::Ptr & cloud) {return PointCloudToMatrix<PointXYZToVector, pcl::PointXYZ>(cloud);}
M spec_matrix(const Cloud::Ptr & cloud)
{
  M m(cloud->size(), 3);
  for (size_t i = 0; i < cloud->size(); i++) {
    m(i, 0) = cloud->at(i).x;
    m(i, 1) = cloud->at(i).y;
    m(i, 2) = cloud->at(i).z;
  }
  return m;
}
using Problem = std::tuple<Jacobians, Residuals>;
Problem impl_edge(const Cloud::Ptr & map, int k, const Cloud::Ptr & scan, const Iso & T)
{
  return Edge<PointXYZToVector>(map, k).Make(scan, T);
}
Problem spec_edge(const Cloud::Ptr & map, int k, const Cloud::Ptr & scan, const Iso & T)
{
  __verif_opaque("KDTreeEigen::NearestKSearch");
  __verif_opaque("MakeEdgeJacobianRow");
  __verif_opaque("MakeEdgeResidual");
  __verif_opaque("CalcMeanAndCovariance");
  const KDTreeEigen tree(PointCloudToMatrix<PointXYZToVector, pcl::PointXYZ>(map), 10);
  const Q q(T.rotation());
  Jacobians J;
  Residuals r;
  for (size_t i = 0; i < scan->size(); i++) {
    const pcl::PointXYZ & s = (*scan)[i];
    const V3 p(s.x, s.y, s.z);
    const std::tuple<M, std::vector<double>> near = tree.NearestKSearch(T * p, k);
    const std::tuple<V, M> moments = CalcMeanAndCovariance(GetXYZ(std::get<0>(near)));
    Eigen::SelfAdjointEigenSolver<M3> solver;
    solver.computeDirect(std::get<1>(moments));
    const V3 along = solver.eigenvectors().col(2);
    const V3 a = std::get<0>(moments) - along;
    const V3 b = std::get<0>(moments) + along;
    J.push_back(MakeEdgeJacobianRow(q, p, a, b));
    r.push_back(MakeEdgeResidual(T, p, a, b));
  }
  return std::make_tuple(J, r);
}
Problem impl_surface(const Cloud::Ptr & map, int k, const Cloud::Ptr & scan, const Iso & T)
{
  return Surface<PointXYZToVector>(map, k).Make(scan, T);
}
Problem spec_surface(const Cloud::Ptr & map, int k, const Cloud::Ptr & scan, const Iso & T)
{
  __verif_opaque("KDTreeEigen::NearestKSearch");
  __verif_opaque("MakeJacobianRow");
  __verif_opaque("SignedPointPlaneDistance");
  __verif_opaque("EstimatePlaneCoefficients");
  const KDTreeEigen tree(PointCloudToMatrix<PointXYZToVector, pcl::PointXYZ>(map), 10);
  const Q q(T.rotation());
  const Cloud::Ptr thin = Downsample<pcl::PointXYZ>(scan, 1.0);
  Jacobians J;
  Residuals r;
  for (size_t i = 0; i < thin->size(); i++) {
    const pcl::PointXYZ & s = (*thin)[i];
    const V3 p(s.x, s.y, s.z);
    const V3 x = T * p;
    const V3 w = EstimatePlaneCoefficients(std::get<0>(tree.NearestKSearch(x, k)));
    V d(1);
    d(0) = SignedPointPlaneDistance(w, x);
    J.push_back(MakeJacobianRow(w, q, p));
    r.push_back(d);
  }
  return std::make_tuple(J, r);
}
Cloud::Ptr impl_thin(const Cloud::Ptr & cloud, float size) {return Downsample<pcl::PointXYZ>(cloud, size);}
// one point per cubic cell of the given size
Cloud::Ptr spec_thin(const Cloud::Ptr & cloud, float size)
{
  pcl::VoxelGrid<pcl::PointXYZ> grid;
  grid.setLeafSize(size, size, size);
  grid.setInputCloud(cloud);
  Cloud::Ptr out(new Cloud());
  grid.filter(*out);
  return out;
}
Problem impl_both(const Cloud::Ptr & edges, const Cloud::Ptr & surfaces, int k, const EdgeSurfaceScan & scan, const Iso & T)
{
  return LOAMOptimizationProblem<PointXYZToVector>(edges, surfaces, k).Make(scan, T);
}
Problem spec_both(const Cloud::Ptr & edges, const Cloud::Ptr & surfaces, int k, const EdgeSurfaceScan & scan, const Iso & T)
{
  __verif_opaque("Edge::Make");
  __verif_opaque("Surface::Make");
  const Problem e = Edge<PointXYZToVector>(edges, k).Make(std::get<0>(scan), T);
  const Problem s = Surface<PointXYZToVector>(surfaces, k).Make(std::get<1>(scan), T);
  Jacobians J = std::get<0>(e);
  Residuals r = std::get<1>(e);
  for (const M & j : std::get<0>(s)) {J.push_back(j);}
  for (const V & v : std::get<1>(s)) {r.push_back(v);}
  return std::make_tuple(J, r);
}
}  // namespace O07
