// E01-E08: the EKF localizer.
#include <cassert>
#include <cmath>
#include <stdexcept>
#include <queue>
#include <optional>
#include "verif.hpp"
#include "rclcpp/rclcpp.hpp"
#define normalizeYaw normalizeYaw_transition
#include "ekf_localizer/src/state_transition.cpp"
#undef normalizeYaw
#include "ekf_localizer/src/covariance.cpp"
#include "ekf_localizer/src/mahalanobis.cpp"
#include "ekf_localizer/src/check.cpp"
#include "ekf_localizer/src/pose_measurement.cpp"
#include "ekf_localizer/src/twist_measurement.cpp"
#include "ekf_localizer/src/update_interval.cpp"
#include "ekf_localizer/src/string.cpp"
#include "ekf_localizer/src/tf.cpp"
#include "lib/src/eigen.cpp"
#include "lib/src/ros_msg.cpp"
#include "ekf_localizer/src/ekf_localizer.cpp"
#define main ekf_main
#include "ekf_localizer/src/ekf_localizer_node.cpp"
#undef main
#include "ekf_localizer/include/ekf_localizer/aged_message_queue.hpp"
#include "ekf_localizer/include/ekf_localizer/delay.hpp"
#undef main

using M = Eigen::MatrixXd;

namespace E01 {
// the motion over dt: heading is yaw plus bias, the turn is wz dt
Vector6d impl_motion(const Vector6d & x, double dt) {return predictNextState(x, dt);}
Vector6d spec_motion(const Vector6d & x, double dt)
{
  const double heading = x(2) + x(3);
  const double turned = x(2) + x(5) * dt;
  Vector6d n;
  n(0) = x(0) + x(4) * std::cos(heading) * dt;
  n(1) = x(1) + x(4) * std::sin(heading) * dt;
  n(2) = std::atan2(std::sin(turned), std::cos(turned));
  n(3) = x(3);
  n(4) = x(4);
  n(5) = x(5);
  return n;
}

Matrix6d impl_jacobian(const Vector6d & x, double dt) {return createStateTransitionMatrix(x, dt);}
Matrix6d spec_jacobian(const Vector6d & x, double dt)
{
  // the derivative of the motion; wrapping the yaw is locally a constant offset
  const Vector6d n = predictNextState(x, dt);
  const double turned = x(2) + x(5) * dt;
  Matrix6d J;
  for (int i = 0; i < 6; i++) {
    for (int j = 0; j < 6; j++) {
      J(i, j) = __verif_derivative(i == 2 ? turned : n(i), x(j));
    }
  }
  return J;
}

double impl_wrap(const double & yaw) {return normalizeYaw(yaw);}
double impl_wrap_transition(const double & yaw) {return normalizeYaw_transition(yaw);}
double spec_wrap(const double & yaw) {return std::atan2(std::sin(yaw), std::cos(yaw));}
double spec_wrap_transition(const double & yaw) {return std::atan2(std::sin(yaw), std::cos(yaw));}
}  // namespace E01

namespace E02 {
Matrix6d impl_noise(const Eigen::Vector4d & v) {return processNoiseCovariance(v);}
Matrix6d spec_noise(const Eigen::Vector4d & v)
{
  Matrix6d Q;
  for (int i = 0; i < 6; i++) {
    for (int j = 0; j < 6; j++) {Q(i, j) = i == j && i >= 2 ? v(i - 2) : 0.;}
  }
  return Q;
}

// the states of the filter and the rows of a message covariance they correspond to
std::array<double, 36> impl_pose(const Matrix6d & P) {return EKFCovarianceToPoseMessageCovariance(P);}
std::array<double, 36> spec_pose(const Matrix6d & P)
{
  const int at[3] = {0, 1, 5};
  std::array<double, 36> c{};
  for (int i = 0; i < 3; i++) {
    for (int j = 0; j < 3; j++) {c[6 * at[i] + at[j]] = P(i, j);}
  }
  return c;
}
std::array<double, 36> impl_twist(const Matrix6d & P) {return EKFCovarianceToTwistMessageCovariance(P);}
std::array<double, 36> spec_twist(const Matrix6d & P)
{
  const int at[2] = {0, 5};
  std::array<double, 36> c{};
  for (int i = 0; i < 2; i++) {
    for (int j = 0; j < 2; j++) {c[6 * at[i] + at[j]] = P(4 + i, 4 + j);}
  }
  return c;
}
}  // namespace E02

namespace E03 {
Eigen::Matrix3d impl_pose_noise(const std::array<double, 36ul> & c, size_t steps)
{
  return PoseMeasurementCovariance(c, steps);
}
Eigen::Matrix3d spec_pose_noise(const std::array<double, 36ul> & c, size_t steps)
{
  const int at[3] = {0, 1, 5};
  Eigen::Matrix3d R;
  for (int i = 0; i < 3; i++) {
    for (int j = 0; j < 3; j++) {R(i, j) = c[6 * at[i] + at[j]] * steps;}
  }
  return R;
}
Eigen::Matrix2d impl_twist_noise(const std::array<double, 36ul> & c, size_t steps)
{
  return TwistMeasurementCovariance(c, steps);
}
Eigen::Matrix2d spec_twist_noise(const std::array<double, 36ul> & c, size_t steps)
{
  const int at[2] = {0, 5};
  Eigen::Matrix2d R;
  for (int i = 0; i < 2; i++) {
    for (int j = 0; j < 2; j++) {R(i, j) = c[6 * at[i] + at[j]] * steps;}
  }
  return R;
}

// the measurement matrix picks exactly the states the measurement is compared with
Eigen::Vector3d impl_pose_state(const Vector6d & x) {return GetPoseState(x);}
Eigen::Vector3d spec_pose_state(const Vector6d & x) {return Eigen::Vector3d(x(0), x(1), x(2));}
Eigen::Vector3d impl_pose_matrix(const Vector6d & x) {return PoseMeasurementMatrix() * x;}
Eigen::Vector3d spec_pose_matrix(const Vector6d & x) {return Eigen::Vector3d(x(0), x(1), x(2));}
Eigen::Vector2d impl_twist_state(const Vector6d & x) {return GetTwistState(x);}
Eigen::Vector2d spec_twist_state(const Vector6d & x) {return Eigen::Vector2d(x(4), x(5));}
Eigen::Vector2d impl_twist_matrix(const Vector6d & x) {return TwistMeasurementMatrix() * x;}
Eigen::Vector2d spec_twist_matrix(const Vector6d & x) {return Eigen::Vector2d(x(4), x(5));}

Eigen::Matrix3d impl_pose_cov(const M & P) {return PoseCovariance(P);}
Eigen::Matrix3d spec_pose_cov(const M & P)
{
  __verif_assume(P.rows() == 6 && P.cols() == 6);
  Eigen::Matrix3d C;
  for (int i = 0; i < 3; i++) {
    for (int j = 0; j < 3; j++) {C(i, j) = P(i, j);}
  }
  return C;
}
Eigen::Matrix2d impl_twist_cov(const M & P) {return TwistCovariance(P);}
Eigen::Matrix2d spec_twist_cov(const M & P)
{
  __verif_assume(P.rows() == 6 && P.cols() == 6);
  Eigen::Matrix2d C;
  for (int i = 0; i < 2; i++) {
    for (int j = 0; j < 2; j++) {C(i, j) = P(4 + i, 4 + j);}
  }
  return C;
}

Eigen::Vector3d impl_pose_vector(const geometry_msgs::msg::Pose & p) {return PoseMeasurementVector(p);}
Eigen::Vector3d spec_pose_vector(const geometry_msgs::msg::Pose & p)
{
  const double yaw = tf2::getYaw(p.orientation);
  return Eigen::Vector3d(p.position.x, p.position.y, std::atan2(std::sin(yaw), std::cos(yaw)));
}
Eigen::Vector2d impl_twist_vector(const geometry_msgs::msg::Twist & t) {return TwistMeasurementVector(t);}
Eigen::Vector2d spec_twist_vector(const geometry_msgs::msg::Twist & t)
{
  return Eigen::Vector2d(t.linear.x, t.angular.z);
}
}  // namespace E03

namespace E04 {
bool impl_frame(const Warning & w, const std::string & a, const std::string & b) {return CheckFrameId(w, a, b);}
bool spec_frame(const Warning & w, const std::string & a, const std::string & b) {return a == b;}
bool impl_time(const Warning & w, double t) {return CheckDelayTime(w, t);}
bool spec_time(const Warning & w, double t) {return t >= 0.;}
bool impl_step(const Warning & w, int step, int n) {return CheckDelayStep(w, step, n);}
bool spec_step(const Warning & w, int step, int n) {return step < n;}
bool impl_finite(const Warning & w, const M & m) {return CheckMeasurementMatrixNanInf(w, m);}
bool spec_finite(const Warning & w, const M & m)
{
  for (int i = 0; i < m.rows(); i++) {
    for (int j = 0; j < m.cols(); j++) {
      if (std::isnan(m(i, j)) || std::isinf(m(i, j))) {return false;}
    }
  }
  return true;
}
bool impl_gate(const Warning & w, const double & d, const M & x, const M & y, const M & C)
{
  return CheckMahalanobisGate(w, d, x, y, C);
}
bool spec_gate(const Warning & w, const double & d, const M & x, const M & y, const M & C)
{
  __verif_assume(x.cols() == 1 && y.cols() == 1 && x.rows() == y.rows());
  __verif_assume(C.rows() == x.rows() && C.cols() == x.rows());
  return SquaredMahalanobis(x, y, C) <= d * d;
}
double impl_distance(const Eigen::VectorXd & x, const Eigen::VectorXd & y, const M & C)
{
  return SquaredMahalanobis(x, y, C);
}
double spec_distance(const Eigen::VectorXd & x, const Eigen::VectorXd & y, const M & C)
{
  __verif_assume(x.rows() == y.rows() && C.rows() == x.rows() && C.cols() == x.rows());
  const M e = x - y;
  const M s = e.transpose() * C.inverse() * e;
  return s(0, 0);
}
}  // namespace E04

namespace E05 {
using Q = AgedMessageQueue<int>;
void impl_push(Q & q, const int & m) {q.push(m);}
void spec_push(Q & q, const int & m)
{
  q.msgs_.push(m);
  q.ages_.push(0);
}
void impl_clear(Q & q) {q.clear();}
void spec_clear(Q & q)
{
  while (!q.msgs_.empty()) {q.msgs_.pop();}
  while (!q.ages_.empty()) {q.ages_.pop();}
}
// a message is handed out, in order of waiting, and waits again until it was handed out max_age times
int impl_pop(Q & q) {return q.pop();}
int spec_pop(Q & q)
{
  __verif_assume(q.msgs_.size() > 0 && q.msgs_.size() == q.ages_.size());
  const int m = q.msgs_.front();
  const int uses = q.ages_.front() + 1;
  q.msgs_.pop();
  q.ages_.pop();
  if (uses < q.max_age_) {
    q.msgs_.push(m);
    q.ages_.push(uses);
  }
  return m;
}
size_t impl_size(const Q & q) {return q.size();}
size_t spec_size(const Q & q) {return q.msgs_.size();}
}  // namespace E05

namespace E06 {
double impl_interval(double f) {return ComputeInterval(f);}
double spec_interval(double f) {return 1. / (f > 0.1 ? f : 0.1);}
double impl_compute(UpdateInterval & u, double now) {return u.Compute(now);}
double spec_compute(UpdateInterval & u, double now)
{
  if (!u.last_time_.has_value()) {
    u.last_time_ = now;
    return 1. / std::max(u.default_frequency_, 0.1);
  }
  if (now < *u.last_time_) {throw std::invalid_argument("");}
  const double f = 1. / (now - *u.last_time_);
  u.last_time_ = now;
  return 1. / std::max(f, 0.1);
}
double impl_delay(const rclcpp::Time & now, const rclcpp::Time & stamp) {return ComputeDelayTime(now, stamp);}
double spec_delay(const rclcpp::Time & now, const rclcpp::Time & stamp) {return (now - stamp).seconds();}
int impl_step(double delay, double dt) {return ComputeDelayStep(delay, dt);}
int spec_step(double delay, double dt)
{
  const double steps = std::roundf((delay > 0. ? delay : 0.) / dt);
  if (steps < 2147483647.) {return steps;}
  return 2147483647;
}
}  // namespace E06

namespace E07 {
void opaque()
{
  __verif_opaque("AgedMessageQueue::pop");
  __verif_opaque("ComputeDelayStep");
  __verif_opaque("SquaredMahalanobis");
  __verif_opaque_throwing("TimeDelayKalmanFilter::update", "std::invalid_argument");
}
bool finite(const Eigen::VectorXd & v)
{
  for (int i = 0; i < v.rows(); i++) {
    if (std::isnan(v(i)) || std::isinf(v(i))) {return false;}
  }
  return true;
}

// each message waiting at the start takes part once: it is dropped when it is too old for the filter, not a
// number or too far from the state, and otherwise handed to the filter at the step it belongs to
void impl_pose(
  PoseMeasurement & m, std::shared_ptr<TimeDelayKalmanFilter> & ekf, const rclcpp::Time & now, double dt)
{
  m.Update(ekf, now, dt);
}
void spec_pose(
  PoseMeasurement & m, std::shared_ptr<TimeDelayKalmanFilter> & ekf, const rclcpp::Time & now, double dt)
{
  opaque();
  const Eigen::Matrix<double, 3, 6> C = PoseMeasurementMatrix();
  const size_t n = m.messages_.size();
  for (size_t i = 0; i < n; i++) {
    const auto msg = m.messages_.pop();
    const int step = ComputeDelayStep((now - rclcpp::Time(msg->header.stamp)).seconds(), dt);
    const Eigen::Vector3d raw = PoseMeasurementVector(msg->pose.pose);
    const Vector6d x = ekf->getX(step);
    const Eigen::Vector3d state(x(0), x(1), x(2));
    const double turn = raw(2) - state(2);
    const Eigen::Vector3d y(raw(0), raw(1), state(2) + std::atan2(std::sin(turn), std::cos(turn)));
    if (step >= m.extend_state_step_ || !finite(raw)) {continue;}
    const Eigen::Matrix3d P = PoseCovariance(ekf->getLatestP());
    if (SquaredMahalanobis(state, y, P) > m.gate_dist_ * m.gate_dist_) {continue;}
    try {
      ekf->update(y, C, PoseMeasurementCovariance(msg->pose.covariance, m.smoothing_steps_), step);
    } catch (std::invalid_argument &) {
    }
  }
}
void impl_twist(
  TwistMeasurement & m, std::shared_ptr<TimeDelayKalmanFilter> & ekf, const rclcpp::Time & now, double dt)
{
  m.Update(ekf, now, dt);
}
void spec_twist(
  TwistMeasurement & m, std::shared_ptr<TimeDelayKalmanFilter> & ekf, const rclcpp::Time & now, double dt)
{
  opaque();
  const Eigen::Matrix<double, 2, 6> C = TwistMeasurementMatrix();
  const size_t n = m.messages_.size();
  for (size_t i = 0; i < n; i++) {
    const auto msg = m.messages_.pop();
    const int step = ComputeDelayStep((now - rclcpp::Time(msg->header.stamp)).seconds(), dt);
    const Eigen::Vector2d y = TwistMeasurementVector(msg->twist.twist);
    const Vector6d x = ekf->getX(step);
    if (step >= m.extend_state_step_ || !finite(y)) {continue;}
    const Eigen::Matrix2d P = TwistCovariance(ekf->getLatestP());
    if (SquaredMahalanobis(Eigen::Vector2d(x(4), x(5)), y, P) > m.gate_dist_ * m.gate_dist_) {continue;}
    try {
      ekf->update(y, C, TwistMeasurementCovariance(msg->twist.covariance, m.smoothing_steps_), step);
    } catch (std::invalid_argument &) {
    }
  }
}
void impl_push_pose(PoseMeasurement & m, PoseWithCovarianceStamped::SharedPtr msg) {m.Push(msg);}
void spec_push_pose(PoseMeasurement & m, PoseWithCovarianceStamped::SharedPtr msg)
{
  m.messages_.msgs_.push(msg);
  m.messages_.ages_.push(0);
}
void impl_push_twist(TwistMeasurement & m, TwistWithCovarianceStamped::SharedPtr msg) {m.Push(msg);}
void spec_push_twist(TwistMeasurement & m, TwistWithCovarianceStamped::SharedPtr msg)
{
  m.messages_.msgs_.push(msg);
  m.messages_.ages_.push(0);
}
void impl_clear_pose(PoseMeasurement & m) {m.Clear();}
void spec_clear_pose(PoseMeasurement & m)
{
  while (!m.messages_.msgs_.empty()) {m.messages_.msgs_.pop();}
  while (!m.messages_.ages_.empty()) {m.messages_.ages_.pop();}
}
void impl_clear_twist(TwistMeasurement & m) {m.Clear();}
void spec_clear_twist(TwistMeasurement & m)
{
  while (!m.messages_.msgs_.empty()) {m.messages_.msgs_.pop();}
  while (!m.messages_.ages_.empty()) {m.messages_.ages_.pop();}
}
}  // namespace E07

namespace E08 {
using Iso = Eigen::Isometry3d;
using V3 = Eigen::Vector3d;
namespace g = geometry_msgs::msg;

// z, roll and pitch: one Kalman filter each, the variance of the process grows with the time
void impl_filter(Simple1DFilter & f, double obs, double dev, const rclcpp::Time & t) {f.update(obs, dev, t);}
void spec_filter(Simple1DFilter & f, double obs, double dev, const rclcpp::Time & t)
{
  if (f.initialized_) {
    const double drift = f.proc_stddev_x_c_ * (t - f.latest_time_).seconds();
    const double before = std::sqrt(f.stddev_ * f.stddev_ + drift * drift);
    const double gain = before * before / (before * before + dev * dev);
    f.x_ += gain * (obs - f.x_);
    f.stddev_ = std::sqrt(1 - gain) * before;
  } else {
    f.x_ = obs;
    f.stddev_ = dev;
    f.initialized_ = true;
  }
  f.latest_time_ = t;
}
double impl_filter_value(Simple1DFilter & f) {return f.get_x();}
double spec_filter_value(Simple1DFilter & f) {return f.x_;}
Simple1DFilter impl_filter_start(double p)
{
  Simple1DFilter f;
  f.set_proc_stddev(p);
  return f;
}
Simple1DFilter spec_filter_start(double p)
{
  Simple1DFilter f;
  f.initialized_ = false;
  f.x_ = 0.;
  f.stddev_ = 1e9;
  f.proc_stddev_x_c_ = p;
  return f;
}

Eigen::Vector4d impl_variances(const DefaultVariance & v, double dt) {return v.TimeScaledVariances(dt);}
Eigen::Vector4d spec_variances(const DefaultVariance & v, double dt)
{
  const double s[4] = {v.yaw_covariance_, v.yaw_bias_covariance_, v.vx_covariance_, v.wz_covariance_};
  Eigen::Vector4d r;
  for (int i = 0; i < 4; i++) {r(i) = (s[i] * dt) * (s[i] * dt);}
  return r;
}

Vector6d impl_state(double x, double y, double yaw) {return InitState(x, y, yaw);}
Vector6d spec_state(double x, double y, double yaw)
{
  Vector6d s = Vector6d::Zero();
  s(0) = x; s(1) = y; s(2) = yaw;
  return s;
}
Matrix6d impl_covariance(const std::array<double, 36> & c) {return InitCovariance(c);}
Matrix6d spec_covariance(const std::array<double, 36> & c)
{
  Matrix6d P = Matrix6d::Zero();
  P(0, 0) = c[0]; P(1, 1) = c[7]; P(2, 2) = c[35]; P(3, 3) = 0.0001; P(4, 4) = 0.01; P(5, 5) = 0.01;
  return P;
}
double impl_bias(bool enabled, double v) {return InitYawBias(enabled, v);}
double spec_bias(bool enabled, double v) {return enabled ? v : 0.;}

V3 impl_make_pose(double x, double y, double z, double roll, double pitch, double yaw, const V3 & p)
{
  return MakePoseFromXYZRPY(x, y, z, roll, pitch, yaw) * p;
}
V3 spec_make_pose(double x, double y, double z, double roll, double pitch, double yaw, const V3 & p)
{
  __verif_opaque("rotationlib::RPYToQuaternionXYZ");
  return rotationlib::RPYToQuaternionXYZ(roll, pitch, yaw).toRotationMatrix() * p + V3(x, y, z);
}

std::string impl_slash(const std::string & s) {return EraseBeginSlash(s);}
std::string spec_slash(const std::string & s)
{
  __verif_assume(!s.empty());
  return s[0] == '/' ? s.substr(1) : s;
}

void impl_publish(
  const M & P, const rclcpp::Time & t, const std::string & frame, const Iso & pose, const V3 & linear,
  const V3 & angular, const rclcpp::Publisher<nav_msgs::msg::Odometry>::SharedPtr & pub)
{
  publishEstimateResult(P, t, frame, pose, linear, angular, pub);
}
void spec_publish(
  const M & P, const rclcpp::Time & t, const std::string & frame, const Iso & pose, const V3 & linear,
  const V3 & angular, const rclcpp::Publisher<nav_msgs::msg::Odometry>::SharedPtr & pub)
{
  __verif_assume(P.rows() == 6 && P.cols() == 6);
  nav_msgs::msg::Odometry m;
  m.header.stamp = t;
  m.header.frame_id = frame;
  m.child_frame_id = "base_link";
  m.pose.pose = MakePose(pose);
  m.pose.covariance = EKFCovarianceToPoseMessageCovariance(P);
  m.twist.twist = MakeTwist(linear, angular);
  m.twist.covariance = EKFCovarianceToTwistMessageCovariance(P);
  pub->publish(m);
}

void impl_pose(EKFLocalizer & node, PoseWithCovarianceStamped::SharedPtr msg) {node.callbackPoseWithCovariance(msg);}
void spec_pose(EKFLocalizer & node, PoseWithCovarianceStamped::SharedPtr msg)
{
  __verif_opaque("Simple1DFilter::update");
  node.updateSimple1DFilters(*msg);
  node.pose_measurement_.Push(msg);
}
void impl_twist(EKFLocalizer & node, TwistWithCovarianceStamped::SharedPtr msg)
{
  node.callbackTwistWithCovariance(msg);
}
void spec_twist(EKFLocalizer & node, TwistWithCovarianceStamped::SharedPtr msg)
{
  node.twist_measurement_.Push(msg);
}
void impl_filters(EKFLocalizer & node, const PoseWithCovarianceStamped & pose) {node.updateSimple1DFilters(pose);}
void spec_filters(EKFLocalizer & node, const PoseWithCovarianceStamped & pose)
{
  __verif_opaque("Simple1DFilter::update");
  double roll, pitch, yaw;
  tf2::Quaternion q;
  tf2::fromMsg(pose.pose.pose.orientation, q);
  tf2::Matrix3x3(q).getRPY(roll, pitch, yaw);
  const auto & c = pose.pose.covariance;
  const rclcpp::Time t(pose.header.stamp);
  node.z_filter_.update(pose.pose.pose.position.z, std::sqrt(c[14]), t);
  node.roll_filter_.update(roll, std::sqrt(c[21]), t);
  node.pitch_filter_.update(pitch, std::sqrt(c[28]), t);
}

// an initial pose starts the filter over, in the frame of the map
void impl_initial(EKFLocalizer & node, PoseWithCovarianceStamped::SharedPtr msg) {node.callbackInitialPose(msg);}
void spec_initial(EKFLocalizer & node, PoseWithCovarianceStamped::SharedPtr msg)
{
  __verif_opaque("Simple1DFilter::update");
  __verif_opaque("TransformListener::LookupTransform");
  __verif_opaque("EraseBeginSlash");
  const auto to_map = node.listener_.LookupTransform(
    EraseBeginSlash(node.params.pose_frame_id_), EraseBeginSlash(msg->header.frame_id));
  if (!to_map.has_value()) {return;}
  const auto & p = msg->pose.pose.position;
  const auto & t = to_map->transform.translation;
  const double yaw = tf2::getYaw(msg->pose.pose.orientation) + tf2::getYaw(to_map->transform.rotation);
  node.ekf_ = std::make_shared<TimeDelayKalmanFilter>(
    InitState(p.x + t.x, p.y + t.y, yaw), InitCovariance(msg->pose.covariance), node.params.extend_state_step_);
  node.updateSimple1DFilters(*msg);
  node.pose_measurement_.Clear();
  node.twist_measurement_.Clear();
}

std::optional<g::TransformStamped> impl_lookup(
  const TransformListener & l, const std::string & parent, const std::string & child)
{
  return l.LookupTransform(parent, child);
}
std::optional<g::TransformStamped> spec_lookup(
  const TransformListener & l, const std::string & parent, const std::string & child)
{
  __verif_opaque_throwing("tf2::BufferCore::lookupTransform", "tf2::TransformException");
  for (int i = 0; i < 50; i++) {
    try {
      return l.tf_buffer_->lookupTransform(parent, child, tf2::TimePointZero);
    } catch (tf2::TransformException &) {
    }
  }
  return std::nullopt;
}

// one cycle: predict over the elapsed time, use the waiting measurements, publish the estimate
void impl_cycle(EKFLocalizer & node) {node.timerCallback();}
void spec_cycle(EKFLocalizer & node)
{
  __verif_opaque("PoseMeasurement::Update");
  __verif_opaque("TwistMeasurement::Update");
  __verif_opaque_throwing("UpdateInterval::Compute", "std::invalid_argument");
  __verif_opaque("predictNextState");
  __verif_opaque("createStateTransitionMatrix");
  __verif_opaque("publishEstimateResult");
  __verif_opaque("MakeTransformStamped");
  __verif_opaque("MakePoseFromXYZRPY");
  if (!node.ekf_) {return;}
  double dt;
  try {
    dt = node.interval_.Compute(node.now().seconds());
  } catch (std::invalid_argument &) {
    return;
  }
  const Vector6d x = node.ekf_->getLatestX();
  node.ekf_->predict(
    predictNextState(x, dt), createStateTransitionMatrix(x, dt),
    processNoiseCovariance(node.variance_.TimeScaledVariances(dt)));
  node.pose_measurement_.Update(node.ekf_, node.now(), dt);
  node.twist_measurement_.Update(node.ekf_, node.now(), dt);
  const Vector6d e = node.ekf_->getLatestX();
  const Iso pose = MakePoseFromXYZRPY(
    e(0), e(1), node.z_filter_.x_, node.roll_filter_.x_, node.pitch_filter_.x_, e(2) + e(3));
  const std::string & frame = node.params.pose_frame_id_;
  publishEstimateResult(
    node.ekf_->getLatestP(), node.now(), frame, pose, V3(e(4), 0., 0.), V3(0., 0., e(5)), node.pub_odom_);
  node.tf_br_->sendTransform(MakeTransformStamped(pose, node.now(), frame, "base_link"));
}
}  // namespace E08

namespace N03 {
using rclcpp::verif_parameter;
using Qos = rmw_qos_profile_t;
using Node = EKFLocalizer;
using Options = rclcpp::NodeOptions;

// every setting is the declared parameter of its name
struct Settings
{
  double frequency; int extend; std::string frame; int pose_steps; double pose_gate; double twist_gate;
  int twist_steps; double yaw; bool bias_enabled; double bias; double vx; double wz;
};
Settings expected(const std::string & n)
{
  Settings s;
  s.frequency = verif_parameter<double>(n, "predict_frequency", 50.0);
  s.extend = verif_parameter<int>(n, "extend_state_step", 50);
  s.frame = verif_parameter<std::string>(n, "pose_frame_id", "map");
  s.pose_steps = verif_parameter<int>(n, "pose_smoothing_steps", 5);
  s.pose_gate = verif_parameter<double>(n, "pose_gate_dist", 10000.0);
  s.twist_gate = verif_parameter<double>(n, "twist_gate_dist", 10000.0);
  s.twist_steps = verif_parameter<int>(n, "twist_smoothing_steps", 2);
  s.yaw = verif_parameter<double>(n, "proc_stddev_yaw_c", 0.005);
  s.bias_enabled = verif_parameter<bool>(n, "enable_yaw_bias_estimation", true);
  s.bias = verif_parameter<double>(n, "proc_stddev_yaw_bias_c", 0.001);
  s.vx = verif_parameter<double>(n, "proc_stddev_vx_c", 5.0);
  s.wz = verif_parameter<double>(n, "proc_stddev_wz_c", 1.0);
  return s;
}

// what the callbacks work with is what is configured
Settings impl_settings(const std::string & name, const Options & options)
{
  Node node(name, options);
  const EKFParameters & p = node.params;
  return Settings{
    p.default_frequency_, p.extend_state_step_, p.pose_frame_id_, p.pose_smoothing_steps_, p.pose_gate_dist_,
    p.twist_gate_dist_, p.twist_smoothing_steps_, p.yaw_covariance_, p.enable_yaw_bias_estimation,
    p.proc_stddev_yaw_bias_c, p.vx_covariance_, p.wz_covariance_};
}
Settings spec_settings(const std::string & name, const Options & options) {return expected(name);}

using Noise = std::tuple<double, double, double, double>;
Noise impl_noise(const std::string & name, const Options & options)
{
  Node node(name, options);
  const DefaultVariance & v = node.variance_;
  return Noise(v.yaw_covariance_, v.yaw_bias_covariance_, v.vx_covariance_, v.wz_covariance_);
}
Noise spec_noise(const std::string & name, const Options & options)
{
  const Settings s = expected(name);
  return Noise(s.yaw, s.bias_enabled ? s.bias : 0., s.vx, s.wz);
}

using Pose = std::tuple<std::string, int, double, int, size_t>;
using Twist = std::tuple<int, double, int, size_t>;
std::tuple<Pose, Twist> impl_measurements(const std::string & name, const Options & options)
{
  Node node(name, options);
  const PoseMeasurement & p = node.pose_measurement_;
  const TwistMeasurement & t = node.twist_measurement_;
  return std::make_tuple(
    Pose(p.frame_id_, p.extend_state_step_, p.gate_dist_, p.smoothing_steps_, p.messages_.msgs_.size()),
    Twist(t.extend_state_step_, t.gate_dist_, t.smoothing_steps_, t.messages_.msgs_.size()));
}
std::tuple<Pose, Twist> spec_measurements(const std::string & name, const Options & options)
{
  const Settings s = expected(name);
  return std::make_tuple(
    Pose(s.frame, s.extend, s.pose_gate, s.pose_steps, 0), Twist(s.extend, s.twist_gate, s.twist_steps, 0));
}

// not estimating before an initial pose; height and tilt are filtered from the first observation
std::tuple<bool, bool, double, std::array<double, 3>, bool> impl_start(const std::string & name, const Options & options)
{
  Node node(name, options);
  return std::make_tuple(
    node.ekf_ == nullptr, node.interval_.last_time_.has_value(), node.interval_.default_frequency_,
    std::array<double, 3>{
      node.z_filter_.proc_stddev_x_c_, node.roll_filter_.proc_stddev_x_c_, node.pitch_filter_.proc_stddev_x_c_},
    node.z_filter_.initialized_ || node.roll_filter_.initialized_ || node.pitch_filter_.initialized_);
}
std::tuple<bool, bool, double, std::array<double, 3>, bool> spec_start(const std::string & name, const Options & options)
{
  return std::make_tuple(true, false, expected(name).frequency, std::array<double, 3>{1.0, 0.1, 0.1}, false);
}

using End = std::tuple<std::string, Qos>;
std::tuple<End, End, End, End> impl_topics(const std::string & name, const Options & options)
{
  Node node(name, options);
  return std::make_tuple(
    End(node.pub_odom_->topic, node.pub_odom_->qos),
    End(node.sub_initialpose_->topic, node.sub_initialpose_->qos),
    End(node.sub_pose_with_cov_->topic, node.sub_pose_with_cov_->qos),
    End(node.sub_twist_with_cov_->topic, node.sub_twist_with_cov_->qos));
}
std::tuple<End, End, End, End> spec_topics(const std::string & name, const Options & options)
{
  Qos last;
  last.depth = 1;
  return std::make_tuple(
    End("ekf_odom", last), End("initialpose", last), End("in_pose_with_covariance", last),
    End("in_twist_with_covariance", last));
}

// the timer runs at the configured frequency
rclcpp::Duration impl_period(const std::string & name, const Options & options)
{
  Node node(name, options);
  return node.timer_control_->period;
}
rclcpp::Duration spec_period(const std::string & name, const Options & options)
{
  return rclcpp::Duration::from_seconds(ComputeInterval(expected(name).frequency));
}

// every message and the timer reach the callback meant for them
void opaque()
{
  __verif_opaque("EKFLocalizer::timerCallback");
  __verif_opaque("EKFLocalizer::callbackInitialPose");
  __verif_opaque("EKFLocalizer::callbackPoseWithCovariance");
  __verif_opaque("EKFLocalizer::callbackTwistWithCovariance");
}
using Message = std::shared_ptr<PoseWithCovarianceStamped>;
using Speed = std::shared_ptr<TwistWithCovarianceStamped>;
void impl_initial(Node & node, const std::string & name, const Options & options, const Message & m)
{
  Node fresh(name, options);
  fresh.sub_initialpose_->callback(m);
  node.ekf_ = fresh.ekf_;
  node.tf_br_ = fresh.tf_br_;
}
void spec_initial(Node & node, const std::string & name, const Options & options, const Message & m)
{
  opaque();
  Node fresh(name, options);
  fresh.callbackInitialPose(m);
  node.ekf_ = fresh.ekf_;
  node.tf_br_ = fresh.tf_br_;
}
void impl_pose(Node & node, const std::string & name, const Options & options, const Message & m)
{
  Node fresh(name, options);
  fresh.sub_pose_with_cov_->callback(m);
  node.ekf_ = fresh.ekf_;
}
void spec_pose(Node & node, const std::string & name, const Options & options, const Message & m)
{
  opaque();
  Node fresh(name, options);
  fresh.callbackPoseWithCovariance(m);
  node.ekf_ = fresh.ekf_;
}
void impl_twist(Node & node, const std::string & name, const Options & options, const Speed & m)
{
  Node fresh(name, options);
  fresh.sub_twist_with_cov_->callback(m);
  node.ekf_ = fresh.ekf_;
}
void spec_twist(Node & node, const std::string & name, const Options & options, const Speed & m)
{
  opaque();
  Node fresh(name, options);
  fresh.callbackTwistWithCovariance(m);
  node.ekf_ = fresh.ekf_;
}
void impl_timer(Node & node, const std::string & name, const Options & options)
{
  Node fresh(name, options);
  fresh.timer_control_->callback();
  node.ekf_ = fresh.ekf_;
}
void spec_timer(Node & node, const std::string & name, const Options & options)
{
  opaque();
  Node fresh(name, options);
  fresh.timerCallback();
  node.ekf_ = fresh.ekf_;
}
int impl_program(int argc, char ** argv) {return ekf_main(argc, argv);}
int spec_program(int argc, char ** argv)
{
  rclcpp::init(argc, argv);
  rclcpp::spin(std::make_shared<EKFLocalizer>("ekf_localizer", Options()));
  return 0;
}
}  // namespace N03
