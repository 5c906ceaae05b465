// Declarations of the ROS 2 interfaces the repository uses.  They are only ever parsed: functions
// without a body are uninterpreted (deterministic in their arguments, and an object on which a
// non-const member function is called records that call).
#ifndef ROS_STUB_HPP_
#define ROS_STUB_HPP_
#include <array>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <functional>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <Eigen/Core>
#include <Eigen/Geometry>

#define VERIF_MSG(T) \
  using SharedPtr = std::shared_ptr<T>; \
  using ConstSharedPtr = std::shared_ptr<const T>; \
  using UniquePtr = std::unique_ptr<T>;

namespace builtin_interfaces { namespace msg {
struct Time { int32_t sec = 0; uint32_t nanosec = 0; VERIF_MSG(Time) };
}}
namespace rclcpp {
class Duration
{
public:
  explicit Duration(std::int64_t nanoseconds);
  static Duration from_seconds(double s);
  double seconds() const;
  std::int64_t nanoseconds() const;
};
class Time
{
public:
  Time();
  explicit Time(std::int64_t nanoseconds);
  Time(int32_t seconds, uint32_t nanoseconds);
  Time(const builtin_interfaces::msg::Time & t);
  operator builtin_interfaces::msg::Time() const;
  double seconds() const;
  std::int64_t nanoseconds() const;
  Duration operator-(const Time & o) const;
  Time operator-(const Duration & o) const;
  Time operator+(const Duration & o) const;
  bool operator<(const Time & o) const;
  bool operator<=(const Time & o) const;
  bool operator>(const Time & o) const;
  bool operator>=(const Time & o) const;
  bool operator==(const Time & o) const;
  bool operator!=(const Time & o) const;
};
class Logger {};
Logger get_logger(const std::string & name);
class Clock { public: using SharedPtr = std::shared_ptr<Clock>; Time now() const; };
}  // namespace rclcpp
namespace std_msgs { namespace msg {
struct Header { builtin_interfaces::msg::Time stamp; std::string frame_id; VERIF_MSG(Header) };
struct ColorRGBA { float r = 0; float g = 0; float b = 0; float a = 0; VERIF_MSG(ColorRGBA) };
}}
namespace geometry_msgs { namespace msg {
struct Point { double x = 0; double y = 0; double z = 0; VERIF_MSG(Point) };
struct Vector3 { double x = 0; double y = 0; double z = 0; VERIF_MSG(Vector3) };
struct Quaternion { double x = 0; double y = 0; double z = 0; double w = 1; VERIF_MSG(Quaternion) };
struct Pose { Point position; Quaternion orientation; VERIF_MSG(Pose) };
struct PoseStamped { std_msgs::msg::Header header; Pose pose; VERIF_MSG(PoseStamped) };
struct PoseWithCovariance { Pose pose; std::array<double, 36> covariance{}; VERIF_MSG(PoseWithCovariance) };
struct PoseWithCovarianceStamped
{
  std_msgs::msg::Header header; PoseWithCovariance pose; VERIF_MSG(PoseWithCovarianceStamped)
};
struct PoseArray { std_msgs::msg::Header header; std::vector<Pose> poses; VERIF_MSG(PoseArray) };
struct Twist { Vector3 linear; Vector3 angular; VERIF_MSG(Twist) };
struct TwistStamped { std_msgs::msg::Header header; Twist twist; VERIF_MSG(TwistStamped) };
struct TwistWithCovariance { Twist twist; std::array<double, 36> covariance{}; VERIF_MSG(TwistWithCovariance) };
struct TwistWithCovarianceStamped
{
  std_msgs::msg::Header header; TwistWithCovariance twist; VERIF_MSG(TwistWithCovarianceStamped)
};
struct Transform { Vector3 translation; Quaternion rotation; VERIF_MSG(Transform) };
struct TransformStamped
{
  std_msgs::msg::Header header; std::string child_frame_id; Transform transform;
  VERIF_MSG(TransformStamped)
};
}}
namespace nav_msgs { namespace msg {
struct Odometry
{
  std_msgs::msg::Header header; std::string child_frame_id;
  geometry_msgs::msg::PoseWithCovariance pose; geometry_msgs::msg::TwistWithCovariance twist;
  VERIF_MSG(Odometry)
};
struct Path
{
  std_msgs::msg::Header header; std::vector<geometry_msgs::msg::PoseStamped> poses; VERIF_MSG(Path)
};
}}
namespace sensor_msgs { namespace msg {
struct PointField
{
  static constexpr uint8_t INT8 = 1; static constexpr uint8_t UINT8 = 2;
  static constexpr uint8_t INT16 = 3; static constexpr uint8_t UINT16 = 4;
  static constexpr uint8_t INT32 = 5; static constexpr uint8_t UINT32 = 6;
  static constexpr uint8_t FLOAT32 = 7; static constexpr uint8_t FLOAT64 = 8;
  std::string name; uint32_t offset = 0; uint8_t datatype = 0; uint32_t count = 0;
  VERIF_MSG(PointField)
};
struct PointCloud2
{
  std_msgs::msg::Header header; uint32_t height = 0; uint32_t width = 0;
  std::vector<PointField> fields; bool is_bigendian = false; uint32_t point_step = 0;
  uint32_t row_step = 0; std::vector<uint8_t> data; bool is_dense = false;
  VERIF_MSG(PointCloud2)
};
}}
namespace visualization_msgs { namespace msg {
struct Marker
{
  static constexpr int32_t ARROW = 0; static constexpr int32_t CUBE = 1;
  static constexpr int32_t SPHERE = 2; static constexpr int32_t CYLINDER = 3;
  static constexpr int32_t LINE_STRIP = 4; static constexpr int32_t LINE_LIST = 5;
  static constexpr int32_t CUBE_LIST = 6; static constexpr int32_t SPHERE_LIST = 7;
  static constexpr int32_t POINTS = 8;
  static constexpr int32_t ADD = 0; static constexpr int32_t DELETE = 2;
  std_msgs::msg::Header header; std::string ns; int32_t id = 0; int32_t type = 0; int32_t action = 0;
  geometry_msgs::msg::Pose pose; geometry_msgs::msg::Vector3 scale; std_msgs::msg::ColorRGBA color;
  bool frame_locked = false; std::vector<geometry_msgs::msg::Point> points;
  std::vector<std_msgs::msg::ColorRGBA> colors; std::string text;
  VERIF_MSG(Marker)
};
}}
// quality of service is a value, so that what a node asks for can be compared
struct rmw_qos_profile_t
{
  std::size_t depth = 0; bool keep_all = false; bool reliable = true; bool transient_local = false;
};
namespace rclcpp {
class QoS
{
public:
  QoS(std::size_t depth) {profile.depth = depth;}
  QoS & reliable() {profile.reliable = true; return *this;}
  QoS & best_effort() {profile.reliable = false; return *this;}
  QoS & durability_volatile() {profile.transient_local = false; return *this;}
  QoS & transient_local() {profile.transient_local = true; return *this;}
  QoS & keep_all() {profile.keep_all = true; profile.depth = 0; return *this;}
  QoS & keep_last(std::size_t depth) {profile.keep_all = false; profile.depth = depth; return *this;}
  rmw_qos_profile_t get_rmw_qos_profile() const {return profile;}
  rmw_qos_profile_t profile;
};
class SensorDataQoS : public QoS { public: SensorDataQoS() : QoS(5) {profile.reliable = false;} };
enum class CallbackGroupType { MutuallyExclusive, Reentrant };
class CallbackGroup
{
public:
  using SharedPtr = std::shared_ptr<CallbackGroup>;
  CallbackGroupType type;
};
struct SubscriptionOptions { CallbackGroup::SharedPtr callback_group; };
struct PublisherOptions {};
class NodeOptions {};
class SubscriptionBase { public: using SharedPtr = std::shared_ptr<SubscriptionBase>; };
template<typename M> class Subscription : public SubscriptionBase
{
public:
  using SharedPtr = std::shared_ptr<Subscription<M>>;
  std::string topic;
  rmw_qos_profile_t qos;
  CallbackGroup::SharedPtr group;
  std::function<void (const std::shared_ptr<M> &)> callback;
};
template<typename M> class Publisher
{
public:
  using SharedPtr = std::shared_ptr<Publisher<M>>;
  void publish(const M & msg);
  std::string topic;
  rmw_qos_profile_t qos;
};
class TimerBase
{
public:
  using SharedPtr = std::shared_ptr<TimerBase>;
  Duration period = Duration(0);
  std::function<void()> callback;
};
class Parameter {};
Clock::SharedPtr verif_clock();
// the value of a parameter depends on the node, the name and the default
template<typename T> T verif_parameter(const std::string & node, const std::string & name, const T & value);
class Node
{
public:
  using SharedPtr = std::shared_ptr<Node>;
  explicit Node(const std::string & name) : node_name(name) {}
  Node(const std::string & name, const NodeOptions &) : node_name(name) {}
  template<typename T> T declare_parameter(const std::string & name, const T & value)
  {
    return verif_parameter<T>(node_name, name, value);
  }
  std::string declare_parameter(const std::string & name, const char * value)
  {
    return verif_parameter<std::string>(node_name, name, value);
  }
  template<typename M> typename Publisher<M>::SharedPtr create_publisher(
    const std::string & topic, const QoS & qos)
  {
    auto p = std::make_shared<Publisher<M>>();
    p->topic = topic;
    p->qos = qos.profile;
    return p;
  }
  template<typename M, typename F> typename Subscription<M>::SharedPtr create_subscription(
    const std::string & topic, const QoS & qos, F && f,
    const SubscriptionOptions & options = SubscriptionOptions())
  {
    auto s = std::make_shared<Subscription<M>>();
    s->topic = topic;
    s->qos = qos.profile;
    s->group = options.callback_group;
    if constexpr (std::is_invocable_v<F &, const std::shared_ptr<M> &>) {
      s->callback = f;
    } else {
      s->callback = [f](const std::shared_ptr<M> & m) mutable {f(*m);};
    }
    return s;
  }
  CallbackGroup::SharedPtr create_callback_group(CallbackGroupType t)
  {
    auto g = std::make_shared<CallbackGroup>();
    g->type = t;
    return g;
  }
  Logger get_logger() const;
  Clock::SharedPtr get_clock() const {return verif_clock();}
  Time now() const {return verif_clock()->now();}
  std::string node_name;
};
template<typename F> TimerBase::SharedPtr create_timer(
  Node *, Clock::SharedPtr, Duration period, F && f)
{
  auto t = std::make_shared<TimerBase>();
  t->period = period;
  t->callback = f;
  return t;
}
void init(int argc, char ** argv);
bool ok();
inline bool verif_running = true;
inline bool shutdown()
{
  verif_running = false;
  return true;
}
// running a node, recorded in the order of calls
template<typename N> void verif_run(const N & node);
void verif_wait();
template<typename N> void spin(std::shared_ptr<N> node)
{
  verif_run(*node);
  verif_wait();
}
void spin_some(std::shared_ptr<Node> node);
bool sleep_for(const std::chrono::nanoseconds & t);
class Rate { public: explicit Rate(double hz); bool sleep(); };
struct ExecutorOptions {};
namespace executors {
class MultiThreadedExecutor
{
public:
  template<typename N> void add_node(std::shared_ptr<N> node) {verif_run(*node);}
  void spin() {verif_wait();}
};
class SingleThreadedExecutor
{
public:
  template<typename N> void add_node(std::shared_ptr<N> node) {verif_run(*node);}
  void spin() {verif_wait();}
};
}  // namespace executors
}  // namespace rclcpp

// logging is not an observable effect of any property
#define RCLCPP_DEBUG(...) ((void)0)
#define RCLCPP_INFO(...) ((void)0)
#define RCLCPP_WARN(...) ((void)0)
#define RCLCPP_ERROR(...) ((void)0)
#define RCLCPP_FATAL(...) ((void)0)
#define RCLCPP_INFO_STREAM(...) ((void)0)
#define RCLCPP_WARN_STREAM(...) ((void)0)
#define RCLCPP_WARN_THROTTLE(...) ((void)0)
#define RCLCPP_INFO_THROTTLE(...) ((void)0)
#define RCLCPP_COMPONENTS_REGISTER_NODE(...)

namespace tf2 {
struct TransformException : public std::runtime_error
{
  using std::runtime_error::runtime_error;
};
using TimePoint = std::chrono::time_point<std::chrono::system_clock, std::chrono::nanoseconds>;
const TimePoint TimePointZero = TimePoint(std::chrono::nanoseconds::zero());
class BufferCore
{
public:
  BufferCore();
  geometry_msgs::msg::TransformStamped lookupTransform(
    const std::string & target, const std::string & source, const TimePoint & time) const;
};
class Quaternion
{
public:
  Quaternion();
  Quaternion(const double & x, const double & y, const double & z, const double & w)
  {
    c[0] = x; c[1] = y; c[2] = z; c[3] = w;
  }
  void setRPY(const double & roll, const double & pitch, const double & yaw)
  {
    const double cr = std::cos(roll / 2), sr = std::sin(roll / 2);
    const double cp = std::cos(pitch / 2), sp = std::sin(pitch / 2);
    const double cy = std::cos(yaw / 2), sy = std::sin(yaw / 2);
    c[0] = sr * cp * cy - cr * sp * sy;
    c[1] = cr * sp * cy + sr * cp * sy;
    c[2] = cr * cp * sy - sr * sp * cy;
    c[3] = cr * cp * cy + sr * sp * sy;
  }
  static Quaternion getIdentity() {return Quaternion(0, 0, 0, 1);}
  const double & x() const {return c[0];}
  const double & y() const {return c[1];}
  const double & z() const {return c[2];}
  const double & w() const {return c[3];}
  double c[4];
};
double verif_angle(const Quaternion & q, int axis);
class Matrix3x3
{
public:
  explicit Matrix3x3(const Quaternion & q) : q_(q) {}
  void getRPY(double & roll, double & pitch, double & yaw, unsigned int solution = 1) const
  {
    roll = verif_angle(q_, 0);
    pitch = verif_angle(q_, 1);
    yaw = verif_angle(q_, 2);
  }
  Quaternion q_;
};
double getYaw(const geometry_msgs::msg::Quaternion & q);
double getYaw(const tf2::Quaternion & q);
inline void fromMsg(const geometry_msgs::msg::Quaternion & in, tf2::Quaternion & out)
{
  out.c[0] = in.x;
  out.c[1] = in.y;
  out.c[2] = in.z;
  out.c[3] = in.w;
}
inline void fromMsg(const geometry_msgs::msg::Pose & in, Eigen::Isometry3d & out)
{
  out.translation() = Eigen::Vector3d(in.position.x, in.position.y, in.position.z);
  out.linear() = Eigen::Quaterniond(
    in.orientation.w, in.orientation.x, in.orientation.y, in.orientation.z).toRotationMatrix();
}
geometry_msgs::msg::Quaternion verif_quaternion(const Eigen::Matrix3d & rotation);
void fromMsg(const geometry_msgs::msg::Pose & in, Eigen::Affine3d & out);
inline geometry_msgs::msg::Pose toMsg(const Eigen::Isometry3d & in)
{
  geometry_msgs::msg::Pose m;
  m.position.x = in.translation()(0);
  m.position.y = in.translation()(1);
  m.position.z = in.translation()(2);
  m.orientation = verif_quaternion(in.linear());
  return m;
}
geometry_msgs::msg::Pose toMsg(const Eigen::Affine3d & in);
geometry_msgs::msg::Quaternion toMsg(const Eigen::Quaterniond & in);
geometry_msgs::msg::Quaternion toMsg(const tf2::Quaternion & in);
inline geometry_msgs::msg::TransformStamped eigenToTransform(const Eigen::Isometry3d & in)
{
  geometry_msgs::msg::TransformStamped m;
  m.transform.translation.x = in.translation()(0);
  m.transform.translation.y = in.translation()(1);
  m.transform.translation.z = in.translation()(2);
  m.transform.rotation = verif_quaternion(in.linear());
  return m;
}
geometry_msgs::msg::TransformStamped eigenToTransform(const Eigen::Affine3d & in);
Eigen::Isometry3d transformToEigen(const geometry_msgs::msg::TransformStamped & in);
}  // namespace tf2
namespace tf2_ros {
class Buffer : public tf2::BufferCore { public: explicit Buffer(rclcpp::Clock::SharedPtr clock); };
class TransformBroadcaster
{
public:
  explicit TransformBroadcaster(rclcpp::Node &) {}
  explicit TransformBroadcaster(std::shared_ptr<rclcpp::Node>) {}
  explicit TransformBroadcaster(rclcpp::Node *) {}
  void sendTransform(const geometry_msgs::msg::TransformStamped & t);
};
class StaticTransformBroadcaster
{
public:
  explicit StaticTransformBroadcaster(rclcpp::Node &) {}
  explicit StaticTransformBroadcaster(rclcpp::Node *) {}
  explicit StaticTransformBroadcaster(std::shared_ptr<rclcpp::Node>) {}
  void sendTransform(const geometry_msgs::msg::TransformStamped & t);
};
class TransformListener
{
public:
  TransformListener(tf2::BufferCore & buffer, rclcpp::Node * node, bool spin_thread = true);
};
}  // namespace tf2_ros
namespace message_filters {
template<typename M> class Subscriber
{
public:
  using Message = M;
  Subscriber(rclcpp::Node *, const std::string & t, const rmw_qos_profile_t & q) : topic(t), qos(q) {}
  std::string topic;
  rmw_qos_profile_t qos;
};
namespace sync_policies {
template<typename A, typename B> class ExactTime
{
public:
  using First = A;
  using Second = B;
  explicit ExactTime(uint32_t q) : queue(q), exact(true) {}
  uint32_t queue;
  bool exact;
};
template<typename A, typename B> class ApproximateTime
{
public:
  using First = A;
  using Second = B;
  explicit ApproximateTime(uint32_t q) : queue(q), exact(false) {}
  uint32_t queue;
  bool exact;
};
}
template<typename P> class Synchronizer
{
public:
  Synchronizer(
    const P & p, Subscriber<typename P::First> & a, Subscriber<typename P::Second> & b)
  : queue(p.queue), exact(p.exact), first_topic(a.topic), second_topic(b.topic),
    first_qos(a.qos), second_qos(b.qos) {}
  template<typename F> void registerCallback(const F & f) {callback = f;}
  uint32_t queue;
  bool exact;
  std::string first_topic;
  std::string second_topic;
  rmw_qos_profile_t first_qos;
  rmw_qos_profile_t second_qos;
  std::function<void (
      const std::shared_ptr<const typename P::First> &,
      const std::shared_ptr<const typename P::Second> &)> callback;
};
}  // namespace message_filters
namespace pcl {
template<typename T> class PointCloud;
template<typename T> void toROSMsg(const pcl::PointCloud<T> & in, sensor_msgs::msg::PointCloud2 & out);
template<typename T> void fromROSMsg(const sensor_msgs::msg::PointCloud2 & in, pcl::PointCloud<T> & out);
namespace io {
struct VerifFiles {template<typename T> void write(const std::string & file, const pcl::PointCloud<T> & cloud);};
inline VerifFiles verif_files;
template<typename T> int verif_save(const std::string & file, const pcl::PointCloud<T> & cloud);
template<typename T> int save(const std::string & file, const pcl::PointCloud<T> & cloud)
{
  verif_files.write<T>(file, cloud);
  return verif_save<T>(file, cloud);
}
template<typename T> int loadPCDFile(const std::string & file, pcl::PointCloud<T> & cloud);
int loadPCDFile(const std::string & file, sensor_msgs::msg::PointCloud2 & cloud);
}
}  // namespace pcl
namespace rcpputils { namespace fs { bool exists(const std::string & path); }}
#endif
