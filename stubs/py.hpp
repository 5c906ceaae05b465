// Meaning of the operations of the analysed Python modules (engine/pysub.py translates them to C++).
// Sequences (lists, tuples, sets) are vectors, numbers are mathematical integers or 64-bit floats.
#ifndef PY_HPP_
#define PY_HPP_
#include <algorithm>
#include <cstdint>
#include <numeric>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace py {
struct AssertionError {}; struct ValueError {}; struct RuntimeError {}; struct TypeError {};
struct KeyError {}; struct IndexError {};
struct None {};
struct Nothing {};
inline Nothing nothing() {return Nothing{};}
template<class T> struct type {};

template<class T> T value(const T & x) {return x;}
// another name of a sequence or object; numbers and strings are copied
template<class T, std::enable_if_t<std::is_arithmetic_v<T> || std::is_same_v<T, std::string>, int> = 0>
T alias(const T & x) {return x;}
template<class T, std::enable_if_t<!(std::is_arithmetic_v<T> || std::is_same_v<T, std::string>), int> = 0>
const T & alias(const T & x) {return x;}
template<class T, std::enable_if_t<!(std::is_arithmetic_v<T> || std::is_same_v<T, std::string>), int> = 0>
T & alias(T & x) {return x;}

inline bool truth(bool x) {return x;}
inline bool truth(int x) {return x != 0;}
inline bool truth(double x) {return x != 0;}
inline bool truth(const std::string & x) {return !x.empty();}
template<class T> bool truth(const std::vector<T> & x) {return x.size() != 0;}

template<class A, class B> bool eq(const A & a, const B & b) {return a == b;}
template<class A, class B> bool ne(const A & a, const B & b) {return !(a == b);}
template<class A, class B> bool lt(const A & a, const B & b) {return a < b;}
template<class A, class B> bool le(const A & a, const B & b) {return a <= b;}
template<class A, class B> bool gt(const A & a, const B & b) {return a > b;}
template<class A, class B> bool ge(const A & a, const B & b) {return a >= b;}

// a string of n > 0 repetitions
std::string repeat(const std::string & s, int n);
inline std::string times(const std::string & s, int n) {return n > 0 ? repeat(s, n) : std::string("");}
template<class A, class B> auto add(const A & a, const B & b) {return a + b;}
template<class T> std::vector<T> add(const std::vector<T> & a, const std::vector<T> & b)
{
  std::vector<T> r = a;
  for (const auto & x : b) {r.push_back(x);}
  return r;
}
template<class T> std::vector<T> add(Nothing, const std::vector<T> & b) {return b;}
template<class A, class B> auto sub(const A & a, const B & b) {return a - b;}
template<class A, class B> auto mul(const A & a, const B & b) {return a * b;}
inline std::string mul(const std::string & s, int n) {return times(s, n);}
inline std::string mul(int n, const std::string & s) {return times(s, n);}
inline int floordiv(int a, int b) {return a / b;}   // for counts: neither is negative
inline int mod(int a, int b) {return a % b;}
inline double truediv(double a, double b) {return a / b;}

template<class T> int len_(const std::vector<T> & v) {return static_cast<int>(v.size());}
int len_(const std::string & s);
inline int int_(int x) {return x;}
inline double float_(double x) {return x;}
inline bool bool_(bool x) {return x;}
template<class T> std::vector<T> tuple_(const std::vector<T> & v) {return v;}
template<class T> std::vector<T> list_(const std::vector<T> & v) {return v;}
template<class T> std::vector<T> set_(const std::vector<T> & v) {return v;}
template<class T> std::vector<T> frozenset_(const std::vector<T> & v) {return v;}
template<class T> std::vector<T> tolist(const std::vector<T> & v) {return v;}
template<class T> std::vector<T> bytes_(const std::vector<T> & v) {return v;}
template<class T> std::vector<T> bytearray_(const std::vector<T> & v) {return v;}
template<class T> std::vector<T> copy_(const std::vector<T> & v) {return v;}
template<class T> T sum_(const std::vector<T> & v)
{
  T s = 0;
  for (const auto & x : v) {s += x;}
  return s;
}
template<class A, class B> auto min_(const A & a, const B & b) {return b < a ? b : a;}
template<class A, class B> auto max_(const A & a, const B & b) {return b > a ? b : a;}
template<class A> A abs_(const A & a) {return a < 0 ? -a : a;}
inline bool any_(const std::vector<bool> & v)
{
  for (bool b : v) {if (b) {return true;}}
  return false;
}
inline bool all_(const std::vector<bool> & v)
{
  for (bool b : v) {if (!b) {return false;}}
  return true;
}
template<class T, class... Ts> std::vector<T> listof(const T & x, const Ts &... xs) {return {x, xs...};}
template<class T> T front(const std::vector<T> & v) {return v[0];}

// positions from the front; `last` counts from the end (negative literals)
template<class T> T at(const std::vector<T> & v, int i) {return v[i];}
template<class T> T last(const std::vector<T> & v, int i) {return v[static_cast<int>(v.size()) - i];}
template<class T> T & ref(std::vector<T> & v, int i) {return v[i];}
template<class T> std::vector<T> slice(const std::vector<T> & v, int a, int b)
{
  const int n = v.size();
  const int lo = a < n ? a : n;
  const int hi = b < n ? b : n;
  std::vector<T> r;
  for (int i = lo; i < hi; i++) {r.push_back(v[i]);}
  return r;
}
template<class T> std::vector<T> slice_from(const std::vector<T> & v, int a) {return slice(v, a, static_cast<int>(v.size()));}

inline std::vector<int> range(int n)
{
  std::vector<int> r;
  for (int i = 0; i < n; i++) {r.push_back(i);}
  return r;
}
inline std::vector<int> range(int lo, int hi)
{
  std::vector<int> r;
  for (int i = lo; i < hi; i++) {r.push_back(i);}
  return r;
}
inline std::vector<int> range(int lo, int hi, int step)
{
  std::vector<int> r;
  for (int k = 0; k < (hi - lo + step - 1) / step; k++) {r.push_back(lo + k * step);}
  return r;
}
template<class T> std::vector<std::pair<int, T>> enumerate(const std::vector<T> & v)
{
  std::vector<std::pair<int, T>> r;
  for (int i = 0; i < static_cast<int>(v.size()); i++) {r.push_back(std::pair<int, T>(i, v[i]));}
  return r;
}
template<class T, class U> std::vector<std::pair<T, U>> zip(const std::vector<T> & v, const std::vector<U> & w)
{
  std::vector<std::pair<T, U>> r;
  const int n = v.size() < w.size() ? v.size() : w.size();
  for (int i = 0; i < n; i++) {r.push_back(std::pair<T, U>(v[i], w[i]));}
  return r;
}
template<int I, class T, class U> auto item(const std::pair<T, U> & p)
{
  if constexpr (I == 0) {return p.first;} else {return p.second;}
}
template<int I, class T> T item(const std::vector<T> & p) {return p[I];}

template<class T, class C, class F> auto comp(const std::vector<T> & v, C cond, F f)
{
  std::vector<std::decay_t<decltype(f(v[0]))>> r;
  for (const auto & x : v) {
    if (cond(x)) {r.push_back(f(x));}
  }
  return r;
}
template<class T, class C, class F> auto flatmap(const std::vector<T> & v, C cond, F f)
{
  std::decay_t<decltype(f(v[0]))> r;
  for (const auto & x : v) {
    if (cond(x)) {
      for (const auto & y : f(x)) {r.push_back(y);}
    }
  }
  return r;
}
template<class T, class K> std::vector<T> sorted(const std::vector<T> & v, K key)
{
  std::vector<T> r = v;
  std::stable_sort(r.begin(), r.end(), [&](const T & a, const T & b) {return key(a) < key(b);});
  return r;
}
template<class T> std::vector<T> sorted(const std::vector<T> & v)
{
  std::vector<T> r = v;
  std::stable_sort(r.begin(), r.end());
  return r;
}
template<class T, class U> bool contains(const std::vector<T> & v, const U & x)
{
  return std::find(v.begin(), v.end(), x) != v.end();
}
template<class T, class U> int index_(const std::vector<T> & v, const U & x)
{
  return static_cast<int>(std::find(v.begin(), v.end(), x) - v.begin());
}
template<class T, class U> void append_(std::vector<T> & v, const U & x) {v.push_back(x);}
template<class T> void extend_(std::vector<T> & v, const std::vector<T> & w)
{
  for (const auto & x : w) {v.push_back(x);}
}
inline std::string join_(const std::string & sep, const std::vector<std::string> & v)
{
  std::string r = "";
  for (int i = 0; i < static_cast<int>(v.size()); i++) {
    if (i > 0) {r = r + sep;}
    r = r + v[i];
  }
  return r;
}
struct Method {std::string name;};
inline Method method(const char * name) {return Method{name};}

namespace np {
enum Type {int8 = 1, uint8, int16, uint16, int32, uint32, float32, float64};
struct dtype
{
  int itemsize;
  explicit dtype(Type t)
  : itemsize(t == int8 || t == uint8 ? 1 : t == int16 || t == uint16 ? 2 : t == float64 ? 8 : 4) {}
};
}
namespace struct_ {
// library: values in the layout of the format <-> bytes
std::vector<double> unpack(const std::string & format, const std::vector<uint8_t> & bytes);
std::vector<uint8_t> pack(const std::string & format, const std::vector<double> & values);
int calcsize(const std::string & format);
}
namespace array_ {
template<class T> std::vector<T> array_(const std::string & code, const std::vector<T> & v) {return v;}
}
namespace std_msgs { namespace msg {
struct Header {int sec = 0; int nanosec = 0; std::string frame_id;};
}}
namespace sensor_msgs { namespace msg {
struct PointField
{
  std::string name; int offset = 0; int datatype = 0; int count = 0;
  static constexpr int INT8 = 1, UINT8 = 2, INT16 = 3, UINT16 = 4, INT32 = 5, UINT32 = 6, FLOAT32 = 7, FLOAT64 = 8;
};
struct PointCloud2
{
  std_msgs::msg::Header header; int height = 0; int width = 0; std::vector<PointField> fields;
  bool is_bigendian = false; int point_step = 0; int row_step = 0; std::vector<uint8_t> data; bool is_dense = false;
};
}}
namespace rclpy {
namespace qos {
enum class QoSReliabilityPolicy {SYSTEM_DEFAULT, RELIABLE, BEST_EFFORT};
enum class QoSHistoryPolicy {SYSTEM_DEFAULT, KEEP_LAST, KEEP_ALL};
enum class QoSDurabilityPolicy {SYSTEM_DEFAULT, TRANSIENT_LOCAL, VOLATILE};
struct QoSProfile
{
  QoSReliabilityPolicy reliability = QoSReliabilityPolicy::SYSTEM_DEFAULT;
  QoSHistoryPolicy history = QoSHistoryPolicy::SYSTEM_DEFAULT;
  QoSDurabilityPolicy durability = QoSDurabilityPolicy::SYSTEM_DEFAULT;
  int depth = 0;
};
}
namespace node {
struct Publisher
{
  std::string topic; qos::QoSProfile qos;
  void publish(const sensor_msgs::msg::PointCloud2 & cloud);
};
struct Subscription {std::string topic; std::string callback; qos::QoSProfile qos;};
struct Node
{
  std::string name;
  Node() {}
  explicit Node(const std::string & n) : name(n) {}
  template<class M>
  Subscription create_subscription(type<M>, const std::string & topic, Method m, const qos::QoSProfile & q)
  {
    return Subscription{topic, m.name, q};
  }
  template<class M>
  Subscription create_subscription(type<M>, const std::string & topic, Method m, int depth)
  {
    qos::QoSProfile q;
    q.depth = depth;
    return Subscription{topic, m.name, q};
  }
  template<class M> Publisher create_publisher(type<M>, const std::string & topic, const qos::QoSProfile & q)
  {
    return Publisher{topic, q};
  }
  template<class M> Publisher create_publisher(type<M>, const std::string & topic, int depth)
  {
    qos::QoSProfile q;
    q.depth = depth;
    return Publisher{topic, q};
  }
  void destroy_node() {}
};
}

void verif_init();
template<class A> void init(const A & args) {verif_init();}
inline void init() {verif_init();}
void verif_spin(const node::Node & node);
void shutdown();
template<class N> void spin(const N & node) {verif_spin(node);}
}
}  // namespace py
#endif
