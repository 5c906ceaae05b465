// P01: conversion of raw point clouds to the record layout of the extraction.
// python module: point_type_converter/point_type_converter/convert.py as convert
#include "verif.hpp"
#include "py.hpp"
#include "convert.inc"

namespace P01 {
using Cloud = py::sensor_msgs::msg::PointCloud2;
using Field = py::sensor_msgs::msg::PointField;
using Fields = std::vector<Field>;
using Values = std::vector<double>;
using Points = std::vector<Values>;
using Bytes = std::vector<uint8_t>;

std::string character(int datatype)
{
  return datatype == Field::INT8 ? "b" : datatype == Field::UINT8 ? "B" :
         datatype == Field::INT16 ? "h" : datatype == Field::UINT16 ? "H" :
         datatype == Field::INT32 ? "i" : datatype == Field::UINT32 ? "I" :
         datatype == Field::FLOAT32 ? "f" : "d";
}
int size_of(int datatype)
{
  return datatype <= Field::UINT8 ? 1 : datatype <= Field::UINT16 ? 2 : datatype <= Field::FLOAT32 ? 4 : 8;
}
std::string impl_code(int datatype) {return convert::get_format_character(datatype);}
std::string spec_code(int datatype)
{
  __verif_assume(1 <= datatype && datatype <= 8);
  return character(datatype);
}
int impl_size(int datatype) {return convert::data_size(convert::get_datatype(datatype));}
int spec_size(int datatype)
{
  __verif_assume(1 <= datatype && datatype <= 8);
  return size_of(datatype);
}
// values of a point at their offsets, unnamed bytes skipped
std::string impl_record(const Fields & fields, int point_step) {return convert::create_point_format(fields, point_step);}
std::string spec_record(const Fields & fields, int point_step)
{
  __verif_opaque("convert::get_format_character");
  __verif_opaque("convert::get_datatype");
  __verif_opaque("convert::data_size");
  std::string format = "";
  int end = 0;
  for (const Field & f : fields) {
    if (f.offset > end) {
      format = format + py::times("x", f.offset - end);
      end = f.offset;
    }
    format = format + convert::get_format_character(f.datatype);
    end = end + convert::data_size(convert::get_datatype(f.datatype));
  }
  if (end < point_step) {
    format = format + py::times("x", point_step - end);
  }
  return format;
}
std::string impl_records(const Fields & fields, int n, int point_step, bool big)
{
  return convert::create_points_format(fields, n, point_step, big);
}
std::string spec_records(const Fields & fields, int n, int point_step, bool big)
{
  __verif_opaque("convert::create_point_format");
  return std::string(big ? ">" : "<") + py::times(convert::create_point_format(fields, point_step), n);
}
bool impl_nonzero(const Values & point) {return convert::nonzero(point);}
bool spec_nonzero(const Values & point) {return point[0] != 0 || point[1] != 0 || point[2] != 0;}
Points impl_split(const Values & values, int n) {return convert::split(values, n);}
Points spec_split(const Values & values, int n)
{
  __verif_assume(n > 0);
  Points points;
  const int size = values.size();
  for (int j = 0; j < (size + n - 1) / n; j++) {points.push_back(py::slice(values, j * n, j * n + n));}
  return points;
}
Points impl_select(const Points & points, const Fields & in, const Fields & out)
{
  return convert::filter_point_data(points, in, out);
}
Points spec_select(const Points & points, const Fields & in, const Fields & out)
{
  Points selected;
  for (const Values & point : points) {
    Values row;
    for (int i = 0; i < static_cast<int>(in.size()); i++) {
      bool wanted = false;
      for (const Field & f : out) {wanted = wanted || f.name == in[i].name;}
      if (wanted) {row.push_back(point[i]);}
    }
    selected.push_back(row);
  }
  return selected;
}
Field field(const std::string & name, int offset, int datatype)
{
  Field f;
  f.name = name;
  f.offset = offset;
  f.datatype = datatype;
  f.count = 1;
  return f;
}
Fields layout()
{
  return {
    field("x", 0, Field::FLOAT32), field("y", 4, Field::FLOAT32), field("z", 8, Field::FLOAT32),
    field("padding", 12, Field::FLOAT32), field("intensity", 16, Field::FLOAT32), field("ring", 20, Field::UINT16)};
}
Fields impl_layout() {return convert::make_fields();}
Fields spec_layout() {return layout();}
Points impl_unpack(const Bytes & data, const Fields & fields, int point_step, bool big)
{
  return convert::unpack_point_bytes(data, fields, point_step, big);
}
Points spec_unpack(const Bytes & data, const Fields & fields, int point_step, bool big)
{
  __verif_opaque("convert::create_points_format");
  __verif_opaque("convert::split");
  if (static_cast<int>(data.size()) % point_step != 0) {throw py::AssertionError();}
  const int n = static_cast<int>(data.size()) / point_step;
  return convert::split(
    py::struct_::unpack(convert::create_points_format(fields, n, point_step, big), data), static_cast<int>(fields.size()));
}
Bytes impl_pack(const Points & points, const Fields & fields, int point_step, bool big)
{
  return convert::pack_point_data(points, fields, point_step, big);
}
Bytes spec_pack(const Points & points, const Fields & fields, int point_step, bool big)
{
  __verif_opaque("convert::create_points_format");
  Values all;
  for (const Values & point : points) {
    for (const double v : point) {all.push_back(v);}
  }
  const int n = points.size();
  return py::struct_::pack(convert::create_points_format(fields, n, point_step, big), all);
}
// what is left in the received message afterwards does not matter
void impl_convert(convert::PointTypeConverter & node, const Cloud & received)
{
  Cloud cloud = received;
  node.callback(cloud);
}
void spec_convert(convert::PointTypeConverter & node, const Cloud & received)
{
  Cloud cloud = received;
  __verif_opaque("convert::unpack_point_bytes");
  __verif_opaque("convert::pack_point_data");
  __verif_opaque("convert::filter_point_data");
  cloud.fields.push_back(field("padding", 12, Field::FLOAT32));
  Fields fields = cloud.fields;
  std::stable_sort(fields.begin(), fields.end(), [](const Field & a, const Field & b) {return a.offset < b.offset;});
  Points points;
  for (const Values & point : convert::unpack_point_bytes(cloud.data, fields, cloud.point_step, cloud.is_bigendian)) {
    if (spec_nonzero(point)) {points.push_back(point);}
  }
  const Points kept = convert::filter_point_data(points, fields, layout());
  Cloud out;
  out.header = cloud.header;
  out.height = 1;
  out.width = kept.size();
  out.fields = layout();
  out.is_bigendian = false;
  out.point_step = 32;
  out.row_step = 32 * out.width;
  out.data = convert::pack_point_data(kept, layout(), 32, false);
  out.is_dense = true;
  node.publisher.publish(out);
}
struct Setup {std::string name, input, callback, output; py::rclpy::qos::QoSProfile in, out;};
Setup impl_setup()
{
  convert::PointTypeConverter node;
  Setup s;
  s.name = node.name;
  s.input = node.subscription.topic;
  s.callback = node.subscription.callback;
  s.in = node.subscription.qos;
  s.output = node.publisher.topic;
  s.out = node.publisher.qos;
  return s;
}
Setup spec_setup()
{
  using namespace py::rclpy::qos;
  Setup s;
  s.name = "point_type_converter";
  s.input = "/points_raw";
  s.callback = "callback";
  s.in.reliability = QoSReliabilityPolicy::BEST_EFFORT;
  s.in.history = QoSHistoryPolicy::KEEP_ALL;
  s.output = "/points_converted";
  s.out.reliability = QoSReliabilityPolicy::RELIABLE;
  s.out.history = QoSHistoryPolicy::KEEP_ALL;
  return s;
}
void impl_program() {convert::main_();}
void spec_program()
{
  py::rclpy::verif_init();
  convert::PointTypeConverter node;
  py::rclpy::verif_spin(node);
  py::rclpy::shutdown();
}
}  // namespace P01
