// R01: the quaternion and rotation algebra every estimator is built on.
#include "verif.hpp"
#include "rotationlib/src/hat.cpp"
#include "rotationlib/src/quaternion.cpp"
#include "rotationlib/src/jacobian/quaternion.cpp"

namespace R01 {
using Q = Eigen::Quaterniond;
using V3 = Eigen::Vector3d;
using V4 = Eigen::Vector4d;

// the cross product matrix
V3 impl_hat(const V3 & v, const V3 & w) {return rotationlib::Hat(v) * w;}
V3 spec_hat(const V3 & v, const V3 & w)
{
  return V3(v(1) * w(2) - v(2) * w(1), v(2) * w(0) - v(0) * w(2), v(0) * w(1) - v(1) * w(0));
}

// Hamilton product of two quaternions in w, x, y, z order
V4 product(const V4 & a, const V4 & b)
{
  return V4(
    a(0) * b(0) - a(1) * b(1) - a(2) * b(2) - a(3) * b(3),
    a(0) * b(1) + a(1) * b(0) + a(2) * b(3) - a(3) * b(2),
    a(0) * b(2) - a(1) * b(3) + a(2) * b(0) + a(3) * b(1),
    a(0) * b(3) + a(1) * b(2) - a(2) * b(1) + a(3) * b(0));
}
V4 wxyz(const Q & q) {return V4(q.w(), q.x(), q.y(), q.z());}

V4 impl_to_wxyz(const Q & q) {return rotationlib::ToWXYZ(q);}
V4 spec_to_wxyz(const Q & q) {return V4(q.w(), q.x(), q.y(), q.z());}

V4 impl_from_wxyz(const V4 & v)
{
  const Q q = rotationlib::FromWXYZ(v);
  return V4(q.w(), q.x(), q.y(), q.z());
}
V4 spec_from_wxyz(const V4 & v) {return v;}

V4 impl_left_matrix(const Q & a, const Q & b)
{
  return rotationlib::LeftMultiplicationMatrix(a) * wxyz(b);
}
V4 spec_left_matrix(const Q & a, const Q & b) {return product(wxyz(a), wxyz(b));}

V4 impl_right_matrix(const Q & a, const Q & b)
{
  return rotationlib::RightMultiplicationMatrix(b) * wxyz(a);
}
V4 spec_right_matrix(const Q & a, const Q & b) {return product(wxyz(a), wxyz(b));}

V4 impl_rpy(double roll, double pitch, double yaw)
{
  return wxyz(rotationlib::RPYToQuaternionXYZ(roll, pitch, yaw));
}
V4 spec_rpy(double roll, double pitch, double yaw)
{
  const V4 z(std::cos(yaw / 2), 0, 0, std::sin(yaw / 2));
  const V4 y(std::cos(pitch / 2), 0, std::sin(pitch / 2), 0);
  const V4 x(std::cos(roll / 2), std::sin(roll / 2), 0, 0);
  return product(product(z, y), x);
}

// derivative of the rotated point q p q* with respect to (w, x, y, z)
Eigen::Matrix<double, 3, 4> impl_rotation_jacobian(const Q & q, const V3 & p)
{
  return rotationlib::DRpDq(q, p);
}
Eigen::Matrix<double, 3, 4> spec_rotation_jacobian(const Q & q, const V3 & p)
{
  const V4 qp = product(wxyz(q), V4(0, p(0), p(1), p(2)));
  const V4 r = product(qp, V4(q.w(), -q.x(), -q.y(), -q.z()));
  Eigen::Matrix<double, 3, 4> J;
  for (int i = 0; i < 3; i++) {
    J(i, 0) = __verif_derivative(r(i + 1), q.w());
    J(i, 1) = __verif_derivative(r(i + 1), q.x());
    J(i, 2) = __verif_derivative(r(i + 1), q.y());
    J(i, 3) = __verif_derivative(r(i + 1), q.z());
  }
  return J;
}
}  // namespace R01
