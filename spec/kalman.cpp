// K01, K02: the Kalman filter and the time-delay Kalman filter.
#include <cassert>
#include <stdexcept>
#include "verif.hpp"
#include "kalman_filter/src/kalman_filter.cpp"
#include "kalman_filter/src/time_delay_kalman_filter.cpp"

using M = Eigen::MatrixXd;
using V = Eigen::VectorXd;

inline bool Finite(const M & m)
{
  for (int i = 0; i < m.rows(); i++) {
    for (int j = 0; j < m.cols(); j++) {
      if (std::isnan(m(i, j)) || std::isinf(m(i, j))) {return false;}
    }
  }
  return true;
}

namespace K01 {
void impl_init(KalmanFilter & f, const V & x, const M & P0) {f.init(x, P0);}
void spec_init(KalmanFilter & f, const V & x, const M & P0)
{
  __verif_assume(x.size() != 0 && P0.size() != 0);
  f.x_ = x;
  f.P_ = P0;
}

double impl_element(const KalmanFilter & f, unsigned int i) {return f.getXelement(i);}
double spec_element(const KalmanFilter & f, unsigned int i) {return f.x_(i);}

struct Made {V x; M P, A, B, C, Q, R;};
Made impl_construct(const V & x, const M & A, const M & B, const M & C, const M & Q, const M & R, const M & P)
{
  const KalmanFilter f(x, A, B, C, Q, R, P);
  return Made{f.x_, f.P_, f.A_, f.B_, f.C_, f.Q_, f.R_};
}
Made spec_construct(const V & x, const M & A, const M & B, const M & C, const M & Q, const M & R, const M & P)
{
  __verif_assume(x.size() != 0 && P.size() != 0 && A.size() != 0 && B.size() != 0 &&
    C.size() != 0 && Q.size() != 0 && R.size() != 0);
  return Made{x, P, A, B, C, Q, R};
}

void impl_predict(KalmanFilter & f, const V & u, const M & A, const M & B, const M & Q)
{
  f.predict(u, A, B, Q);
}
void assume_predict(const KalmanFilter & f, const V & u, const M & A, const M & B, const M & Q)
{
  __verif_assume(A.rows() == A.cols() && A.cols() == f.x_.rows());
  __verif_assume(f.P_.rows() == A.cols() && f.P_.cols() == A.cols());
  __verif_assume(B.rows() == A.rows() && B.cols() == u.rows());
  __verif_assume(Q.rows() == A.rows() && Q.cols() == A.rows());
}
void spec_predict(KalmanFilter & f, const V & u, const M & A, const M & B, const M & Q)
{
  assume_predict(f, u, A, B, Q);
  const V x = A * f.x_ + B * u;
  const M P = A * f.P_ * A.transpose() + Q;
  f.x_ = x;
  f.P_ = P;
}

void impl_predict_default(KalmanFilter & f, const V & u) {f.predict(u);}
void spec_predict_default(KalmanFilter & f, const V & u)
{
  assume_predict(f, u, f.A_, f.B_, f.Q_);
  const V x = f.A_ * f.x_ + f.B_ * u;
  const M P = f.A_ * f.P_ * f.A_.transpose() + f.Q_;
  f.x_ = x;
  f.P_ = P;
}

void impl_update(KalmanFilter & f, const V & y) {f.update(y);}
void spec_update(KalmanFilter & f, const V & y)
{
  __verif_assume(f.C_.cols() == f.x_.rows() && f.C_.rows() == y.rows());
  __verif_assume(f.P_.rows() == f.x_.rows() && f.P_.cols() == f.x_.rows());
  __verif_assume(f.R_.rows() == y.rows() && f.R_.cols() == y.rows());
  const M K = f.P_ * f.C_.transpose() * (f.C_ * f.P_ * f.C_.transpose() + f.R_).inverse();
  if (!Finite(K)) {throw std::invalid_argument("gain");}
  const V x = f.x_ + K * (y - f.C_ * f.x_);
  const M P = f.P_ - K * f.C_ * f.P_;
  f.x_ = x;
  f.P_ = P;
}
}  // namespace K01

namespace K02 {
void shape(const TimeDelayKalmanFilter & f)
{
  const int n = f.dim_x_ * f.max_delay_step_;
  __verif_assume(f.dim_x_ > 0 && f.max_delay_step_ > 0);
  __verif_assume(f.x_.rows() == n && f.P_.rows() == n && f.P_.cols() == n);
}

struct Made {V x; M P; int max_delay_step; int dim;};
Made impl_construct(const V & x, const M & P, int n)
{
  const TimeDelayKalmanFilter f(x, P, n);
  return Made{f.x_, f.P_, f.max_delay_step_, f.dim_x_};
}
Made spec_construct(const V & x, const M & P, int n)
{
  __verif_assume(n > 0 && x.size() > 0 && P.rows() == x.size() && P.cols() == x.size());
  const int d = x.size();
  V X(n * d);
  for (int i = 0; i < n * d; i++) {X(i) = x(i % d);}
  M PP(n * d, n * d);
  for (int i = 0; i < n * d; i++) {
    for (int j = 0; j < n * d; j++) {
      PP(i, j) = i / d == j / d ? P(i % d, j % d) : 0.;
    }
  }
  return Made{X, PP, n, d};
}

V impl_latest_x(const TimeDelayKalmanFilter & f) {return f.getLatestX();}
V spec_latest_x(const TimeDelayKalmanFilter & f)
{
  shape(f);
  V x(f.dim_x_);
  for (int i = 0; i < f.dim_x_; i++) {x(i) = f.x_(i);}
  return x;
}
M impl_latest_p(const TimeDelayKalmanFilter & f) {return f.getLatestP();}
M spec_latest_p(const TimeDelayKalmanFilter & f)
{
  shape(f);
  M P(f.dim_x_, f.dim_x_);
  for (int i = 0; i < f.dim_x_; i++) {
    for (int j = 0; j < f.dim_x_; j++) {P(i, j) = f.P_(i, j);}
  }
  return P;
}
V impl_delayed_x(const TimeDelayKalmanFilter & f, int step) {return f.getX(step);}
V spec_delayed_x(const TimeDelayKalmanFilter & f, int step)
{
  shape(f);
  __verif_assume(0 <= step && step < f.max_delay_step_);
  V x(f.dim_x_);
  for (int i = 0; i < f.dim_x_; i++) {x(i) = f.x_(step * f.dim_x_ + i);}
  return x;
}

// the window shifts by one step: the newest block is the prediction, the oldest one is dropped
void impl_predict(TimeDelayKalmanFilter & f, const V & x_next, const M & A, const M & Q)
{
  f.predict(x_next, A, Q);
}
void spec_predict(TimeDelayKalmanFilter & f, const V & x_next, const M & A, const M & Q)
{
  shape(f);
  const int d = f.dim_x_;
  const int n = d * f.max_delay_step_;
  __verif_assume(x_next.size() == d && A.rows() == d && A.cols() == d && Q.rows() == d && Q.cols() == d);
  V x(n);
  for (int i = 0; i < n; i++) {x(i) = i < d ? x_next(i) : f.x_(i - d);}
  // P' = F P F^T + blockdiag(Q, 0) with F = [[A, 0], [I, 0]]
  M P(n, n);
  const M ABA = A * f.P_.block(0, 0, d, d) * A.transpose() + Q;
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < n; j++) {
      double v = 0;
      if (i < d && j < d) {
        v = ABA(i, j);
      } else if (i < d) {
        for (int k = 0; k < d; k++) {v += A(i, k) * f.P_(k, j - d);}
      } else if (j < d) {
        for (int k = 0; k < d; k++) {v += f.P_(i - d, k) * A(j, k);}
      } else {
        v = f.P_(i - d, j - d);
      }
      P(i, j) = v;
    }
  }
  f.x_ = x;
  f.P_ = P;
}

// the update of the delayed block: C applies to the block of the delay step only
void impl_update(TimeDelayKalmanFilter & f, const V & y, const M & C, const M & R, int step)
{
  f.update(y, C, R, step);
}
void spec_update(TimeDelayKalmanFilter & f, const V & y, const M & C, const M & R, int step)
{
  shape(f);
  const int d = f.dim_x_;
  const int n = d * f.max_delay_step_;
  const int h = y.size();
  __verif_assume(step >= 0 && h > 0 && C.rows() == h && C.cols() == d && R.rows() == h && R.cols() == h);
  if (step >= f.max_delay_step_) {throw std::invalid_argument("delay");}
  M D(h, n);
  for (int i = 0; i < h; i++) {
    for (int j = 0; j < n; j++) {
      D(i, j) = j >= step * d && j < step * d + d ? C(i, j - step * d) : 0.;
    }
  }
  const M K = f.P_ * D.transpose() * (D * f.P_ * D.transpose() + R).inverse();
  if (!Finite(K)) {throw std::invalid_argument("gain");}
  const V x = f.x_ + K * (y - D * f.x_);
  const M P = f.P_ - K * D * f.P_;
  f.x_ = x;
  f.P_ = P;
}
}  // namespace K02
