// X01, X04: block boundaries and curvature.
#include <cassert>
#include <cmath>
#include <numeric>
#include <stdexcept>
#include "verif.hpp"
#include "rclcpp/rclcpp.hpp"
#include "extraction/src/convolution.cpp"
#include "extraction/src/curvature.cpp"
#include "extraction/src/index_range.cpp"

using Reals = std::vector<double>;

namespace X01 {
struct Block {int begin, end;};
Block impl_block(int start, int end, int n, int j)
{
  const IndexRange r(start, end, n);
  const int b = r.Begin(j);
  return Block{b, r.End(j)};
}
Block spec_block(int start, int end, int n, int j)
{
  __verif_assume(0 <= start && 0 < n);
  if (end - start < n) {throw std::invalid_argument("");}
  if (j < 0 || j >= n) {throw std::out_of_range("");}
  // proportional boundaries; block j ends where block j + 1 begins
  return Block{(start * n + (end - start) * j) / n, (start * n + (end - start) * (j + 1)) / n};
}
int impl_begin(int start, int end, int n, int j) {return IndexRange(start, end, n).Begin(j);}
int spec_begin(int start, int end, int n, int j)
{
  __verif_assume(0 <= start && 0 < n);
  if (end - start < n) {throw std::invalid_argument("");}
  if (j < 0 || j >= n) {throw std::out_of_range("");}
  return (start * n + (end - start) * j) / n;
}
int impl_end(int start, int end, int n, int j) {return IndexRange(start, end, n).End(j);}
int spec_end(int start, int end, int n, int j)
{
  __verif_assume(0 <= start && 0 < n);
  if (end - start < n) {throw std::invalid_argument("");}
  if (j < 0 || j >= n) {throw std::out_of_range("");}
  return (start * n + (end - start) * (j + 1)) / n;
}
int impl_first(int start, int end, int n) {return IndexRange(start, end, n).Begin(0);}
int spec_first(int start, int end, int n)
{
  __verif_assume(0 <= start && 0 < n && end - start >= n);
  return start;
}
int impl_last(int start, int end, int n) {return IndexRange(start, end, n).End(n - 1);}
int spec_last(int start, int end, int n)
{
  __verif_assume(0 <= start && 0 < n && end - start >= n);
  return end;
}
int impl_adjacent(int start, int end, int n, int j) {return IndexRange(start, end, n).Begin(j + 1);}
int spec_adjacent(int start, int end, int n, int j)
{
  __verif_assume(0 <= start && 0 < n && end - start >= n && 0 <= j && j + 1 < n);
  return IndexRange(start, end, n).End(j);
}
int impl_blocks(int start, int end, int n) {return IndexRange(start, end, n).NBlocks();}
int spec_blocks(int start, int end, int n)
{
  if (end - start < n) {throw std::invalid_argument("");}
  return n;
}
Block impl_padded(int size, int n, int padding, int j)
{
  const PaddedIndexRange r(size, n, padding);
  const int b = r.Begin(j);
  return Block{b, r.End(j)};
}
Block spec_padded(int size, int n, int padding, int j)
{
  __verif_assume(0 <= padding && 0 < n && 0 <= j && j < n);
  const int start = padding;
  const int end = size - padding;
  if (end - start < n) {throw std::invalid_argument("");}
  return Block{(start * n + (end - start) * j) / n, (start * n + (end - start) * (j + 1)) / n};
}
}  // namespace X01

namespace X04 {
Reals impl_convolution(const Reals & x, const Reals & w) {return Convolution1D(x, w);}
Reals spec_convolution(const Reals & x, const Reals & w)
{
  __verif_assume(w.size() % 2 == 1);
  if (x.size() < w.size()) {throw std::invalid_argument("");}
  const int n = x.size();
  const int p = w.size() / 2;
  Reals r(n);
  for (int i = 0; i < n; i++) {
    double s = 0;
    if (i >= p && i < n - p) {
      for (int k = 0; k < static_cast<int>(w.size()); k++) {s += w[k] * x[i - p + k];}
    }
    r[i] = s;
  }
  return r;
}
double impl_inner(const Reals & a, const Reals & b) {return InnerProduct(a.begin(), a.end(), b.begin());}
double spec_inner(const Reals & a, const Reals & b)
{
  __verif_assume(a.size() <= b.size());
  double s = 0;
  for (size_t i = 0; i < a.size(); i++) {s += a[i] * b[i];}
  return s;
}
Reals impl_weight(int padding) {return MakeWeight(padding);}
Reals spec_weight(int padding)
{
  __verif_assume(padding > 0);
  Reals w(2 * padding + 1);
  for (int i = 0; i < 2 * padding + 1; i++) {w[i] = i == padding ? -2 * padding : 1;}
  return w;
}
Reals impl_curvature(const Reals & r, int padding) {return CalcCurvature(r, padding);}
// the squared sum of the differences to the neighbours, zero at the margins
Reals spec_curvature(const Reals & r, int padding)
{
  __verif_assume(padding > 0);
  const int n = r.size();
  if (n < 2 * padding + 1) {throw std::invalid_argument("");}
  Reals c(n);
  for (int i = 0; i < n; i++) {
    double s = 0;
    if (i >= padding && i < n - padding) {
      for (int k = -padding; k <= padding; k++) {s += r[i + k] - r[i];}
    }
    c[i] = s * s;
  }
  return c;
}
}  // namespace X04

