// Index of the j-th nearest row; what the library finds is its own matter.
#ifndef VERIF_NANOFLANN_HPP_
#define VERIF_NANOFLANN_HPP_
#include <Eigen/Core>
#include <cstdint>
#include <cstddef>
#include <functional>
namespace nanoflann {
struct metric_L2 {};
struct SearchParams { explicit SearchParams(int checks = 32) {} };
struct SearchParameters { SearchParameters() {} };
std::uint64_t verif_nearest(const Eigen::MatrixXd & m, const Eigen::VectorXd & query, std::size_t j);
double verif_distance(const Eigen::MatrixXd & m, const Eigen::VectorXd & query, std::size_t j);
template<typename D, typename I = std::uint64_t> class KNNResultSet
{
public:
  explicit KNNResultSet(std::size_t n) : n_(n), i_(nullptr), d_(nullptr) {}
  void init(I * i, D * d) {i_ = i; d_ = d;}
  std::size_t n_;
  I * i_;
  D * d_;
};
template<typename Matrix, int D = -1, typename Metric = metric_L2, bool rows = true>
struct KDTreeEigenMatrixAdaptor
{
  struct Index
  {
    const Matrix * m_;
    template<typename R> void findNeighbors(R & r, const double * q, const SearchParams &) const
    {
      const Eigen::VectorXd query = Eigen::VectorXd::Map(q, m_->cols());
      for (std::size_t j = 0; j < r.n_; j++) {
        r.i_[j] = verif_nearest(*m_, query, j);
        r.d_[j] = verif_distance(*m_, query, j);
      }
    }
  };
  KDTreeEigenMatrixAdaptor(std::size_t, const std::reference_wrapper<const Matrix> & m, int)
  : index(&index_) {index_.m_ = &m.get();}
  Index index_;
  Index * index;
};
}  // namespace nanoflann
#endif
