//: sequence: reading, writing, copying and mapping matrix sequences
#include "tools/matrix_sequence.h"
#include <map>
#include <type_traits>
#include <utility>
#include <vector>
using namespace fbstab;
using Eigen::MatrixXd;
using Eigen::VectorXd;
typedef MatrixSequence S;
typedef MapMatrixSequence R;
static_assert(std::is_default_constructible<S>::value && std::is_default_constructible<R>::value, "");
static_assert(std::is_copy_constructible<S>::value && std::is_copy_assignable<S>::value, "");
static_assert(std::is_move_constructible<S>::value && std::is_move_assignable<S>::value, "");
static_assert(std::is_copy_constructible<R>::value && std::is_copy_assignable<R>::value, "");
static_assert(std::is_convertible<const S&, R>::value, "a sequence can be given where a map is taken");
static_assert(std::is_assignable<decltype(std::declval<S&>()(0)(0, 0)), double>::value, "");
static_assert(!std::is_assignable<decltype(std::declval<const S&>()(0)(0, 0)), double>::value, "a constant sequence is not writable");
static_assert(!std::is_assignable<decltype(std::declval<R&>()(0)(0, 0)), double>::value, "a map is not writable");
static_assert(!std::is_assignable<decltype(std::declval<const R&>()(0)(0, 0)), double>::value, "a map is not writable");
static_assert(!std::is_assignable<decltype(*std::declval<R&>().data()), double>::value, "a map is not writable");
static_assert(!std::is_assignable<decltype(*std::declval<const S&>().data()), double>::value, "a constant sequence is not writable");
double go(const double* mem, const S& c, const R& m) {
  S s(3, 2, 2), col(3, 2);
  s(0) = MatrixXd::Identity(2, 2);
  s(1) << 1, 2, 3, 4;
  s(2).setZero();
  s(2)(1, 0) = 4.0;
  s(1) = 2.0 * c(0) + m(1);
  s(1) += s(0) * s(2).transpose();
  MatrixXd M = c(0), M2 = m(0);
  VectorXd v = c(0) * VectorXd::Ones(2);
  S t(s), u = std::move(t);
  t = u;
  std::vector<S> many(4, s);
  std::map<int, S> named;
  named[3] = s;
  R a, b(mem, 3, 2, 2), d(s), e = b;
  a = d;
  a = s;
  std::vector<R> maps(2);
  maps[0] = s;
  double* w = s.data();
  const double* x = c.data();
  const double* y = m.data();
  const int n = c.rows() + c.cols() + c.length() + c.size() + m.rows() + m.cols() + m.length() + m.size();
  return w[0] + x[0] + y[0] + n + v(0) + M(0, 0) + M2(0, 0) + e(0)(0, 0) + many[0](0)(0, 0);
}
