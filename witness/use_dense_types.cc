//: dense-types: construction, copies and storage of the dense interface's types
#include "fbstab/fbstab_dense.h"
#include <memory>
#include <type_traits>
#include <utility>
#include <vector>
using namespace fbstab;
using Eigen::MatrixXd;
using Eigen::VectorXd;
typedef FBstabDense D;
static_assert(std::is_default_constructible<D::ProblemData>::value, "");
static_assert(std::is_copy_constructible<D::ProblemData>::value && std::is_copy_assignable<D::ProblemData>::value, "");
static_assert(std::is_move_constructible<D::ProblemData>::value, "");
static_assert(std::is_copy_constructible<D::Variable>::value && std::is_copy_assignable<D::Variable>::value, "");
static_assert(std::is_copy_constructible<D::ProblemDataRef>::value, "");
static_assert(std::is_copy_constructible<D::VariableRef>::value, "");
static_assert(!std::is_default_constructible<D::ProblemDataRef>::value, "a reference must refer to something");
static_assert(!std::is_default_constructible<D::VariableRef>::value, "a reference must refer to something");
// the data a reference refers to is not writable through it
static_assert(!std::is_assignable<decltype(std::declval<D::ProblemDataRef&>().H(0, 0)), double>::value, "");
static_assert(!std::is_assignable<decltype(std::declval<D::ProblemDataRef&>().G(0, 0)), double>::value, "");
static_assert(!std::is_assignable<decltype(std::declval<D::ProblemDataRef&>().A(0, 0)), double>::value, "");
static_assert(!std::is_assignable<decltype(std::declval<D::ProblemDataRef&>().f(0)), double>::value, "");
static_assert(!std::is_assignable<decltype(std::declval<D::ProblemDataRef&>().h(0)), double>::value, "");
static_assert(!std::is_assignable<decltype(std::declval<D::ProblemDataRef&>().b(0)), double>::value, "");
// the solution is
static_assert(std::is_assignable<decltype(std::declval<D::VariableRef&>().z(0)), double>::value, "");
static_assert(std::is_assignable<decltype(std::declval<D::VariableRef&>().l(0)), double>::value, "");
static_assert(std::is_assignable<decltype(std::declval<D::VariableRef&>().v(0)), double>::value, "");
static_assert(std::is_assignable<decltype(std::declval<D::VariableRef&>().y(0)), double>::value, "");
struct Controller {
  FBstabDense solver;
  D::ProblemData qp;
  D::Variable x;
  Controller(int n, int m) : solver(n, 0, m), qp(n, 0, m), x(n, 0, m) {}
};
void go(double* mem, int n, int m, int l) {
  std::unique_ptr<FBstabDense> s(new FBstabDense(n, l, m));
  std::vector<D::ProblemData> many(3);
  D::ProblemData p;
  p.H = MatrixXd::Identity(n, n);
  p.G.resize(l, n);
  p.A.setZero(m, n);
  p.f = VectorXd::Ones(n);
  p.h = p.b = VectorXd::Zero(m);
  many[0] = p;
  many.push_back(std::move(p));
  Eigen::Map<MatrixXd> H(mem, n, n), G(mem, l, n), A(mem, m, n);
  Eigen::Map<VectorXd> f(mem, n), h(mem, l), b(mem, m), y(mem, m);
  D::ProblemDataRef r(&H, &f, &G, &h, &A, &b);
  const D::ProblemDataRef r2(r);
  D::Variable x(n, l, m), x2 = x;
  x2 = x;
  VectorXd z = x.z + x2.z, ll = x.l, v = x.v, yy = x.y;
  D::VariableRef w(&f, &h, &b, &y);
  w.fill(0.0);
  z = w.z + r2.f;
  Controller c(n, m);
}
