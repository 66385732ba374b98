//: mpc-types: construction, copies and storage of the MPC interface's types
#include "fbstab/fbstab_mpc.h"
#include <memory>
#include <type_traits>
#include <utility>
#include <vector>
using namespace fbstab;
using Eigen::MatrixXd;
using Eigen::VectorXd;
typedef FBstabMpc M;
static_assert(std::is_default_constructible<M::ProblemData>::value, "");
static_assert(std::is_copy_constructible<M::ProblemData>::value && std::is_copy_assignable<M::ProblemData>::value, "");
static_assert(std::is_move_constructible<M::ProblemData>::value, "");
static_assert(std::is_copy_constructible<M::Variable>::value && std::is_copy_assignable<M::Variable>::value, "");
static_assert(std::is_default_constructible<M::ProblemDataRef>::value, "");
static_assert(std::is_copy_constructible<M::ProblemDataRef>::value, "");
static_assert(std::is_copy_constructible<M::VariableRef>::value, "");
static_assert(!std::is_assignable<decltype(std::declval<M::ProblemDataRef&>().Q(0)(0, 0)), double>::value, "");
static_assert(!std::is_assignable<decltype(std::declval<M::ProblemDataRef&>().x0(0)), double>::value, "");
static_assert(std::is_assignable<decltype(std::declval<M::VariableRef&>().z(0)), double>::value, "");
static_assert(std::is_assignable<decltype(std::declval<M::VariableRef&>().l(0)), double>::value, "");
static_assert(std::is_assignable<decltype(std::declval<M::VariableRef&>().v(0)), double>::value, "");
static_assert(std::is_assignable<decltype(std::declval<M::VariableRef&>().y(0)), double>::value, "");
struct Controller {
  FBstabMpc solver;
  M::ProblemData qp;
  M::ProblemDataRef ref;
  M::Variable x;
  explicit Controller(const Eigen::Vector4d& s) : solver(s), x(s) {}
};
void go(const double* cmem, double* mem, int N, int nx, int nu, int nc) {
  std::unique_ptr<FBstabMpc> s(new FBstabMpc(N, nx, nu, nc));
  FBstabMpc s2(Eigen::Vector4d(N, nx, nu, nc));
  const Eigen::Vector4d size(N, nx, nu, nc);
  FBstabMpc s3(size);
  std::vector<M::ProblemData> many(3);
  M::ProblemData p;
  p.Q = MatrixSequence(N + 1, nx, nx);
  p.q = MatrixSequence(N + 1, nx);
  p.x0 = VectorXd::Zero(nx);
  many[0] = p;
  many.push_back(std::move(p));
  M::ProblemDataRef r;
  r.Q = MapMatrixSequence(cmem, N + 1, nx, nx);
  r.Q = MapMatrixSequence(mem, N + 1, nx, nx);
  r.R = many[0].R;
  VectorXd v(nx);
  const VectorXd cv(nx);
  Eigen::Map<VectorXd> m(mem, nx);
  Eigen::Map<const VectorXd> cm(cmem, nx);
  Eigen::Vector2d fixed;
  r.SetX0(v);
  r.SetX0(cv);
  r.SetX0(m);
  r.SetX0(cm);
  r.SetX0(fixed);
  r.SetX0(v.head(2));
  const M::ProblemData& o = many[0];
  M::ProblemDataRef r2(&o.Q, &o.R, &o.S, &o.q, &o.r, &o.A, &o.B, &o.c, &o.E, &o.L, &o.d, &o.x0);
  const M::ProblemDataRef r3(r2);
  M::Variable x(N, nx, nu, nc), x2(size), x3 = x;
  x3 = x2;
  M::VariableRef w(Eigen::Map<VectorXd>(mem, 1), m, m, m);
  w.fill(1.0);
  v = w.z + r3.x0 + r3.q(0);
  Controller c(size);
}
