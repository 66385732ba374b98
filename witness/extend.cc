// The core algorithm with components of a user's own, written from
// abstract_components.h and nothing else. x.z(), l(), v(), y() are the vectors
// of a variable.
#include "fbstab/components/abstract_components.h"
#include "fbstab/fbstab_algorithm.h"
#include "tools/output_stream.h"
#include "stream.h"
#include <vector>
namespace user {
using Eigen::VectorXd;
using fbstab::Data;
struct MyData : Data {
  void gemvH(const VectorXd&, double, double, VectorXd*) const override {}
  void gemvA(const VectorXd&, double, double, VectorXd*) const override {}
  void gemvG(const VectorXd&, double, double, VectorXd*) const override {}
  void gemvAT(const VectorXd&, double, double, VectorXd*) const override {}
  void gemvGT(const VectorXd&, double, double, VectorXd*) const override {}
  void axpyf(double, VectorXd*) const override {}
  void axpyh(double, VectorXd*) const override {}
  void axpyb(double, VectorXd*) const override {}
  double ForcingNorm() const override { return 0; }
};
// neither copies nor default construction are asked of a component
struct Plain {
  explicit Plain(int) {}
  Plain(const Plain&) = delete;
  void operator=(const Plain&) = delete;
};
struct MyVariable : fbstab::Variable<MyVariable>, Plain {
  using Plain::Plain;
  void LinkData(const Data*) override {}
  void Fill(double) override {}
  void InitializeConstraintMargin() override {}
  void axpy(double, const MyVariable&) override {}
  void Copy(const MyVariable&) override {}
  void ProjectDuals() override {}
  double Norm() const override { return 0; }
  VectorXd& z() { return q[0]; }
  VectorXd& l() { return q[1]; }
  VectorXd& v() { return q[2]; }
  VectorXd& y() { return q[3]; }
  const VectorXd& z() const { return q[0]; }
  const VectorXd& l() const { return q[1]; }
  const VectorXd& v() const { return q[2]; }
  const VectorXd& y() const { return q[3]; }
  VectorXd q[4];
};
struct MyResidual : fbstab::Residual<MyResidual, MyVariable>, Plain {
  using Plain::Plain;
  void SetAlpha(double) override {}
  void LinkData(const Data*) override {}
  void Fill(double) override {}
  void Negate() override {}
  double Norm() const override { return 0; }
  double Merit() const override { return 0; }
  void InnerResidual(const MyVariable&, const MyVariable&, double) override {}
  void NaturalResidual(const MyVariable&) override {}
  void PenalizedNaturalResidual(const MyVariable&) override {}
  double z_norm() const override { return 0; }
  double l_norm() const override { return 0; }
  double v_norm() const override { return 0; }
};
struct MyFeasibility : fbstab::FeasibilityResidual<MyVariable>, Plain {
  using Plain::Plain;
  void LinkData(const Data*) override {}
  FeasibilityStatus CheckFeasibility(const MyVariable&, double) override { return FeasibilityStatus::FEASIBLE; }
};
template <class D>
struct MySolver : fbstab::LinearSolver<MyVariable, MyResidual, D>, Plain {
  using Plain::Plain;
  void SetAlpha(double) override {}
  void LinkData(const D*) override {}
  bool Initialize(const MyVariable&, const MyVariable&, double) override { return true; }
  bool Solve(const MyResidual&, MyVariable*) const override { return true; }
};
#if PART == 1
typedef MySolver<MyData> Own;    // a solver for one class of problems
#else
typedef MySolver<Data> Own;      // a solver for any
#endif
typedef fbstab::FBstabAlgorithm<MyVariable, MyResidual, Own, MyFeasibility> Algorithm;
template <class Stream, class Vector>
void go(const MyData& d, Vector* z, const Stream& os) {
  MyVariable x1(0), x2(0), x3(0), x4(0);
  MyResidual r1(0), r2(0);
  Own s(0);
  MyFeasibility f(0);
  Algorithm a(&x1, &x2, &x3, &x4, &r1, &r2, &s, &f);
  fbstab::AlgorithmParameters p = a.CurrentParameters();
  a.UpdateParameters(&p);
  fbstab::SolverOut o = a.Solve(d, z, z, z, z, os);
  (void)o;
}
void all(const MyData& d, VectorXd* z, Eigen::Map<VectorXd>* m) {
  go(d, z, fbstab::StandardOutput());
  go(d, m, Recorder());
  go(d, m, HiddenRecorder());
}
}  // namespace user
#if PART == 1
int main() {
  user::MyData d;
  Eigen::VectorXd z(1);
  Eigen::Map<Eigen::VectorXd> m(z.data(), 1);
  user::all(d, &z, &m);
}
#endif
