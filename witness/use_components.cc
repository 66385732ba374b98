//: components: the problem data classes with owned and mapped arguments
#include "fbstab/components/dense_data.h"
#include "fbstab/components/mpc_data.h"
#include "fbstab/components/full_variable.h"
#include "fbstab/components/full_residual.h"
#include "fbstab/components/full_feasibility.h"
#include "fbstab/components/dense_cholesky_solver.h"
#include "fbstab/components/riccati_linear_solver.h"
#include "tools/matrix_sequence.h"
using namespace fbstab;
using Eigen::MatrixXd;
using Eigen::VectorXd;
void use(const Data& d, VectorXd* y) {
  d.gemvH(*y, 1.0, 0.0, y);
  d.gemvA(*y, 1.0, 0.0, y);
  d.gemvG(*y, 1.0, 0.0, y);
  d.gemvAT(*y, 1.0, 0.0, y);
  d.gemvGT(*y, 1.0, 0.0, y);
  d.axpyf(1.0, y);
  d.axpyh(1.0, y);
  d.axpyb(1.0, y);
  d.ForcingNorm();
}
void go(const MatrixXd& H, const VectorXd& f, const Eigen::Map<const MatrixXd>& mH, const Eigen::Map<const VectorXd>& mf,
        const MatrixSequence& s, const MapMatrixSequence& m, VectorXd* y) {
  DenseData d(&H, &f, &H, &f, &H, &f), md(&mH, &mf, &mH, &mf, &mH, &mf);
  MpcData a(&s, &s, &s, &s, &s, &s, &s, &s, &s, &s, &s, &f), b(&m, &m, &m, &m, &m, &m, &m, &m, &m, &m, &m, &mf);
  use(d, y);
  use(md, y);
  use(a, y);
  use(b, y);
  FullVariable x(1, 1, 1), w(1, 1, 1);
  FullResidual r(1, 1, 1);
  FullFeasibility c(1, 1, 1);
  x.LinkData(&d);
  r.LinkData(&d);
  c.LinkData(&d);
  x.Fill(0.0);
  w.Copy(x);
  x.InitializeConstraintMargin();
  x.axpy(1.0, w);
  x.ProjectDuals();
  r.SetAlpha(0.9);
  r.Fill(0.0);
  r.Negate();
  r.InnerResidual(x, w, 1.0);
  r.NaturalResidual(x);
  r.PenalizedNaturalResidual(x);
  const double n = r.Norm() + r.Merit() + r.z_norm() + r.l_norm() + r.v_norm() + x.Norm();
  c.CheckFeasibility(x, n) == FullFeasibility::FeasibilityStatus::BOTH;
  DenseCholeskySolver l(1, 1, 1);
  RiccatiLinearSolver t(1, 1, 1, 1);
  l.SetAlpha(0.9);
  t.SetAlpha(0.9);
  l.LinkData(&d);
  t.LinkData(&a);
  bool ok = l.Initialize(x, w, 1.0) && t.Initialize(x, w, 1.0);
  ok = l.Solve(r, &x) && t.Solve(r, &w) && ok;
}
