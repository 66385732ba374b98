"""Behaviour-preserving rewrites of further shapes."""
from refactors import rf
from edits import *
from edits import C
from refactors2 import ALG, ALG_H, FR, FV, FF, DS, RS, MD, DD, SQ, UT, HELP, T4, A4, DECL
MPC = 'fbstab/fbstab_mpc.h'; MPCC = 'fbstab/fbstab_mpc.cc'; DEN = 'fbstab/fbstab_dense.h'; DENC = 'fbstab/fbstab_dense.cc'
DSH = C + 'dense_cholesky_solver.h'; RSH = C + 'riccati_linear_solver.h'; FRH = C + 'full_residual.h'; FFH = C + 'full_feasibility.h'
ITER = 'PrintIterLine(prox_iters_, newton_iters_, *rk_, *ri_, inner_tol, os);\n'
# ------------------------------------------------------------ algorithm
rf('alg3-swap-iterates', (ALG, '    // x(k+1) = x(i)\n    xk_->Copy(*xi_);\n', '    // x(k+1) = x(i)\n    std::swap(xk_, xi_);\n'))
rf('alg3-next-tolerance',
   (ALG_H, DECL, '  double NextTolerance(double itol, double outer) const {\n    const double lower = opts_.inner_tol_min;\n    return tools::saturate(itol * opts_.delta, lower, std::max(outer, lower));\n  }\n\n' + DECL),
   (ALG, 'inner_tol = tools::saturate(inner_tol * opts_.delta, opts_.inner_tol_min,\n                                std::max(Ek, opts_.inner_tol_min));', 'inner_tol = NextTolerance(inner_tol, Ek);'))
rf('alg3-sigma-direct', (ALG, '  const double sigma = opts_.sigma0;\n', ''), (ALG, 'SolveProximalSubproblem(xi_, xk_, inner_tol, sigma, Ek, os);', 'SolveProximalSubproblem(xi_, xk_, inner_tol, opts_.sigma0, Ek, os);'))
rf('alg3-step-norm-local', (ALG, '    if (Ek <= combo_tol_ || dx_->Norm() <= opts_.stall_tol) {', '    const double step = dx_->Norm();\n    const bool converged = Ek <= combo_tol_;\n    const bool stalled = step <= opts_.stall_tol;\n    if (converged || stalled) {'))
rf('alg3-print-hoisted', (ALG, '    if (Ek <= combo_tol_ || dx_->Norm() <= opts_.stall_tol) {\n      ' + ITER, '    ' + ITER + '    if (Ek <= combo_tol_ || dx_->Norm() <= opts_.stall_tol) {\n'),
   (ALG, '      PrintDetailedHeader(prox_iters_, newton_iters_, *rk_, os);\n      ' + ITER, '      PrintDetailedHeader(prox_iters_, newton_iters_, *rk_, os);\n'))
rf('alg3-no-else', (ALG, '''      return output;
    } else {
      PrintDetailedHeader(prox_iters_, newton_iters_, *rk_, os);
      PrintIterLine(prox_iters_, newton_iters_, *rk_, *ri_, inner_tol, os);
    }
''', '''      return output;
    }
    PrintDetailedHeader(prox_iters_, newton_iters_, *rk_, os);
    PrintIterLine(prox_iters_, newton_iters_, *rk_, *ri_, inner_tol, os);
'''))
rf('alg3-residual-pair',
   (ALG_H, DECL, '''  // Evaluates the residuals of the subproblem and of the problem at x.
  std::pair<double, double> EvaluateResiduals(const Variable& x,
                                              const Variable& xbar,
                                              double sigma) {
    ri_->InnerResidual(x, xbar, sigma);
    rk_->PenalizedNaturalResidual(x);
    return std::make_pair(ri_->Norm(), rk_->Norm());
  }

''' + DECL), (ALG, '''    ri_->InnerResidual(*x, *xbar, sigma);
    double Ei = ri_->Norm();
    // Compute KKT residual.
    rk_->PenalizedNaturalResidual(*x);
    Eo = rk_->Norm();
''', '''    const std::pair<double, double> res = EvaluateResiduals(*x, *xbar, sigma);
    const double Ei = res.first;
    Eo = res.second;
'''))
rf('alg3-residual-struct',
   (ALG_H, DECL, '''  struct Residuals {
    double inner = 0.0;
    double outer = 0.0;
  };

''' + DECL), (ALG, '''    double Ei = ri_->Norm();
    // Compute KKT residual.
    rk_->PenalizedNaturalResidual(*x);
    Eo = rk_->Norm();
''', '''    Residuals now;
    now.inner = ri_->Norm();
    // Compute KKT residual.
    rk_->PenalizedNaturalResidual(*x);
    now.outer = rk_->Norm();
    Eo = now.outer;
    const double Ei = now.inner;
'''))
rf('alg3-limit-method', (ALG_H, DECL, '  bool NewtonLimitReached() const {\n    return newton_iters_ >= opts_.max_newton_iters;\n  }\n\n' + DECL),
   (ALG, '    if (newton_iters_ >= opts_.max_newton_iters) {\n      if (Eo', '    if (NewtonLimitReached()) {\n      if (Eo'), (ALG, '    if (newton_iters_ >= opts_.max_newton_iters) {\n      break;', '    if (NewtonLimitReached()) {\n      break;'))
rf('alg3-link-helper', (ALG_H, DECL, '''  template <class ProblemData>
  void LinkAll(const ProblemData* qp) {
    for (Variable* x : {xk_, xi_, xp_, dx_}) {
      x->LinkData(qp);
    }
    for (Residual* r : {rk_, ri_}) {
      r->LinkData(qp);
      r->SetAlpha(opts_.alpha);
    }
    feasibility_->LinkData(qp);
    linear_solver_->LinkData(qp);
    linear_solver_->SetAlpha(opts_.alpha);
  }

''' + DECL), (ALG, '''  rk_->SetAlpha(opts_.alpha);
  ri_->SetAlpha(opts_.alpha);
  linear_solver_->SetAlpha(opts_.alpha);

  // Supply a pointer to the data object.
  xk_->LinkData(&qp_data);
  xi_->LinkData(&qp_data);
  dx_->LinkData(&qp_data);
  xp_->LinkData(&qp_data);

  rk_->LinkData(&qp_data);
  ri_->LinkData(&qp_data);
  feasibility_->LinkData(&qp_data);
  linear_solver_->LinkData(&qp_data);
''', '  LinkAll(&qp_data);\n'))
rf('alg3-solve-time', (ALG, '''  time_point now = clock::now();
  std::chrono::duration<double> elapsed = now - start;
  output.solve_time = elapsed.count();
''', '''  output.solve_time =
      std::chrono::duration<double>(clock::now() - start).count();
'''))
rf('alg3-exit-lambda', (ALG, '  // Main proximal loop.\n', '''  // Reports x as the solution.
  const auto finish = [&](ExitFlag flag, const Variable& x) {
    const SolverOut result = PrepareOutput(flag, prox_iters_, newton_iters_,
                                           *rk_, start_time, E0, os);
    WriteVariable(x, z0, l0, v0, y0);
    return result;
  };

  // Main proximal loop.
'''), (ALG, '''      SolverOut output = PrepareOutput(ExitFlag::SUCCESS, prox_iters_,
                                       newton_iters_, *rk_, start_time, E0, os);
      WriteVariable(*xk_, z0, l0, v0, y0);
      return output;
''', '      return finish(ExitFlag::SUCCESS, *xk_);\n'), (ALG, '''        SolverOut output = PrepareOutput(eflag, prox_iters_, newton_iters_,
                                         *rk_, start_time, E0, os);
        WriteVariable(*dx_, z0, l0, v0, y0);
        return output;
''', '        return finish(eflag, *dx_);\n'), (ALG, '''  SolverOut output = PrepareOutput(ExitFlag::MAXITERATIONS, prox_iters_,
                                   newton_iters_, *rk_, start_time, E0, os);
  WriteVariable(*xk_, z0, l0, v0, y0);
  return output;
''', '  return finish(ExitFlag::MAXITERATIONS, *xk_);\n'))
rf('alg3-exit-name', (ALG_H, DECL, '''  // @return text for an exit flag
  static const char* ExitText(ExitFlag eflag) {
    switch (eflag) {
      case ExitFlag::SUCCESS:
        return " Success\\n";
      case ExitFlag::DIVERGENCE:
        return " Divergence\\n";
      case ExitFlag::MAXITERATIONS:
        return " Iteration limit exceeded\\n";
      case ExitFlag::PRIMAL_INFEASIBLE:
        return " Primal Infeasibility\\n";
      case ExitFlag::DUAL_INFEASIBLE:
        return " Dual Infeasibility\\n";
      default:
        return " Primal-Dual Infeasibility\\n";
    }
  }

''' + DECL), (ALG, '''    switch (eflag) {
      case ExitFlag::SUCCESS:
        snprintf(buff, 100, " Success\\n");
        break;
      case ExitFlag::DIVERGENCE:
        snprintf(buff, 100, " Divergence\\n");
        break;
      case ExitFlag::MAXITERATIONS:
        snprintf(buff, 100, " Iteration limit exceeded\\n");
        break;
      case ExitFlag::PRIMAL_INFEASIBLE:
        snprintf(buff, 100, " Primal Infeasibility\\n");
        break;
      case ExitFlag::DUAL_INFEASIBLE:
        snprintf(buff, 100, " Dual Infeasibility\\n");
        break;
      case ExitFlag::PRIMAL_DUAL_INFEASIBLE:
        snprintf(buff, 100, " Primal-Dual Infeasibility\\n");
        break;
      default:
        std::runtime_error(" Undefined exit flag supplied to PrintFinal.\\n");
    }
    os.Print(buff);
''', '    snprintf(buff, 100, "%s", ExitText(eflag));\n    os.Print(buff);\n'))
rf('alg3-print-formatted', (ALG_H, DECL, '''  // Prints one formatted line.
  template <class OutputStream, class... Args>
  static void Emit(const OutputStream& os, const char* format, Args... args) {
    char line[100];
    snprintf(line, sizeof(line), format, args...);
    os.Print(line);
  }

''' + DECL), (ALG, '''    snprintf(buff, 100, "Proximal iterations: %d out of %d\\n", prox_iters,
             opts_.max_prox_iters);
    os.Print(buff);
    snprintf(buff, 100, "Newton iterations: %d out of %d\\n", newton_iters,
             opts_.max_newton_iters);
    os.Print(buff);
''', '''    Emit(os, "Proximal iterations: %d out of %d\\n", prox_iters,
         opts_.max_prox_iters);
    Emit(os, "Newton iterations: %d out of %d\\n", newton_iters,
         opts_.max_newton_iters);
'''))
rf('alg3-limits-helper', (ALG, 'inline void AlgorithmParameters::DefaultParameters() {', '''inline void SetIterationLimits(int newton, int prox, int linesearch,
                               AlgorithmParameters* p) {
  p->max_newton_iters = newton;
  p->max_prox_iters = prox;
  p->max_linesearch_iters = linesearch;
}

inline void AlgorithmParameters::DefaultParameters() {'''), (ALG, '''  max_newton_iters = 200;
  max_prox_iters = 30;
  max_inner_iters = 50;
  max_linesearch_iters = 20;
''', '  max_inner_iters = 50;\n  SetIterationLimits(200, 30, 20, this);\n'), (ALG, '''  max_linesearch_iters = 40;
  max_newton_iters = 500;
  max_prox_iters = 100;
''', '  SetIterationLimits(500, 100, 40, this);\n'))
rf('alg3-copy-guess-inline', (ALG, '  CopyIntoVariable(*z0, *l0, *v0, *y0, xk_);\n', '  xk_->z() = *z0;\n  xk_->l() = *l0;\n  xk_->v() = *v0;\n  xk_->InitializeConstraintMargin();\n'))
rf('alg3-reuse-initial-residual', (ALG, '  double E0 = rk_->Norm();\n  double Ek = E0;\n', '  const double E0 = rk_->Norm();\n  double Ek = 0.0;\n'))
rf('alg3-negate-later', (ALG, '    ri_->Negate();\n\n    const bool solve_flag', '    const double current_merit = ri_->Merit();\n    ri_->Negate();\n\n    const bool solve_flag'), (ALG, '    const double current_merit = ri_->Merit();\n    InsertMerit', '    InsertMerit'))
# ------------------------------------------------------------ residual / variable
rf('res3-linear-parts', (FRH, '  /*\n   * Computes the penalized Fischer-Burmeister function pfb(a,b)', '  // Evaluates the stationarity and equality parts at x.\n  void LinearParts(const FullVariable& x);\n  void CacheNorms();\n\n  /*\n   * Computes the penalized Fischer-Burmeister function pfb(a,b)'),
   (FR, '''  // r.z = H*z + f + G'*l + A'*v
  z_.setConstant(0.0);
  data_->axpyf(1.0, &z_);
  data_->gemvH(x.z(), 1.0, 1.0, &z_);
  data_->gemvGT(x.l(), 1.0, 1.0, &z_);
  data_->gemvAT(x.v(), 1.0, 1.0, &z_);

  // r.l = h - G*z + sigma(l - lbar)
  l_.setConstant(0.0);
  data_->axpyh(1.0, &l_);
  data_->gemvG(x.z(), -1.0, 1.0, &l_);
''', '  LinearParts(x);\n'), (FR, '''    v_(i) = std::min(x.y()(i), x.v()(i));
  }
  znorm_ = z_.norm();
  lnorm_ = l_.norm();
  vnorm_ = v_.norm();
''', '    v_(i) = std::min(x.y()(i), x.v()(i));\n  }\n  CacheNorms();\n'), (FR, '''  NaturalResidual(x);

  for (int i = 0; i < nv_; i++) {
    v_(i) = alpha_ * v_(i) +
            (1 - alpha_) * std::max(0.0, x.y()(i)) * std::max(0.0, x.v()(i));
  }
  znorm_ = z_.norm();
  lnorm_ = l_.norm();
  vnorm_ = v_.norm();
}
''', '''  NullDataCheck();
  LinearParts(x);
  for (int i = 0; i < nv_; i++) {
    const double y = x.y()(i);
    const double v = x.v()(i);
    const double natural = v < y ? v : y;
    v_(i) = alpha_ * natural +
            (1 - alpha_) * std::max(0.0, y) * std::max(0.0, v);
  }
  CacheNorms();
}

void FullResidual::LinearParts(const FullVariable& x) {
  z_.setConstant(0.0);
  data_->axpyf(1.0, &z_);
  data_->gemvH(x.z(), 1.0, 1.0, &z_);
  data_->gemvGT(x.l(), 1.0, 1.0, &z_);
  data_->gemvAT(x.v(), 1.0, 1.0, &z_);

  l_.setConstant(0.0);
  data_->axpyh(1.0, &l_);
  data_->gemvG(x.z(), -1.0, 1.0, &l_);
}

void FullResidual::CacheNorms() {
  znorm_ = z_.norm();
  lnorm_ = l_.norm();
  vnorm_ = v_.norm();
}
'''))
rf('var3-margin-temporary', (FV, '''  y_->setConstant(0.0);
  data_->axpyb(1.0, y_);
  data_->gemvA(*z_, -1.0, 1.0, y_);
''', '''  VectorXd margin = VectorXd::Zero(nv_);
  data_->axpyb(1.0, &margin);
  data_->gemvA(*z_, -1.0, 1.0, &margin);
  *y_ = margin;
'''))
rf('var3-copy-self', (FV, 'void FullVariable::Copy(const FullVariable& x) {\n', 'void FullVariable::Copy(const FullVariable& x) {\n  if (&x == this) {\n    return;\n  }\n'))
rf('var3-ctor-zero', (FV, '''  z_storage_ = tools::make_unique<VectorXd>(nz_);
  l_storage_ = tools::make_unique<VectorXd>(nl_);
  v_storage_ = tools::make_unique<VectorXd>(nv_);
  y_storage_ = tools::make_unique<VectorXd>(nv_);
''', '''  z_storage_ = tools::make_unique<VectorXd>(VectorXd::Zero(nz));
  l_storage_ = tools::make_unique<VectorXd>(VectorXd::Zero(nl));
  v_storage_ = tools::make_unique<VectorXd>(VectorXd::Zero(nv));
  y_storage_ = tools::make_unique<VectorXd>(VectorXd::Zero(nv));
'''), (FV, '''  y_ = y_storage_.get();

  z_->setConstant(0.0);
  l_->setConstant(0.0);
  v_->setConstant(0.0);
  y_->setConstant(0.0);
''', '  y_ = y_storage_.get();\n'))
# ------------------------------------------------------------ feasibility
rf('feas3-bits', (FF, '''  if (primal_feasible && dual_feasible) {
    return FeasibilityStatus::FEASIBLE;
  } else if (primal_feasible && !dual_feasible) {
    return FeasibilityStatus::DUAL_INFEASIBLE;
  } else if (!primal_feasible && dual_feasible) {
    return FeasibilityStatus::PRIMAL_INFEASIBLE;
  } else {
    return FeasibilityStatus::BOTH;
  }
''', '''  const int code = (primal_feasible ? 0 : 1) + (dual_feasible ? 0 : 2);
  switch (code) {
    case 0:
      return FeasibilityStatus::FEASIBLE;
    case 1:
      return FeasibilityStatus::PRIMAL_INFEASIBLE;
    case 2:
      return FeasibilityStatus::DUAL_INFEASIBLE;
    default:
      return FeasibilityStatus::BOTH;
  }
'''))
rf('feas3-aliases', (FF, '  // Compute d1 = max(Az).\n  data_->gemvA(x.z(), 1.0, 0.0, &tv_);', '  const auto& z = x.z();\n  const auto& l = x.l();\n  const auto& v = x.v();\n\n  // Compute d1 = max(Az).\n  data_->gemvA(z, 1.0, 0.0, &tv_);'),
   (FF, 'tl_.dot(x.l()) + tv_.dot(x.v())', 'l.dot(tl_) + v.dot(tv_)'), (FF, 'const double d4 = tz_.dot(x.z());', 'const double d4 = (tz_.array() * z.array()).sum();'))
rf('feas3-not-flags', (FF, '''  bool dual_feasible = true;
  if ((d1 <= w * tol) && (d2 <= tol * w) && (d3 <= tol * w) && (d4 < 0) &&
      (w > 1e-14)) {
    dual_feasible = false;
  }
''', '''  const double limit = tol * w;
  const bool dual_feasible =
      d1 > limit || d2 > limit || d3 > limit || d4 >= 0 || w <= 1e-14;
'''))
# ------------------------------------------------------------ dense solver
rf('dense3-gradient-out', (DSH, 'Eigen::Vector2d PFBGradient(double a, double b) const;', 'void PFBGradient(double a, double b, double* da, double* db) const;'),
   (DS, '    pfb_gradient = PFBGradient(ys, x.v(i));\n    gamma_(i) = pfb_gradient(0);\n    mus_(i) = pfb_gradient(1) + sigma * pfb_gradient(0);\n', '    double dv = 0.0;\n    PFBGradient(ys, x.v(i), &gamma_(i), &dv);\n    mus_(i) = dv + sigma * gamma_(i);\n'),
   (DS, '  Eigen::Vector2d pfb_gradient;\n', ''), (DS, 'Eigen::Vector2d DenseCholeskySolver::PFBGradient(double a, double b) const {', 'void DenseCholeskySolver::PFBGradient(double a, double b, double* da,\n                                      double* db) const {'),
   (DS, '  Eigen::Vector2d v;\n  if (r', '  if (r'), (DS, '    v(0) = alpha_ * (1.0 - d);\n    v(1) = alpha_ * (1.0 - d);\n', '    *da = alpha_ * (1.0 - d);\n    *db = *da;\n'),
   (DS, '    v(0) = alpha_ * (1.0 - a / r) + (1.0 - alpha_) * b;\n    v(1) = alpha_ * (1.0 - b / r) + (1.0 - alpha_) * a;\n', '    *da = alpha_ * (1.0 - a / r) + (1.0 - alpha_) * b;\n    *db = alpha_ * (1.0 - b / r) + (1.0 - alpha_) * a;\n'),
   (DS, '    v(0) = alpha_ * (1.0 - a / r);\n    v(1) = alpha_ * (1.0 - b / r);\n  }\n\n  return v;\n', '    *da = alpha_ * (1.0 - a / r);\n    *db = alpha_ * (1.0 - b / r);\n  }\n'))
rf('dense3-hessian-order', (DS, '  E_ = H + sigma * Eigen::MatrixXd::Identity(nz_, nz_);\n', ''), (DS, '  E_.noalias() += A.transpose() * B_;\n', '  E_.noalias() = A.transpose() * B_;\n  E_ += H;\n  E_.diagonal().array() += sigma;\n'))
rf('dense3-no-E', (DS, '  K_.block(0, 0, nz_, nz_) = E_;\n', '  auto K11 = K_.topLeftCorner(nz_, nz_);\n  K11 = E_;\n'))
# ------------------------------------------------------------ riccati
rf('ric3-one-loop', (RS, '  for (int i = 0; i < N_; i++) {\n    // Compute inv(L(i)) then', '  for (int i = 0; i <= N_; i++) {\n    // Compute inv(L(i)) then'),
   (RS, '''    // Compute AM = A*inv(M)'.
    AM_[i] = data_->A_(i);
    M_[i]
        .triangularView<Eigen::Lower>()
        .transpose()
        .solveInPlace<Eigen::OnTheRight>(AM_[i]);

    // Compute SM''', '''    // Compute SM'''), (RS, '''    Eigen::LLT<Eigen::Ref<MatrixXd>> llt2(SG_[i]);
    FBSTAB_LLT_CHECK(llt2);
''', '''    Eigen::LLT<Eigen::Ref<MatrixXd>> llt2(SG_[i]);
    FBSTAB_LLT_CHECK(llt2);

    // There is no transition out of the last stage.
    if (i == N_) {
      break;
    }

    // Compute AM = A*inv(M)'.
    AM_[i] = data_->A_(i);
    M_[i]
        .triangularView<Eigen::Lower>()
        .transpose()
        .solveInPlace<Eigen::OnTheRight>(AM_[i]);
'''), (RS, '''  // Finish the recursion, i.e., perform the i = N step.
  Linv_ = MatrixXd::Identity(nx_, nx_);
  L_[N_].triangularView<Eigen::Lower>().solveInPlace(Linv_);
  L_[N_].triangularView<Eigen::Lower>().transpose().solveInPlace(Linv_);

  // Compute M = chol(Q + inv(L*L')).
  M_[N_].triangularView<Eigen::Lower>() = Q_[N_] + Linv_;
  Eigen::LLT<Eigen::Ref<MatrixXd>> llt4(M_[N_]);
  FBSTAB_LLT_CHECK(llt4);

  // Compute SM = S*inv(M)'.
  SM_[N_] = S_[N_];
  M_[N_]
      .triangularView<Eigen::Lower>()
      .transpose()
      .solveInPlace<Eigen::OnTheRight>(SM_[N_]);

  // Compute SG = chol(R - SM*SM').
  SG_[N_].noalias() = R_[N_] - SM_[N_] * SM_[N_].transpose();
  Eigen::LLT<Eigen::Ref<MatrixXd>> llt5(SG_[N_]);
  FBSTAB_LLT_CHECK(llt5);

''', ''))
rf('ric3-factor-helper', (RS, 'bool RiccatiLinearSolver::Initialize(', '''namespace {
// Replaces the matrix by its Cholesky factor.
bool FactorInPlace(MatrixXd* m) {
  Eigen::LLT<Eigen::Ref<MatrixXd>> llt(*m);
  return llt.info() == Eigen::Success;
}

// x <- x*inv(chol)'
void DivideRight(const MatrixXd& chol, MatrixXd* x) {
  chol.triangularView<Eigen::Lower>()
      .transpose()
      .solveInPlace<Eigen::OnTheRight>(*x);
}
}  // namespace

bool RiccatiLinearSolver::Initialize('''),
   (RS, '    Eigen::LLT<Eigen::Ref<MatrixXd>> llt1(M_[i]);\n    FBSTAB_LLT_CHECK(llt1);\n', '    if (!FactorInPlace(&M_[i])) {\n      return false;\n    }\n'),
   (RS, '    Eigen::LLT<Eigen::Ref<MatrixXd>> llt3(L_[i + 1]);\n    FBSTAB_LLT_CHECK(llt3);\n', '    if (!FactorInPlace(&L_[i + 1])) {\n      return false;\n    }\n'),
   (RS, '''    M_[i]
        .triangularView<Eigen::Lower>()
        .transpose()
        .solveInPlace<Eigen::OnTheRight>(AM_[i]);
''', '    DivideRight(M_[i], &AM_[i]);\n'), (RS, '''    SG_[i]
        .triangularView<Eigen::Lower>()
        .transpose()
        .solveInPlace<Eigen::OnTheRight>(P_[i]);
''', '    DivideRight(SG_[i], &P_[i]);\n'))
# ------------------------------------------------------------ mpc data
rf('mpc3-check-helper', (MD, 'void MpcData::gemvH(', '''static void CheckArguments(const VectorXd& x, int rows_x, const VectorXd* y,
                           int rows_y) {
  if (y == nullptr) {
    throw std::runtime_error("In MpcData: y input is null.");
  }
  if (x.size() != rows_x || y->size() != rows_y) {
    throw std::runtime_error("Size mismatch in MpcData.");
  }
}

void MpcData::gemvH('''), (MD, '''  if (y == nullptr) {
    throw std::runtime_error("In MpcData::gemvA: y input is null.");
  }
  if (x.size() != nz_ || y->size() != nv_) {
    throw std::runtime_error("Size mismatch in MpcData::gemvA.");
  }
''', '  CheckArguments(x, nz_, y, nv_);\n'), (MD, '''  if (y == nullptr) {
    throw std::runtime_error("In MpcData::gemvGT: y input is null.");
  }
  if (x.size() != nl_ || y->size() != nz_) {
    throw std::runtime_error("Size mismatch in MpcData::gemvGT.");
  }
''', '  CheckArguments(x, nl_, y, nz_);\n'))
rf('mpc3-accumulate-stage', (MD, '''      yx.noalias() += Q * vx + S.transpose() * vu;
      yu.noalias() += S * vx + R * vu;
    } else if (a == -1.0) {''', '''      yx.noalias() += Q * vx;
      yx.noalias() += S.transpose() * vu;
      yu.noalias() += S * vx;
      yu.noalias() += R * vu;
    } else if (a == -1.0) {'''))
rf('mpc3-h-backwards', (MD, '''  w.col(0) += -a * x0_;

  for (int i = 1; i < N_ + 1; i++) {
    w.col(i) += -a * c_(i - 1);
  }
''', '''  for (int i = N_; i > 0; --i) {
    w.col(i) -= a * c_(i - 1);
  }
  w.col(0) -= a * x0_;
'''))
# ------------------------------------------------------------ dense data
rf('dd3-scale-then-add', (DD, '    *y = a * A_ * x + b * (*y);\n', '    *y *= b;\n    *y += a * (A_ * x);\n'), (DD, '    *y = a * G_.transpose() * x + b * (*y);\n', '    (*y) = b * (*y) + a * (G_.transpose() * x);\n'))
# ------------------------------------------------------------ API
rf('api3-fill-loop', (MPCC, '  z.fill(a);\n  l.fill(a);\n  v.fill(a);\n  y.fill(a);\n', '  for (Eigen::Map<Eigen::VectorXd>* m : {&z, &l, &v, &y}) {\n    m->fill(a);\n  }\n'))
rf('api3-solve-local', (MPC, '    return algorithm_->Solve(data, &x->z, &x->l, &x->v, &x->y, os);\n', '    auto* const z = &x->z;\n    auto* const l = &x->l;\n    const SolverOut out = algorithm_->Solve(data, z, l, &x->v, &x->y, os);\n    return out;\n'))
rf('api3-options-braces', (DENC, 'FBstabDense::Options FBstabDense::DefaultOptions() {\n  Options opts;\n  opts.DefaultParameters();\n  return opts;\n}', 'static FBstabDense::Options MakeOptions(bool reliable) {\n  FBstabDense::Options opts{};\n  if (reliable) {\n    opts.ReliableParameters();\n  } else {\n    opts.DefaultParameters();\n  }\n  return opts;\n}\n\nFBstabDense::Options FBstabDense::DefaultOptions() { return MakeOptions(false); }'),
   (DENC, 'FBstabDense::Options FBstabDense::ReliableOptions() {\n  Options opts;\n  opts.ReliableParameters();\n  return opts;\n}', 'FBstabDense::Options FBstabDense::ReliableOptions() {\n  return MakeOptions(true);\n}'))
rf('api3-saturate-clamp', (UT, '  const T temp = std::min(x, b);\n  return std::max(temp, a);\n', '  return x > b ? b : (x < a ? a : x);\n'))
rf('api3-dense-pointers', (DENC, '  x1_ = tools::make_unique<FullVariable>(nz_, nl_, nv_);\n  x2_ = tools::make_unique<FullVariable>(nz_, nl_, nv_);\n  x3_ = tools::make_unique<FullVariable>(nz_, nl_, nv_);\n  x4_ = tools::make_unique<FullVariable>(nz_, nl_, nv_);\n', '  for (auto* x : {&x1_, &x2_, &x3_, &x4_}) {\n    *x = tools::make_unique<FullVariable>(nz, nl, nv);\n  }\n'))
