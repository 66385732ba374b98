"""More behaviour-preserving rewrites, file by file."""
from refactors import rf
from edits import *
from edits import C
ALG = 'fbstab/fbstab_algorithm-impl.h'; ALG_H = 'fbstab/fbstab_algorithm.h'
FR = C + 'full_residual.cc'; FV = C + 'full_variable.cc'; FF = C + 'full_feasibility.cc'
DS = C + 'dense_cholesky_solver.cc'; RS = C + 'riccati_linear_solver.cc'; MD = C + 'mpc_data.cc'; DD = C + 'dense_data.cc'
SQ = 'tools/matrix_sequence.h'; UT = 'tools/utilities.h'
HELP = '// Helper functions *************************************\n'
T4 = 'template <class Variable, class Residual, class LinearSolver, class Feasibility>\n'
A4 = 'FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::'
DECL = '  // @return maximum value in merit_buffer_\n'

# ------------------------------------------------------------ algorithm
rf('alg2-remaining-budget',
   (ALG, 'if (newton_iters_ >= opts_.max_newton_iters) {\n      if (Eo', 'const int remaining = opts_.max_newton_iters - newton_iters_;\n    if (remaining <= 0) {\n      if (Eo'),
   (ALG, 'if (newton_iters_ >= opts_.max_newton_iters) {\n      break;', 'if (!(newton_iters_ < opts_.max_newton_iters)) {\n      break;'))
rf('alg2-linesearch-countdown',
   (ALG, 'for (int j = 0; j < opts_.max_linesearch_iters; j++) {', 'for (int left = opts_.max_linesearch_iters; left > 0; --left) {'))
rf('alg2-accept-lambda',
   (ALG, '    t = 1.0;\n    for (int j', '    const auto sufficient = [&](double merit, double step) {\n      return merit <= m0 - 2.0 * step * opts_.eta * current_merit;\n    };\n    t = 1.0;\n    for (int j'),
   (ALG, 'if (mp <= m0 - 2.0 * t * opts_.eta * current_merit) {', 'if (sufficient(mp, t)) {'))
rf('alg2-flat-ifs',
   (ALG, '''    if ((Ei <= tol && Eo < current_outer_residual) ||
        (Ei <= opts_.inner_tol_min)) {
      PrintDetailedLine(i, t, *ri_, os);
      PrintDetailedFooter(tol, *ri_, os);
      break;
    } else {
      PrintDetailedLine(i, t, *ri_, os);
    }
''', '''    const bool within_tol = Ei <= tol;
    const bool decreased = Eo < current_outer_residual;
    const bool at_floor = Ei <= opts_.inner_tol_min;
    PrintDetailedLine(i, t, *ri_, os);
    if (at_floor || (within_tol && decreased)) {
      PrintDetailedFooter(tol, *ri_, os);
      break;
    }
'''))
rf('alg2-winner-reference',
   (ALG, '''      if (Eo < Ek) {
        WriteVariable(*xi_, z0, l0, v0, y0);
        rk_->PenalizedNaturalResidual(*xi_);
      } else {
        WriteVariable(*xk_, z0, l0, v0, y0);
        rk_->PenalizedNaturalResidual(*xk_);
      }
''', '''      const Variable& best = Eo < Ek ? *xi_ : *xk_;
      WriteVariable(best, z0, l0, v0, y0);
      rk_->PenalizedNaturalResidual(best);
'''))
rf('alg2-stop-flags',
   (ALG, 'if (Ek <= combo_tol_ || dx_->Norm() <= opts_.stall_tol) {', 'const bool optimal = Ek <= combo_tol_;\n    const bool stalled = dx_->Norm() <= opts_.stall_tol;\n    if (optimal || stalled) {'))
rf('alg2-outer-residual-lambda',
   (ALG, '  // Main proximal loop.\n', '  const auto outer_residual = [this](const Variable& x) {\n    rk_->PenalizedNaturalResidual(x);\n    return rk_->Norm();\n  };\n\n  // Main proximal loop.\n'),
   (ALG, '    rk_->PenalizedNaturalResidual(*xk_);\n    Ek = rk_->Norm();\n', '    Ek = outer_residual(*xk_);\n'))
rf('alg2-inner-evaluation-order',
   (ALG, '''    ri_->InnerResidual(*x, *xbar, sigma);
    double Ei = ri_->Norm();
    // Compute KKT residual.
    rk_->PenalizedNaturalResidual(*x);
    Eo = rk_->Norm();
''', '''    rk_->PenalizedNaturalResidual(*x);
    ri_->InnerResidual(*x, *xbar, sigma);
    Eo = rk_->Norm();
    const double Ei = ri_->Norm();
'''))
rf('alg2-check-ternary',
   (ALG, '''    if (opts_.check_feasibility) {
      ExitFlag eflag = CheckForInfeasibility(*dx_);
      if (eflag != ExitFlag::SUCCESS) {
        SolverOut output = PrepareOutput(eflag, prox_iters_, newton_iters_,
                                         *rk_, start_time, E0, os);
        WriteVariable(*dx_, z0, l0, v0, y0);
        return output;
      }
    }
''', '''    const ExitFlag eflag = opts_.check_feasibility
                               ? CheckForInfeasibility(*dx_)
                               : ExitFlag::SUCCESS;
    if (eflag != ExitFlag::SUCCESS) {
      WriteVariable(*dx_, z0, l0, v0, y0);
      return PrepareOutput(eflag, prox_iters_, newton_iters_, *rk_, start_time,
                           E0, os);
    }
'''))
rf('alg2-max-merit-loop',
   (ALG_H, '    return *std::max_element(merit_buffer_.begin(), merit_buffer_.end());\n', '''    double m = merit_buffer_[0];
    for (double value : merit_buffer_) {
      if (value > m) m = value;
    }
    return m;
'''))
rf('alg2-max-merit-index',
   (ALG_H, '    return *std::max_element(merit_buffer_.begin(), merit_buffer_.end());\n', '''    double m = merit_buffer_.front();
    for (std::size_t i = 1; i < merit_buffer_.size(); ++i) {
      m = std::max(m, merit_buffer_[i]);
    }
    return m;
'''))
rf('alg2-reference-merit-if',
   (ALG, '    const double m0 = opts_.nonmonotone_linesearch ? MaxMerit() : current_merit;\n', '    double m0 = current_merit;\n    if (opts_.nonmonotone_linesearch) {\n      m0 = MaxMerit();\n    }\n'))
rf('alg2-throw-helper',
   (ALG_H, DECL, '  static void Require(bool ok, const char* message) {\n    if (!ok) throw std::runtime_error(message);\n  }\n\n' + DECL),
   (ALG, '''    const bool initialize_flag = linear_solver_->Initialize(*x, *xbar, sigma);
    if (initialize_flag != true) {
      throw std::runtime_error(
          "In FBstabAlgorithm::Solve: LinearSolver::Initialize failed.");
    }
''', '''    Require(linear_solver_->Initialize(*x, *xbar, sigma),
            "In FBstabAlgorithm::Solve: LinearSolver::Initialize failed.");
'''),
   (ALG, '''    const bool solve_flag = linear_solver_->Solve(*ri_, dx_);
    if (solve_flag != true) {
      throw std::runtime_error(
          "In FBstabAlgorithm::Solve: LinearSolver::Solve failed.");
    }
''', '''    Require(linear_solver_->Solve(*ri_, dx_),
            "In FBstabAlgorithm::Solve: LinearSolver::Solve failed.");
'''))
rf('alg2-validate-ifs',
   (ALG, '  abs_tol = std::max(abs_tol, 1e-14);\n', '  if (abs_tol < 1e-14) {\n    abs_tol = 1e-14;\n  }\n'),
   (ALG, '  max_newton_iters = std::max(max_newton_iters, 1);\n', '  if (max_newton_iters < 1) max_newton_iters = 1;\n'))
rf('alg2-saturate-branches',
   (UT, '  const T temp = std::min(x, b);\n  return std::max(temp, a);\n', '  if (x < a) return a;\n  if (x > b) return b;\n  return x;\n'))
rf('alg2-print-sizeof',
   (ALG, '    snprintf(buff, 100, "%12d  %12d', '    snprintf(buff, sizeof(buff), "%12d  %12d'))
rf('alg2-final-message',
   (ALG_H, DECL, '''  static const char* Describe(ExitFlag e) {
    switch (e) {
      case ExitFlag::SUCCESS:
        return " Success\\n";
      case ExitFlag::DIVERGENCE:
        return " Divergence\\n";
      case ExitFlag::MAXITERATIONS:
        return " Iteration limit exceeded\\n";
      case ExitFlag::PRIMAL_INFEASIBLE:
        return " Primal Infeasibility\\n";
      case ExitFlag::DUAL_INFEASIBLE:
        return " Dual Infeasibility\\n";
      default:
        return " Primal-Dual Infeasibility\\n";
    }
  }

''' + DECL),
   (ALG, '''    switch (eflag) {
      case ExitFlag::SUCCESS:
        snprintf(buff, 100, " Success\\n");
        break;
      case ExitFlag::DIVERGENCE:
        snprintf(buff, 100, " Divergence\\n");
        break;
      case ExitFlag::MAXITERATIONS:
        snprintf(buff, 100, " Iteration limit exceeded\\n");
        break;
      case ExitFlag::PRIMAL_INFEASIBLE:
        snprintf(buff, 100, " Primal Infeasibility\\n");
        break;
      case ExitFlag::DUAL_INFEASIBLE:
        snprintf(buff, 100, " Dual Infeasibility\\n");
        break;
      case ExitFlag::PRIMAL_DUAL_INFEASIBLE:
        snprintf(buff, 100, " Primal-Dual Infeasibility\\n");
        break;
      default:
        std::runtime_error(" Undefined exit flag supplied to PrintFinal.\\n");
    }
    os.Print(buff);
''', '    os.Print(Describe(eflag));\n'))
rf('alg2-display-early-return',
   (ALG, '''  char buff[100];
  if (opts_.display_level == Display::ITER) {
    snprintf(buff, 100, "%12d  %12d  %12.4e  %12.4e  %12.4e  %12.4e  %12.4e\\n",
             prox_iters, newton_iters, rk.z_norm(), rk.l_norm(), rk.v_norm(),
             ri.Norm(), itol);
    os.Print(buff);
  }
''', '''  if (opts_.display_level != Display::ITER) return;
  char buff[100];
  snprintf(buff, 100, "%12d  %12d  %12.4e  %12.4e  %12.4e  %12.4e  %12.4e\\n",
           prox_iters, newton_iters, rk.z_norm(), rk.l_norm(), rk.v_norm(),
           ri.Norm(), itol);
  os.Print(buff);
'''))
rf('alg2-insert-merit-range',
   (ALG, '''  for (auto i = merit_buffer_.size() - 1; i > 0; i--) {
    merit_buffer_.at(i) = merit_buffer_.at(i - 1);
  }
  merit_buffer_.at(0) = x;
''', '''  double carry = x;
  for (double& slot : merit_buffer_) {
    const double old = slot;
    slot = carry;
    carry = old;
  }
'''))
rf('alg2-insert-merit-rotate',
   (ALG, '''  for (auto i = merit_buffer_.size() - 1; i > 0; i--) {
    merit_buffer_.at(i) = merit_buffer_.at(i - 1);
  }
  merit_buffer_.at(0) = x;
''', '''  std::rotate(merit_buffer_.begin(), merit_buffer_.end() - 1, merit_buffer_.end());
  merit_buffer_.front() = x;
'''))
rf('alg2-trial-by-difference',
   (ALG, '    t = 1.0;\n    for (int j', '    double step = 1.0;\n    for (int j'),
   (ALG, 'xp_->axpy(t, *dx_);', 'xp_->axpy(step, *dx_);'), (ALG, 'm0 - 2.0 * t * opts_.eta * current_merit', 'm0 - 2.0 * opts_.eta * step * current_merit'),
   (ALG, 't *= opts_.beta;', 'step = opts_.beta * step;'), (ALG, '    x->axpy(t, *dx_);  // x', '    t = step;\n    x->axpy(step, *dx_);  // x'))
rf('alg2-accept-copy-trial',
   (ALG, '    t = 1.0;\n    for (int j', '    bool accepted = false;\n    t = 1.0;\n    for (int j'),
   (ALG, 'current_merit) {\n        break;', 'current_merit) {\n        accepted = true;\n        break;'),
   (ALG, '    x->axpy(t, *dx_);  // x <- x + t*dx\n', '    if (accepted) {\n      x->Copy(*xp_);\n    } else {\n      x->axpy(t, *dx_);\n    }\n'))
rf('alg2-step-from-xi',
   (ALG, '    dx_->Copy(*xi_);\n    dx_->axpy(-1.0, *xk_);\n    if (opts_', '    dx_->Copy(*xi_);\n    const double minus_one = -1.0;\n    dx_->axpy(minus_one, *xk_);\n    if (opts_'))
rf('alg2-solve-phases',
   (ALG_H, DECL, '''  template <class ProblemData>
  void LinkAll(const ProblemData& data) {
    for (Variable* x : {xk_, xi_, dx_, xp_}) x->LinkData(&data);
    for (Residual* r : {rk_, ri_}) r->LinkData(&data);
    feasibility_->LinkData(&data);
    linear_solver_->LinkData(&data);
  }

''' + DECL),
   (ALG, '''  xk_->LinkData(&qp_data);
  xi_->LinkData(&qp_data);
  dx_->LinkData(&qp_data);
  xp_->LinkData(&qp_data);

  rk_->LinkData(&qp_data);
  ri_->LinkData(&qp_data);
  feasibility_->LinkData(&qp_data);
  linear_solver_->LinkData(&qp_data);
''', '  LinkAll(qp_data);\n'))
rf('alg2-null-check-helper',
   (ALG, '''  if (x1 == nullptr || x2 == nullptr || x3 == nullptr || x4 == nullptr) {
    throw std::runtime_error("A Variable supplied to FBstabAlgorithm is null.");
  }
''', '''  for (const Variable* x : {x1, x2, x3, x4}) {
    if (x == nullptr) {
      throw std::runtime_error(
          "A Variable supplied to FBstabAlgorithm is null.");
    }
  }
'''))
rf('alg2-prox-loop-local-count',
   (ALG, '  for (int k = 0; k < opts_.max_prox_iters; k++) {', '  for (; prox_iters_ < opts_.max_prox_iters; prox_iters_++) {'),
   (ALG, '    xk_->Copy(*xi_);\n    prox_iters_++;\n', '    xk_->Copy(*xi_);\n'))
rf('alg2-infeas-lookup',
   (ALG, '''  if (feas == Feasibility::FeasibilityStatus::FEASIBLE) {
    return ExitFlag::SUCCESS;
  } else if (feas == Feasibility::FeasibilityStatus::PRIMAL_INFEASIBLE) {
    return ExitFlag::PRIMAL_INFEASIBLE;
  } else if (feas == Feasibility::FeasibilityStatus::DUAL_INFEASIBLE) {
    return ExitFlag::DUAL_INFEASIBLE;
  } else {
    return ExitFlag::PRIMAL_DUAL_INFEASIBLE;
  }
''', '''  using Status = typename Feasibility::FeasibilityStatus;
  const bool primal =
      feas == Status::PRIMAL_INFEASIBLE || feas == Status::BOTH;
  const bool dual = feas == Status::DUAL_INFEASIBLE || feas == Status::BOTH;
  if (primal && dual) return ExitFlag::PRIMAL_DUAL_INFEASIBLE;
  if (primal) return ExitFlag::PRIMAL_INFEASIBLE;
  return dual ? ExitFlag::DUAL_INFEASIBLE : ExitFlag::SUCCESS;
'''))
# ------------------------------------------------------------ residual
rf('res2-norms-helper',
   (FR, '''    v_(i) = pfb(ys, x.v()(i), alpha_);
  }
  znorm_ = z_.norm();
  lnorm_ = l_.norm();
  vnorm_ = v_.norm();
''', '''    v_(i) = pfb(ys, x.v()(i), alpha_);
  }
  const auto length = [](const Eigen::VectorXd& w) { return w.norm(); };
  znorm_ = length(z_);
  lnorm_ = length(l_);
  vnorm_ = length(v_);
'''))
rf('res2-array-pfb',
   (FR, '''  for (int i = 0; i < nv_; i++) {
    const double ys = x.y()(i) + sigma * (x.v()(i) - xbar.v()(i));
    v_(i) = pfb(ys, x.v()(i), alpha_);
  }
''', '''  v_ = x.y() + sigma * (x.v() - xbar.v());
  for (int i = 0; i < nv_; i++) {
    v_(i) = pfb(v_(i), x.v()(i), alpha_);
  }
'''))
rf('res2-natural-min',
   (FR, '''  for (int i = 0; i < nv_; i++) {
    v_(i) = std::min(x.y()(i), x.v()(i));
  }
''', '  v_ = x.y().cwiseMin(x.v());\n'))
rf('res2-penalized-pointers',
   (FR, '''  for (int i = 0; i < nv_; i++) {
    v_(i) = alpha_ * v_(i) +
            (1 - alpha_) * std::max(0.0, x.y()(i)) * std::max(0.0, x.v()(i));
  }
''', '''  const Eigen::VectorXd& y = x.y();
  const Eigen::VectorXd& v = x.v();
  for (int i = nv_ - 1; i >= 0; --i) {
    const double yp = y(i) > 0.0 ? y(i) : 0.0;
    const double vp = v(i) > 0.0 ? v(i) : 0.0;
    v_(i) = alpha_ * v_(i) + (1.0 - alpha_) * (yp * vp);
  }
'''))
rf('res2-fill-negate',
   (FR, '  z_.setConstant(a);\n  l_.setConstant(a);\n  v_.setConstant(a);\n', '  z_ = Eigen::VectorXd::Constant(nz_, a);\n  l_ = Eigen::VectorXd::Constant(nl_, a);\n  v_ = Eigen::VectorXd::Constant(nv_, a);\n'),
   (FR, '  z_ *= -1;\n  l_ *= -1;\n  v_ *= -1;\n', '  z_ = -z_;\n  l_ = -l_;\n  v_ = -v_;\n'))
rf('res2-gradient-order',
   (FR, '''  data_->gemvH(x.z(), 1.0, 1.0, &z_);
  data_->gemvGT(x.l(), 1.0, 1.0, &z_);
  data_->gemvAT(x.v(), 1.0, 1.0, &z_);
  z_.noalias() +=''', '''  data_->gemvAT(x.v(), 1.0, 1.0, &z_);
  data_->gemvGT(x.l(), 1.0, 1.0, &z_);
  data_->gemvH(x.z(), 1.0, 1.0, &z_);
  z_.noalias() +='''))
rf('res2-overwrite-product',
   (FR, '''  z_.setConstant(0.0);
  data_->axpyf(1.0, &z_);
  data_->gemvH(x.z(), 1.0, 1.0, &z_);
  data_->gemvGT(x.l(), 1.0, 1.0, &z_);
  data_->gemvAT(x.v(), 1.0, 1.0, &z_);
  z_.noalias()''', '''  data_->gemvH(x.z(), 1.0, 0.0, &z_);
  data_->axpyf(1.0, &z_);
  data_->gemvGT(x.l(), 1.0, 1.0, &z_);
  data_->gemvAT(x.v(), 1.0, 1.0, &z_);
  z_.noalias()'''))
# ------------------------------------------------------------ variable
rf('var2-norm-squared',
   (FV, '''  const double t1 = z_->norm();
  const double t2 = l_->norm();
  const double t3 = v_->norm();

  return sqrt(t1 * t1 + t2 * t2 + t3 * t3);
''', '  return std::sqrt(z_->squaredNorm() + l_->squaredNorm() + v_->squaredNorm());\n'))
rf('var2-project-loop',
   (FV, '*v_ = v_->cwiseMax(0);', '''
  for (int i = 0; i < nv_; i++) {
    (*v_)(i) = std::max(0.0, (*v_)(i));
  }
'''))
rf('var2-project-branch',
   (FV, '*v_ = v_->cwiseMax(0);', '''
  for (int i = 0; i < v_->size(); ++i) {
    double& vi = (*v_)(i);
    if (vi < 0.0) {
      vi = 0.0;
    }
  }
'''))
rf('var2-samesize-early',
   (FV, '  return (x.nz_ == nz_ && x.nl_ == nl_ && x.nv_ == nv_);\n', '  if (x.nz_ != nz_) return false;\n  if (x.nl_ != nl_) return false;\n  return x.nv_ == nv_;\n'))
rf('var2-axpy-one-pass',
   (FV, '''  // y <- y + a*(x.y - b)
  y_->noalias() += a * (*x.y_);
  data_->axpyb(-a, y_);
''', '''  // y <- y + a*(x.y - b)
  data_->axpyb(-a, y_);
  *y_ += a * x.y();
'''))
rf('var2-margin-overwrite',
   (FV, '''  y_->setConstant(0.0);
  data_->axpyb(1.0, y_);
  data_->gemvA(*z_, -1.0, 1.0, y_);
''', '''  data_->gemvA(*z_, -1.0, 0.0, y_);
  data_->axpyb(1.0, y_);
'''))
# ------------------------------------------------------------ feasibility
rf('feas2-nested-ifs',
   (FF, '''  bool dual_feasible = true;
  if ((d1 <= w * tol) && (d2 <= tol * w) && (d3 <= tol * w) && (d4 < 0) &&
      (w > 1e-14)) {
    dual_feasible = false;
  }
''', '''  bool dual_feasible = true;
  if (w > 1e-14 && d4 < 0) {
    const double limit = tol * w;
    if (std::max(d2, d3) <= limit) {
      dual_feasible = d1 > limit;
    }
  }
'''))
rf('feas2-status-early',
   (FF, '''  if (primal_feasible && dual_feasible) {
    return FeasibilityStatus::FEASIBLE;
  } else if (primal_feasible && !dual_feasible) {
    return FeasibilityStatus::DUAL_INFEASIBLE;
  } else if (!primal_feasible && dual_feasible) {
    return FeasibilityStatus::PRIMAL_INFEASIBLE;
  } else {
    return FeasibilityStatus::BOTH;
  }
''', '''  if (primal_feasible) {
    return dual_feasible ? FeasibilityStatus::FEASIBLE
                         : FeasibilityStatus::DUAL_INFEASIBLE;
  }
  return dual_feasible ? FeasibilityStatus::PRIMAL_INFEASIBLE
                       : FeasibilityStatus::BOTH;
'''))
rf('feas2-norm-lambda',
   (FF, '  // Compute d1 = max(Az).\n', '  const auto infnorm = [](const Eigen::VectorXd& v) {\n    return v.lpNorm<Eigen::Infinity>();\n  };\n  // Compute d1 = max(Az).\n'),
   (FF, 'tl_.lpNorm<Eigen::Infinity>()', 'infnorm(tl_)'), (FF, 'double w = x.z().lpNorm<Eigen::Infinity>()', 'const double w = infnorm(x.z())'),
   (FF, '''std::max(x.v().lpNorm<Eigen::Infinity>(),
                            x.l().lpNorm<Eigen::Infinity>())''', 'std::max(infnorm(x.l()), infnorm(x.v()))'))
# ------------------------------------------------------------ dense solver
rf('dense2-gradient-common',
   (DS, '''  if (r < zero_tolerance_) {
    v(0) = alpha_ * (1.0 - d);
    v(1) = alpha_ * (1.0 - d);

  } else if ((a > 0) && (b > 0)) {
    v(0) = alpha_ * (1.0 - a / r) + (1.0 - alpha_) * b;
    v(1) = alpha_ * (1.0 - b / r) + (1.0 - alpha_) * a;

  } else {
    v(0) = alpha_ * (1.0 - a / r);
    v(1) = alpha_ * (1.0 - b / r);
  }

  return v;
''', '''  if (r < zero_tolerance_) {
    v.fill(alpha_ * (1.0 - d));
    return v;
  }
  v(0) = alpha_ * (1.0 - a / r);
  v(1) = alpha_ * (1.0 - b / r);
  if (a > 0 && b > 0) {
    v(0) += (1.0 - alpha_) * b;
    v(1) += (1.0 - alpha_) * a;
  }
  return v;
'''))
rf('dense2-status', (DS, '''  Eigen::ComputationInfo status = ldlt_.info();
  if (status != Eigen::Success) {
    return false;
  } else {
    return true;
  }
''', '  return ldlt_.info() == Eigen::Success;\n'))
rf('dense2-one-product', (DS, '  B_.noalias() = Gamma_.asDiagonal() * A;\n  E_.noalias() += A.transpose() * B_;\n', '  E_.noalias() += A.transpose() * Gamma_.asDiagonal() * A;\n'))
rf('dense2-corners', (DS, '''  K_.block(0, 0, nz_, nz_) = E_;
  K_.block(nz_, 0, nl_, nz_) = G;
  K_.block(nz_, nz_, nl_, nl_) = -sigma * Eigen::MatrixXd::Identity(nl_, nl_);
''', '''  K_.setZero();
  K_.topLeftCorner(nz_, nz_) = E_;
  K_.bottomLeftCorner(nl_, nz_) = G;
  K_.bottomRightCorner(nl_, nl_).diagonal().setConstant(-sigma);
'''))
rf('dense2-solve-locals', (DS, '''  r2_.noalias() = A * x->z();
  r2_.noalias() = gamma_.asDiagonal() * r2_;
  r2_.noalias() += r.v();
  x->v() = r2_.cwiseQuotient(mus_);

  // y = b - Az
  x->y() = b - A * x->z();
''', '''  r2_.noalias() = A * x->z();
  x->y() = b - r2_;
  x->v() = (r.v() + gamma_.cwiseProduct(r2_)).cwiseQuotient(mus_);
'''))
rf('dense2-head-tail', (DS, '  r1_.segment(0, nz_).noalias() = r.z() - A.transpose() * r2_;\n  r1_.segment(nz_, nl_) = -r.l();\n', '  r1_.head(nz_) = r.z();\n  r1_.head(nz_).noalias() -= A.transpose() * r2_;\n  r1_.tail(nl_) = -r.l();\n'),
   (DS, '  x->z() = r1_.segment(0, nz_);\n  x->l() = r1_.segment(nz_, nl_);\n', '  x->z() = r1_.head(nz_);\n  x->l() = r1_.tail(nl_);\n'))
rf('dense2-size-helper', (DS, 'if (xbar.nz_ != nz_ || xbar.nl_ != nl_ || xbar.nv_ != nv_) {', 'const bool fits = xbar.nz_ == nz_ && xbar.nl_ == nl_ && xbar.nv_ == nv_;\n  if (!fits) {'))
# ------------------------------------------------------------ Riccati
rf('ric2-llt-lambda', (RS, '''    M_[i].triangularView<Eigen::Lower>() = Q_[i] + Linv_;
    Eigen::LLT<Eigen::Ref<MatrixXd>> llt1(M_[i]);
    FBSTAB_LLT_CHECK(llt1);
''', '''    M_[i].triangularView<Eigen::Lower>() = Q_[i] + Linv_;
    const auto factor = [](MatrixXd& X) {
      Eigen::LLT<Eigen::Ref<MatrixXd>> llt(X);
      return llt.info() == Eigen::Success;
    };
    if (!factor(M_[i])) return false;
'''))
rf('ric2-triangular-solve', (RS, '    tx_ = h_[i];\n    M_[i].triangularView<Eigen::Lower>().solveInPlace(tx_);\n\n    // This is an alias.', '    tx_ = M_[i].triangularView<Eigen::Lower>().solve(h_[i]);\n\n    // This is an alias.'))
rf('ric2-state-temporary', (RS, '''    xi = h_[i];
    M_[i].triangularView<Eigen::Lower>().solveInPlace(xi);
    xi.noalias() += SM_[i].transpose() * ui;''', '''    xi = tx_;
    xi.noalias() += SM_[i].transpose() * ui;'''))
rf('ric2-set-identity', (RS, '    Linv_ = MatrixXd::Identity(nx_, nx_);\n    L_[i].', '    Linv_.setIdentity();\n    L_[i].'),
   (RS, '    L_[i + 1] = sigma * MatrixXd::Identity(nx_, nx_);\n    L_[i + 1].noalias() += P_[i] * P_[i].transpose();\n', '    L_[i + 1].noalias() = P_[i] * P_[i].transpose();\n    L_[i + 1].diagonal().array() += sigma;\n'))
rf('ric2-stage-reference', (RS, '''    L_[i + 1] = sigma * MatrixXd::Identity(nx_, nx_);
    L_[i + 1].noalias() += P_[i] * P_[i].transpose();
    L_[i + 1].noalias() += AM_[i] * AM_[i].transpose();
    Eigen::LLT<Eigen::Ref<MatrixXd>> llt3(L_[i + 1]);
''', '''    MatrixXd& next = L_[i + 1];
    const MatrixXd& P = P_[i];
    const MatrixXd& AM = AM_[i];
    next = sigma * MatrixXd::Identity(nx_, nx_);
    next.noalias() += P * P.transpose();
    next.noalias() += AM * AM.transpose();
    Eigen::LLT<Eigen::Ref<MatrixXd>> llt3(next);
'''))
rf('ric2-resize-helper', (RS, '''    h_[i].resize(nx);
    th_[i].resize(nx);
  }
''', '''    th_[i].resize(nx);
    h_[i].resize(nx);
  }
'''), (RS, '  Q_.resize(N + 1);\n  S_.resize(N + 1);\n  R_.resize(N + 1);\n', '  const int stages = N + 1;\n  Q_.resize(stages);\n  S_.resize(stages);\n  R_.resize(stages);\n'))
rf('ric2-negate-tail', (RS, '    li = th_[i] + xi;\n', '    li = -(th_[i] + xi);\n'), (RS, '    L_[i].triangularView<Eigen::Lower>().transpose().solveInPlace(li);\n    li *= -1.0;\n', '    L_[i].triangularView<Eigen::Lower>().transpose().solveInPlace(li);\n'))
rf('ric2-columns', (RS, 'r1.block(0, 0, nx_, 1)', 'r1.col(0).head(nx_)'), (RS, '    const auto rxp = r1.block(0, i + 1, nx_, 1);\n', '    const auto rxp = r1.col(i + 1).head(nx_);\n'))
rf('ric2-dual-direct', (RS, '''  dv = r.v_;
  // r3_ = A*dz, r3_ is being used as a temp.
  data_->gemvA(dx->z(), 1.0, 0.0, &r3_);
  dv += gamma_.asDiagonal() * r3_;
  dv = dv.cwiseQuotient(mus_);

  // Compute dy = b - A*dz.
  VectorXd& dy = dx->y();
  data_->gemvA(dx->z(), -1.0, 0.0, &dy);
  data_->axpyb(1.0, &dy);
''', '''  // r3_ = A*dz, r3_ is being used as a temp.
  data_->gemvA(dx->z(), 1.0, 0.0, &r3_);
  // Compute dy = b - A*dz.
  VectorXd& dy = dx->y();
  dy = -r3_;
  data_->axpyb(1.0, &dy);
  for (int i = 0; i < nv_; ++i) {
    dv(i) = (r.v_(i) + gamma_(i) * r3_(i)) / mus_(i);
  }
'''))
# ------------------------------------------------------------ MPC data
rf('mpc2-heads', (MD, '''    xi.noalias() += a * q_(i);
    ui.noalias() += a * r_(i);
''', '''    w.col(i).head(nx_) += a * q_(i);
    w.col(i).tail(nu_) += a * r_(i);
'''))
rf('mpc2-shifted-loop', (MD, '  for (int i = 1; i < N_ + 1; i++) {\n    w.col(i) += -a * c_(i - 1);\n  }\n', '  for (int i = 0; i < N_; i++) {\n    w.col(i + 1) -= a * c_(i);\n  }\n'))
rf('mpc2-gt-two-loops', (MD, '    xi.noalias() += -a * vi;\n', ''), (MD, '  // The i = N step of the recursion.\n  w.block(0, N_, nx_, 1).noalias() += -a * v.col(N_);\n', '  for (int i = 0; i <= N_; i++) {\n    w.block(0, i, nx_, 1).noalias() -= a * v.col(i);\n  }\n'), (MD, '    const auto vi = v.col(i);\n    const auto vp1', '    const auto vp1'))
rf('mpc2-scale-switch', (MD, '''    throw std::runtime_error("Size mismatch in MpcData::gemvAT.");
  }
  if (b == 0.0) {
    y->fill(0.0);
  } else if (b != 1.0) {
    (*y) *= b;
  }
''', '''    throw std::runtime_error("Size mismatch in MpcData::gemvAT.");
  }
  if (b == 0.0) y->setZero();
  else *y = b * (*y);
'''))
rf('mpc2-validate-one', (MD, '''  if (x0_.size() != nx) {
    throw std::runtime_error("Size mismatch in x0 input to MpcData.");
  }
  if (Q_.cols() != nx) {
    throw std::runtime_error("Size mismatch in Q input to MpcData.");
  }
''', '''  const auto require = [](bool ok, const char* what) {
    if (!ok) throw std::runtime_error(what);
  };
  require(x0_.size() == nx, "Size mismatch in x0 input to MpcData.");
  require(Q_.cols() == nx, "Size mismatch in Q input to MpcData.");
'''))
rf('mpc2-b-stage', (MD, '    w.col(i).noalias() += -a * d_(i);\n', '    auto wi = w.col(i);\n    wi -= a * d_(i);\n'))
rf('mpc2-a-first', (MD, '''    if (a == 1.0) {
      yi.noalias() += E * xi + L * ui;
    } else if (a == -1.0) {
      yi.noalias() -= E * xi + L * ui;
    } else {
      yi += a * E.lazyProduct(xi);
      yi += a * L.lazyProduct(ui);
    }
''', '''    yi += a * (E * xi);
    yi += a * (L * ui);
'''))
# ------------------------------------------------------------ data and sequences
rf('dd2-transpose-order', (DD, '    *y = a * G_.transpose() * x + b * (*y);\n', '    *y *= b;\n    y->noalias() += a * (G_.transpose() * x);\n'))
rf('seq2-offset-local', (SQ, '    return Eigen::Map<const Eigen::MatrixXd>(data_ + k * nr_ * nc_, nr_, nc_);\n', '    const int stride = nr_ * nc_;\n    const double* block = data_ + k * stride;\n    return Eigen::Map<const Eigen::MatrixXd>(block, nr_, nc_);\n'))
rf('seq2-resize-direct', (SQ, '    nel_ = N_ * nr_ * nc_;\n    data_.resize(nel_);\n', '    nel_ = len * nrows * ncols;\n    data_ = std::vector<double>(nel_);\n'))
rf('api2-dense-size-helper', ('fbstab/fbstab_dense.h', '''    if (nz_ != x.z.size() || x.l.size() != nl_ || nv_ != x.v.size() ||
        nv_ != x.y.size()) {
''', '''    const bool primal_ok = nz_ == x.z.size();
    const bool dual_ok = x.l.size() == nl_ && x.v.size() == nv_;
    const bool margin_ok = x.y.size() == nv_;
    if (!(primal_ok && dual_ok && margin_ok)) {
'''))
rf('api2-mpc-order', ('fbstab/fbstab_mpc.h', '''    MpcData data(&qp.Q, &qp.R, &qp.S, &qp.q, &qp.r, &qp.A, &qp.B, &qp.c, &qp.E,
                 &qp.L, &qp.d, &qp.x0);
    ValidateInputSizes(data, *x);
''', '''    const MpcData data(&qp.Q, &qp.R, &qp.S, &qp.q, &qp.r, &qp.A, &qp.B, &qp.c,
                       &qp.E, &qp.L, &qp.d, &qp.x0);
    InputVariable& guess = *x;
    ValidateInputSizes(data, guess);
'''))
rf('api2-ctor-factory', ('fbstab/fbstab_mpc.cc', '''  x1_ = tools::make_unique<FullVariable>(nz_, nl_, nv_);
  x2_ = tools::make_unique<FullVariable>(nz_, nl_, nv_);
  x3_ = tools::make_unique<FullVariable>(nz_, nl_, nv_);
  x4_ = tools::make_unique<FullVariable>(nz_, nl_, nv_);
''', '''  const auto variable = [this]() {
    return tools::make_unique<FullVariable>(nz_, nl_, nv_);
  };
  x1_ = variable();
  x2_ = variable();
  x3_ = variable();
  x4_ = variable();
'''))
