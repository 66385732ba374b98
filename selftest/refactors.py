"""Refactorings that keep the behaviour: every check has to stay quiet on each
of them (run.py rf-)."""
from edits import *
ALG_H = 'fbstab/fbstab_algorithm.h'
DDC = 'fbstab/components/dense_data.cc'
def rf(name, *edits, **k): keep('rf-' + name, '', *edits, **k)

# ---- the algorithm
rf('alg-converged-helper',
   (ALG, '''    if (Ek <= combo_tol_ || dx_->Norm() <= opts_.stall_tol) {''',
         '''    const bool converged = Ek <= combo_tol_;
    const bool stalled = dx_->Norm() <= opts_.stall_tol;
    if (converged || stalled) {'''),
   (ALG, '''      WriteVariable(*xk_, z0, l0, v0, y0);
      return output;
    } else {
      PrintDetailedHeader(prox_iters_, newton_iters_, *rk_, os);
      PrintIterLine(prox_iters_, newton_iters_, *rk_, *ri_, inner_tol, os);
    }
''', '''      WriteVariable(*xk_, z0, l0, v0, y0);
      return output;
    }
    PrintDetailedHeader(prox_iters_, newton_iters_, *rk_, os);
    PrintIterLine(prox_iters_, newton_iters_, *rk_, *ri_, inner_tol, os);
'''))
rf('alg-while-loop',
   (ALG, '  for (int k = 0; k < opts_.max_prox_iters; k++) {', '  int k = 0;\n  while (k < opts_.max_prox_iters) {'),
   (ALG, '    xk_->Copy(*xi_);\n    prox_iters_++;\n', '    xk_->Copy(*xi_);\n    ++prox_iters_;\n    ++k;\n'))
rf('alg-timeout-pointer',
   (ALG, '''      if (Eo < Ek) {
        WriteVariable(*xi_, z0, l0, v0, y0);
        rk_->PenalizedNaturalResidual(*xi_);
      } else {
        WriteVariable(*xk_, z0, l0, v0, y0);
        rk_->PenalizedNaturalResidual(*xk_);
      }
''', '''      Variable* const best = (Eo < Ek) ? xi_ : xk_;
      WriteVariable(*best, z0, l0, v0, y0);
      rk_->PenalizedNaturalResidual(*best);
'''))
rf('alg-linesearch-helper',
   (ALG, '''    t = 1.0;
    for (int j = 0; j < opts_.max_linesearch_iters; j++) {
      // Compute a trial point xp = x + t*dx
      // and evaluate the merit function at xp.
      xp_->Copy(*x);
      xp_->axpy(t, *dx_);
      ri_->InnerResidual(*xp_, *xbar, sigma);
      const double mp = ri_->Merit();

      // Armijo descent check.
      if (mp <= m0 - 2.0 * t * opts_.eta * current_merit) {
        break;
      } else {
        t *= opts_.beta;
      }
    }
''', '''    t = Linesearch(*x, *xbar, sigma, m0, current_merit);
'''),
   (ALG, '''// Helper functions *************************************
''', '''// Helper functions *************************************
template <class Variable, class Residual, class LinearSolver, class Feasibility>
double FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::
    Linesearch(const Variable& x, const Variable& xbar, double sigma,
               double reference, double merit) {
  double step = 1.0;
  for (int j = 0; j < opts_.max_linesearch_iters; ++j) {
    xp_->Copy(x);
    xp_->axpy(step, *dx_);
    ri_->InnerResidual(*xp_, xbar, sigma);
    const double decrease = 2.0 * step * opts_.eta * merit;
    if (ri_->Merit() <= reference - decrease) {
      return step;
    }
    step *= opts_.beta;
  }
  return step;
}

'''),
   (ALG_H, '  // Projects the duals', '  // Projects the duals') if False else
   (ALG_H, '  void InsertMerit(double x);', '''  double Linesearch(const Variable& x, const Variable& xbar, double sigma,
                    double reference, double merit);
  void InsertMerit(double x);'''))
rf('alg-inner-conditions',
   (ALG, '''    if ((Ei <= tol && Eo < current_outer_residual) ||
        (Ei <= opts_.inner_tol_min)) {
      PrintDetailedLine(i, t, *ri_, os);
      PrintDetailedFooter(tol, *ri_, os);
      break;
    } else {
      PrintDetailedLine(i, t, *ri_, os);
    }
''', '''    const bool outer_reduced = Eo < current_outer_residual;
    const bool solved = Ei <= tol && outer_reduced;
    const bool exhausted = Ei <= opts_.inner_tol_min;
    PrintDetailedLine(i, t, *ri_, os);
    if (solved || exhausted) {
      PrintDetailedFooter(tol, *ri_, os);
      break;
    }
'''))
rf('alg-flags-direct',
   (ALG, '''    const bool initialize_flag = linear_solver_->Initialize(*x, *xbar, sigma);
    if (initialize_flag != true) {''', '''    if (!linear_solver_->Initialize(*x, *xbar, sigma)) {'''),
   (ALG, '''    const bool solve_flag = linear_solver_->Solve(*ri_, dx_);
    if (solve_flag != true) {''', '''    if (!linear_solver_->Solve(*ri_, dx_)) {'''))
rf('alg-merit-move',
   (ALG, '''    ri_->Negate();

    const bool solve_flag''', '''    const double current_merit = ri_->Merit();
    InsertMerit(current_merit);
    const double m0 = opts_.nonmonotone_linesearch ? MaxMerit() : current_merit;
    ri_->Negate();

    const bool solve_flag'''),
   (ALG, '''    // Linesearch
    const double current_merit = ri_->Merit();
    InsertMerit(current_merit);
    const double m0 = opts_.nonmonotone_linesearch ? MaxMerit() : current_merit;
''', '''    // Linesearch
'''))
rf('alg-output-init',
   (ALG, '''  struct SolverOut output;

  time_point now = clock::now();
  std::chrono::duration<double> elapsed = now - start;
  output.solve_time = elapsed.count();

  output.eflag = e;
  output.residual = r.Norm();
''', '''  SolverOut output;
  output.eflag = e;
  const double residual_norm = r.Norm();
  output.residual = residual_norm;

  const std::chrono::duration<double> elapsed = clock::now() - start;
  output.solve_time = elapsed.count();
'''))
rf('alg-finish-helper',
   (ALG, '''      PrintIterLine(prox_iters_, newton_iters_, *rk_, *ri_, inner_tol, os);
      SolverOut output = PrepareOutput(ExitFlag::SUCCESS, prox_iters_,
                                       newton_iters_, *rk_, start_time, E0, os);
      WriteVariable(*xk_, z0, l0, v0, y0);
      return output;
''', '''      PrintIterLine(prox_iters_, newton_iters_, *rk_, *ri_, inner_tol, os);
      return finish(ExitFlag::SUCCESS, *xk_);
'''),
   (ALG, '''        SolverOut output = PrepareOutput(eflag, prox_iters_, newton_iters_,
                                         *rk_, start_time, E0, os);
        WriteVariable(*dx_, z0, l0, v0, y0);
        return output;
''', '''        return finish(eflag, *dx_);
'''),
   (ALG, '''  PrintIterHeader(os);

  // Main proximal loop.
''', '''  PrintIterHeader(os);

  // Prepares the output and copies the given point to the caller.
  const auto finish = [&](ExitFlag flag, const Variable& point) {
    SolverOut output = PrepareOutput(flag, prox_iters_, newton_iters_, *rk_,
                                     start_time, E0, os);
    WriteVariable(point, z0, l0, v0, y0);
    return output;
  };

  // Main proximal loop.
'''))
rf('alg-insert-merit-algorithm',
   (ALG, '''  for (auto i = merit_buffer_.size() - 1; i > 0; i--) {
    merit_buffer_.at(i) = merit_buffer_.at(i - 1);
  }
  merit_buffer_.at(0) = x;
''', '''  std::rotate(merit_buffer_.begin(), merit_buffer_.end() - 1, merit_buffer_.end());
  merit_buffer_[0] = x;
'''))
rf('alg-insert-merit-loop',
   (ALG, '''  for (auto i = merit_buffer_.size() - 1; i > 0; i--) {
    merit_buffer_.at(i) = merit_buffer_.at(i - 1);
  }
  merit_buffer_.at(0) = x;
''', '''  double carried = x;
  for (std::size_t i = 0; i < merit_buffer_.size(); ++i) {
    std::swap(merit_buffer_[i], carried);
  }
'''))
rf('alg-infeasibility-switch',
   (ALG, '''  typename Feasibility::FeasibilityStatus feas =
      feasibility_->CheckFeasibility(x, opts_.infeas_tol);
  if (feas == Feasibility::FeasibilityStatus::FEASIBLE) {
    return ExitFlag::SUCCESS;
  } else if (feas == Feasibility::FeasibilityStatus::PRIMAL_INFEASIBLE) {
    return ExitFlag::PRIMAL_INFEASIBLE;
  } else if (feas == Feasibility::FeasibilityStatus::DUAL_INFEASIBLE) {
    return ExitFlag::DUAL_INFEASIBLE;
  } else {
    return ExitFlag::PRIMAL_DUAL_INFEASIBLE;
  }
''', '''  using Status = typename Feasibility::FeasibilityStatus;
  switch (feasibility_->CheckFeasibility(x, opts_.infeas_tol)) {
    case Status::FEASIBLE:
      return ExitFlag::SUCCESS;
    case Status::PRIMAL_INFEASIBLE:
      return ExitFlag::PRIMAL_INFEASIBLE;
    case Status::DUAL_INFEASIBLE:
      return ExitFlag::DUAL_INFEASIBLE;
    default:
      return ExitFlag::PRIMAL_DUAL_INFEASIBLE;
  }
'''))
rf('alg-update-whole-struct',
   (ALG, '''  opts_.sigma0 = options->sigma0;
  opts_.sigma_min = options->sigma_min;
  opts_.sigma_max = options->sigma_max;
  opts_.alpha = options->alpha;
  opts_.beta = options->beta;
  opts_.eta = options->eta;
  opts_.delta = options->delta;
  opts_.gamma = options->gamma;
  opts_.abs_tol = options->abs_tol;
  opts_.rel_tol = options->rel_tol;
  opts_.stall_tol = options->stall_tol;
  opts_.infeas_tol = options->infeas_tol;
  opts_.inner_tol_max = options->inner_tol_max;
  opts_.inner_tol_min = options->inner_tol_min;
  opts_.max_newton_iters = options->max_newton_iters;
  opts_.max_prox_iters = options->max_prox_iters;
  opts_.max_inner_iters = options->max_inner_iters;
  opts_.max_linesearch_iters = options->max_linesearch_iters;
  opts_.check_feasibility = options->check_feasibility;
  opts_.nonmonotone_linesearch = options->nonmonotone_linesearch;
  opts_.display_level = options->display_level;
  opts_.ValidateOptions();
''', '''  opts_ = *options;
  opts_.ValidateOptions();
'''))
rf('alg-update-local-copy',
   (ALG, '''  opts_.sigma0 = options->sigma0;
''', '''  AlgorithmParameters checked = *options;
  checked.ValidateOptions();
  opts_ = checked;
  return;
  opts_.sigma0 = options->sigma0;
''')) if False else None
rf('alg-validate-helper',
   (ALG, '''inline void AlgorithmParameters::ValidateOptions() {
''', '''namespace {
inline void AtLeast(double lower, double* x) {
  if (*x < lower) {
    *x = lower;
  }
}
}  // namespace

inline void AlgorithmParameters::ValidateOptions() {
'''),
   (ALG, '''  abs_tol = std::max(abs_tol, 1e-14);
  rel_tol = std::max(rel_tol, 0.0);
  stall_tol = std::max(stall_tol, 1e-14);
  infeas_tol = std::max(infeas_tol, 1e-14);
''', '''  AtLeast(1e-14, &abs_tol);
  AtLeast(0.0, &rel_tol);
  AtLeast(1e-14, &stall_tol);
  AtLeast(1e-14, &infeas_tol);
'''))
rf('alg-link-loop',
   (ALG, '''  xk_->LinkData(&qp_data);
  xi_->LinkData(&qp_data);
  dx_->LinkData(&qp_data);
  xp_->LinkData(&qp_data);

  rk_->LinkData(&qp_data);
  ri_->LinkData(&qp_data);
''', '''  for (Variable* x : {xk_, xi_, dx_, xp_}) {
    x->LinkData(&qp_data);
  }
  for (Residual* r : {rk_, ri_}) {
    r->LinkData(&qp_data);
  }
'''))
rf('alg-ctor-initialisers',
   (ALG, '''  xk_ = x1;
  xi_ = x2;
  xp_ = x3;
  dx_ = x4;

  rk_ = r1;
  ri_ = r2;

  linear_solver_ = lin_sol;
  feasibility_ = fcheck;

''', '''  dx_ = x4;
  xp_ = x3;
  xi_ = x2;
  xk_ = x1;
  feasibility_ = fcheck;
  linear_solver_ = lin_sol;
  ri_ = r2;
  rk_ = r1;

'''))
rf('alg-print-helper',
   (ALG, '''    switch (eflag) {
      case ExitFlag::SUCCESS:
        snprintf(buff, 100, " Success\\n");
        break;
''', '''    switch (eflag) {
      case ExitFlag::SUCCESS: {
        const char* text = " Success\\n";
        snprintf(buff, sizeof(buff), "%s", text);
        break;
      }
'''),
   (ALG, '''  char buff[100];
  if (opts_.display_level == Display::ITER) {
    snprintf(buff, 100, "%12d''', '''  if (opts_.display_level == Display::ITER) {
    const int size = 100;
    char buff[size];
    snprintf(buff, size, "%12d'''))

# ---- residual and variable
rf('res-eigen-idioms',
   (FR, '''  for (int i = 0; i < nv_; i++) {
    v_(i) = std::min(x.y()(i), x.v()(i));
  }
''', '''  v_ = x.y().cwiseMin(x.v());
'''),
   (FR, '''  for (int i = 0; i < nv_; i++) {
    v_(i) = alpha_ * v_(i) +
            (1 - alpha_) * std::max(0.0, x.y()(i)) * std::max(0.0, x.v()(i));
  }
''', '''  v_ = alpha_ * v_ +
       (1 - alpha_) *
           x.y().cwiseMax(0.0).cwiseProduct(x.v().cwiseMax(0.0));
'''))
rf('res-stationarity-helper',
   (FR, '''  // r.z = H*z + f + G'*l + A'*v + sigma*(z-zbar)
  z_.setConstant(0.0);
  data_->axpyf(1.0, &z_);
  data_->gemvH(x.z(), 1.0, 1.0, &z_);
  data_->gemvGT(x.l(), 1.0, 1.0, &z_);
  data_->gemvAT(x.v(), 1.0, 1.0, &z_);
  z_.noalias()''', '''  // r.z = H*z + f + G'*l + A'*v + sigma*(z-zbar)
  Stationarity(x);
  z_.noalias()'''),
   (FR, '''  // r.z = H*z + f + G'*l + A'*v
  z_.setConstant(0.0);
  data_->axpyf(1.0, &z_);
  data_->gemvH(x.z(), 1.0, 1.0, &z_);
  data_->gemvGT(x.l(), 1.0, 1.0, &z_);
  data_->gemvAT(x.v(), 1.0, 1.0, &z_);
''', '''  Stationarity(x);
'''),
   (FR, '''bool FullResidual::SameSize(''', '''void FullResidual::Stationarity(const FullVariable& x) {
  // z <- H*z + f + G'*l + A'*v
  data_->gemvH(x.z(), 1.0, 0.0, &z_);
  data_->gemvGT(x.l(), 1.0, 1.0, &z_);
  data_->gemvAT(x.v(), 1.0, 1.0, &z_);
  data_->axpyf(1.0, &z_);
}

bool FullResidual::SameSize('''),
   (C + 'full_residual.h', '  void NullDataCheck() const;', '  void Stationarity(const FullVariable& x);\n  void NullDataCheck() const;'))
rf('res-update-norms',
   (FR, '''    v_(i) = pfb(ys, x.v()(i), alpha_);
  }
  znorm_ = z_.norm();
  lnorm_ = l_.norm();
  vnorm_ = v_.norm();
''', '''    v_(i) = pfb(ys, x.v()(i), alpha_);
  }
  UpdateNorms();
'''),
   (FR, '''            (1 - alpha_) * std::max(0.0, x.y()(i)) * std::max(0.0, x.v()(i));
  }
  znorm_ = z_.norm();
  lnorm_ = l_.norm();
  vnorm_ = v_.norm();
''', '''            (1 - alpha_) * std::max(0.0, x.y()(i)) * std::max(0.0, x.v()(i));
  }
  UpdateNorms();
'''),
   (FR, '''bool FullResidual::SameSize(''', '''void FullResidual::UpdateNorms() {
  vnorm_ = std::sqrt(v_.squaredNorm());
  lnorm_ = l_.norm();
  znorm_ = std::sqrt(z_.dot(z_));
}

bool FullResidual::SameSize('''),
   (C + 'full_residual.h', '  void NullDataCheck() const;', '  void UpdateNorms();\n  void NullDataCheck() const;'))
rf('res-merit-squares',
   (FR, '''  const double temp = this->Norm();
  return 0.5 * temp * temp;
''', '''  return 0.5 * (znorm_ * znorm_ + lnorm_ * lnorm_ + vnorm_ * vnorm_);
'''))
rf('res-pfb-branches',
   (FR, '''  double fb = a + b - sqrt(a * a + b * b);
  return alpha * fb + (1.0 - alpha) * std::max(0.0, a) * std::max(0.0, b);
''', '''  const double radius = std::sqrt(a * a + b * b);
  const double fb = (a + b) - radius;
  double penalty = 0.0;
  if (a > 0.0 && b > 0.0) {
    penalty = a * b;
  }
  return alpha * fb + (1.0 - alpha) * penalty;
'''))
rf('var-margin-order',
   (FV, '''  y_->setConstant(0.0);
  data_->axpyb(1.0, y_);
  data_->gemvA(*z_, -1.0, 1.0, y_);
''', '''  data_->gemvA(*z_, -1.0, 0.0, y_);
  data_->axpyb(1.0, y_);
'''),
   (FV, '''  *z_ = *x.z_;
  *l_ = *x.l_;
  *v_ = *x.v_;
  *y_ = *x.y_;
  data_ = x.data_;
''', '''  data_ = x.data_;
  *y_ = x.y();
  *v_ = x.v();
  *l_ = x.l();
  *z_ = x.z();
'''),
   (FV, '''void FullVariable::ProjectDuals() { *v_ = v_->cwiseMax(0); }''', '''void FullVariable::ProjectDuals() {
  for (int i = 0; i < nv_; ++i) {
    (*v_)(i) = std::max((*v_)(i), 0.0);
  }
}'''),
   (FV, '#include <Eigen/Dense>\n', '#include <Eigen/Dense>\n#include <algorithm>\n'),
   (FV, '''  const double t1 = z_->norm();
  const double t2 = l_->norm();
  const double t3 = v_->norm();

  return sqrt(t1 * t1 + t2 * t2 + t3 * t3);
''', '''  return sqrt(z_->squaredNorm() + l_->squaredNorm() + v_->squaredNorm());
'''))
rf('var-axpy-shifted',
   (FV, '''  // y <- y + a*(x.y - b)
  y_->noalias() += a * (*x.y_);
  data_->axpyb(-a, y_);
''', '''  // y <- y + a*(x.y - b)
  data_->axpyb(-a, y_);
  *y_ += a * x.y();
'''))
# ---- feasibility
rf('feas-split',
   (FF, '''  double w = x.z().lpNorm<Eigen::Infinity>();
  bool dual_feasible = true;
  if ((d1 <= w * tol) && (d2 <= tol * w) && (d3 <= tol * w) && (d4 < 0) &&
      (w > 1e-14)) {
    dual_feasible = false;
  }
''', '''  const double w = x.z().lpNorm<Eigen::Infinity>();
  const double bound = tol * w;
  const bool is_ray = (d1 <= bound) && (d2 <= bound) && (d3 <= bound);
  const bool dual_feasible = !(is_ray && d4 < 0 && w > 1e-14);
'''),
   (FF, '''  if (primal_feasible && dual_feasible) {
    return FeasibilityStatus::FEASIBLE;
  } else if (primal_feasible && !dual_feasible) {
    return FeasibilityStatus::DUAL_INFEASIBLE;
  } else if (!primal_feasible && dual_feasible) {
    return FeasibilityStatus::PRIMAL_INFEASIBLE;
  } else {
    return FeasibilityStatus::BOTH;
  }
''', '''  if (primal_feasible) {
    return dual_feasible ? FeasibilityStatus::FEASIBLE
                         : FeasibilityStatus::DUAL_INFEASIBLE;
  }
  return dual_feasible ? FeasibilityStatus::PRIMAL_INFEASIBLE
                       : FeasibilityStatus::BOTH;
'''))
rf('feas-abs-max',
   (FF, '  const double d3 = tz_.lpNorm<Eigen::Infinity>();', '  const double d3 = tz_.cwiseAbs().maxCoeff();'),
   (FF, '''  tz_.fill(0.0);
  data_->gemvAT(x.v(), 1.0, 1.0, &tz_);
  data_->gemvGT(x.l(), 1.0, 1.0, &tz_);
''', '''  data_->gemvGT(x.l(), 1.0, 0.0, &tz_);
  data_->gemvAT(x.v(), 1.0, 1.0, &tz_);
'''),
   (FF, '''  const double p2 = tl_.dot(x.l()) + tv_.dot(x.v());
''', '''  double p2 = x.v().dot(tv_);
  p2 += x.l().dot(tl_);
'''))
rf('feas-two-functions',
   (FF, '''  double w = x.z().lpNorm<Eigen::Infinity>();
  bool dual_feasible = true;
  if ((d1 <= w * tol) && (d2 <= tol * w) && (d3 <= tol * w) && (d4 < 0) &&
      (w > 1e-14)) {
    dual_feasible = false;
  }
''', '''  double w = x.z().lpNorm<Eigen::Infinity>();
  const bool dual_feasible = [&]() {
    if (!(d1 <= w * tol)) return true;
    if (!(d2 <= tol * w)) return true;
    if (!(d3 <= tol * w)) return true;
    return !(d4 < 0 && w > 1e-14);
  }();
'''))
# ---- dense solver
rf('dense-loops',
   (DS, '''  const auto& H = data_->H_;
  const auto& G = data_->G_;
  const auto& A = data_->A_;

  // E = H + sigma I + A'*diag(Gamma(x))*A
  E_ = H + sigma * Eigen::MatrixXd::Identity(nz_, nz_);
''', '''  const auto& H = data_->H_;
  const auto& G = data_->G_;
  const auto& A = data_->A_;

  // E = H + sigma I + A'*diag(Gamma(x))*A
  E_ = H;
  E_.diagonal().array() += sigma;
'''),
   (DS, '''  ldlt_.compute(K_);
  Eigen::ComputationInfo status = ldlt_.info();
  if (status != Eigen::Success) {
    return false;
  } else {
    return true;
  }
''', '''  ldlt_.compute(K_);
  return ldlt_.info() == Eigen::Success;
'''))
rf('dense-barrier-helper',
   (DS, '''  Eigen::Vector2d pfb_gradient;
  for (int i = 0; i < nv_; i++) {
    const double ys = x.y(i) + sigma * (x.v(i) - xbar.v(i));
    pfb_gradient = PFBGradient(ys, x.v(i));
    gamma_(i) = pfb_gradient(0);
    mus_(i) = pfb_gradient(1) + sigma * pfb_gradient(0);
    Gamma_(i) = gamma_(i) / mus_(i);
  }
''', '''  for (int i = 0; i < nv_; ++i) {
    const double vi = x.v(i);
    const double shifted_margin = x.y(i) + sigma * (vi - xbar.v(i));
    const Eigen::Vector2d g = PFBGradient(shifted_margin, vi);
    gamma_(i) = g.x();
    mus_(i) = g.y() + sigma * g.x();
  }
  Gamma_ = gamma_.cwiseQuotient(mus_);
'''),
   (DS, '''  r2_ = r.v().cwiseQuotient(mus_);
  // r1_.noalias() = r.z() - A.transpose() * r2_;
  r1_.segment(0, nz_).noalias() = r.z() - A.transpose() * r2_;
  r1_.segment(nz_, nl_) = -r.l();
''', '''  r2_ = r.v().array() / mus_.array();
  r1_.head(nz_) = r.z();
  r1_.head(nz_).noalias() -= A.transpose() * r2_;
  r1_.tail(nl_) = -r.l();
'''),
   (DS, '''  x->z() = r1_.segment(0, nz_);
  x->l() = r1_.segment(nz_, nl_);
''', '''  x->l() = r1_.tail(nl_);
  x->z() = r1_.head(nz_);
'''))
rf('dense-step-order',
   (DS, '''  r2_.noalias() = A * x->z();
  r2_.noalias() = gamma_.asDiagonal() * r2_;
  r2_.noalias() += r.v();
  x->v() = r2_.cwiseQuotient(mus_);

  // y = b - Az
  x->y() = b - A * x->z();
''', '''  r2_.noalias() = A * x->z();

  // y = b - Az
  x->y() = b - r2_;

  for (int i = 0; i < nv_; i++) {
    x->v()(i) = (r.v()(i) + gamma_(i) * r2_(i)) / mus_(i);
  }
'''))
rf('dense-gradient',
   (DS, '''  Eigen::Vector2d v;
  if (r < zero_tolerance_) {
    v(0) = alpha_ * (1.0 - d);
    v(1) = alpha_ * (1.0 - d);

  } else if ((a > 0) && (b > 0)) {
    v(0) = alpha_ * (1.0 - a / r) + (1.0 - alpha_) * b;
    v(1) = alpha_ * (1.0 - b / r) + (1.0 - alpha_) * a;

  } else {
    v(0) = alpha_ * (1.0 - a / r);
    v(1) = alpha_ * (1.0 - b / r);
  }

  return v;
''', '''  if (r < zero_tolerance_) {
    const double e = alpha_ * (1.0 - d);
    return Eigen::Vector2d(e, e);
  }

  Eigen::Vector2d v(alpha_ * (1.0 - a / r), alpha_ * (1.0 - b / r));
  if ((a > 0) && (b > 0)) {
    v(0) += (1.0 - alpha_) * b;
    v(1) += (1.0 - alpha_) * a;
  }
  return v;
'''))
# ---- Riccati
rf('riccati-inverse-helper',
   (RS, '''    Linv_ = MatrixXd::Identity(nx_, nx_);
    L_[i].triangularView<Eigen::Lower>().solveInPlace(Linv_);
    L_[i].triangularView<Eigen::Lower>().transpose().solveInPlace(Linv_);
    M_[i].triangularView<Eigen::Lower>() = Q_[i] + Linv_;
''', '''    InvertCholesky(L_[i], &Linv_);
    M_[i].triangularView<Eigen::Lower>() = Q_[i] + Linv_;
'''),
   (RS, '''  Linv_ = MatrixXd::Identity(nx_, nx_);
  L_[N_].triangularView<Eigen::Lower>().solveInPlace(Linv_);
  L_[N_].triangularView<Eigen::Lower>().transpose().solveInPlace(Linv_);
''', '''  InvertCholesky(L_[N_], &Linv_);
'''),
   (RS, '''using VectorXd = Eigen::VectorXd;
using MatrixXd = Eigen::MatrixXd;
''', '''using VectorXd = Eigen::VectorXd;
using MatrixXd = Eigen::MatrixXd;

namespace {
// out <- inv(L*L')
void InvertCholesky(const MatrixXd& L, MatrixXd* out) {
  out->setIdentity(L.rows(), L.cols());
  L.triangularView<Eigen::Lower>().solveInPlace(*out);
  L.triangularView<Eigen::Lower>().transpose().solveInPlace(*out);
}
}  // namespace
'''))
rf('riccati-vector-solve-helper',
   (RS, '''  L_[N_].triangularView<Eigen::Lower>().solveInPlace(tl_);
  L_[N_].triangularView<Eigen::Lower>().transpose().solveInPlace(tl_);
  tl_ *= -1.0;
''', '''  CholeskySolve(L_[N_], tl_);
  tl_ = -tl_;
'''),
   (RS, '''  SG_[N_].triangularView<Eigen::Lower>().solveInPlace(tu_);
  SG_[N_].triangularView<Eigen::Lower>().transpose().solveInPlace(tu_);
''', '''  CholeskySolve(SG_[N_], tu_);
'''),
   (RS, '''using MatrixXd = Eigen::MatrixXd;
''', '''using MatrixXd = Eigen::MatrixXd;

namespace {
// x <- inv(L*L')*x
void CholeskySolve(const MatrixXd& L, Eigen::Ref<VectorXd> x) {
  L.triangularView<Eigen::Lower>().solveInPlace(x);
  L.triangularView<Eigen::Lower>().adjoint().solveInPlace(x);
}
}  // namespace
'''))
rf('riccati-eliminate',
   (RS, '''  r1_ = r.z_;
  r3_ = r.v_.cwiseQuotient(mus_);  // r3_ is used as a temp here
  data_->gemvAT(r3_, -1.0, 1.0, &r1_);
  r2_ = -r.l_;
''', '''  r2_ = r.l_;
  r2_ *= -1.0;
  for (int i = 0; i < nv_; ++i) {
    r3_(i) = r.v_(i) / mus_(i);
  }
  r1_ = r.z_;
  data_->gemvAT(r3_, -1.0, 1.0, &r1_);
'''),
   (RS, '''  VectorXd& dv = dx->v();
  dv = r.v_;
  // r3_ = A*dz, r3_ is being used as a temp.
  data_->gemvA(dx->z(), 1.0, 0.0, &r3_);
  dv += gamma_.asDiagonal() * r3_;
  dv = dv.cwiseQuotient(mus_);
''', '''  // r3_ = A*dz, r3_ is being used as a temp.
  data_->gemvA(dx->z(), 1.0, 0.0, &r3_);
  dx->v() = (r.v_ + gamma_.cwiseProduct(r3_)).cwiseQuotient(mus_);
'''))
rf('riccati-backward-loop',
   (RS, '  for (int i = N_ - 1; i >= 0; i--) {\n    // Solve SG', '  for (int k = 0; k < N_; k++) {\n    const int i = N_ - 1 - k;\n    // Solve SG'))
rf('riccati-barrier-loop',
   (RS, '''    const double ys = x.y(i) + sigma * (x.v(i) - xbar.v(i));
    temp = PFBGradient(ys, x.v(i));

    gamma_(i) = temp(0);
    mus_(i) = temp(1) + sigma * temp(0);
    Gamma_(i) = gamma_(i) / mus_(i);
  }
''', '''    const double dvi = x.v(i) - xbar.v(i);
    temp = PFBGradient(x.y(i) + sigma * dvi, x.v(i));
    const double g = temp(0);
    const double m = temp(1) + sigma * g;

    mus_(i) = m;
    gamma_(i) = g;
    Gamma_(i) = g / m;
  }
'''),
   (RS, '''    Q_[i].triangularView<Eigen::Lower>() =
        data_->Q_(i) + sigma * MatrixXd::Identity(nx_, nx_);
    R_[i].triangularView<Eigen::Lower>() =
        data_->R_(i) + sigma * MatrixXd::Identity(nu_, nu_);
    S_[i] = data_->S_(i);
''', '''    S_[i] = data_->S_(i);
    R_[i] = data_->R_(i);
    R_[i].diagonal().array() += sigma;
    Q_[i] = data_->Q_(i);
    Q_[i].diagonal().array() += sigma;
'''))
# ---- data
rf('mpc-scale-helper',
   (MD, '''  if (b == 0.0) {
    y->fill(0.0);
  } else if (b != 1.0) {
    (*y) *= b;
  }
''', '''  Scale(b, y);
'''),
   (MD, '''using MatrixXd = Eigen::MatrixXd;
''', '''namespace {
// y <- b*y, overwrites y if b is zero.
void Scale(double b, Eigen::VectorXd* y) {
  if (b == 0.0) {
    y->setZero();
    return;
  }
  if (b != 1.0) {
    *y *= b;
  }
}
}  // namespace

using MatrixXd = Eigen::MatrixXd;
'''), all=True)
rf('mpc-general-only',
   (MD, '''    if (a == 1.0) {
      yi.noalias() += E * xi + L * ui;
    } else if (a == -1.0) {
      yi.noalias() -= E * xi + L * ui;
    } else {
      yi += a * E.lazyProduct(xi);
      yi += a * L.lazyProduct(ui);
    }
''', '''    yi.noalias() += a * (E * xi);
    yi.noalias() += a * (L * ui);
'''),
   (MD, '''  w.col(0) += -a * x0_;

  for (int i = 1; i < N_ + 1; i++) {
    w.col(i) += -a * c_(i - 1);
  }
''', '''  w.col(0) -= a * x0_;

  for (int i = 0; i < N_; i++) {
    w.col(i + 1) -= a * c_(i);
  }
'''))
rf('mpc-segments',
   (MD, '''  // Create reshaped view of the input vector.
  Map w(y->data(), nx_ + nu_, N_ + 1);

  for (int i = 0; i < N_ + 1; i++) {
    auto xi = w.block(0, i, nx_, 1);
    auto ui = w.block(nx_, i, nu_, 1);

    xi.noalias() += a * q_(i);
    ui.noalias() += a * r_(i);
  }
''', '''  const int stride = nx_ + nu_;
  for (int i = 0; i <= N_; i++) {
    y->segment(i * stride, nx_) += a * q_(i);
    y->segment(i * stride + nx_, nu_) += a * r_(i);
  }
'''))
rf('mpc-validate-helper',
   (MD, '''  const int nx = Q_.rows();
  if (x0_.size() != nx) {
    throw std::runtime_error("Size mismatch in x0 input to MpcData.");
  }
  if (Q_.cols() != nx) {
    throw std::runtime_error("Size mismatch in Q input to MpcData.");
  }
''', '''  const int nx = Q_.rows();
  const auto require = [](bool fine, const std::string& name) {
    if (!fine) {
      throw std::runtime_error("Size mismatch in " + name +
                               " input to MpcData.");
    }
  };
  require(x0_.size() == nx, "x0");
  require(Q_.cols() == nx, "Q");
'''),
   (MD, '#include <stdexcept>\n', '#include <stdexcept>\n#include <string>\n'))
rf('mpc-lengths',
   (MD, '''  bool OK = true;
  const int N = Q_.length();''', '''  const int N = Q_.length();'''),
   (MD, '''  OK = OK && N == R_.length();
  OK = OK && N == S_.length();
  OK = OK && N == q_.length();
  OK = OK && N == r_.length();
  OK = OK && (N - 1) == A_.length();
  OK = OK && (N - 1) == B_.length();
  OK = OK && (N - 1) == c_.length();
  OK = OK && N == E_.length();
  OK = OK && N == L_.length();
  OK = OK && N == d_.length();
  if (!OK) {
''', '''  const bool stages_agree = R_.length() == N && S_.length() == N &&
                            q_.length() == N && r_.length() == N &&
                            E_.length() == N && L_.length() == N &&
                            d_.length() == N;
  const bool dynamics_agree = A_.length() == N - 1 && B_.length() == N - 1 &&
                              c_.length() == N - 1;
  if (!stages_agree || !dynamics_agree) {
'''))
rf('dense-data-products',
   (DDC, '''    *y = a * H_ * x;  // y may be uninitialized
  } else {
    *y = a * H_ * x + b * (*y);
  }
''', '''    y->noalias() = a * (H_ * x);  // y may be uninitialized
    return;
  }
  *y *= b;
  y->noalias() += a * (H_ * x);
'''),
   (DDC, '{ *y += a * f_; }', '{ y->noalias() += a * f_; }'))
rf('seq-index-helper',
   (MS, '''    if (k < 0 || k >= N_) {
      throw std::out_of_range("Bad indexing in MatrixSequence");
    }
    return Eigen::Map<Eigen::MatrixXd>(data() + k * nr_ * nc_, nr_, nc_);
''', '''    return Eigen::Map<Eigen::MatrixXd>(data() + Offset(k), nr_, nc_);
'''),
   (MS, '''    if (k < 0 || k >= N_) {
      throw std::out_of_range("Bad indexing in MatrixSequence");
    }
    return Eigen::Map<const Eigen::MatrixXd>(data() + k * nr_ * nc_, nr_, nc_);
''', '''    return Eigen::Map<const Eigen::MatrixXd>(data() + Offset(k), nr_, nc_);
'''),
   (MS, '''  double* data() { return data_.data(); }
''', '''  int Offset(int k) const {
    const bool inside = 0 <= k && k < N_;
    if (!inside) {
      throw std::out_of_range("Bad indexing in MatrixSequence");
    }
    return k * (nr_ * nc_);
  }
  double* data() { return data_.data(); }
'''))
rf('seq-initialisers',
   (MS, '''  MapMatrixSequence(const MatrixSequence& A) : data_(A.data()) {
    N_ = A.length();
    nr_ = A.rows();
    nc_ = A.cols();
    nel_ = N_ * nr_ * nc_;
  }
''', '''  MapMatrixSequence(const MatrixSequence& A)
      : data_(A.data()),
        N_(A.length()),
        nr_(A.rows()),
        nc_(A.cols()),
        nel_(A.size()) {}
'''))
# ---- solvers
rf('dense-ctor-initialisers',
   (FD, '''  nz_ = nz;
  nl_ = nl;
  nv_ = nv;

  x1_ = tools::make_unique<FullVariable>(nz_, nl_, nv_);
  x2_ = tools::make_unique<FullVariable>(nz_, nl_, nv_);
  x3_ = tools::make_unique<FullVariable>(nz_, nl_, nv_);
  x4_ = tools::make_unique<FullVariable>(nz_, nl_, nv_);
''', '''  nz_ = nz;
  nl_ = nl;
  nv_ = nv;

  for (auto* x : {&x1_, &x2_, &x3_, &x4_}) {
    *x = tools::make_unique<FullVariable>(nz_, nl_, nv_);
  }
'''))
rf('mpc-ctor-reset',
   (FM, '''  x1_ = tools::make_unique<FullVariable>(nz_, nl_, nv_);
  x2_ = tools::make_unique<FullVariable>(nz_, nl_, nv_);
''', '''  x2_.reset(new FullVariable(nz_, nl_, nv_));
  x1_.reset(new FullVariable(nz_, nl_, nv_));
'''),
   (FM, '''  nz_ = (nx + nu) * (N + 1);
  nl_ = nx * (N + 1);
  nv_ = nc * (N + 1);
''', '''  const int stages = N + 1;
  nl_ = stages * nx;
  nz_ = nl_ + stages * nu;
  nv_ = stages * nc;
'''))
rf('mpc-solve-locals',
   (FMH, '''    ValidateInputSizes(data, *x);
    return algorithm_->Solve(data, &x->z, &x->l, &x->v, &x->y, os);
''', '''    InputVariable& guess = *x;
    ValidateInputSizes(data, guess);
    SolverOut out =
        algorithm_->Solve(data, &guess.z, &guess.l, &guess.v, &guess.y, os);
    return out;
'''),
   (FMH, '''    if (data.N() != N_ || data.nx() != nx_ || data.nu() != nu_ ||
        data.nc() != nc_) {
''', '''    const bool same_size = data.N() == N_ && data.nx() == nx_ &&
                           data.nu() == nu_ && data.nc() == nc_;
    if (!same_size) {
'''))
LS_OLD = '''    t = 1.0;
    for (int j = 0; j < opts_.max_linesearch_iters; j++) {
      // Compute a trial point xp = x + t*dx
      // and evaluate the merit function at xp.
      xp_->Copy(*x);
      xp_->axpy(t, *dx_);
      ri_->InnerResidual(*xp_, *xbar, sigma);
      const double mp = ri_->Merit();

      // Armijo descent check.
      if (mp <= m0 - 2.0 * t * opts_.eta * current_merit) {
        break;
      } else {
        t *= opts_.beta;
      }
    }
'''
def ls_helper(body): return ((ALG, LS_OLD, '    t = Linesearch(*x, *xbar, sigma, m0, current_merit);\n'),
   (ALG, '''// Helper functions *************************************
''', '''// Helper functions *************************************
template <class Variable, class Residual, class LinearSolver, class Feasibility>
double FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::
    Linesearch(const Variable& x, const Variable& xbar, double sigma,
               double reference, double merit) {
''' + body + '}\n\n'),
   (ALG_H, '  void InsertMerit(double x);', '''  double Linesearch(const Variable& x, const Variable& xbar, double sigma,
                    double reference, double merit);
  void InsertMerit(double x);'''))
rf('alg-linesearch-helper-break', *ls_helper('''  double t = 1.0;
  for (int j = 0; j < opts_.max_linesearch_iters; j++) {
    xp_->Copy(x);
    xp_->axpy(t, *dx_);
    ri_->InnerResidual(*xp_, xbar, sigma);
    const double mp = ri_->Merit();
    if (mp <= reference - 2.0 * t * opts_.eta * merit) break;
    t *= opts_.beta;
  }
  return t;
'''))
rf('alg-linesearch-helper-while', *ls_helper('''  double t = 1.0;
  int trials = 0;
  bool accepted = false;
  while (!accepted && trials < opts_.max_linesearch_iters) {
    xp_->Copy(x);
    xp_->axpy(t, *dx_);
    ri_->InnerResidual(*xp_, xbar, sigma);
    accepted = ri_->Merit() <= reference - 2.0 * t * opts_.eta * merit;
    if (!accepted) t *= opts_.beta;
    ++trials;
  }
  return t;
'''))
rf('alg-trial-helper', (ALG, '''      xp_->Copy(*x);
      xp_->axpy(t, *dx_);
      ri_->InnerResidual(*xp_, *xbar, sigma);
      const double mp = ri_->Merit();
''', '''      const double mp = TrialMerit(*x, *xbar, t, sigma);
'''), (ALG, '''// Helper functions *************************************
''', '''// Helper functions *************************************
template <class Variable, class Residual, class LinearSolver, class Feasibility>
double FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::
    TrialMerit(const Variable& x, const Variable& xbar, double t,
               double sigma) {
  xp_->Copy(x);
  xp_->axpy(t, *dx_);
  ri_->InnerResidual(*xp_, xbar, sigma);
  return ri_->Merit();
}

'''), (ALG_H, '  void InsertMerit(double x);', '''  double TrialMerit(const Variable& x, const Variable& xbar, double t,
                    double sigma);
  void InsertMerit(double x);'''))
rf('alg-inner-done-flag',
   (ALG, '  for (int i = 0; i < opts_.max_inner_iters; i++) {', '  bool done = false;\n  for (int i = 0; !done && i < opts_.max_inner_iters; i++) {'),
   (ALG, '''      PrintDetailedFooter(tol, *ri_, os);
      break;
    } else {
      PrintDetailedLine(i, t, *ri_, os);
    }
''', '''      PrintDetailedFooter(tol, *ri_, os);
      done = true;
      continue;
    }
    PrintDetailedLine(i, t, *ri_, os);
'''))
rf('alg-newton-step-helper',
   (ALG, '''    const bool initialize_flag = linear_solver_->Initialize(*x, *xbar, sigma);
    if (initialize_flag != true) {
      throw std::runtime_error(
          "In FBstabAlgorithm::Solve: LinearSolver::Initialize failed.");
    }
    ri_->Negate();

    const bool solve_flag = linear_solver_->Solve(*ri_, dx_);
    if (solve_flag != true) {
      throw std::runtime_error(
          "In FBstabAlgorithm::Solve: LinearSolver::Solve failed.");
    }
    newton_iters_++;
''', '''    ComputeNewtonStep(*x, *xbar, sigma);
'''), (ALG, '''// Helper functions *************************************
''', '''// Helper functions *************************************
template <class Variable, class Residual, class LinearSolver, class Feasibility>
void FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::
    ComputeNewtonStep(const Variable& x, const Variable& xbar, double sigma) {
  if (!linear_solver_->Initialize(x, xbar, sigma)) {
    throw std::runtime_error(
        "In FBstabAlgorithm::Solve: LinearSolver::Initialize failed.");
  }
  ri_->Negate();
  if (!linear_solver_->Solve(*ri_, dx_)) {
    throw std::runtime_error(
        "In FBstabAlgorithm::Solve: LinearSolver::Solve failed.");
  }
  ++newton_iters_;
}

'''), (ALG_H, '  void InsertMerit(double x);', '''  void ComputeNewtonStep(const Variable& x, const Variable& xbar,
                         double sigma);
  void InsertMerit(double x);'''))
rf('alg-subproblem-solved-helper',
   (ALG, '''    if ((Ei <= tol && Eo < current_outer_residual) ||
        (Ei <= opts_.inner_tol_min)) {
''', '''    if (SubproblemSolved(Ei, Eo, tol, current_outer_residual)) {
'''), (ALG, '''// Helper functions *************************************
''', '''// Helper functions *************************************
template <class Variable, class Residual, class LinearSolver, class Feasibility>
bool FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::
    SubproblemSolved(double inner, double outer, double tol,
                     double previous) const {
  if (inner <= opts_.inner_tol_min) return true;
  return inner <= tol && outer < previous;
}

'''), (ALG_H, '  void InsertMerit(double x);', '''  bool SubproblemSolved(double inner, double outer, double tol,
                        double previous) const;
  void InsertMerit(double x);'''))
rf('alg-evaluate-helper',
   (ALG, '''    rk_->PenalizedNaturalResidual(*xk_);
    Ek = rk_->Norm();
''', '''    Ek = OuterResidual(*xk_);
'''), (ALG, '''    rk_->PenalizedNaturalResidual(*x);
    Eo = rk_->Norm();
''', '''    Eo = OuterResidual(*x);
'''), (ALG, '''// Helper functions *************************************
''', '''// Helper functions *************************************
template <class Variable, class Residual, class LinearSolver, class Feasibility>
double FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::
    OuterResidual(const Variable& x) {
  rk_->PenalizedNaturalResidual(x);
  return rk_->Norm();
}

'''), (ALG_H, '  void InsertMerit(double x);', '''  double OuterResidual(const Variable& x);
  void InsertMerit(double x);'''))
rf('alg-while-true-inner',
   (ALG, '  for (int i = 0; i < opts_.max_inner_iters; i++) {', '  int i = 0;\n  while (true) {\n    if (i >= opts_.max_inner_iters) break;'),
   (ALG, '    x->axpy(t, *dx_);  // x <- x + t*dx\n', '    x->axpy(t, *dx_);  // x <- x + t*dx\n    i++;\n'))
rf('alg-outer-do-while',
   (ALG, '  for (int k = 0; k < opts_.max_prox_iters; k++) {', '  do {'),
   (ALG, '  }  // end proximal loop', '  } while (prox_iters_ < opts_.max_prox_iters);'))
rf('alg-outer-count-in-condition',
   (ALG, '  for (int k = 0; k < opts_.max_prox_iters; k++) {', '  while (prox_iters_ < opts_.max_prox_iters) {'))
rf('alg-step-helper',
   (ALG, '''    dx_->Copy(*xi_);
    dx_->axpy(-1.0, *xk_);
    if (opts_''', '''    Difference(*xi_, *xk_, dx_);
    if (opts_'''), (ALG, '''// Helper functions *************************************
''', '''// Helper functions *************************************
template <class Variable, class Residual, class LinearSolver, class Feasibility>
void FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::
    Difference(const Variable& a, const Variable& b, Variable* d) {
  d->Copy(a);
  d->axpy(-1.0, b);
}

'''), (ALG_H, '  void InsertMerit(double x);', '''  static void Difference(const Variable& a, const Variable& b, Variable* d);
  void InsertMerit(double x);'''))
rf('alg-tolerance-min-max',
   (ALG, '''    inner_tol = tools::saturate(inner_tol * opts_.delta, opts_.inner_tol_min,
                                std::max(Ek, opts_.inner_tol_min));
''', '''    const double cap = std::max(Ek, opts_.inner_tol_min);
    inner_tol = std::min(std::max(opts_.delta * inner_tol, opts_.inner_tol_min), cap);
'''))
rf('alg-merit-window-index',
   (ALG, '''  for (auto i = merit_buffer_.size() - 1; i > 0; i--) {
    merit_buffer_.at(i) = merit_buffer_.at(i - 1);
  }
  merit_buffer_.at(0) = x;
''', '''  double carry = x;
  for (double& m : merit_buffer_) {
    const double old = m;
    m = carry;
    carry = old;
  }
'''))
