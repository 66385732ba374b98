"""Breaking edits at the algorithm level and in the components it uses."""
from edits import *
FVC = C + 'full_variable.cc'; DDC = C + 'dense_data.cc'; ALG_H = 'fbstab/fbstab_algorithm.h'
SUCC = "      WriteVariable(*xk_, z0, l0, v0, y0);\n      return output;\n    } else {\n"
# C01
bug('s1-tol-no-one', 'C01', (ALG, 'opts_.rel_tol * (1.0 + qp_data.ForcingNorm())', 'opts_.rel_tol * (10.0 + qp_data.ForcingNorm())'))
bug('s1-tol-initial', 'C01', (ALG, '  double E0 = rk_->Norm();\n', '  double E0 = rk_->Norm();\n  combo_tol_ += opts_.rel_tol * E0;\n'))
bug('s1-znorm', 'C01', (ALG, '    Ek = rk_->Norm();\n', '    Ek = std::max(rk_->z_norm(), std::max(rk_->l_norm(), rk_->v_norm()));\n'))
bug('s1-natural', 'C01', (ALG, '    rk_->PenalizedNaturalResidual(*xk_);\n    Ek = rk_->Norm();', '    rk_->NaturalResidual(*xk_);\n    Ek = rk_->Norm();'))
bug('s1-return-xi', 'C01', (ALG, SUCC, SUCC.replace('*xk_', '*xi_')))
bug('s1-inner', 'C01', (ALG, 'if (Ek <= combo_tol_ ||', 'if (Ek <= combo_tol_ || ri_->Norm() <= opts_.abs_tol ||'))
bug('s1-stall-relative', 'C01', (ALG, 'dx_->Norm() <= opts_.stall_tol)', 'dx_->Norm() <= opts_.stall_tol * (1.0 + xk_->Norm()))'))
bug('s1-stall-newton-step', 'C01', (ALG, '    dx_->Copy(*xi_);\n    dx_->axpy(-1.0, *xk_);\n', '    if (opts_.check_feasibility) {\n      dx_->Copy(*xi_);\n      dx_->axpy(-1.0, *xk_);\n    }\n'))
bug('s1-dx-zero', 'C01', (ALG, 'dx_->Fill(1.0);', 'dx_->Fill(0.0);'))
bug('s1-norm-no-v', 'C01', (FVC, 'sqrt(t1 * t1 + t2 * t2 + t3 * t3)', 'sqrt(t1 * t1 + t2 * t2)'), (FVC, '  const double t3 = v_->norm();\n', ''))
bug('s1-flag-at-limit', 'C01', (ALG, 'SolverOut output = PrepareOutput(ExitFlag::MAXITERATIONS, prox_iters_,\n                                   newton_iters_, *rk_, start_time, E0, os);\n  WriteVariable', 'SolverOut output = PrepareOutput(Ek <= combo_tol_ ? ExitFlag::SUCCESS : ExitFlag::MAXITERATIONS, prox_iters_,\n                                   newton_iters_, *rk_, start_time, E0, os);\n  WriteVariable'))
bug('s1-eo-success', 'C01', (ALG, '    // Iteration timeout check.\n', '    if (Eo <= combo_tol_) {\n      SolverOut output = PrepareOutput(ExitFlag::SUCCESS, prox_iters_,\n                                       newton_iters_, *rk_, start_time, E0, os);\n      WriteVariable(*xi_, z0, l0, v0, y0);\n      return output;\n    }\n    // Iteration timeout check.\n'))
# C02
bug('s2-initial-unclamped', 'C02', (ALG, '  double Ek = E0;\n', '  double Ek = E0;\n  E0 = std::max(E0, combo_tol_);\n'))
bug('s2-initial-late', 'C02', (ALG, '    Ek = rk_->Norm();\n    if', '    Ek = rk_->Norm();\n    if (k == 1) E0 = Ek;\n    if'))
bug('s2-ri-reported', 'C02', (ALG, '      SolverOut output = PrepareOutput(ExitFlag::SUCCESS, prox_iters_,\n                                       newton_iters_, *rk_', '      SolverOut output = PrepareOutput(ExitFlag::SUCCESS, prox_iters_,\n                                       newton_iters_, *ri_'))
bug('s2-newton-count-ls', 'C02', (ALG, '        t *= opts_.beta;\n', '        t *= opts_.beta;\n        newton_iters_++;\n'), (ALG, '    newton_iters_++;\n\n    // Linesearch', '\n    // Linesearch'))
bug('s2-newton-count-late', 'C02', (ALG, '    newton_iters_++;\n\n    // Linesearch', '    if (t > 0.5) newton_iters_++;\n\n    // Linesearch'))
bug('s2-prox-on-timeout', 'C02', (ALG, '    // Iteration timeout check.\n', '    // Iteration timeout check.\n    if (newton_iters_ >= opts_.max_newton_iters) prox_iters_++;\n'))
bug('s2-prox-first', 'C02', (ALG, '    xi_->Copy(*xk_);\n    const double Eo', '    xi_->Copy(*xk_);\n    prox_iters_++;\n    const double Eo'), (ALG, '    xk_->Copy(*xi_);\n    prox_iters_++;\n', '    xk_->Copy(*xi_);\n'))
bug('s2-swap-counts', 'C02', (ALG, '  output.newton_iters = newton_iters;\n  output.prox_iters = prox_iters;', '  output.newton_iters = newton_iters_;\n  output.prox_iters = newton_iters > 0 ? prox_iters : newton_iters;'))
bug('s2-residual-znorm', 'C02', (ALG, 'output.residual = r.Norm();', 'output.residual = std::max(r.z_norm(), std::max(r.l_norm(), r.v_norm()));'))
bug('s2-initial-before-margin', 'C02', (ALG, '  xi_->Copy(*xk_);\n  dx_->Fill(1.0);\n\n  rk_->PenalizedNaturalResidual(*xk_);\n', '  xi_->Copy(*xk_);\n  dx_->Fill(1.0);\n  xi_->ProjectDuals();\n  rk_->PenalizedNaturalResidual(*xi_);\n'))
# C03
bug('s3-prox-le', 'C03', (ALG, 'for (int k = 0; k < opts_.max_prox_iters; k++) {', 'for (int k = 0; k <= opts_.max_prox_iters; k++) {'))
bug('s3-ls-le', 'C03', (ALG, 'for (int j = 0; j < opts_.max_linesearch_iters; j++) {', 'for (int j = 0; j <= opts_.max_linesearch_iters; j++) {'))
bug('s3-inner-le', 'C03', (ALG, 'for (int i = 0; i < opts_.max_inner_iters; i++) {', 'for (int i = 0; i <= opts_.max_inner_iters; i++) {'))
bug('s3-inner-while', 'C03', (ALG, 'for (int i = 0; i < opts_.max_inner_iters; i++) {', 'for (int i = 0; t > 0 || i < opts_.max_inner_iters; i++) {'))
bug('s3-newton-no-check', 'C03', (ALG, '    if (newton_iters_ >= opts_.max_newton_iters) {\n      break;\n    }\n', ''))
bug('s3-ls-restart', 'C03', (ALG, '        t *= opts_.beta;\n', '        t *= opts_.beta;\n        if (mp > 1e6 * m0) j--;\n'))
bug('s3-counter-reset', 'C03', (ALG, '  merit_buffer_.fill(0.0);', '  newton_iters_ = 0;\n  merit_buffer_.fill(0.0);'))
bug('s3-prox-retry', 'C03', (ALG, '    xk_->Copy(*xi_);\n    prox_iters_++;\n', '    xk_->Copy(*xi_);\n    prox_iters_++;\n    if (Eo >= Ek) k--;\n'))
# C05
bug('s5-d2-drop', 'C05', (FF, '(d2 <= tol * w) && ', ''))
bug('s5-d4-le', 'C05', (FF, '(d4 < 0)', '(d4 < tol)'))
bug('s5-p1-z', 'C05', (FF, '(p1 <= tol * u)', '(p1 <= tol * std::max(u, w))'))
bug('s5-p2-sign', 'C05', (FF, 'tl_.dot(x.l()) + tv_.dot(x.v())', 'tv_.dot(x.v())'))
bug('s5-d1-abs', 'C05', (FF, 'tv_.maxCoeff()', 'tv_.lpNorm<Eigen::Infinity>()'))
bug('s5-gt-missing', 'C05', (FF, '  data_->gemvGT(x.l(), 1.0, 1.0, &tz_);\n', '  data_->gemvGT(x.l(), 1.0, 0.0, &tz_);\n'))
bug('s5-both-primal', 'C05', (FF, '    return FeasibilityStatus::BOTH;', '    return FeasibilityStatus::PRIMAL_INFEASIBLE;'))
bug('s5-skip-first', 'C05', (ALG, 'if (opts_.check_feasibility) {', 'if (opts_.check_feasibility && k > 0) {'))
bug('s5-ignore-flag', 'C05', (ALG, 'if (opts_.check_feasibility) {', 'if (opts_.check_feasibility || Eo > 1e3 * E0) {'))
bug('s5-return-xi', 'C05', (ALG, 'WriteVariable(*dx_, z0, l0, v0, y0);', 'WriteVariable(*xi_, z0, l0, v0, y0);'))
bug('s5-check-xi', 'C05', (ALG, 'CheckForInfeasibility(*dx_)', 'CheckForInfeasibility(*xi_)'))
bug('s5-tol', 'C05', (ALG, 'CheckFeasibility(x, opts_.infeas_tol)', 'CheckFeasibility(x, opts_.infeas_tol + opts_.abs_tol)'))
bug('s5-swap-flags', 'C05', (ALG, 'PRIMAL_INFEASIBLE) {\n    return ExitFlag::PRIMAL_INFEASIBLE;', 'PRIMAL_INFEASIBLE) {\n    return ExitFlag::DUAL_INFEASIBLE;'))
bug('s5-inf-2norm', 'C05', (FF, 'tz_.lpNorm<Eigen::Infinity>();\n\n  // Compute d4', 'tz_.lpNorm<2>();\n\n  // Compute d4'))
bug('s5-only-improved', 'C05', (ALG, 'if (eflag != ExitFlag::SUCCESS) {', 'if (eflag != ExitFlag::SUCCESS && Eo >= Ek) {'))
# C06
bug('s6-y-not-written', 'C06', (ALG, '  *v = x.v();\n  *y = x.y();', '  *v = x.v();\n  *y = x.y().cwiseMax(0.0);'))
bug('s6-margin-sign', 'C06', (FVC, 'data_->gemvA(*z_, -1.0, 1.0, y_);', 'data_->gemvA(*z_, 1.0, -1.0, y_);'))
bug('s6-copy-no-y', 'C06', (FVC, '  *y_ = *x.y_;\n  data_', '  data_'))
bug('s6-guess-l', 'C06', (ALG, '  x->l() = l;\n  x->v() = v;', '  x->l() = l;\n  x->v() = v.cwiseMax(0.0);'))
bug('s6-guess-zero', 'C06', (ALG, '  x->l() = l;\n', '  x->l().setConstant(0.0);\n'))
bug('s6-mixed', 'C06', (ALG, '        WriteVariable(*xi_, z0, l0, v0, y0);\n        rk_', '        WriteVariable(*xi_, z0, l0, v0, y0);\n        *y0 = xk_->y();\n        rk_'))
bug('s6-linsolve-margin', 'C06 C09', (DS, 'x->y() = b - A * x->z();', 'x->y() = b + A * x->z();'))
# C12
bug('s12-trial-other', 'C12', (ALG, '    x->axpy(t, *dx_);  // x <- x + t*dx', '    x->axpy(std::max(t, 1e-3), *dx_);'))
bug('s12-eta', 'C12', (ALG, '2.0 * t * opts_.eta * current_merit', '2.0 * opts_.eta * current_merit * t * t'))
bug('s12-strictless', 'C12', (ALG, '      if (mp <= m0 - 2.0 * t * opts_.eta * current_merit) {', '      if (mp <= m0) {'))
bug('s12-abs', 'C12', (ALG, 'm0 - 2.0 * t * opts_.eta * current_merit)', 'm0 + 2.0 * t * opts_.eta * current_merit)'))
bug('s12-window', 'C12', (ALG, '    InsertMerit(current_merit);\n', '    if (i % 2 == 0) InsertMerit(current_merit);\n'))
bug('s12-window-after', 'C12', (ALG, '    x->axpy(t, *dx_);  // x <- x + t*dx', '    x->axpy(t, *dx_);\n    InsertMerit(ri_->Merit());'))
bug('s12-window-size', 'C12', (ALG_H, 'std::array<double, kNonMonotoneLineSearch> merit_buffer_ = {', 'std::array<double, kNonMonotoneLineSearch + 1> merit_buffer_ = {'))
bug('s12-flag', 'C12', (ALG, 'opts_.nonmonotone_linesearch ? MaxMerit() : current_merit', 'opts_.nonmonotone_linesearch || i == 0 ? MaxMerit() : 2 * current_merit'))
bug('s12-beta', 'C12', (ALG, 't *= opts_.beta;', 't *= j > 10 ? 0.5 * opts_.beta : opts_.beta;'))
bug('s12-base', 'C12', (ALG, '      xp_->Copy(*x);\n', '      if (j == 0) xp_->Copy(*x);\n'))
bug('s12-merit-natural', 'C12', (ALG, '      ri_->InnerResidual(*xp_, *xbar, sigma);\n      const double mp', '      ri_->InnerResidual(*xp_, *xp_, sigma);\n      const double mp'))
bug('s12-insert-shift', 'C12', (ALG, 'i > 0; i--) {\n    merit_buffer_.at(i) = merit_buffer_.at(i - 1);', 'i > 1; i--) {\n    merit_buffer_.at(i) = merit_buffer_.at(i - 1);'))
bug('s12-merit-norm', 'C12', (FR, 'return 0.5 * temp * temp;', 'return 0.5 * temp;'))
# C20
bug('s20-no-project', 'C20', (ALG, '  x->ProjectDuals();\n', '  if (Eo <= tol) x->ProjectDuals();\n'))
bug('s20-project-min', 'C20', (FVC, 'v_->cwiseMax(0)', 'v_->cwiseMax(-1e-12)'))
bug('s20-project-bar', 'C20', (ALG, '  x->ProjectDuals();\n', '  xbar->ProjectDuals();\n'))
bug('s20-guess-projected', 'C06 C20 C04', (ALG, '  xi_->Copy(*xk_);\n  dx_->Fill(1.0);\n', '  xi_->Copy(*xk_);\n  xk_->ProjectDuals();\n  dx_->Fill(1.0);\n'))
bug('s20-extrapolate', 'C20 C06 C22', (ALG, '    xk_->Copy(*xi_);\n    prox_iters_++;\n', '    xk_->axpy(1.1, *dx_);\n    prox_iters_++;\n'))
bug('s20-residual', 'C02 C20', (ALG, '    rk_->PenalizedNaturalResidual(*xk_);\n    Ek = rk_->Norm();', '    if (k == 0) rk_->PenalizedNaturalResidual(*xk_);\n    Ek = rk_->Norm();'))
# C22
bug('s22-or', 'C22', (ALG, '(Ei <= tol && Eo < current_outer_residual)', '(Ei <= tol || Eo < current_outer_residual)'))
bug('s22-tol-only', 'C22', (ALG, '(Ei <= tol && Eo < current_outer_residual)', '(Ei <= tol && Eo < 2.0 * current_outer_residual)'))
bug('s22-eo-stale', 'C22', (ALG, '    Eo = rk_->Norm();\n\n    // The inner', '    if (i > 0) Eo = rk_->Norm();\n\n    // The inner'))
bug('s22-centre-moves', 'C22', (ALG, 'linear_solver_->Initialize(*x, *xbar, sigma);', 'linear_solver_->Initialize(*x, *x, sigma);'))
bug('s22-centre-xp', 'C22', (ALG, 'SolveProximalSubproblem(xi_, xk_, inner_tol, sigma, Ek, os);', 'SolveProximalSubproblem(xi_, xi_, inner_tol, sigma, Ek, os);'))
bug('s22-sigma', 'C22', (ALG, '    // Solve the proximal subproblem.\n    xi_', '    // Solve the proximal subproblem.\n    if (k > 0) inner_tol = std::max(inner_tol, opts_.inner_tol_max);\n    xi_'))
bug('s22-stall-exit', 'C22', (ALG, '    if (newton_iters_ >= opts_.max_newton_iters) {\n      break;\n    }\n', '    if (newton_iters_ >= opts_.max_newton_iters || (i > 3 && t < 1e-3)) {\n      break;\n    }\n'))
bug('s22-negate-twice', 'C22 C12 C04', (ALG, '    ri_->Negate();\n', '    ri_->Negate();\n    if (i > 5) ri_->Negate();\n'))
bug('s22-ri-wrong', 'C22', (ALG, '    ri_->InnerResidual(*x, *xbar, sigma);\n    double Ei = ri_->Norm();', '    if (i == 0) ri_->InnerResidual(*x, *xbar, sigma);\n    double Ei = ri_->Norm();'))
# C07 / C08
bug('s7-pnr-alpha', 'C07', (FR, '(1 - alpha_) * std::max(0.0, x.y()(i))', '(1 - alpha_) * std::max(0.0, x.y()(i) + v_(i))'))
bug('s7-natural-shift', 'C07', (FR, 'v_(i) = std::min(x.y()(i), x.v()(i));', 'v_(i) = std::abs(x.y()(i)) < std::abs(x.v()(i)) ? x.y()(i) : x.v()(i);'))
bug('s7-ys-order', 'C07', (FR, 'const double ys = x.y()(i) + sigma * (x.v()(i) - xbar.v()(i));', 'const double ys = x.y()(i) - sigma * (x.v()(i) - xbar.v()(i));'))
bug('s7-negate-partial', 'C07 C22', (FR, '  v_ *= -1;\n', '  v_ = v_.cwiseAbs();\n'))
bug('s7-h-sign', 'C07', (FR, '  data_->gemvG(x.z(), -1.0, 1.0, &l_);\n\n  // rv', '  data_->gemvG(x.z(), 1.0, -1.0, &l_);\n\n  // rv'))
bug('s7-pfb-alpha', 'C07', (FR, 'v_(i) = pfb(ys, x.v()(i), alpha_);', 'v_(i) = pfb(x.v()(i), ys, ys > 0 ? alpha_ : 1.0);'))
bug('s8-dense-AT', 'C08', (DDC, '*y = a * A_.transpose() * x + b * (*y);', '*y = a * A_.transpose() * x + *y;'))
bug('s8-axpyf-mpc', 'C08', (MD, 'a * q_', 'q_'))
bug('s22-tol-max', 'C22', (ALG, 'tools::saturate(E0, opts_.inner_tol_min, opts_.inner_tol_max);', 'tools::saturate(E0, opts_.inner_tol_min, 10 * opts_.inner_tol_max);'))
keep('s3-newton-redundant', '', (ALG, '    if (newton_iters_ >= opts_.max_newton_iters) {\n      break;\n    }\n', '    if (i > 0 && newton_iters_ >= opts_.max_newton_iters) {\n      break;\n    }\n'))

# C23
OS = 'tools/output_stream.h'; ACH = 'fbstab/components/abstract_components.h'
bug('s23-cstdio', 'C23', (OS, '#include <cstdio>\n', ''))
bug('s23-print-nonconst', 'C23', (OS, 'void PrintImplementation(const char* message) const {', 'void PrintImplementation(const char* message) {'))
bug('s23-map-explicit', 'C23', (MS, '  MapMatrixSequence(const MatrixSequence& A) : data_', '  explicit MapMatrixSequence(const MatrixSequence& A) : data_'))
bug('s23-map-writable', 'C23', (MS, '  Eigen::Map<const Eigen::MatrixXd> operator()(int k) const {\n    if (k < 0 || k >= N_) {\n      throw std::out_of_range("Bad indexing in MatrixSequence");\n    }\n    return Eigen::Map<const Eigen::MatrixXd>(data() + k * nr_ * nc_, nr_, nc_);', '  Eigen::Map<Eigen::MatrixXd> operator()(int k) const {\n    if (k < 0 || k >= N_) {\n      throw std::out_of_range("Bad indexing in MatrixSequence");\n    }\n    return Eigen::Map<Eigen::MatrixXd>(const_cast<double*>(data()) + k * nr_ * nc_, nr_, nc_);'))
bug('s23-solve-nonconst-data', 'C23', (FDH, 'SolverOut Solve(const InputData& qp, InputVariable* x, const OutStream& os)', 'SolverOut Solve(InputData& qp, InputVariable* x, const OutStream& os)'))
bug('s23-stream-by-mutable', 'C23', (FMH, 'SolverOut Solve(const InputData& qp, InputVariable* x, const OutStream& os)', 'SolverOut Solve(const InputData& qp, InputVariable* x, OutStream& os)'))
bug('s23-setx0-mutable', 'C23', (FMH, 'void SetX0(const Vector& x0_) {', 'void SetX0(Vector& x0_) {'))
bug('s23-solver-by-value-ref', 'C23', (FDH, '    Eigen::Map<const Eigen::MatrixXd> H;', '    Eigen::Map<Eigen::MatrixXd> H;'))
bug('s23-options-private', 'C23', (FMH, '  struct Options : public AlgorithmParameters {};', '  struct Options : private AlgorithmParameters {\n    using AlgorithmParameters::abs_tol;\n    friend class FBstabMpc;\n  };'))
bug('s23-codes', 'C23 C18', (ALG_H, '  DIVERGENCE = 1,', '  DIVERGENCE = -1,'))
bug('s23-header-function', 'C23', (UT, '// Projects x onto [a,b].', 'double Epsilon() { return 1e-16; }\n\n// Projects x onto [a,b].'))
keep('s23-header-inline', 'C23 C24', (UT, '// Projects x onto [a,b].', 'inline double Epsilon() { return 1e-16; }\n\n// Projects x onto [a,b].'))
# C24
bug('s24-copy-variable', 'C24', (ALG, '  xi_->Copy(*xk_);\n  dx_->Fill(1.0);', '  xi_->Copy(*xk_);\n  (void)sizeof(Variable(*xk_));\n  dx_->Fill(1.0);'))
bug('s24-solver-sigma', 'C24', (ALG, '    rk_->PenalizedNaturalResidual(*xk_);\n    Ek = rk_->Norm();', '    rk_->PenalizedNaturalResidual(*xk_);\n    Ek = std::sqrt(rk_->z().squaredNorm() + rk_->l().squaredNorm() + rk_->v().squaredNorm());'))
bug('s24-new-pure', 'C24', (ACH, '  virtual double Merit() const = 0;', '  virtual double Merit() const = 0;\n  virtual double MeritGradient() const { return Merit(); }\n  virtual void Scale(double s) = 0;'), (FDH.replace('fbstab_dense', 'components/full_residual'), '  double Merit() const;', '  double Merit() const;\n  void Scale(double s) { z_ *= s; }'))
# C25
bug('s25-system-clock', 'C25', (ALG_H, 'using clock = std::chrono::steady_clock;', 'using clock = std::chrono::system_clock;'))
bug('s25-ms', 'C25', (ALG, 'output.solve_time = elapsed.count();', 'output.solve_time = 1000.0 * elapsed.count();'))
bug('s25-swapped', 'C25', (ALG, 'elapsed = now - start;', 'elapsed = start - now;'))
bug('s25-cut', 'C25', (ALG, 'std::chrono::duration<double> elapsed = now - start;', 'std::chrono::duration<double> elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(now - start);'))
bug('s25-float-seconds', 'C25', (ALG, 'std::chrono::duration<double> elapsed = now - start;', 'auto elapsed = std::chrono::duration_cast<std::chrono::seconds>(now - start);'))
bug('s25-print-seconds', 'C25 C18', (ALG, 'e, r, 1000.0 * output.solve_time, os)', 'e, r, output.solve_time, os)'))
bug('s25-start-late', 'C25', (ALG, '  time_point now = clock::now();\n', '  time_point now = start;\n'))
keep('s25-helper', 'C25 C18', (ALG, '  time_point now = clock::now();\n  std::chrono::duration<double> elapsed = now - start;\n  output.solve_time = elapsed.count();', '  output.solve_time =\n      std::chrono::duration<double>(clock::now() - start).count();'))
keep('s25-ratio', 'C25 C18', (ALG, '  time_point now = clock::now();\n  std::chrono::duration<double> elapsed = now - start;\n  output.solve_time = elapsed.count();', '  const auto ns = std::chrono::duration_cast<std::chrono::nanoseconds>(\n      clock::now() - start);\n  output.solve_time = 1e-9 * static_cast<double>(ns.count());'))
bug('s11-preset-keeps-rel-tol', 'C11', (ALG, '  rel_tol = 1e-12;\n', ''))
bug('s14-riccati-L-unsized', 'C14', (RS, '  L_.resize(N + 1);\n', ''))
