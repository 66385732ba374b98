C = 'fbstab/components/'
ALG = 'fbstab/fbstab_algorithm-impl.h'
EDITS = []
def bug(name, checks, *edits, **k): EDITS.append(dict(name=name, checks=checks.split(), edits=edits, **k))
def keep(name, checks, *edits, **k): EDITS.append(dict(name=name, checks=checks.split(), edits=edits, keep=True, **k))
FR = C + 'full_residual.cc'
bug('res-stale-vnorm', 'C07', (FR, "            (1 - alpha_) * std::max(0.0, x.y()(i)) * std::max(0.0, x.v()(i));\n  }\n  znorm_ = z_.norm();\n  lnorm_ = l_.norm();\n  vnorm_ = v_.norm();", "            (1 - alpha_) * std::max(0.0, x.y()(i)) * std::max(0.0, x.v()(i));\n  }\n  znorm_ = z_.norm();\n  lnorm_ = l_.norm();"))
bug('res-sign-prox-l', 'C07', (FR, 'l_.noalias() += sigma * (x.l() - xbar.l());', 'l_.noalias() -= sigma * (x.l() - xbar.l());'))
bug('res-pfb-max', 'C07', (FR, 'alpha * fb + (1.0 - alpha) * std::max(0.0, a) * std::max(0.0, b)', 'alpha * fb + (1.0 - alpha) * std::max(0.0, a * b)'))
keep('res-hypot-reorder', 'C07', (FR, 'double fb = a + b - sqrt(a * a + b * b);\n  return alpha * fb + (1.0 - alpha) * std::max(0.0, a) * std::max(0.0, b);', 'const double r = std::sqrt(b * b + a * a);\n  double out = (1.0 - alpha) * std::max(a, 0.0) * std::max(b, 0.0);\n  out += alpha * (a - r + b);\n  return out;'))
keep('res-helper-norms', 'C07', (FR, '  z_.setConstant(a);\n  l_.setConstant(a);\n  v_.setConstant(a);\n  znorm_ = z_.norm();\n  lnorm_ = l_.norm();\n  vnorm_ = v_.norm();', '  z_.fill(a);\n  l_ = Eigen::VectorXd::Constant(nl_, a);\n  for (int i = nv_ - 1; i >= 0; --i) v_[i] = a;\n  znorm_ = std::sqrt(z_.squaredNorm());\n  lnorm_ = std::sqrt(l_.dot(l_));\n  vnorm_ = v_.norm();'))
MD = C + 'mpc_data.cc'
RS = C + 'riccati_linear_solver.cc'
DS = C + 'dense_cholesky_solver.cc'
bug('ok-llt5', 'C17', (RS, 'llt5(SG_[N_]);\n  FBSTAB_LLT_CHECK(llt5);', 'llt5(SG_[N_]);'))
bug('ok-llt2-wrong', 'C17', (RS, 'FBSTAB_LLT_CHECK(llt2);', 'FBSTAB_LLT_CHECK(llt1);'))
bug('ok-init-first-only', 'C17', (ALG, 'if (initialize_flag != true) {', 'if (initialize_flag != true && i == 0) {'))
bug('ok-solve-break', 'C17', (ALG, 'if (solve_flag != true) {\n      throw std::runtime_error(\n          "In FBstabAlgorithm::Solve: LinearSolver::Solve failed.");', 'if (solve_flag != true) {\n      newton_iters_++; break;'))
keep('ok-flags-combined', 'C17', (RS, '  FBSTAB_LLT_CHECK(llt4);', '  const bool ok4 = (llt4.info() == Eigen::Success);'), (RS, '  FBSTAB_LLT_CHECK(llt5);\n', '  const bool ok5 = (llt5.info() == Eigen::Success);\n  if (!(ok4 && ok5)) return false;\n'))
# dense Newton step
bug('nd-gamma-drop-product', 'C09', (DS, 'v(0) = alpha_ * (1.0 - a / r) + (1.0 - alpha_) * b;', 'v(0) = alpha_ * (1.0 - a / r);'))
bug('nd-mu-b', 'C09', (DS, 'v(1) = alpha_ * (1.0 - b / r) + (1.0 - alpha_) * a;', 'v(1) = alpha_ * (1.0 - b / r) + (1.0 - alpha_) * b;'))
bug('nd-mus-nosigma', 'C09', (DS, 'pfb_gradient(1) + sigma * pfb_gradient(0)', 'pfb_gradient(1) + pfb_gradient(0)'))
bug('nd-rl-sign', 'C09', (DS, 'r1_.segment(nz_, nl_) = -r.l();', 'r1_.segment(nz_, nl_) = r.l();'))
bug('nd-K-sigma-block', 'C09', (DS, '-sigma * Eigen::MatrixXd::Identity(nl_, nl_)', '-Eigen::MatrixXd::Identity(nl_, nl_)'))
bug('nd-margin-b', 'C09', (DS, 'x->y() = b - A * x->z();', 'x->y() = -A * x->z();'))
bug('nd-tolerance', 'C09', (DS, 'if (r < zero_tolerance_) {', 'if (r < 0.1) {'))
bug('nd-sign-case', 'C09', (DS, '(a > 0) && (b > 0)', '(a > 0) || (b > 0)'))
bug('nd-ys', 'C09', (DS, 'sigma * (x.v(i) - xbar.v(i))', 'sigma * (x.v(i) + xbar.v(i))'))
keep('nd-keep-hypot', 'C09', (DS, 'const double r = sqrt(a * a + b * b);', 'const double r = std::hypot(a, b);'))
keep('nd-keep-ge', 'C09', (DS, '(a > 0) && (b > 0)', '!(a <= 0 || b <= 0)'))
keep('nd-keep-inline', 'C09 C17', (DS, '    Gamma_(i) = gamma_(i) / mus_(i);\n', ''), (DS, '  // B is used to avoid temporaries\n', '  for (int j = 0; j < nv_; ++j) Gamma_(j) = gamma_(j) / mus_(j);\n'))
keep('nd-keep-blocks', 'C09 C17', (DS, 'K_.block(0, 0, nz_, nz_) = E_;\n  K_.block(nz_, 0, nl_, nz_) = G;', 'K_.bottomLeftCorner(nl_, nz_) = G;\n  K_.topLeftCorner(nz_, nz_) = E_;\n  K_.topRightCorner(nz_, nl_) = G.transpose();'))
keep('nd-keep-fb-factor', 'C09', (DS, '  v(0) = alpha_ * (1.0 - a / r) + (1.0 - alpha_) * b;\n    v(1) = alpha_ * (1.0 - b / r) + (1.0 - alpha_) * a;\n\n  } else {\n    v(0) = alpha_ * (1.0 - a / r);\n    v(1) = alpha_ * (1.0 - b / r);\n  }', '  v(0) = (1.0 - alpha_) * b; v(1) = (1.0 - alpha_) * a;\n  } else {\n    v.setZero();\n  }\n  if (r >= zero_tolerance_) {\n    v(0) += alpha_ - alpha_ * a / r;\n    v(1) += alpha_ - alpha_ * b / r;\n  }'))
# Riccati
bug('nr-S-missing-barrier', 'C10', (RS, 'S_[i].noalias() += Li.transpose() * Etemp_;', 'if (i < N_) S_[i].noalias() += Li.transpose() * Etemp_;'))
bug('nr-P-sign', 'C10', (RS, 'P_[i] -= data_->B_(i);', 'P_[i] += data_->B_(i);'))
bug('nr-L-nosigma', 'C10', (RS, 'L_[i + 1] = sigma * MatrixXd::Identity(nx_, nx_);', 'L_[i + 1].setZero();'))
bug('nr-L-noAM', 'C10', (RS, '    L_[i + 1].noalias() += AM_[i] * AM_[i].transpose();\n', ''))
bug('nr-L0', 'C10', (RS, 'L_[0] = sqrt(sigma) *', 'L_[0] = sigma *'))
bug('nr-th-r2', 'C10', (RS, '    th_[i + 1].noalias() += rlp;\n', ''))
bug('nr-xN-SM', 'C10', (RS, 'tx_.noalias() += SM_[N_].transpose() * tu_;', 'tx_.noalias() -= SM_[N_].transpose() * tu_;'))
bug('nr-ui-transpose', 'C10', (RS, '    SG_[i].triangularView<Eigen::Lower>().transpose().solveInPlace(ui);\n', '    SG_[i].triangularView<Eigen::Lower>().solveInPlace(ui);\n'))
bug('nr-h-ru-stage', 'C10', (RS, 'tu_.noalias() += r1.block(nx_, i, nu_, 1);', 'tu_.noalias() += r1.block(nx_, 0, nu_, 1);'))
bug('nr-AM-stage', 'C10', (RS, 'xi.noalias() += AM_[i].transpose() * dl.col(i + 1);', 'xi.noalias() += AM_[0].transpose() * dl.col(i + 1);'))
bug('nr-R-sigma', 'C10', (RS, 'data_->R_(i) + sigma * MatrixXd::Identity(nu_, nu_)', 'data_->R_(i)'))
UT = 'tools/utilities.h'
# ---- C11
bug('op-drop-field', 'C11', (ALG, '  opts_.max_inner_iters = options->max_inner_iters;\n', ''))
bug('op-swap-field', 'C11', (ALG, 'opts_.rel_tol = options->rel_tol;', 'opts_.rel_tol = options->abs_tol;'))
bug('op-sigma-order', 'C11', (ALG, '  sigma_max = tools::saturate(sigma_max, 1e-6, 1e2);\n  sigma_min = tools::saturate(sigma_min, 1e-13, 1e-8);\n  sigma0 = tools::saturate(sigma0, sigma_min, sigma_max);\n', '  sigma0 = tools::saturate(sigma0, sigma_min, sigma_max);\n  sigma_max = tools::saturate(sigma_max, 1e-6, 1e2);\n  sigma_min = tools::saturate(sigma_min, 1e-13, 1e-8);\n'))
bug('op-alpha-range', 'C11', (ALG, 'alpha = tools::saturate(alpha, 0.001, 0.999);', 'alpha = tools::saturate(alpha, 0.001, 1.0);'))
bug('op-no-validate', 'C11', (ALG, '  opts_.ValidateOptions();\n', ''))
bug('op-saturate-min', 'C11', (UT, 'return std::max(temp, a);', 'return temp;'))
bug('op-preset', 'C11', (ALG, '  sigma_max = 1e-2;\n', '  sigma_max = 1e-5;\n'))
bug('op-saturate-strict', 'C11', (UT, 'if (a > b) {', 'if (a >= b) {'))
keep('op-keep-cond', 'C11', (ALG, 'abs_tol = std::max(abs_tol, 1e-14);', 'if (abs_tol < 1e-14) abs_tol = 1e-14;'))
keep('op-keep-saturate', 'C11', (UT, '  const T temp = std::min(x, b);\n  return std::max(temp, a);', '  if (x < a) return a;\n  return x > b ? b : x;'))
keep('op-keep-copy', 'C11', (ALG, '  opts_.sigma0 = options->sigma0;\n', '  const AlgorithmParameters& o = *options;\n  opts_.sigma0 = o.sigma0;\n'))
keep('op-keep-clamp-helper', 'C11', (ALG, '  max_prox_iters = std::max(max_prox_iters, 1);\n', '  max_prox_iters = max_prox_iters < 1 ? 1 : max_prox_iters;\n'))
# ---- C18
bug('pr-type', 'C18', (ALG, '"Newton iterations: %d out of %d\\n", newton_iters,', '"Newton iterations: %d out of %d\\n", t,'))
bug('pr-count', 'C18', (ALG, '"%10s  %10s  %10s  %10s  %10s\\n", "Iter", "Step Size",', '"%10s  %10s  %10s  %10s  %10s  %10s\\n", "Iter", "Step Size",'))
bug('pr-size', 'C18', (ALG, 'char buff[100];\n  if (opts_.display_level >= Display::FINAL) {', 'char buff[80];\n  if (opts_.display_level >= Display::FINAL) {'))
bug('pr-off', 'C18', (ALG, 'if (opts_.display_level >= Display::FINAL) {', 'if (opts_.display_level >= Display::OFF) {'))
bug('pr-stdout', 'C18', (ALG, '    snprintf(buff, 100, "\\n");\n    os.Print(buff);', '    printf("\\n");'))
bug('pr-fmtstr', 'C18', ('tools/output_stream.h', 'printf("%s", message);', 'printf(message);'))
bug('pr-swap', 'C18', (ALG, 'PrintFinal(prox_iters, newton_iters, e, r,', 'PrintFinal(newton_iters, prox_iters, e, r,'))
bug('pr-flag-text', 'C18', (ALG, 'snprintf(buff, 100, " Dual Infeasibility\\n");', 'snprintf(buff, 100, " Primal Infeasibility\\n");'))
bug('pr-uninit', 'C18', (ALG, '        snprintf(buff, 100, " Iteration limit exceeded\\n");\n', ''))
bug('pr-influence', 'C18', (ALG, 'if (opts_.display_level == Display::ITER_DETAILED) {\n    snprintf(buff, 100, "%10d', 'if (opts_.display_level == Display::ITER_DETAILED && iter < 100) {\n    combo_tol_ = 0.0;\n    snprintf(buff, 100, "%10d'), ('fbstab/fbstab_algorithm.h', 'double combo_tol_', 'mutable double combo_tol_'))
bug('pr-break', 'C18', (ALG, '    } else {\n      PrintDetailedLine(i, t, *ri_, os);', '    } else {\n      if (opts_.display_level == Display::ITER && i > 3) break;\n      PrintDetailedLine(i, t, *ri_, os);'))
bug('pr-residual', 'C18', (ALG, 'r.l_norm(), r.v_norm(), combo_tol_);', 'r.z_norm(), r.v_norm(), combo_tol_);'))
keep('pr-keep-early', 'C18', (ALG, '''  if (opts_.display_level == Display::ITER_DETAILED) {
    snprintf(buff, 100, "%10d''', '''  if (opts_.display_level != Display::ITER_DETAILED) return;
  {
    snprintf(buff, 100, "%10d'''))
keep('pr-keep-sizeof', 'C18', (ALG, 'snprintf(buff, 100,', 'snprintf(buff, sizeof(buff),'), all=True)
keep('pr-keep-helper', 'C18', (ALG, '''    snprintf(buff, 100, "\\nOptimization completed!  Exit code:");
    os.Print(buff);
''', '''    os.Print("\\nOptimization completed!  Exit code:");
'''))
FV = 'fbstab/components/full_variable.cc'; MS = 'tools/matrix_sequence.h'
# ---- C19
bug('st-static-scratch', 'C19', (MD, 'void MpcData::gemvH(const Eigen::VectorXd& x, double a, double b,\n                    Eigen::VectorXd* y) const {\n', 'static int calls_to_gemvH = 0;\nvoid MpcData::gemvH(const Eigen::VectorXd& x, double a, double b,\n                    Eigen::VectorXd* y) const {\n  calls_to_gemvH++;\n'))
bug('st-static-local', 'C19', (FV, 'void FullVariable::ProjectDuals() { *v_ = v_->cwiseMax(0); }', 'void FullVariable::ProjectDuals() {\n  static VectorXd t;\n  t = v_->cwiseMax(0);\n  *v_ = t;\n}'))
bug('st-static-const-local', 'C19', (ALG, '  combo_tol_ = opts_.abs_tol +', '  static const double first_tol = opts_.abs_tol;\n  combo_tol_ = first_tol +'))
bug('st-thread-local', 'C19', (FV, 'void FullVariable::ProjectDuals() { *v_ = v_->cwiseMax(0); }', 'void FullVariable::ProjectDuals() {\n  thread_local VectorXd t;\n  t = v_->cwiseMax(0);\n  *v_ = t;\n}'))
bug('st-mutable', 'C19', ('fbstab/components/mpc_data.h', '  double forcing_norm_ = 0.0;', '  mutable double forcing_norm_ = 0.0;'))
bug('st-copyable', 'C19', ('fbstab/components/full_residual.h', 'FBSTAB_NO_COPY_NO_MOVE_NO_ASSIGN(FullResidual)', 'FBSTAB_DEFAULT_COPY_AND_MOVE_AND_ASSIGN(FullResidual)'))
bug('st-const-write', 'C19', (MD, '  // Create reshaped views of input and output vectors.\n', '  const_cast<MpcData*>(this)->forcing_norm_ = 0.0;\n'))
bug('st-rand', 'C19', (FV, 'z_->setConstant(a);', 'z_->setConstant(a);\n  if (a < 0) z_->setRandom();'))
keep('st-keep-const', 'C19', (FV, 'void FullVariable::ProjectDuals() { *v_ = v_->cwiseMax(0); }', 'static const double kZero = 0.0;\nvoid FullVariable::ProjectDuals() {\n  static constexpr double zero = 0.0;\n  *v_ = v_->cwiseMax(zero + kZero);\n}'))
keep('st-keep-msg', 'C19', (FV, 'void FullVariable::NullDataCheck() const {', 'namespace {\nstatic const char* const kWho = "FullVariable";\nstatic const char* kUnlinked = "data";\n}\nvoid FullVariable::NullDataCheck() const {\n  if (kWho == nullptr || kUnlinked == nullptr) return;'))
FD = 'fbstab/fbstab_dense.cc'; FM = 'fbstab/fbstab_mpc.cc'
# ---- C21
bug('gr-shared-var', 'C21', (FD, 'x1_.get(), x2_.get(), x3_.get(), x4_.get()', 'x1_.get(), x2_.get(), x2_.get(), x4_.get()'))
bug('gr-shared-res', 'C21', (FM, 'r1_.get(), r2_.get(),', 'r1_.get(), r1_.get(),'))
bug('gr-local-owner', 'C21', (FD, '  linear_solver_ = tools::make_unique<DenseCholeskySolver>(nz_, nl_, nv_);\n', '  auto linear_solver_ = tools::make_unique<DenseCholeskySolver>(nz_, nl_, nv_);\n'))
bug('gr-dims', 'C21', (FM, 'r2_ = tools::make_unique<FullResidual>(nz_, nl_, nv_);', 'r2_ = tools::make_unique<FullResidual>(nz_, nv_, nl_);'))
bug('gr-no-linear-alpha', 'C21', (ALG, '  linear_solver_->SetAlpha(opts_.alpha);\n', ''))
bug('gr-no-res-alpha', 'C21', (ALG, '  ri_->SetAlpha(opts_.alpha);\n', ''))
bug('gr-no-link', 'C21', (ALG, '  feasibility_->LinkData(&qp_data);\n', ''))
bug('gr-link-once', 'C21', (C + 'full_residual.h', 'data_ = data;', 'if (data_ == nullptr) data_ = data;'))
bug('gr-reset', 'C21', (FM, '  opts_ = DefaultOptions();', '  opts_ = DefaultOptions();\n  x4_.reset(new FullVariable(nz_, nl_, nv_));'))
keep('gr-keep-order', 'C21', (FD, '''  x1_ = tools::make_unique<FullVariable>(nz_, nl_, nv_);
  x2_ = tools::make_unique<FullVariable>(nz_, nl_, nv_);
''', '''  x2_.reset(new FullVariable(nz_, nl_, nv_));
  x1_ = std::unique_ptr<FullVariable>(new FullVariable(nz_, nl_, nv_));
'''), (ALG, '''  rk_->SetAlpha(opts_.alpha);
  ri_->SetAlpha(opts_.alpha);
''', '''  for (Residual* r : {ri_, rk_}) r->SetAlpha(opts_.alpha);
'''))
# ---- C04
bug('rs-merit', 'C04', (ALG, '  merit_buffer_.fill(0.0);  // Clear the buffer of past merit function values.\n', ''))
bug('rs-newton', 'C04', (ALG, '  newton_iters_ = 0;\n', ''))
bug('rs-prox', 'C04', (ALG, '  prox_iters_ = 0;\n', ''))
bug('rs-tol', 'C04', (ALG, '  combo_tol_ = opts_.abs_tol +', '  if (combo_tol_ <= 0.0) combo_tol_ = opts_.abs_tol +'))
bug('rs-dx', 'C01', (ALG, '  dx_->Fill(1.0);\n', ''))
bug('rs-ri', 'C04', (ALG, '  ri_->Fill(0.0);\n', ''))
bug('rs-link', 'C21', (ALG, '  linear_solver_->LinkData(&qp_data);\n', ''))
bug('rs-lin', 'C04', (RS, '    S_[i] = data_->S_(i);\n', '    if (i < N_) S_[i] = data_->S_(i);\n'))
bug('rs-gamma', 'C04', (RS, 'for (int i = 0; i < nv_; i++) {\n    const double ys', 'for (int i = 0; i + 1 < nv_; i++) {\n    const double ys'))
bug('rs-norm', 'C04', (FR, 'znorm_ = z_.norm();', 'if (znorm_ <= 0) znorm_ = z_.norm();'))
keep('rs-keep-buf', 'C04', (ALG, '  merit_buffer_.fill(0.0);  // Clear the buffer of past merit function values.\n', '  for (auto& m : merit_buffer_) m = 0;\n'))
keep('rs-keep-cache', 'C04', (ALG, '  newton_iters_ = 0;\n  prox_iters_ = 0;\n', '  prox_iters_ = newton_iters_ = 0;\n'))
# ---- C16
FDH = 'fbstab/fbstab_dense.h'; FMH = 'fbstab/fbstab_mpc.h'
bug('mp-offset', 'C16', (MS, 'return Eigen::Map<const Eigen::MatrixXd>(data_ + k * nr_ * nc_, nr_, nc_);', 'return Eigen::Map<const Eigen::MatrixXd>(data_ + k * nr_ * nr_, nr_, nc_);'))
bug('mp-const-offset', 'C16', (MS, 'return Eigen::Map<const Eigen::MatrixXd>(data() + k * nr_ * nc_, nr_, nc_);', 'return Eigen::Map<const Eigen::MatrixXd>(data() + k * nc_, nr_, nc_);'))
bug('mp-mut-transposed', 'C16', (MS, 'return Eigen::Map<Eigen::MatrixXd>(data() + k * nr_ * nc_, nr_, nc_);', 'return Eigen::Map<Eigen::MatrixXd>(data() + k * nr_ * nc_, nc_, nr_);'))
bug('mp-ref-swap', 'C16', (FM, '      E(*E_),\n      L(*L_),', '      E(*E_),\n      L(*E_),'))
bug('mp-ref-swap2', 'C16', (FM, '      A(*A_),\n', '      A(*Q_),\n'))
bug('mp-dense-ref', 'C16', (FD, 'h(h_->data(), h_->size()),', 'h(f_->data(), h_->size()),'))
bug('mp-var-ref', 'C16', (FD, '      l(l_->data(), l_->size()),\n      v(v_->data(), v_->size()),\n      y(y_->data(), y_->size()) {}', '      l(l_->data(), l_->size()),\n      v(v_->data(), v_->size()),\n      y(v_->data(), v_->size()) {}'))
bug('mp-var-ref-mpc', 'C16', (FM, ': z(z_), l(l_), v(v_), y(y_) {}', ': z(z_), l(l_), v(y_), y(v_) {}'))
bug('mp-fill', 'C16', (FM, '  v.fill(a);\n  y.fill(a);', '  v.fill(a);\n  v.fill(a);'))
bug('mp-map-length', 'C16', (MS, '    N_ = A.length();\n    nr_ = A.rows();\n    nc_ = A.cols();', '    N_ = A.length();\n    nr_ = A.cols();\n    nc_ = A.rows();'))
bug('mp-shared-copy', 'C16', (MS, 'std::vector<double> data_;\n};', 'std::shared_ptr<std::vector<double>> data_;\n};'), (MS, '#include <vector>', '#include <memory>\n#include <vector>'), (MS, 'data_.resize(nel_);', 'data_ = std::make_shared<std::vector<double>>(nel_);'), (MS, 'double* data() { return data_.data(); }\n  const double* data() const { return data_.data(); }', 'double* data() { return data_->data(); }\n  const double* data() const { return data_->data(); }'))
bug('mp-write-copy', 'C16', (ALG, '  *z = x.z();\n  *l = x.l();\n  *v = x.v();\n  *y = x.y();', '  *z = x.z();\n  *l = x.l();\n  *v = x.v();\n  Eigen::VectorXd t = x.y();\n'))
bug('mp-setx0', 'C16', (FMH, 'new (&x0) Eigen::Map<const Eigen::VectorXd>(x0_.data(), x0_.size());', 'if (x0.size() > 0) new (&x0) Eigen::Map<const Eigen::VectorXd>(x0_.data(), x0_.size());'))
keep('mp-keep-unique', 'C16 C21', (FD, 'x1_ = tools::make_unique<FullVariable>(nz_, nl_, nv_);', 'x1_ = std::unique_ptr<FullVariable>(new FullVariable(nz_, nl_, nv_));'))
keep('mp-keep-order', 'C16', (MS, 'data_ + k * nr_ * nc_, nr_, nc_);', 'data_ + nc_ * (nr_ * k), nr_, nc_);'), (FM, '      Q(*Q_),\n' if False else ': Q(*Q_),\n      R(*R_),', ': Q(MapMatrixSequence(*Q_)),\n      R(R_->data(), R_->length(), R_->rows(), R_->cols()),'), (MS, '''  MapMatrixSequence(const MatrixSequence& A) : data_(A.data()) {
    N_ = A.length();
    nr_ = A.rows();
    nc_ = A.cols();
    nel_ = N_ * nr_ * nc_;
  }''', '''  MapMatrixSequence(const MatrixSequence& A)
      : data_(A.data()), N_(A.length()), nr_(A.rows()), nc_(A.cols()), nel_(A.size()) {}'''))
# ---- C15
bug('da-write-early', 'C15', (ALG, '  CopyIntoVariable(*z0, *l0, *v0, *y0, xk_);\n', '  CopyIntoVariable(*z0, *l0, *v0, *y0, xk_);\n  *y0 = xk_->y();\n'))
bug('da-write-throw', 'C15', (ALG, '    // x(k+1) = x(i)\n    xk_->Copy(*xi_);', '    // x(k+1) = x(i)\n    WriteVariable(*xi_, z0, l0, v0, y0);\n    xk_->Copy(*xi_);'))
bug('da-const-cast', 'C15', ('fbstab/components/dense_data.cc', 'void DenseData::axpyb(double a, Eigen::VectorXd *y) const { *y += a * b_; }', 'void DenseData::axpyb(double a, Eigen::VectorXd *y) const {\n  const_cast<double*>(b_.data())[0] *= 1.0000001;\n  *y += a * b_;\n}'))
bug('da-fill-guess', 'C15', (FD, '  z.fill(a);\n  l.fill(a);\n  v.fill(a);\n  y.fill(a);\n}', '  z.fill(a);\n  l.fill(a);\n  v.fill(a);\n  y.fill(a);\n}') , (ALG, '  x->v() = v;\n  x->InitializeConstraintMargin();', '  x->v() = v;\n  const_cast<InputVector&>(v) = v.cwiseMax(0.0);\n  x->InitializeConstraintMargin();'))
bug('da-ref-scale', 'C15', (FD, '      b(b_->data(), b_->size()) {}', '      b(b_->data(), b_->size()) {\n  Eigen::Map<Eigen::MatrixXd> M(const_cast<double*>(H_->data()), H_->rows(), H_->cols());\n  M += 1e-12 * Eigen::MatrixXd::Identity(H.rows(), H.cols());\n}'))
bug('da-options', 'C15', (FD, '  algorithm_->UpdateParameters(&options);', '  const_cast<Options&>(options).ValidateOptions();\n  algorithm_->UpdateParameters(&options);'))
bug('da-res-negated', 'C15', (DS, 'r1_.segment(nz_, nl_) = -r.l();', 'r1_.segment(nz_, nl_) = -r.l();\n  const_cast<FullResidual&>(r).l() *= -1.0;'))
bug('da-x-gemv', 'C15', ('fbstab/components/dense_data.cc', '*y = a * G_.transpose() * x;', 'const_cast<Eigen::VectorXd&>(x) *= a;\n    *y = G_.transpose() * x;'))
keep('da-keep-order', 'C15', (ALG, '''  SolverOut output = PrepareOutput(ExitFlag::MAXITERATIONS, prox_iters_,
                                   newton_iters_, *rk_, start_time, E0, os);
  WriteVariable(*xk_, z0, l0, v0, y0);
  return output;''', '''  WriteVariable(*xk_, z0, l0, v0, y0);
  return PrepareOutput(ExitFlag::MAXITERATIONS, prox_iters_,
                                   newton_iters_, *rk_, start_time, E0, os);'''))
keep('da-keep-self', 'C15', (ALG, '  x->v() = v;\n  x->InitializeConstraintMargin();', '  x->v() = v;\n  const InputVector& w = v;\n  if (w.size() > 0) x->v()(0) = w(0);\n  x->InitializeConstraintMargin();'))
# ---- C14
bug('ix-loop-le', 'C14', (FR, '  // rv = min(y,v)\n  for (int i = 0; i < nv_; i++) {', '  // rv = min(y,v)\n  for (int i = 0; i <= nv_; i++) {'))
bug('ix-loop-le2', 'C14', (DS, '  for (int i = 0; i < nv_; i++) {\n    const double ys', '  for (int i = 0; i < nv_ + nl_; i++) {\n    const double ys'))
bug('ix-nl0-coeff', 'C14', (C + 'full_feasibility.cc', '  const double p2 = tl_.dot(x.l()) + tv_.dot(x.v());', '  const double p2 = tl_.dot(x.l()) + tv_.dot(x.v()) + 0.0 * tl_(0);'))
bug('ix-nl0-max', 'C14', (C + 'full_feasibility.cc', 'const double d2 = tl_.lpNorm<Eigen::Infinity>();', 'const double d2 = tl_.cwiseAbs().maxCoeff();'))
bug('ix-shape-feas', 'C14', (C + 'full_feasibility.cc', '  tl_.resize(nl_);', '  tl_.resize(nv_);'))
bug('ix-alias-lazy', 'C14', (DS, '  r2_.noalias() = gamma_.asDiagonal() * r2_;', '  r2_.noalias() = gamma_.asDiagonal() * r2_;\n  r2_.head(1).noalias() = A.topRows(1) * x->z();\n  r1_.head(nz_).noalias() = K_.topLeftCorner(nz_, nz_) * r1_.head(nz_);'))
bug('ix-alias-ric', 'C14', (RS, '  h_[0].noalias() -= r1.block(0, 0, nx_, 1);', '  h_[0].noalias() -= L_[0] * h_[0];\n  h_[0].noalias() -= r1.block(0, 0, nx_, 1);'))
bug('ix-swap-nx-nu', 'C14', (RS, '    S_[i].resize(nu, nx);', '    S_[i].resize(nx, nu);'), (RS, '    S_[i] = data_->S_(i);\n', '    S_[i].topRows(nu_) = data_->S_(i);\n'))
bug('ix-block-u', 'C14', (RS, 'dz.block(nx_, N_, nu_, 1) = tu_;', 'dz.block(nu_, N_, nu_, 1) = tu_;'))
bug('ix-stage-last', 'C14', (MD, 'w.col(0).noalias() += -a * z.block(0, 0, nx_, 1);', 'w.col(0).noalias() += -a * z.block(0, 0, nu_, 1);'))
bug('ix-stage-N', 'C14', (RS, 'const auto rxp = r1.block(0, i + 1, nx_, 1);', 'const auto rxp = r1.block(0, i + 2, nx_, 1);'))
bug('ix-seq-guard', 'C14 C16', (MS, 'throw std::out_of_range("Bad indexing in MapMatrixSequence");', '(void)0;'), (MD, '  for (int i = 0; i < N_ + 1; i++) {\n    const auto& E = E_(i);', '  for (int i = 0; i < N_ + 2; i++) {\n    const auto& E = E_(i);'))
bug('ix-out-of-range', 'C14', ('fbstab/components/mpc_data.h', '(i == 0 ? x0_.squaredNorm() : c_(i - 1).squaredNorm())', '(i == 0 ? x0_.squaredNorm() : c_(i).squaredNorm())'))
bug('ix-merit', 'C14', (ALG, 'merit_buffer_.at(i) = merit_buffer_.at(i - 1);', 'merit_buffer_.at(i) = merit_buffer_.at(i + 1);'))
bug('ix-null', 'C14', (ALG, '  feasibility_->LinkData(&qp_data);\n', ''), (C + 'full_feasibility.cc', '  NullDataCheck();\n  if (x.nz_', '  if (x.nz_'))
bug('ix-vec-short', 'C14', (RS, '  h_.resize(N + 1);', '  h_.resize(N);'), (RS, '    h_[i].resize(nx);', '    if (i < N) h_[i].resize(nx);'))
keep('ix-keep-range', 'C14', (RS, 'dz.block(0, N_, nx_, 1) = tx_;', 'dz.col(N_).head(nx_) = tx_;'), (FR, '  // rv = min(y,v)\n  for (int i = 0; i < nv_; i++) {', '  // rv = min(y,v)\n  for (int i = nv_; i-- > 0;) {'), (DS, '  x->z() = r1_.segment(0, nz_);\n  x->l() = r1_.segment(nz_, nl_);', '  x->z() = r1_.head(nz_);\n  x->l() = r1_.tail(nl_);'))
keep('ix-keep-while', 'C14', (C + 'full_feasibility.cc', '  const double p2 = tl_.dot(x.l()) + tv_.dot(x.v());', '  const double p2 = tl_.dot(x.l()) + tv_.dot(x.v()) + (nl_ > 0 ? 0.0 * tl_(0) : 0.0);'))
keep('ix-keep-alias', 'C14', (DS, '  r2_.noalias() = gamma_.asDiagonal() * r2_;\n', '  r2_ = gamma_.cwiseProduct(r2_);\n'), (RS, '  dv = dv.cwiseQuotient(mus_);\n', '  for (int i = 0; i != nv_; ++i) dv(i) /= mus_(i);\n'))
bug('ix-dangle-eval', 'C14', (RS, '    const auto rlp = r2.col(i + 1);', '    const auto rlp = (-r2).eval().col(i + 1) * -1.0;'))
bug('ix-dangle-vec', 'C14', (DS, '  x->y() = b - A * x->z();', '  const auto t = b - Eigen::VectorXd(A * x->z());\n  x->y() = t;'))
bug('ix-dangle-ptr', 'C14', (MD, 'Map w(y->data(), nc_, N_ + 1);', 'const double* p = Eigen::VectorXd(*y).data();\n  Map w(y->data(), nc_, N_ + 1);\n  if (p == nullptr) return;'))
keep('ix-keep-auto', 'C14', (DS, '  x->y() = b - A * x->z();', '  const Eigen::VectorXd& Az = A * x->z();\n  const auto t = b - Az;\n  x->y() = t;'))
# ---- C13
DD = C + 'dense_data.h'; FF = C + 'full_feasibility.cc'
bug('va-nv-zero', 'C13', (FD, 'if (nz <= 0 || nv <= 0 || nl < 0) {', 'if (nz <= 0 || nl < 0) {'), (FV, 'if (nz <= 0 || nl < 0 || nv <= 0) {', 'if (nz <= 0 || nl < 0) {'), (FR, 'if (nz <= 0 || nl < 0 || nv <= 0) {', 'if (nz <= 0 || nl < 0) {'), (FF, 'if (nz <= 0 || nl < 0 || nv <= 0) {', 'if (nz <= 0 || nl < 0) {'), (DS, 'if (nz <= 0 || nv <= 0 || nl < 0) {', 'if (nz <= 0 || nl < 0) {'))
bug('va-nl-zero', 'C13', (FF, 'if (nz <= 0 || nl < 0 || nv <= 0) {', 'if (nz <= 0 || nl <= 0 || nv <= 0) {'))
bug('va-ctor-and', 'C13', (FV, 'if (nz <= 0 || nl < 0 || nv <= 0) {', 'if (nz <= 0 || (nl < 0 && nv <= 0)) {'))
bug('va-mpc-N', 'C13', (FM, 'if (N < 1 || nx < 1', 'if (N < 2 || nx < 1'))
bug('va-mpc-nc', 'C13', (RS, 'if (N <= 0 || nx <= 0 || nu <= 0 || nc <= 0) {', 'if (N <= 0 || nx <= 0 || nu <= 0) {'))
bug('va-vec4', 'C13', (FM, ': FBstabMpc(s(0), s(1), s(2), s(3)) {}', ': FBstabMpc(std::max(1.0, s(0)), s(1), s(2), s(3)) {}'))
bug('va-null-one', 'C13', (ALG, 'if (x1 == nullptr || x2 == nullptr || x3 == nullptr || x4 == nullptr) {', 'if (x1 == nullptr || x2 == nullptr || x3 == nullptr || x3 == nullptr) {'))
bug('va-null-r', 'C13', (ALG, 'if (r1 == nullptr || r2 == nullptr) {', 'if (r1 == nullptr && r2 == nullptr) {'))
bug('va-dense-square', 'C13', (DD, 'if (H->rows() != H->cols() || H->rows() != f->size()) {', 'if (H->cols() != f->size()) {'))
bug('va-dense-h', 'C13', (DD, 'if (G->cols() != H->rows() || G->rows() != h->size()) {', 'if (G->rows() > 0 && (G->cols() != H->rows() || G->rows() != h->size())) {'))
bug('va-dense-size', 'C13', (DD, 'if (A->cols() != H->rows() || A->rows() != b->size()) {', 'if (A->size() != H->rows() * b->size()) {'))
bug('va-dense-strict', 'C13', (DD, 'if (G->cols() != H->rows() || G->rows() != h->size()) {', 'if (G->cols() != H->rows() || G->rows() != h->size() || h->size() > H->rows()) {'))
bug('va-mpc-len', 'C13', (MD, '  OK = OK && (N - 1) == c_.length();\n', '  OK = OK && (N - 1) <= c_.length();\n'))
bug('va-mpc-len2', 'C13', (MD, '  OK = OK && N == L_.length();\n', '  OK = OK || N == L_.length();\n'))
bug('va-mpc-B', 'C13', (MD, '  if (B_.cols() != nu) {', '  if (B_.cols() < nu) {'))
bug('va-mpc-x0', 'C13', (MD, '  if (x0_.size() != nx) {', '  if (x0_.size() < nx) {'))
bug('va-mpc-L', 'C13', (MD, '  if (L_.rows() != nc) {', '  if (L_.size() != nc * nu * N) {'), (MD, '  if (L_.cols() != nu) {', '  if (L_.cols() < 1) {'))
bug('va-solve-data', 'C13', (FDH, 'if (nz_ != data.nz() || nv_ != data.nv() || nl_ != data.nl()) {', 'if (nz_ != data.nz() || nv_ + nl_ != data.nv() + data.nl()) {'))
bug('va-solve-guess', 'C13', (FDH, 'if (nz_ != x.z.size() || x.l.size() != nl_ || nv_ != x.v.size() ||', 'if (nz_ != x.z.size() || x.l.size() < nl_ || nv_ != x.v.size() ||'))
bug('va-solve-mpc-N', 'C13', (FMH, 'if (data.N() != N_ || data.nx() != nx_ || data.nu() != nu_ ||', 'if (data.nx() != nx_ || data.nu() != nu_ ||'))
bug('va-solve-mpc-y', 'C13', (FMH, '        x.y.size() != nv_) {', '        x.y.size() == 0) {'))
bug('va-solve-late', 'C13', (FMH, '    ValidateInputSizes(data, *x);\n    return algorithm_->Solve(data, &x->z, &x->l, &x->v, &x->y, os);', '    SolverOut out = algorithm_->Solve(data, &x->z, &x->l, &x->v, &x->y, os);\n    ValidateInputSizes(data, *x);\n    return out;'))
bug('va-solve-zero', 'C13', (FMH, '    if (x.z.size() != nz_ || x.l.size() != nl_', '    if (x.y.size() != nv_) const_cast<InputVariable&>(x).y.setZero();\n    if (x.z.size() != nz_ || x.l.size() != nl_'))
bug('va-same-size', 'C13', (FV, 'x.nv_ == nv_', 'x.nv_ <= nv_')) if False else None
bug('va-res-same', 'C13', (FR, 'return (x.nz_ == nz_ && x.nl_ == nl_ && x.nv_ == nv_);', 'return (x.nz_ == nz_ && (x.nl_ == nl_ || x.nv_ == nv_));'))
bug('va-sigma-zero', 'C13', (FR, '  if (sigma <= 0) {', '  if (sigma < 0) {'))
bug('va-sigma-mpc', 'C13', (RS, '  if (sigma <= 0) {', '  if (sigma <= -1) {'))
bug('va-unlinked', 'C13', (FR, '  NullDataCheck();\n  // r.z = H*z + f + G\'*l + A\'*v\n', '  // r.z = H*z + f + G\'*l + A\'*v\n'))
bug('va-unlinked-inv', 'C13', (FV, 'void FullVariable::InitializeConstraintMargin() {\n  NullDataCheck();', 'void FullVariable::InitializeConstraintMargin() {\n  if (nl_ > 0) NullDataCheck();'))
bug('va-prod-null', 'C13', (MD, '    throw std::runtime_error("In MpcData::axpyh: y input is null.");', '    return;'))
bug('va-prod-size', 'C13', (MD, '  if (x.size() != nv_ || y->size() != nz_) {', '  if (x.size() != nv_ && y->size() != nz_) {'))
bug('va-map-null', 'C13', (MS, '    if (data == nullptr) {', '    if (data == nullptr && len < 1) {'))
bug('va-seq-rows', 'C13', (MS, '    if (len < 0) {\n      throw std::runtime_error("Negative length input in MatrixSequence");', '    if (len <= 0) {\n      throw std::runtime_error("Negative length input in MatrixSequence");'))
bug('va-seq-index', 'C13', (MS, '''    if (k < 0 || k >= N_) {
      throw std::out_of_range("Bad indexing in MapMatrixSequence");''', '''    if (k < 0 || k > N_) {
      throw std::out_of_range("Bad indexing in MapMatrixSequence");'''))
bug('va-abort', 'C13', (FDH, '''      throw std::runtime_error(
          "In FBstabDense::Solve: mismatch between *this and data dimensions.");''', '      std::abort();'), (FDH, '#include <memory>', '#include <cstdlib>\n#include <memory>'))
bug('va-caught', 'C13', (FDH, '    DenseData data(&qp.H, &qp.f, &qp.G, &qp.h, &qp.A, &qp.b);\n    ValidateInputs(data, *x);', '    DenseData data(&qp.H, &qp.f, &qp.G, &qp.h, &qp.A, &qp.b);\n    try { ValidateInputs(data, *x); } catch (const std::runtime_error&) { if (x->z.size() == 0) throw; }'))
keep('va-keep-forms', 'C13', (FD, 'if (nz <= 0 || nv <= 0 || nl < 0) {', 'const bool fine = nz >= 1 && nv >= 1 && nl > -1;\n  if (!fine) {'),
     (MD, '  OK = OK && (N - 1) == c_.length();\n', '  OK &= (c_.length() + 1 == N);\n'),
     (DD, 'if (H->rows() != H->cols() || H->rows() != f->size()) {', 'const auto n = f->size();\n    if (!(H->cols() == n && H->rows() == n)) {'),
     (FMH, 'if (data.N() != N_ || data.nx() != nx_ || data.nu() != nu_ ||\n        data.nc() != nc_) {', 'const bool same = data.N() == N_ && data.nx() == nx_ && data.nu() == nu_ && data.nc() == nc_;\n    if (!same) {'),
     (FR, '  if (sigma <= 0) {', '  if (!(sigma > 0)) {'))
keep('va-keep-order', 'C13', (RS, '''  if (sigma <= 0) {
    throw std::runtime_error(
        "In RiccatiLinearSolver::Initialize: sigma must be positive.");
  }
  NullDataCheck();''', '''  NullDataCheck();
  if (sigma > 0) {
  } else {
    throw std::invalid_argument("sigma");
  }'''), (MS, '    if (k < 0 || k >= N_) {\n      throw std::out_of_range("Bad indexing in MapMatrixSequence");', '    if (static_cast<unsigned>(k) >= static_cast<unsigned>(N_)) {\n      throw std::out_of_range("Bad indexing in MapMatrixSequence");') if False else (MS, '    if (k < 0 || k >= N_) {\n      throw std::out_of_range("Bad indexing in MapMatrixSequence");', '    const bool inside = 0 <= k && k <= N_ - 1;\n    if (!inside) {\n      throw std::out_of_range("Bad indexing in MapMatrixSequence");'))
