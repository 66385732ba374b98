"""Behaviour-preserving rewrites of further shapes."""
from refactors import rf
from edits import *
from edits import C
from refactors2 import ALG, ALG_H, FR, FV, FF, DS, RS, MD, DD, SQ, UT, HELP, T4, A4, DECL
from refactors3 import MPC, MPCC, DEN, DENC, DSH, RSH, FRH, FFH
OUT = 'tools/output_stream.h'; MDH = C + 'mpc_data.h'; FVH = C + 'full_variable.h'
# ------------------------------------------------------------ sequences
rf('seq4-stride', (SQ, 'Eigen::Map<Eigen::MatrixXd>(data() + k * nr_ * nc_, nr_, nc_);', 'Eigen::Map<Eigen::MatrixXd>(data() + stride() * k, rows(), cols());'),
   (SQ, 'Eigen::Map<const Eigen::MatrixXd>(data() + k * nr_ * nc_, nr_, nc_);', 'Eigen::Map<const Eigen::MatrixXd>(&data_[stride() * k], nr_, nc_);'),
   (SQ, ' private:\n  int N_ = 0;', ' private:\n  int stride() const { return nr_ * nc_; }\n  int N_ = 0;'))
rf('seq4-map-initialisers', (SQ, '''  MapMatrixSequence(const MatrixSequence& A) : data_(A.data()) {
    N_ = A.length();
    nr_ = A.rows();
    nc_ = A.cols();
    nel_ = N_ * nr_ * nc_;
  }
''', '''  MapMatrixSequence(const MatrixSequence& A)
      : data_(A.data()),
        N_(A.length()),
        nr_(A.rows()),
        nc_(A.cols()),
        nel_(A.size()) {}
'''))
rf('seq4-assign', (SQ, '    data_.resize(nel_);', '    data_.assign(nel_, 0.0);'))
rf('seq4-check-helper', (SQ, '''    if (k < 0 || k >= N_) {
      throw std::out_of_range("Bad indexing in MapMatrixSequence");
    }
    if (data_ == nullptr) {
      throw std::runtime_error(
          "In MapMatrixSequence, cannot index into null data.");
    }
''', '''    CheckIndex(k);
'''), (SQ, '''  const double* data_ = nullptr;
''', '''  void CheckIndex(int k) const {
    const bool inside = 0 <= k && k < N_;
    if (!inside) {
      throw std::out_of_range("Bad indexing in MapMatrixSequence");
    }
    if (!data_) {
      throw std::runtime_error(
          "In MapMatrixSequence, cannot index into null data.");
    }
  }
  const double* data_ = nullptr;
'''))
# ------------------------------------------------------------ tools
rf('out4-fputs', (OUT, 'printf("%s", message);', 'std::fputs(message, stdout);'))
rf('ut4-unique-local', (UT, '  return std::unique_ptr<T>(new T(std::forward<Args>(args)...));', '  std::unique_ptr<T> p(new T(std::forward<Args>(args)...));\n  return p;'))
rf('ut4-saturate-ternary', (UT, '  const T temp = std::min(x, b);\n  return std::max(temp, a);', '  if (x > b) {\n    return b;\n  }\n  return x < a ? a : x;'))
# ------------------------------------------------------------ components
rf('var4-set-zero', (FV, '''  z_->setConstant(0.0);
  l_->setConstant(0.0);
  v_->setConstant(0.0);
  y_->setConstant(0.0);
}

void FullVariable::Fill''', '''  for (VectorXd* part : {z_, l_, v_, y_}) {
    part->setZero();
  }
}

void FullVariable::Fill'''))
rf('var4-margin-local', (FV, '''  y_->setConstant(0.0);
  data_->axpyb(1.0, y_);
  data_->gemvA(*z_, -1.0, 1.0, y_);
''', '''  VectorXd margin = VectorXd::Zero(nv_);
  data_->gemvA(*z_, -1.0, 0.0, &margin);
  data_->axpyb(1.0, &margin);
  y_->swap(margin);
'''))
rf('var4-copy-order', (FV, '''  *z_ = *x.z_;
  *l_ = *x.l_;
  *v_ = *x.v_;
  *y_ = *x.y_;
  data_ = x.data_;
''', '''  if (this == &x) {
    return;
  }
  data_ = x.data_;
  *y_ = x.y();
  *v_ = x.v();
  *l_ = x.l();
  *z_ = x.z();
'''))
rf('var4-norm-concat', (FV, '''  const double t1 = z_->norm();
  const double t2 = l_->norm();
  const double t3 = v_->norm();

  return sqrt(t1 * t1 + t2 * t2 + t3 * t3);
''', '''  double total = 0.0;
  const VectorXd* parts[3] = {z_, l_, v_};
  for (int i = 0; i < 3; i++) {
    total += parts[i]->squaredNorm();
  }
  return std::sqrt(total);
'''))
rf('feas4-locals', (FF, '''  tz_.setConstant(0.0);
  data_->axpyf(1.0, &tz_);
  const double d4 = tz_.dot(x.z());

  double w = x.z().lpNorm<Eigen::Infinity>();
  bool dual_feasible = true;
  if ((d1 <= w * tol) && (d2 <= tol * w) && (d3 <= tol * w) && (d4 < 0) &&
      (w > 1e-14)) {
    dual_feasible = false;
  }
''', '''  Eigen::VectorXd f = Eigen::VectorXd::Zero(nz_);
  data_->axpyf(1.0, &f);
  const double d4 = f.dot(x.z());

  const double w = x.z().cwiseAbs().maxCoeff();
  const double bound = tol * w;
  const bool small = std::max(d1, std::max(d2, d3)) <= bound;
  const bool dual_feasible = !(small && d4 < 0 && w > 1e-14);
'''))
rf('feas4-switch', (FF, '''  if (primal_feasible && dual_feasible) {
    return FeasibilityStatus::FEASIBLE;
  } else if (primal_feasible && !dual_feasible) {
    return FeasibilityStatus::DUAL_INFEASIBLE;
  } else if (!primal_feasible && dual_feasible) {
    return FeasibilityStatus::PRIMAL_INFEASIBLE;
  } else {
    return FeasibilityStatus::BOTH;
  }
''', '''  static const FeasibilityStatus table[2][2] = {
      {FeasibilityStatus::BOTH, FeasibilityStatus::PRIMAL_INFEASIBLE},
      {FeasibilityStatus::DUAL_INFEASIBLE, FeasibilityStatus::FEASIBLE}};
  return table[primal_feasible][dual_feasible];
'''))
rf('feas4-switch-int', (FF, '''  if (primal_feasible && dual_feasible) {
    return FeasibilityStatus::FEASIBLE;
  } else if (primal_feasible && !dual_feasible) {
    return FeasibilityStatus::DUAL_INFEASIBLE;
  } else if (!primal_feasible && dual_feasible) {
    return FeasibilityStatus::PRIMAL_INFEASIBLE;
  } else {
    return FeasibilityStatus::BOTH;
  }
''', '''  const int code = (primal_feasible ? 2 : 0) + (dual_feasible ? 1 : 0);
  switch (code) {
    case 3:
      return FeasibilityStatus::FEASIBLE;
    case 2:
      return FeasibilityStatus::DUAL_INFEASIBLE;
    case 1:
      return FeasibilityStatus::PRIMAL_INFEASIBLE;
    default:
      return FeasibilityStatus::BOTH;
  }
'''))
rf('feas4-product-sums', (FF, '''  tz_.fill(0.0);
  data_->gemvAT(x.v(), 1.0, 1.0, &tz_);
  data_->gemvGT(x.l(), 1.0, 1.0, &tz_);
''', '''  data_->gemvGT(x.l(), 1.0, 0.0, &tz_);
  data_->gemvAT(x.v(), 1.0, 1.0, &tz_);
'''))
rf('mpcd4-forcing-helper', (MDH, '''    forcing_norm_ = 0.0;
    for (int i = 0; i < N_ + 1; i++) {
      forcing_norm_ += q_(i).squaredNorm();
      forcing_norm_ += r_(i).squaredNorm();
      forcing_norm_ += d_(i).squaredNorm();
      forcing_norm_ += (i == 0 ? x0_.squaredNorm() : c_(i - 1).squaredNorm());
    }
    forcing_norm_ = sqrt(forcing_norm_);
''', '''    double total = x0_.squaredNorm();
    for (int i = 0; i < N_; ++i) {
      total += c_(i).squaredNorm();
    }
    for (int i = 0; i <= N_; ++i) {
      total += q_(i).squaredNorm() + r_(i).squaredNorm() + d_(i).squaredNorm();
    }
    forcing_norm_ = std::sqrt(total);
'''))
rf('mpcd4-hessian-general', (MD, '''    if (a == 1.0) {
      yx.noalias() += Q * vx + S.transpose() * vu;
      yu.noalias() += S * vx + R * vu;
    } else if (a == -1.0) {
      yx.noalias() -= Q * vx + S.transpose() * vu;
      yu.noalias() -= S * vx + R * vu;
    } else {
      yx += a * Q.lazyProduct(vx);
      yx += a * S.transpose().lazyProduct(vu);
      yu += a * S.lazyProduct(vx);
      yu += a * R.lazyProduct(vu);
    }
''', '''    const VectorXd px = Q * vx + S.transpose() * vu;
    const VectorXd pu = S * vx + R * vu;
    yx += a * px;
    yu += a * pu;
'''))
rf('ric4-assign', (RS, '''  Q_.resize(N + 1);
  S_.resize(N + 1);
  R_.resize(N + 1);
''', '''  Q_.assign(N + 1, MatrixXd(nx, nx));
  S_.assign(N + 1, MatrixXd(nu, nx));
  R_.assign(N + 1, MatrixXd(nu, nu));
'''), (RS, '''    Q_[i].resize(nx, nx);
    S_[i].resize(nu, nx);
    R_[i].resize(nu, nu);

''', ''))
rf('ric4-range-loops', (RS, '''    h_[i].resize(nx);
    th_[i].resize(nx);
  }
''', '''    th_[i].resize(nx);
  }
  for (auto& h : h_) {
    h.resize(nx);
  }
'''))
# ------------------------------------------------------------ front ends
rf('api4-variable-initialisers', (MPCC, '''FBstabMpc::Variable::Variable(int N, int nx, int nu, int nc) {
  z = Eigen::VectorXd::Zero((N + 1) * (nx + nu));
  l = Eigen::VectorXd::Zero((N + 1) * nx);
  v = Eigen::VectorXd::Zero((N + 1) * nc);
  y = Eigen::VectorXd::Zero((N + 1) * nc);
}
''', '''FBstabMpc::Variable::Variable(int N, int nx, int nu, int nc)
    : z(Eigen::VectorXd::Zero((N + 1) * (nx + nu))),
      l(Eigen::VectorXd::Zero((N + 1) * nx)),
      v(Eigen::VectorXd::Zero((N + 1) * nc)),
      y(Eigen::VectorXd::Zero(v.size())) {}
'''))
rf('api4-param-names', (MPCC, '''FBstabMpc::VariableRef::VariableRef(Eigen::Map<Eigen::VectorXd> z_,
                                    Eigen::Map<Eigen::VectorXd> l_,
                                    Eigen::Map<Eigen::VectorXd> v_,
                                    Eigen::Map<Eigen::VectorXd> y_)
    : z(z_), l(l_), v(v_), y(y_) {}
''', '''FBstabMpc::VariableRef::VariableRef(Eigen::Map<Eigen::VectorXd> primal,
                                    Eigen::Map<Eigen::VectorXd> eq_dual,
                                    Eigen::Map<Eigen::VectorXd> ineq_dual,
                                    Eigen::Map<Eigen::VectorXd> margin)
    : z(primal), l(eq_dual), v(ineq_dual), y(margin) {}
'''))
rf('api4-options-braces', (MPCC, '''  Options opts;
  opts.DefaultParameters();
  return opts;
''', '''  Options opts{};
  Options* p = &opts;
  p->DefaultParameters();
  return *p;
'''))
# ------------------------------------------------------------ algorithm
rf('alg4-link-each', (ALG, '''  xk_->LinkData(&qp_data);
  xi_->LinkData(&qp_data);
  dx_->LinkData(&qp_data);
  xp_->LinkData(&qp_data);

  rk_->LinkData(&qp_data);
  ri_->LinkData(&qp_data);
''', '''  for (Variable* x : {xk_, xi_, dx_, xp_}) {
    x->LinkData(&qp_data);
  }
  for (Residual* r : {rk_, ri_}) {
    r->LinkData(&qp_data);
  }
'''))
rf('alg4-timeout-choice', (ALG, '''      if (Eo < Ek) {
        WriteVariable(*xi_, z0, l0, v0, y0);
        rk_->PenalizedNaturalResidual(*xi_);
      } else {
        WriteVariable(*xk_, z0, l0, v0, y0);
        rk_->PenalizedNaturalResidual(*xk_);
      }
''', '''      const Variable& best = Eo < Ek ? *xi_ : *xk_;
      rk_->PenalizedNaturalResidual(best);
      WriteVariable(best, z0, l0, v0, y0);
'''))
rf('alg4-skip-first-residual', (ALG, '''    rk_->PenalizedNaturalResidual(*xk_);
    Ek = rk_->Norm();
    if (Ek <= combo_tol_ ||''', '''    if (k > 0) {
      rk_->PenalizedNaturalResidual(*xk_);
      Ek = rk_->Norm();
    }
    if (Ek <= combo_tol_ ||'''))
rf('alg4-step-difference', (ALG, '''    dx_->Copy(*xi_);
    dx_->axpy(-1.0, *xk_);
    if (opts_.check_feasibility) {
      ExitFlag eflag = CheckForInfeasibility(*dx_);
      if (eflag != ExitFlag::SUCCESS) {''', '''    dx_->Copy(*xi_);
    dx_->axpy(-1.0, *xk_);
    {
      const ExitFlag eflag = opts_.check_feasibility
                                 ? CheckForInfeasibility(*dx_)
                                 : ExitFlag::SUCCESS;
      if (eflag != ExitFlag::SUCCESS) {'''))
rf('alg4-prox-count', (ALG, '''  for (int k = 0; k < opts_.max_prox_iters; k++) {
    // The solver stops if:''', '''  while (prox_iters_ < opts_.max_prox_iters) {
    // The solver stops if:'''))
rf('alg4-detail-line-once', (ALG, '''    if ((Ei <= tol && Eo < current_outer_residual) ||
        (Ei <= opts_.inner_tol_min)) {
      PrintDetailedLine(i, t, *ri_, os);
      PrintDetailedFooter(tol, *ri_, os);
      break;
    } else {
      PrintDetailedLine(i, t, *ri_, os);
    }
''', '''    PrintDetailedLine(i, t, *ri_, os);
    const bool solved = Ei <= tol && Eo < current_outer_residual;
    const bool at_floor = Ei <= opts_.inner_tol_min;
    if (solved || at_floor) {
      PrintDetailedFooter(tol, *ri_, os);
      break;
    }
'''))
