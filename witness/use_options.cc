//: options: every documented field can be set, presets can be used and results read
#include "fbstab/fbstab_dense.h"
#include "fbstab/fbstab_mpc.h"
using namespace fbstab;
template <class Solver>
void go(Solver& s) {
  typename Solver::Options o = Solver::DefaultOptions();
  const typename Solver::Options r = Solver::ReliableOptions();
  typename Solver::Options d;
  AlgorithmParameters* base = &o;
  base->ValidateOptions();
  base->DefaultParameters();
  base->ReliableParameters();
  o.sigma0 = 1e-8;
  o.sigma_max = 1e-8;
  o.sigma_min = 1e-8;
  o.alpha = 0.95;
  o.beta = 0.7;
  o.eta = 1e-8;
  o.delta = 0.2;
  o.gamma = 0.1;
  o.abs_tol = 1e-6;
  o.rel_tol = 1e-12;
  o.stall_tol = 1e-10;
  o.infeas_tol = 1e-8;
  o.inner_tol_max = 0.1;
  o.inner_tol_min = 1e-12;
  o.max_newton_iters = 1;
  o.max_prox_iters = 1;
  o.max_inner_iters = 1;
  o.max_linesearch_iters = 1;
  o.check_feasibility = false;
  o.nonmonotone_linesearch = false;
  o.display_level = Display::OFF;
  d = r;
  s.UpdateOptions(o);
  s.UpdateOptions(r);
  s.UpdateOptions(Solver::DefaultOptions());
  s.UpdateOptions(Solver::ReliableOptions());
}
void both(FBstabDense& a, FBstabMpc& b) {
  go(a);
  go(b);
}
