//: result: the summary's fields and the documented codes
#include "fbstab/fbstab_dense.h"
#include "fbstab/fbstab_mpc.h"
using namespace fbstab;
static_assert(static_cast<int>(ExitFlag::SUCCESS) == 0, "code");
static_assert(static_cast<int>(ExitFlag::DIVERGENCE) == 1, "code");
static_assert(static_cast<int>(ExitFlag::MAXITERATIONS) == 2, "code");
static_assert(static_cast<int>(ExitFlag::PRIMAL_INFEASIBLE) == 3, "code");
static_assert(static_cast<int>(ExitFlag::DUAL_INFEASIBLE) == 4, "code");
static_assert(static_cast<int>(ExitFlag::PRIMAL_DUAL_INFEASIBLE) == 5, "code");
static_assert(Display::OFF < Display::FINAL && Display::FINAL < Display::ITER && Display::ITER < Display::ITER_DETAILED, "verbosity levels are ordered");
static_assert(static_cast<int>(Display::OFF) == 0 && static_cast<int>(Display::FINAL) == 1, "code");
static_assert(static_cast<int>(Display::ITER) == 2 && static_cast<int>(Display::ITER_DETAILED) == 3, "code");
double read(const SolverOut& o) {
  const ExitFlag e = o.eflag;
  const int n = o.newton_iters, p = o.prox_iters;
  SolverOut copy = o;
  copy = SolverOut();
  return e == ExitFlag::SUCCESS ? o.residual + o.solve_time + o.initial_residual + n + p : copy.residual;
}
