// Runge-Kutta-Fehlberg integrator: var/ode_solvers/rkf45_{fehl,rkfs}.cpp
#include "vc.h"
#include <cstdio>
#include <limits>
#include "eigen3/Eigen/Eigen"
#define private public
#include "../var/ode_solvers/rkf45.hpp"
#undef private
#ifndef VC_DRIVER
#include "../var/ode_solvers/rkf45_fehl.cpp"
// the right-hand side: an arbitrary function; call c returns the arbitrary vector K[c] and
// records its arguments (the state at one arbitrary component j)
static double *K[8];
static double T[8], Y[8];
static int ncall, N, j;
static void rhs(double t, const Eigen::VectorXd &y, Eigen::Ref<Eigen::VectorXd> yp, void *) {
  T[ncall] = t;
  Y[ncall] = y(j);
  const double *k = K[ncall];
  for (int i = 0; i < N; i++)
    yp(i) = k[i];
  ++ncall;
}
HARNESS(fehlberg_step) {
  ncall = 0;
  N = (int)vc_int("n", 1, 1000);
  j = (int)vc_int("j", 0, N - 1);
  const char *nm[] = {"k1", "k2", "k3", "k4", "k5"};
  for (int c = 0; c < 5; c++)
    K[c] = vc_darr(nm[c], N, -2, 2);
  double *y0 = vc_darr("y0", N, -2, 2), *k0 = vc_darr("k0", N, -2, 2);
  const double t = vc_real("t", -5, 5), h = vc_real("h", -1, 1);
  dso::RKF45 rk(rhs, N, 1e-9, 1e-9);
  Eigen::VectorXd y(N);
  for (int i = 0; i < N; i++)
    y(i) = y0[i];
  for (int i = 0; i < N; i++)
    rk.yp(i) = k0[i];
  const Eigen::VectorXd s = rk.fehl(t, h, y, rk.yp);
  static const double c[5] = {1e0 / 4e0, 3e0 / 8e0, 12e0 / 13e0, 1e0, 1e0 / 2e0};
  static const double a[5][5] = {{1e0 / 4e0, 0, 0, 0, 0},
                                 {3e0 / 32e0, 9e0 / 32e0, 0, 0, 0},
                                 {1932e0 / 2197e0, -7200e0 / 2197e0, 7296e0 / 2197e0, 0, 0},
                                 {439e0 / 216e0, -8e0, 3680e0 / 513e0, -845e0 / 4104e0, 0},
                                 {-8e0 / 27e0, 2e0, -3544e0 / 2565e0, 1859e0 / 4104e0, -11e0 / 40e0}};
  static const double b[6] = {16e0 / 135e0, 0, 6656e0 / 12825e0, 28561e0 / 56430e0, -9e0 / 50e0, 2e0 / 55e0};
  const double k[6] = {k0[j], K[0][j], K[1][j], K[2][j], K[3][j], K[4][j]};
  vc_assert(ncall == 5, "five-evaluations");
  for (int i = 0; i < 5; i++) {
    vc_eq(T[i], t + c[i] * h, 1e-12, "stage-time");
    double e = y0[j];
    for (int l = 0; l <= i; l++)
      e += h * a[i][l] * k[l];
    vc_eq(Y[i], e, 1e-10, "stage-state");
  }
  double e = y0[j];
  for (int l = 0; l < 6; l++)
    e += h * b[l] * k[l];
  vc_eq(s(j), e, 1e-10, "fifth-order-solution");
  for (int l = 1; l < 5; l++)
    vc_eq(rk.F(j, l), K[l][j], 0, "stages-kept-for-the-error-estimate");
}
#else
// the driver, over any step function and any right-hand side (fehl replaced by its contract:
// it evaluates the right-hand side five times and fills the columns of F)
#include "../var/ode_solvers/rkf45_rkfs.cpp"
static int N, j;
static long nev, nstep;
static double t0, tend, dir;   // the interval
static double rel, abt;        // tolerances
static double *tp;             // the integrator's time
static Eigen::VectorXd *yv;
static dso::RKF45 *rk;
static bool tried, failed;     // a step was tried from the current time; it was not the first
static double tl, hl, yl, dl;  // last step tried: time, size, state, derivative
static double yc, dc;          // solution accepted last and its derivative
static double val(const char *n, long c, long i) {
#ifdef VC_SYMBOLIC
  return vc_uf2(n, c, i);
#else
  return std::sin(0.37 * c + 1.3 * i + n[0]) * std::exp(3e0 * std::sin(1.7 * c + n[1]));
#endif
}
// before the step: between t0 and tend, towards tend, not beyond
#define U26 (26e0 * std::numeric_limits<double>::epsilon())
// at each loop head: inside the interval; towards its end, not beyond it when a step is tried
extern "C" bool INV_inside() { return (*tp - t0) * dir >= 0e0 && (tend - *tp) * dir > 0e0; }
extern "C" bool INV_towards() { return rk->h * dir > 0e0; }
extern "C" bool INV_notbeyond() { return (tend - *tp - rk->h) * dir >= 0e0; }
extern "C" bool INV_retry() { return !tried || (tend - *tp - rk->h) * dir > 0e0; }
extern "C" bool INV_counted() { return rk->nfe == nev; }
extern "C" bool INV_fewer() { return rk->nfe >= 1 && rk->nfe <= 3006 && nstep >= 0 && nstep <= nev; }
extern "C" bool INV_last() { return nstep == 0 || (hl * dir > 0e0 && (!tried || tl == *tp)); }
extern "C" bool INV_shrunk() { return !tried || (rk->h * dir >= (0.1e0 - 1e-9) * hl * dir && rk->h * dir <= 0.9e0 * hl * dir + 1e-15 * hl * dir); }
extern "C" bool INV_grown() { return tried || nstep == 0 || rk->h * dir <= (5e0 + 1e-9) * hl * dir || rk->h * dir <= U26 * std::abs(tl); }
extern "C" bool INV_notgrown() { return tried || nstep == 0 || !failed || rk->h * dir <= hl * dir || rk->h * dir <= U26 * std::abs(tl); }
extern "C" bool INV_state() { return (*yv)(j) == yc; }
extern "C" bool INV_derivative() { return rk->yp(j) == dc; }
static void rhs(double t, const Eigen::VectorXd &y, Eigen::Ref<Eigen::VectorXd> yp, void *) {
  vc_assert(((t - t0) * dir >= 0e0) & ((tend - t) * dir >= 0e0), "right-hand-side-evaluated-inside-the-interval");
  vc_assert(!tried | (t == tl + hl), "time-after-the-step");
  vc_assert(!tried | (y(j) == val("so", nstep, j)), "solution-of-the-accepted-step");
  const double e = (-2090e0 * dl + (21970e0 * val("f2", nstep, j) - 15048e0 * val("f3", nstep, j))) +
                   (22528e0 * val("f1", nstep, j) - 27360e0 * val("f4", nstep, j));
  // error estimate |hl e| / 752400 against the tolerance rel (|yl| + |y|) / 2 + abt
  const double et = std::abs(yl) + std::abs(y(j)) + abt * (2e0 / rel);
  vc_assert(!tried | (std::abs(hl) * (std::abs(e) / et) * (2e0 / rel) / 752400e0 <= 1e0 + 1e-9), "accepted-error-within-the-tolerance");
  yc = tried ? y(j) : yc;
  const long c = nev++;
  tried = false;
  for (int i = 0; i < N; i++)
    yp(i) = val("yp", c, i);
  dc = val("yp", c, j);
}
Eigen::VectorXd dso::RKF45::fehl(double t, double hstep, const Eigen::VectorXd &y, const Eigen::VectorXd &dy) noexcept {
  vc_assert(t == *tp, "step-from-the-current-time");
  vc_assert(hstep * dir > 0e0, "step-towards-the-end");
  vc_assert((tend - t - hstep) * dir >= 0e0, "step-not-beyond-the-end");
  vc_assert((y(j) == yc) & (dy(j) == dc), "step-from-the-accepted-solution");
  // (no branches here: they would double the paths)
  vc_assert(!tried | ((hstep * dir >= (0.1e0 - 1e-9) * hl * dir) & (hstep * dir < hl * dir)), "smaller-step-after-a-failure");
  vc_assert(tried | (nstep == 0) | (hstep * dir <= (5e0 + 1e-9) * hl * dir) | (hstep * dir <= U26 * std::abs(tl)), "step-growth-limited");
  vc_assert(tried | (nstep == 0) | !failed | (hstep * dir <= hl * dir) | (hstep * dir <= U26 * std::abs(tl)), "no-step-growth-after-a-failure");
  failed = tried;
  nev += 5;
  ++nstep;
  tried = true;
  tl = t;
  hl = hstep;
  yl = y(j);
  dl = dy(j);
  Eigen::VectorXd s(N);
  for (int i = 0; i < N; i++) {
    F(i, 1) = val("f1", nstep, i);
    F(i, 2) = val("f2", nstep, i);
    F(i, 3) = val("f3", nstep, i);
    F(i, 4) = val("f4", nstep, i);
    s(i) = val("so", nstep, i);
  }
  return s;
}
#ifdef VC_BACKWARD
HARNESS(driver_backward) {
#else
HARNESS(driver) {
#endif
  N = (int)vc_int("n", 1, 1000);
  j = (int)vc_int("j", 0, N - 1);
  double *y0 = vc_darr("y0", N, -2, 2);
  t0 = vc_real("t", -5, 5);
  tend = vc_real("tout", -5, 5);
  const double re = vc_real("relerr", 1e-9, 1e-2), ae = vc_real("abserr", 0, 1e-2);
#ifdef VC_BACKWARD
  dir = -1e0;
#else
  dir = 1e0;
#endif
  vc_assume((tend - t0) * dir > 0 && re >= 1e-11 && ae >= 0);
  rel = re;
  abt = ae;
  dso::RKF45 solver(rhs, N, re, ae);
  rk = &solver;
  Eigen::VectorXd y(N);
  yv = &y;
  for (int i = 0; i < N; i++)
    y(i) = y0[i];
  double t = t0;
  tp = &t;
  nev = nstep = 0;
  tried = failed = false;
  tl = hl = yl = dl = dc = 0e0;
  yc = y0[j];
  rk->rkfs(t, tend, y);
  const int f = rk->flag();
  vc_assert(f == 2 || f == 4 || f == 5 || f == 6, "flag");
  if (f == 2)
    vc_assert(t == tend, "success-means-the-end-is-reached");
  vc_assert((t - t0) * dir >= 0e0 && (tend - t) * dir >= 0e0, "time-inside-the-interval");
  vc_assert(nev <= 3006, "evaluations-limited");
  if (f == 2 && nstep > 0)
    vc_assert(y(j) == yc, "solution-of-the-last-step");
}
#endif
