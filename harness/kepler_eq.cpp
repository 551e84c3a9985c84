// Kepler's equation: src/astrodynamics/kepler.cpp
#include "vc.h"
#include "astrodynamics/kepler.cpp"

static void inputs(double &e, double &M, double &tol) {
  e = vc_realr("e", 0e0, 0.95);
  M = vc_real("M", -15, 15);
  tol = vc_realr("tol", 1e-13, 1e-3);
}
// a reported success really solves the equation: |E - e sin E - M'| <= 2 tol/(1-e) with M' the
// mean anomaly brought to [0,2pi)
static void solves(double E, double e, double M, double tol, double fac) {
  const double m = arg02pi(M);
  const double r = E - e * std::sin(E) - m;
  vc_le(r * (1e0 - e), fac * tol, 1e-11, "residual-bound");
  vc_le(-r * (1e0 - e), fac * tol, 1e-11, "residual-bound");
}
HARNESS(newton) {
  double e, M, tol;
  inputs(e, M, tol);
  int st = 7;
  const double E = dso::kepler(e, M, st, tol);
  vc_assert(st == 0 || st == 1, "status-is-reported");
  if (st == 0) {
    vc_cover("converged");
    solves(E, e, M, tol, 2e0);
  }
}
HARNESS(vallado) {
  double e, M, tol;
  inputs(e, M, tol);
  int st = 7;
  const double E = dso::kepler_vallado(e, M, st, tol);
  vc_assert(st == 0 || st == 1, "status-is-reported");
  if (st == 0) {
    vc_cover("converged");
    const double m = arg02pi(M);
    const double r = E - e * std::sin(E) - m;
    vc_le(r, (2e0 + 2e0 * e) * tol, 1e-11, "residual-bound");
    vc_le(-r, (2e0 + 2e0 * e) * tol, 1e-11, "residual-bound");
  }
}
HARNESS(circular) {
  const double M = vc_real("M", -15, 15);
  const double tol = vc_realr("tol", 1e-13, 1e-3);
  int st = 7;
  vc_eq(dso::kepler(0e0, M, st, tol), arg02pi(M), 1e-12, "circular-orbit-E-is-M");
  vc_assert(st == 0, "circular-orbit-converges");
  st = 7;
  vc_eq(dso::kepler_vallado(0e0, M, st, tol), arg02pi(M), 1e-12, "circular-orbit-E-is-M");
  vc_assert(st == 0, "circular-orbit-converges");
}
HARNESS(reduction) {
  const double M = vc_real("M", -50, 50);
  const double m = arg02pi(M);
  vc_le(0e0, m, 0e0, "in-one-turn");
  vc_assert(m < pi2 || VC_NATIVE, "in-one-turn");
  vc_le(m, pi2, 0e0, "in-one-turn");
  // M - m is a whole number of turns
  const double k = std::floor((M - m) / pi2 + 0.5);
  vc_eq(k * pi2, M - m, 1e-12, "whole-turns");
}
