// State transition matrix: dY/dY0(dt) = dY/dA(dt) * X with one and the same X for every dt.
// Together with X = (dY0/dA)^-1 (harness kepler_stm, identity at epoch) this is the chain rule.
#include "vc.h"
#include "astrodynamics/perifocal.cpp"
#include "astrodynamics/propagate_state.cpp"
double dso::kepler(double e, double M, int &ok, double) noexcept {
  ok = 0;
  return vc_uf2("E", e, M);
}
static dso::OrbitalElements g_el;
static Eigen::Matrix<double, 6, 6> g_D0, g_Dt;
dso::OrbitalElements dso::state2elements(double, const Eigen::Matrix<double, 6, 1> &) noexcept { return g_el; }
Eigen::Matrix<double, 6, 6> dso::state_partials(double, const dso::OrbitalElements &, double dt) noexcept { return dt == 0e0 ? g_D0 : g_Dt; }
HARNESS(transition) {
  g_el.semimajor() = vc_real("a", 0.5, 3);
  g_el.eccentricity() = vc_real("e", 0.05, 0.7);
  g_el.inclination() = vc_real("i", 0.2, 2.9);
  g_el.Omega() = vc_real("Omega", 0, 6);
  g_el.omega() = vc_real("omega", 0, 6);
  g_el.mean_anomaly() = vc_real("M", 0.2, 6);
  const double GM = vc_real("GM", 0.5, 2);
  const double dt = vc_real("dt", 0.1, 2);
  vc_assume(dt != 0e0);
  Eigen::Matrix<double, 6, 1> Y0;
  Eigen::Matrix<double, 6, 6> X, F, D;
  for (int k = 0; k < 6; k++) {
    Y0(k) = vc_real("y", -2, 2);
    for (int j = 0; j < 6; j++) {
      g_D0(k, j) = vc_real("d0", -2, 2);
      D(k, j) = vc_real("dt", -2, 2);
      g_Dt(k, j) = k == j;
    }
  }
  dso::propagate_state(GM, Y0, dt, X);
  g_Dt = D;
  const Eigen::Matrix<double, 6, 1> Y = dso::propagate_state(GM, Y0, dt, F);
  const Eigen::Matrix<double, 6, 1> Z = dso::propagate_state(GM, g_el, dt);
  const Eigen::Matrix<double, 6, 1> V = dso::propagate_state(GM, Y0, dt);
  for (int i = 0; i < 6; i++) {
    vc_eq(Y(i), Z(i), 1e-12, "state-is-the-propagated-one");
    vc_eq(V(i), Z(i), 1e-12, "state-is-the-propagated-one");
    for (int j = 0; j < 6; j++) {
      double s = 0;
      for (int k = 0; k < 6; k++)
        s += D(i, k) * X(k, j);
      vc_eq(F(i, j), s, 1e-8, "chain-rule");
    }
  }
}
