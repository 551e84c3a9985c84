// State transition matrix of Keplerian motion: src/astrodynamics/propagate_state.cpp
#include "vc.h"
#include "astrodynamics/perifocal.cpp"
#include "astrodynamics/propagate_state.cpp"
#include "astrodynamics/state_partials.cpp"

// contract of dso::kepler (its own property)
double dso::kepler(double e, double M, int &ok, double) noexcept {
#ifdef VC_SYMBOLIC
  ok = 0;
  return vc_uf2("kepler_E", e, M);
#else
  double E = e < 0.8 ? M : iers2010::DPI;
  for (int i = 0; i < 100; i++)
    E -= (E - e * std::sin(E) - M) / (1e0 - e * std::cos(E));
  ok = 0;
  return E;
#endif
}
// contract of dso::state2elements: some elements (that they are those of the state is
// property A04); here every bound orbit
static dso::OrbitalElements g_el;
dso::OrbitalElements dso::state2elements(double, const Eigen::Matrix<double, 6, 1> &) noexcept { return g_el; }

static double orbit(double &GM, double &dt) {
  g_el.semimajor() = vc_real("a", 0.5, 3);
  g_el.eccentricity() = vc_real("e", 0.05, 0.7);
  g_el.inclination() = vc_real("i", 0.2, 2.9);
  g_el.Omega() = vc_real("Omega", 0, 6);
  g_el.omega() = vc_real("omega", 0, 6);
  g_el.mean_anomaly() = vc_real("M", 0.2, 6);
  GM = vc_real("GM", 0.5, 2);
  dt = vc_real("dt", -2, 2);
  vc_assume(g_el.semimajor() > 0 && g_el.eccentricity() > 0 && g_el.eccentricity() < 1 && GM > 0);
  vc_assume(std::sin(g_el.inclination()) > 0);
  int ok;
  const double n = std::sqrt(GM / (g_el.semimajor() * g_el.semimajor() * g_el.semimajor()));
  const double E0 = dso::kepler(g_el.eccentricity(), g_el.mean_anomaly(), ok, 0);
  vc_assume(1e0 - g_el.eccentricity() * std::cos(E0) > 0);
  const double E = dso::kepler(g_el.eccentricity(), g_el.mean_anomaly() + n * dt, ok, 0);
  vc_assume(1e0 - g_el.eccentricity() * std::cos(E) > 0);
  return n;
}
HARNESS(identity) {
  double GM, dt;
  orbit(GM, dt);
  Eigen::Matrix<double, 6, 1> Y0;
  for (int k = 0; k < 6; k++)
    Y0(k) = vc_real("y", -2, 2);
  Eigen::Matrix<double, 6, 6> F;
  dso::propagate_state(GM, Y0, 0e0, F);
  for (int i = 0; i < 6; i++)
    for (int j = 0; j < 6; j++)
      vc_eq(F(i, j), i == j ? 1e0 : 0e0, 1e-6, "identity-at-epoch");
}
