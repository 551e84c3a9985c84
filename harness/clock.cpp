// Relativistic clock correction and ionospheric correction of the DORIS carriers:
// src/relativity/relativistic_clock_correction.cpp, src/doris_observation_equations.hpp
#include "vc.h"
#include <cassert>
#include "relativity/relativistic_clock_correction.cpp"
typedef Eigen::Matrix<double, 3, 1> V3;
static double x[6], GM, r2, v2;
static const double c = 299792458e0;
static void setup() {
  const char *n[] = {"x", "y", "z", "vx", "vy", "vz"};
  for (int i = 0; i < 6; i++) x[i] = vc_real(n[i], i < 3 ? -8e6 : -7e3, i < 3 ? 8e6 : 7e3);
  GM = vc_real("GM", 3.9e14, 4e14);
  r2 = x[0] * x[0] + x[1] * x[1] + x[2] * x[2], v2 = x[3] * x[3] + x[4] * x[4] + x[5] * x[5];
  vc_assume(r2 > (VC_NATIVE ? 1e10 : 0));
}
HARNESS(clock_correction) {
  setup();
  const double J2 = vc_real("J2", -1e-3, 2e-3), Re = vc_real("Re", 6.3e6, 6.4e6);
  const V3 r(x[0], x[1], x[2]), v(x[3], x[4], x[5]);
  const double R = std::sqrt(r2), s = std::sin(vc_uf3("latitude", x[0], x[1], x[2]));
  // (U + V^2/2)/c: in metres per second, per second of flight
  const double a = dso::relativistic_clock_correction(r, v, GM);
  vc_eq(a * c, GM / R + v2 / 2, 1e-9, "potential-plus-kinetic-energy-over-c");
  const double b = dso::relativistic_clock_correction(r, v, GM, J2, Re);
  vc_eq(b * c, GM / R - GM / R * (Re * Re / r2) * J2 * (1.5 * s * s - 0.5) + v2 / 2, 1e-9, "potential-with-J2");
  vc_eq(dso::relativistic_clock_correction(r, v, GM, 0e0, Re), a, 1e-12, "forms-agree-without-J2");
}
// both carriers in cycles: the same range, advanced by an ionospheric term falling with the
// square of the frequency
HARNESS(iono_correction) {
  const double range = vc_real("range", -1e7, 1e7), k = vc_real("k", -1e20, 1e20);
  const double f1 = dso::DORIS_FREQ1_MHZ * 1e6, f2 = dso::DORIS_FREQ2_MHZ * 1e6;
  const double L1 = (range - k / (f1 * f1)) * f1 / c, L2 = (range - k / (f2 * f2)) * f2 / c;
  const double d = dso::carrier_iono_correction(L1, L2);
  // (up to the rounding of the constants)
  vc_le(std::fabs(L1 + d - range * f1 / c), 1e-12 * (std::fabs(range) * f1 / c + std::fabs(k) / (f1 * c)), 1e-6, "corrected-carrier-is-free-of-ionosphere");
  vc_eq(dso::GAMMA_FACTOR, (f1 / f2) * (f1 / f2), 1e-9, "gamma-is-the-squared-ratio");
}
