// Ground antenna phase centres and phase laws: src/antenna_pcv.hpp
#include "vc.h"
#include <cassert>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include "doris/doris_system_info.cpp"
using dso::GroundAntennaType;
typedef Eigen::Matrix<double, 3, 1> V3;
// DORIS system ground segment models, issue 1.3: phase law at 0, 5 .. 90 degrees [mm]
static const double alcatel[] = {0.00, 2.05, 7.24, 9.21, 6.71, 8.14, 11.87, 12.48, 12.28, 13.67, 13.91, 13.01, 13.01, 11.87, 9.70, 7.94, 4.99, 0.41, -3.93};
static const double starec[] = {0.00, 0.06, -0.32, -1.12, -2.87, -4.02, -3.44, -2.15, -1.73, -1.73, -0.08, 1.37, 2.20, 5.37, 7.02, 10.70, 13.86, 17.27, 22.37};
template <GroundAntennaType T> static void law(const double *table) {
  const double zenith = vc_real("zenith", -1, 2.5);
  int out = 77;
  const double v = dso::AntennaOffset<T, 1>::pcv(zenith, out);
  if (zenith < 0 || zenith > dso::DPI / 2) {
    vc_assert(out != 0, "zenith-angle-out-of-bounds-is-reported");
    vc_assert(v == 0, "zero-out-of-bounds");
    return;
  }
  vc_assert(out == 0, "zenith-angle-in-bounds-is-accepted");
  const long k = vc_intr("k", 0, 17);
  const double angle = zenith * (180e0 / dso::DPI);
  const double t = (angle - 5e0 * k) / 5e0;
  vc_assume(VC_NATIVE ? t >= 0 && t <= 1 : t >= 0 && t <= 1e0 + 1e-12);
  const double lo = table[k], hi = table[k + 1];
  vc_le(std::fabs(v - ((1e0 - t) * lo + t * hi)), 1e-9, 0, "linear-between-the-tabulated-angles");
}
// exactly on the horizon: the last tabulated value
template <GroundAntennaType T> static void horizon(double last) {
  int out = 77;
  const double v = dso::AntennaOffset<T, 1>::pcv(dso::DPI / 2, out);
  vc_assert(out == 0, "horizon-is-in-bounds");
  vc_le(std::fabs(v - last), 1e-9, 0, "last-value-on-the-horizon");
}
HARNESS(pcv_alcatel) { law<GroundAntennaType::Alcatel>(alcatel); }
HARNESS(pcv_starec_b) { law<GroundAntennaType::Starec_B>(starec); }
HARNESS(pcv_starec_c) { law<GroundAntennaType::Starec_C>(starec); }
HARNESS(pcv_horizon) {
  horizon<GroundAntennaType::Alcatel>(-3.93);
  horizon<GroundAntennaType::Starec_B>(22.37);
  horizon<GroundAntennaType::Starec_C>(22.37);
}
template <GroundAntennaType T> static void u2() {
  const double zenith = vc_real("zenith", -1, 2.5);
  int out = 77;
  vc_assert(dso::AntennaOffset<T, 2>::pcv(zenith, out) == 0, "no-phase-law-on-400MHz");
  vc_assert((out != 0) == (zenith < 0 || zenith > dso::DPI / 2), "bounds-reported");
}
template <GroundAntennaType T, int F> static void offset(double up) {
  typedef dso::AntennaOffset<T, F> A;
  vc_assert(A::deast() == 0 && A::dnorth() == 0 && A::dup() == up, "eccentricity-of-the-phase-centre");
  const V3 p = A::pco();
  vc_assert(p(0) == A::deast() && p(1) == A::dnorth() && p(2) == A::dup(), "vector-is-east-north-up");
}
HARNESS(pcv_u2) {
  u2<GroundAntennaType::Alcatel>();
  u2<GroundAntennaType::Starec_B>();
  u2<GroundAntennaType::Starec_C>();
}
HARNESS(offsets) {
  vc_cover("offsets");
  vc_assert(vc_int("one", 1, 1) == 1, "reached");
  offset<GroundAntennaType::Alcatel, 1>(510);
  offset<GroundAntennaType::Alcatel, 2>(335);
  offset<GroundAntennaType::Starec_B, 1>(487);
  offset<GroundAntennaType::Starec_B, 2>(0);
  offset<GroundAntennaType::Starec_C, 1>(487);
  offset<GroundAntennaType::Starec_C, 2>(0);
}
// the phase centre of the ionosphere-free combination of the two carriers
HARNESS(iono_free_centre) {
  dso::BeaconStation b;
  const long t = vc_intr("type", 0, 2);
  b.m_station_id[3] = t == 0 ? 'A' : (t == 1 ? 'B' : 'C');
  vc_assert(b.type() == (t == 0 ? GroundAntennaType::Alcatel : (t == 1 ? GroundAntennaType::Starec_B : GroundAntennaType::Starec_C)), "type-from-the-mnemonic");
  const V3 p = b.iono_free_phase_center();
  const double g = (2036.25 / 401.25) * (2036.25 / 401.25);
  const double u1 = t == 0 ? 0.510 : 0.487, u2 = t == 0 ? 0.335 : 0;
  vc_assert(p(0) == 0 && p(1) == 0, "no-horizontal-offset");
  vc_le(std::fabs(p(2) - (u1 + (u1 - u2) / (g - 1e0))), 1e-12, 0, "ionosphere-free-height-of-the-phase-centre");
}
