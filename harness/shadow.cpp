// Eclipse models: src/astrodynamics/occultation.cpp
#include "vc.h"
#include "astrodynamics/occultation.cpp"
typedef Eigen::Matrix<double, 3, 1> V3;
static double r[3], s[3], rr, ss, rs;
static const double Re = iers2010::Re, Rs = iers2010::Rs, AU = iers2010::AU;
static void setup() {
  const char *n[] = {"x", "y", "z", "X", "Y", "Z"};
  for (int i = 0; i < 3; i++) r[i] = vc_real(n[i], -9e6, 9e6), s[i] = vc_real(n[i + 3], -1.2e11, 1.2e11);
#ifndef VC_SYMBOLIC
  if (vc_int("behind", 0, 3)) { // natively most satellites lie close to the shadow axis
    const double k = -vc_real("k", 1e-5, 3e-3), S = std::sqrt(s[0] * s[0] + s[1] * s[1] + s[2] * s[2]);
    for (int i = 0; i < 3; i++) r[i] = r[i] * 0.8 + k * S * (s[i] / S);
  }
#endif
  rr = r[0] * r[0] + r[1] * r[1] + r[2] * r[2], ss = s[0] * s[0] + s[1] * s[1] + s[2] * s[2];
  rs = r[0] * s[0] + r[1] * s[1] + r[2] * s[2];
  vc_assume(rr > (VC_NATIVE ? 1e12 : 0) && ss > (VC_NATIVE ? 1e21 : 0));
}
HARNESS(cylinder) {
  setup();
  const double a = utest::montebruck_shadow(dso::Vector3{{r[0], r[1], r[2]}}, dso::Vector3{{s[0], s[1], s[2]}});
  const double b = utest::montebruck_shadow(V3(r[0], r[1], r[2]), V3(s[0], s[1], s[2]));
  // behind the Earth and within its radius from the Sun-Earth line
  const double off2 = rr - rs * rs / ss;
  vc_assume(!VC_NATIVE || std::fabs(off2 - Re * Re) > 1e6);
  const double w = (rs <= 0 && off2 <= Re * Re) ? 0e0 : 1e0;
  vc_eq(a, w, 0, "dark-inside-the-cylinder-only");
  vc_eq(b, w, 0, "dark-inside-the-cylinder-only");
}
HARNESS(cylinder_flattened) {
  setup();
  const double f = 1e0 + 1e0 / 298.257222101e0;
  const double a = utest::bernese_shadow1(dso::Vector3{{r[0], r[1], r[2]}}, dso::Vector3{{s[0], s[1], s[2]}});
  const double RR = rr + (f * f - 1) * r[2] * r[2], SS = ss + (f * f - 1) * s[2] * s[2], RS = rs + (f * f - 1) * r[2] * s[2];
  const double off2 = RR - RS * RS / SS;
  vc_assume(off2 >= 0); // Cauchy-Schwarz
  vc_assume(!VC_NATIVE || std::fabs(off2 - Re * Re) > 1e6);
  vc_eq(a, (RS < 0 && off2 < Re * Re) ? 0e0 : 1e0, 0, "dark-inside-the-flattened-cylinder-only");
}
HARNESS(cones) {
  setup();
  const double a = utest::vallado_shadow(dso::Vector3{{r[0], r[1], r[2]}}, dso::Vector3{{s[0], s[1], s[2]}});
  // h: distance behind the Earth along the Sun-Earth line, off: distance from that line
  const double h = -rs / std::sqrt(ss), off = std::sqrt(rr - rs * rs / ss);
  vc_assume(rr - rs * rs / ss >= 0); // Cauchy-Schwarz
  const double sp = (Rs + Re) / AU, su = (Rs - Re) / AU;
  const double tp = sp / std::sqrt(1e0 - sp * sp), tu = su / std::sqrt(1e0 - su * su);
  const double pen = tp * h + Re / std::sqrt(1e0 - sp * sp), umb = Re / std::sqrt(1e0 - su * su) - tu * h;
  // natively, clear of rounding at the boundaries of the cones
  if (VC_NATIVE) vc_assume(std::fabs(off - pen) > (VC_NATIVE ? 1e-1 : 0) && std::fabs(off - umb) > (VC_NATIVE ? 1e-1 : 0) && std::fabs(rs) > (VC_NATIVE ? 1e6 : 0));
  vc_assert(h <= 0 ? a == 1e0 : true, "lit-on-the-sunward-side");
  vc_assert(h > 0 && off > pen ? a == 1e0 : true, "lit-outside-the-penumbra");
  vc_assert(h > 0 && off <= pen && off > umb ? a == 0.5e0 : true, "half-lit-in-the-penumbra");
  vc_assert(h > 0 && off <= pen && off <= umb ? a == 0e0 : true, "dark-in-the-umbra");
}
// Both discs as seen from the satellite: the Earth's centre in direction (1,0,0) at distance d,
// the Sun's at angle t from it at distance D.
static double disc(const double *x) {
  const double d = x[0], D = x[1], t = x[2];
  const dso::Vector3 sat{{-d, 0e0, 0e0}}, sun{{D * std::cos(t) - d, D * std::sin(t), 0e0}};
  return utest::conical_shadow(sat, sun);
}
static double x[3], te, ts;
static void discs() {
  x[0] = vc_real("d", 6.5e6, 4e7);
  x[1] = vc_real("D", 1.45e11, 1.55e11);
  x[2] = vc_realr("t", 0.01, 3.14);
  vc_assume(x[0] > 0 && x[1] > 0 && x[0] > Re && x[1] > Rs);
  te = std::asin(Re / x[0]);
  ts = std::asin(Rs / x[1]);
#ifndef VC_SYMBOLIC
  if (vc_int("near", 0, 3)) x[2] = te + ts * vc_real("k", -1.5, 1.5);
#endif
  vc_assume(x[2] > 0 && x[2] < iers2010::DPI && te > 0 && ts > 0);
  vc_assume(std::sin(x[2]) > 0); // between 0 and pi
}
HARNESS(discs_apart) {
  discs();
  if (VC_NATIVE) vc_assume(std::fabs(x[2] - te - ts) > 1e-9 && std::fabs(x[2] - te + ts) > 1e-9);
  vc_assume(x[2] >= te + ts || x[2] <= te - ts);
  const double f = disc(x);
  vc_eq(f, x[2] >= te + ts ? 1e0 : 0e0, 0, "lit-when-apart-dark-when-covered");
}
static double lens() { return std::acos((ts * ts + x[2] * x[2] - te * te) / (2e0 * ts * x[2])); }
static void overlap() {
  discs();
  // overlapping discs: neither apart nor one inside the other
  vc_assume(x[2] < te + ts && x[2] > te - ts && x[2] > ts - te);
  if (VC_NATIVE) vc_assume(x[2] < te + ts - 1e-5 && x[2] > te - ts + 1e-5);
}
HARNESS(discs_overlap) {
  overlap();
  const double f = disc(x);
  // common area of two discs of radii ts, te whose centres are x[2] apart
  const double a = lens(), b = std::acos((te * te + x[2] * x[2] - ts * ts) / (2e0 * te * x[2]));
  const double area = ts * ts * a + te * te * b - x[2] * ts * std::sin(a);
  vc_eq(f, 1e0 - area / (iers2010::DPI * ts * ts), 1e-6, "uncovered-fraction-of-the-Sun");
#ifndef VC_SYMBOLIC
  vc_assert(f >= 0 && f <= 1, "between-0-and-1");
#endif
}
// the fraction grows with the separation, from 0 (Sun just covered) to 1 (discs just apart)
HARNESS(discs_monotone) {
  overlap();
  vc_eq(vc_partial([](double *y) { return disc(y); }, x, 2), 2e0 * std::sin(lens()) / (iers2010::DPI * ts), VC_NATIVE ? 1e30 : 0, "grows-with-separation");
  vc_le(0, 2e0 * std::sin(lens()) / (iers2010::DPI * ts), 0, "grows-with-separation");
}
