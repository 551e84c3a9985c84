// Right ascension and declination (src/astrodynamics/pos2ra.cpp)
#include "vc.h"
#include "astrodynamics/pos2ra.cpp"
static double p[3];
static double coordinate(const char *n) {
  double v = vc_real(n, -2, 2);
#ifndef VC_SYMBOLIC
  if (!vc_int("zero", 0, 3)) v = 0; // meridian planes, equator and poles
#endif
  return v;
}
HARNESS(pos2ad) {
  p[0] = coordinate("x"), p[1] = coordinate("y"), p[2] = coordinate("z");
  const double r2 = p[0] * p[0] + p[1] * p[1] + p[2] * p[2], q2 = p[0] * p[0] + p[1] * p[1];
  vc_assume(r2 > (VC_NATIVE ? 0.1 : 0) && (VC_NATIVE || q2 > 0));
  double a = 99, d = 99;
  const int rc = dso::pos2ad(dso::Vector3{{p[0], p[1], p[2]}}, a, d);
  vc_assert(rc == 0, "reports-success");
  const double r = std::sqrt(r2);
  // (natively, the arcsine of nearly one is good to half the digits)
  const double tol = VC_NATIVE && q2 < 1e-2 ? 1e-7 : 1e-12;
  // the returned angles point back at the position
  vc_eq(r * std::cos(d) * std::cos(a), p[0], tol, "direction-x");
  vc_eq(r * std::cos(d) * std::sin(a), p[1], tol, "direction-y");
  vc_eq(r * std::sin(d), p[2], tol, "direction-z");
  vc_assert(a >= 0 && a <= iers2010::D2PI + 1e-9, "right-ascension-in-range");
  vc_assert(d >= -iers2010::DPI / 2 - 1e-9 && d <= iers2010::DPI / 2 + 1e-9, "declination-in-range");
}
