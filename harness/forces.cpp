// Non-gravitational forces: src/astrodynamics/{drag,solar_radiation}.cpp
#include "vc.h"
#include "astrodynamics/drag.cpp"
#include "astrodynamics/solar_radiation.cpp"
typedef Eigen::Matrix<double, 3, 1> V3;
typedef Eigen::Matrix<double, 3, 3> M3;
// x: position, velocity, CD
static double q[12], Area, Mass;
static V3 at(const double *x, int i) { return V3(x[i], x[i + 1], x[i + 2]); }
static const double W = iers2010::OmegaEarth;
// an arbitrary density model, and its gradient
static double density(const double *x) {
#ifdef VC_SYMBOLIC
  return vc_uf3("rho", x[0], x[1], x[2]);
#else
  return 1e-3 * (2e0 + std::sin(x[0] * 1.1e-3) + 0.5 * std::sin(x[1] * 0.7e-3 + x[2] * 1.3e-3));
#endif
}
// velocity relative to an atmosphere turning with the Earth about the z axis
static void relative(const double *x, double *w) {
  w[0] = x[3] + W * x[1];
  w[1] = x[4] - W * x[0];
  w[2] = x[5];
}
static void drag_setup() {
  const char *n[] = {"x", "y", "z", "vx", "vy", "vz"};
  for (int i = 0; i < 3; i++) q[i] = vc_real(n[i], -7e3, 7e3);
  for (int i = 3; i < 6; i++) q[i] = vc_real(n[i], -7, 7);
  q[6] = vc_real("CD", 1, 4);
  Area = vc_real("Area", 0.5, 10);
  Mass = vc_real("Mass", 100, 900);
  vc_assume(Mass > 0);
  double w[3];
  relative(q, w);
  vc_assume(w[0] * w[0] + w[1] * w[1] + w[2] * w[2] > (VC_NATIVE ? 1e-1 : 0));
}
// -1/2 CD A/m rho |w| w
static double spec(const double *x, double rho, int k) {
  double w[3];
  relative(x, w);
  return -0.5 * x[6] * (Area / Mass) * rho * std::sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]) * w[k];
}
HARNESS(drag_accel) {
  drag_setup();
  const double rho = vc_real("rho0", 0.1, 2);
  const V3 a = dso::drag_accel(at(q, 0), at(q, 3), Area, q[6], Mass, rho);
  M3 Jr, Jv;
  V3 JC;
  const V3 b = dso::drag_accel(at(q, 0), at(q, 3), Area, q[6], Mass, rho, V3(0e0, 0e0, 0e0), Jr, Jv, JC);
  for (int k = 0; k < 3; k++) {
    vc_eq(a(k), spec(q, rho, k), 1e-12, "drag-opposes-the-relative-velocity");
    vc_eq(b(k), a(k), 1e-12, "forms-agree");
  }
}
// the form taking the celestial-to-true-of-date matrix: rotate, apply, rotate back
HARNESS(drag_frame) {
  drag_setup();
  const double rho = vc_real("rho0", 0.1, 2);
  const double O = vc_real("Omega", 0, 6), o = vc_real("omega", 0, 6), i = vc_real("i", 0, 3);
  const double cO = std::cos(O), sO = std::sin(O), co = std::cos(o), so = std::sin(o), ci = std::cos(i), si = std::sin(i);
  M3 R; // every rotation is Rz(o) Rx(i) Rz(O)
  R << co * cO - so * ci * sO, co * sO + so * ci * cO, so * si,
      -so * cO - co * ci * sO, -so * sO + co * ci * cO, co * si,
      si * sO, -si * cO, ci;
  V3 r, v; // celestial position and velocity of the state q of date
  for (int k = 0; k < 3; k++) {
    r(k) = R(0, k) * q[0] + R(1, k) * q[1] + R(2, k) * q[2];
    v(k) = R(0, k) * q[3] + R(1, k) * q[4] + R(2, k) * q[5];
  }
  const V3 a = dso::drag_accel(r, v, R, Area, q[6], Mass, rho);
  for (int k = 0; k < 3; k++)
    vc_eq(a(k), R(0, k) * spec(q, rho, 0) + R(1, k) * spec(q, rho, 1) + R(2, k) * spec(q, rho, 2), 1e-10, "drag-in-the-frame-of-date");
}
HARNESS(drag_partials) {
  drag_setup();
  M3 Jr, Jv;
  V3 JC, g;
  for (int k = 0; k < 3; k++)
    g(k) = vc_partial([&](double *x) { return density(x); }, q, k);
  dso::drag_accel(at(q, 0), at(q, 3), Area, q[6], Mass, density(q), g, Jr, Jv, JC);
  auto f = [&](double *x, int k) { return dso::drag_accel(at(x, 0), at(x, 3), Area, x[6], Mass, density(x))(k); };
  for (int k = 0; k < 3; k++) {
    for (int j = 0; j < 3; j++) {
      vc_eq(Jr(k, j), vc_partial([&](double *x) { return f(x, k); }, q, j), 1e-8, "position-partial-is-the-derivative");
      vc_eq(Jv(k, j), vc_partial([&](double *x) { return f(x, k); }, q, 3 + j), 1e-8, "velocity-partial-is-the-derivative");
    }
    vc_eq(JC(k), vc_partial([&](double *x) { return f(x, k); }, q, 6), 1e-9, "coefficient-partial-is-the-derivative");
  }
}
// x: satellite, Sun, C
static void srp_setup() {
  const char *n[] = {"x", "y", "z", "X", "Y", "Z"};
  for (int i = 0; i < 6; i++) q[i] = vc_real(n[i], -1e10, 1e10);
  q[6] = vc_real("C", 0.5, 2);
  Area = vc_real("Area", 0.5, 10);
  Mass = vc_real("Mass", 100, 900);
  vc_assume(Mass > 0 && q[6] != 0);
  double d = 0;
  for (int i = 0; i < 3; i++) d += (q[i] - q[i + 3]) * (q[i] - q[i + 3]);
  vc_assume(d > (VC_NATIVE ? 1e18 : 0));
  if (VC_NATIVE) // difference quotients need a step of some size
    for (int i = 0; i < 3; i++) vc_assume(std::fabs(q[i]) > 1e8);
}
HARNESS(srp_accel) {
  srp_setup();
  const V3 a = dso::solar_radiation_acceleration(at(q, 0), at(q, 3), Area, Mass, q[6]);
  M3 J;
  V3 JC;
  const V3 b = dso::solar_radiation_acceleration(at(q, 0), at(q, 3), Area, Mass, q[6], J, JC);
  double d2 = 0;
  for (int i = 0; i < 3; i++) d2 += (q[i] - q[i + 3]) * (q[i] - q[i + 3]);
  // pressure at one astronomical unit, falling with the square of the distance
  const double p = 4.56316e-6 * (iers2010::AU * iers2010::AU) / d2;
  for (int k = 0; k < 3; k++) {
    vc_eq(a(k), p * q[6] * Area / Mass * (q[k] - q[k + 3]) / std::sqrt(d2), 1e-12, "pressure-away-from-the-Sun");
    vc_eq(b(k), a(k), 1e-15, "forms-agree");
    vc_eq(JC(k), vc_partial([&](double *x) { return dso::solar_radiation_acceleration(at(x, 0), at(x, 3), Area, Mass, x[6])(k); }, q, 6), 1e-8, "coefficient-partial-is-the-derivative");
  }
}
HARNESS(srp_partials) {
  srp_setup();
  M3 J;
  V3 JC;
  dso::solar_radiation_acceleration(at(q, 0), at(q, 3), Area, Mass, q[6], J, JC);
  for (int k = 0; k < 3; k++)
    for (int j = 0; j < 3; j++) {
      const double d = vc_partial([&](double *x) { return dso::solar_radiation_acceleration(at(x, 0), at(x, 3), Area, Mass, x[6])(k); }, q, j);
      vc_eq(J(k, j) * 1e10, d * 1e10, VC_NATIVE ? 1e-3 * std::fabs(J(k, k) * 1e10) + 1e-9 : 0, "position-partial-is-the-derivative");
    }
}
