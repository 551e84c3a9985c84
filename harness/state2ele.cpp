// State vector to orbital elements: src/astrodynamics/state2kepler.cpp
#define VC_NORM_ANGLE_OPAQUE
#include "vc.h"
#include "astrodynamics/state2kepler.cpp"
#ifndef VC_SYMBOLIC
extern "C" double vc_norm_angle(double a) {
  const double t = std::fmod(a, iers2010::D2PI);
  return t < 0 ? t + iers2010::D2PI : t;
}
#endif
static double g_e, g_M;
// contract of dso::kepler: the solution of E - e sin E = M
double dso::kepler(double e, double M, int &ok, double) noexcept {
  ok = 0;
  g_e = e;
  g_M = M;
#ifdef VC_SYMBOLIC
  return vc_uf2("kepler_E", e, M);
#else
  double E = e < 0.8 ? M : iers2010::DPI;
  for (int i = 0; i < 100; i++)
    E -= (E - e * std::sin(E) - M) / (1e0 - e * std::cos(E));
  return E;
#endif
}
// Every state with non-zero angular momentum is R u, vr u + vt w with u, w the radial and transverse
// directions of an orbit plane (node O, inclination i, argument of latitude u) and R, vt > 0.
struct State {
  double r[3], v[3], h[3], GM, R, H, a, ec, es, sO, cO, si, ci, su, cu, vr, vt;
  State() {
    const double O = vc_real("Omega", -3.1, 3.1), i = vc_real("i", 0.05, 3.05), u = vc_real("u", -3.1, 3.1);
    R = vc_real("R", 0.5, 2);
    vr = vc_real("vr", -0.8, 0.8);
    vt = vc_real("vt", 0.2, 1.2);
    GM = vc_real("GM", 0.8, 1.2);
    sO = std::sin(O), cO = std::cos(O), si = std::sin(i), ci = std::cos(i), su = std::sin(u), cu = std::cos(u);
    vc_assume(GM > 0 && R > 0 && vt > 0 && si > 0);
    const double U[3] = {cO * cu - sO * su * ci, sO * cu + cO * su * ci, su * si};
    const double W[3] = {-cO * su - sO * cu * ci, -sO * su + cO * cu * ci, cu * si};
    const double Z[3] = {sO * si, -cO * si, ci};
    H = R * vt;
    for (int k = 0; k < 3; k++) {
      r[k] = R * U[k];
      v[k] = vr * U[k] + vt * W[k];
      h[k] = H * Z[k];
    }
    const double w = 2e0 / R - (vr * vr + vt * vt) / GM;
    vc_assume(w > (VC_NATIVE ? 0.1 : 0)); // bound orbit
    a = 1e0 / w;
    ec = 1e0 - R / a;
    es = R * vr / std::sqrt(GM * a);
    vc_assume(ec * ec + es * es > (VC_NATIVE ? 1e-3 : 0)); // not circular
  }
};
static void elements_ok(const State &s, const dso::OrbitalElements &el) {
  vc_eq(el.semimajor(), s.a, 1e-9, "semimajor-is-the-vis-viva-one");
  const double e = el.eccentricity();
  vc_eq(e * e, 1e0 - s.H * s.H / (s.GM * s.a), 1e-9, "eccentricity-from-angular-momentum");
  vc_assert(e >= 0e0, "eccentricity-not-negative");
  // the orbit pole is (sin i sin O, -sin i cos O, cos i)
  const double si = std::sin(el.inclination()), ci = std::cos(el.inclination());
  vc_eq(si * std::sin(el.Omega()) * s.H, s.h[0], 1e-9, "pole-of-the-orbit");
  vc_eq(-si * std::cos(el.Omega()) * s.H, s.h[1], 1e-9, "pole-of-the-orbit");
  vc_eq(ci * s.H, s.h[2], 1e-9, "pole-of-the-orbit");
}
// in the orbit plane e*P = v x h/GM - r/R:  e cos t = H vt/GM - 1 and e sin t = H vr/GM
// along and across the radius, t = u - omega
static void pericenter_ok(const State &s, const dso::OrbitalElements &el) {
  const double e = el.eccentricity();
  const double so = std::sin(el.omega()), co = std::cos(el.omega());
  const double et = s.H * s.vt / s.GM - 1e0, ep = s.H * s.vr / s.GM;
  vc_eq(e * co, et * s.cu + ep * s.su, 1e-8, "pericenter-direction");
  vc_eq(e * so, et * s.su - ep * s.cu, 1e-8, "pericenter-direction");
}
static void angle_eq(double x, double y, const char *msg) {
#ifdef VC_SYMBOLIC
  vc_eq(x, y, 1e-9, msg);
#else
  vc_eq(std::remainder(x - y, iers2010::D2PI), 0, 1e-7, msg);
#endif
}
static void direction_eq(double x, double y, const char *msg) {
  vc_eq(std::cos(x), std::cos(y), 1e-9, msg);
  vc_eq(std::sin(x), std::sin(y), 1e-9, msg);
}
HARNESS(eigen_elements) {
  State s;
  Eigen::Matrix<double, 6, 1> Y;
  Y << s.r[0], s.r[1], s.r[2], s.v[0], s.v[1], s.v[2];
  const dso::OrbitalElements el = dso::state2elements(s.GM, Y);
  elements_ok(s, el);
  pericenter_ok(s, el);
  // the two variants agree
  dso::OrbitalElements f;
  dso::state2elements(dso::Vector3{{s.r[0], s.r[1], s.r[2]}}, dso::Vector3{{s.v[0], s.v[1], s.v[2]}}, f, s.GM);
  vc_eq(f.semimajor(), el.semimajor(), 1e-9, "variants-agree");
  vc_eq(f.eccentricity(), el.eccentricity(), 1e-9, "variants-agree");
  direction_eq(f.inclination(), el.inclination(), "variants-agree");
  direction_eq(f.Omega(), el.Omega(), "variants-agree");
  direction_eq(f.omega(), el.omega(), "variants-agree");
  angle_eq(f.mean_anomaly(), el.mean_anomaly(), "variants-agree");
}
HARNESS(mean_anomaly) {
  State s;
  Eigen::Matrix<double, 6, 1> Y;
  Y << s.r[0], s.r[1], s.r[2], s.v[0], s.v[1], s.v[2];
  const dso::OrbitalElements el = dso::state2elements(s.GM, Y);
  // E with e cos E = 1 - R/a, e sin E = r.v/sqrt(GM a);  M = E - e sin E up to whole turns
  const double E = std::atan2(s.es, s.ec);
  angle_eq(el.mean_anomaly(), dso::norm_angle<double, dso::AngleUnit::Radians>(E - s.es), "mean-anomaly-from-keplers-equation");
}
// {h, i, Omega, e, omega, theta}
static void kepler6_ok(const State &s, const double *k) {
  vc_eq(k[0], s.H, 1e-9, "angular-momentum");
  vc_eq(std::cos(k[1]), s.ci, 1e-8, "inclination");
  vc_eq(std::sin(k[1]), s.si, 1e-7, "inclination");
  vc_eq(std::cos(k[2]), s.cO, 1e-7, "node");
  vc_eq(std::sin(k[2]), s.sO, 1e-7, "node");
  const double e = k[3];
  vc_eq(e * e, 1e0 - s.H * s.H / (s.GM * s.a), 1e-9, "eccentricity-from-angular-momentum");
  vc_assert(e >= 0e0, "eccentricity-not-negative");
  const double et = s.H * s.vt / s.GM - 1e0, ep = s.H * s.vr / s.GM;
  vc_eq(e * std::cos(k[5]), et, 1e-6, "true-anomaly");
  vc_eq(e * std::sin(k[5]), ep, 1e-6, "true-anomaly");
  vc_eq(e * std::cos(k[4]), et * s.cu + ep * s.su, 1e-6, "pericenter-direction");
  vc_eq(e * std::sin(k[4]), et * s.su - ep * s.cu, 1e-6, "pericenter-direction");
}
// sampled states keep clear of the apses, where rounding drives the acos argument past 1
static void away_from_apses(const State &s) {
  const double et = s.H * s.vt / s.GM - 1e0, ep = s.H * s.vr / s.GM;
  vc_assume(!VC_NATIVE || (std::abs(ep) > 1e-3 && std::abs(et * s.su - ep * s.cu) > 1e-3 && std::abs(s.sO) > 1e-3));
}
HARNESS(kepler6) {
  State s;
  away_from_apses(s);
  double Y[6] = {s.r[0], s.r[1], s.r[2], s.v[0], s.v[1], s.v[2]}, k[6];
  dso::state2kepler(Y, k, s.GM);
  kepler6_ok(s, k);
}
HARNESS(kepler6_vallado) {
  State s;
  away_from_apses(s);
  double Y[6] = {s.r[0], s.r[1], s.r[2], s.v[0], s.v[1], s.v[2]}, k[6];
  dso::alternatives::state2kepler_vallado(Y, k, s.GM);
  kepler6_ok(s, k);
}
HARNESS(kepler6_montenbruck) {
  State s;
  double Y[6] = {s.r[0], s.r[1], s.r[2], s.v[0], s.v[1], s.v[2]}, k[6];
  dso::alternatives::state2kepler_montenbruck(Y, k, s.GM);
  kepler6_ok(s, k);
}
