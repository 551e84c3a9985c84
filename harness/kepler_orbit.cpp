// Keplerian motion: src/astrodynamics/{kepler2state,perifocal,propagate_state,state_partials}.cpp
#include "vc.h"
#include "astrodynamics/perifocal.cpp"
#include "astrodynamics/propagate_state.cpp"
#include "astrodynamics/state_partials.cpp"
#include "astrodynamics/state2kepler.cpp"

// contract of dso::kepler (its own property A01): the eccentric anomaly solving
// E - e sin E = M; its derivatives follow from that equation
double dso::kepler(double e, double M, int &ok, double) noexcept {
#ifdef VC_SYMBOLIC
  ok = 0;
  return vc_uf2("kepler_E", e, M);
#else
  double E = e < 0.8 ? M : iers2010::DPI;
  for (int i = 0; i < 100; i++) {
    const double d = (E - e * std::sin(E) - M) / (1e0 - e * std::cos(E));
    E -= d;
  }
  ok = 0;
  return E;
#endif
}

struct Ele {
  double x[8]; // a e i O o M GM dt
  Ele() {
    x[0] = vc_real("a", 0.5, 3);
    x[1] = vc_real("e", 0.05, 0.7);
    x[2] = vc_real("i", 0.2, 2.9);
    x[3] = vc_real("Omega", 0, 6);
    x[4] = vc_real("omega", 0, 6);
    x[5] = vc_real("M", 0.2, 6);
    x[6] = vc_real("GM", 0.5, 2);
    x[7] = vc_real("dt", -2, 2);
    vc_assume(x[0] > 0 && x[1] > 0 && x[1] < 1 && x[6] > 0);
    vc_assume(std::sin(x[2]) > 0);
  }
};
static dso::OrbitalElements ele(const double *x) {
  dso::OrbitalElements o;
  o.semimajor() = x[0];
  o.eccentricity() = x[1];
  o.inclination() = x[2];
  o.Omega() = x[3];
  o.omega() = x[4];
  o.mean_anomaly() = x[5];
  return o;
}
// radius is positive for e<1 (spec-side helper for |cos|<=1)
static void ell(const double *x, double t) {
  int ok;
  const double n = std::sqrt(x[6] / (x[0] * x[0] * x[0]));
  const double E = dso::kepler(x[1], x[5] + n * t, ok, 0);
  vc_assume(1e0 - x[1] * std::cos(E) > 0);
}

HARNESS(rotation) {
  const double O = vc_real("Omega", 0, 6), o = vc_real("omega", 0, 6), i = vc_real("i", 0, 3);
  const auto T = dso::perifocal2equatorial_matrix(O, o, i);
  const double cO = std::cos(O), sO = std::sin(O), co = std::cos(o), so = std::sin(o), ci = std::cos(i), si = std::sin(i);
  // rows of Rz(-O) Rx(-i) Rz(-o)
  const double A[3][3] = {{cO, -sO, 0}, {sO, cO, 0}, {0, 0, 1}};
  const double B[3][3] = {{1, 0, 0}, {0, ci, -si}, {0, si, ci}};
  const double C[3][3] = {{co, -so, 0}, {so, co, 0}, {0, 0, 1}};
  for (int r = 0; r < 3; r++)
    for (int c = 0; c < 3; c++) {
      double s = 0;
      for (int k = 0; k < 3; k++)
        for (int l = 0; l < 3; l++)
          s += A[r][k] * B[k][l] * C[l][c];
      vc_eq(T(r, c), s, 1e-12, "rotation-is-Rz-Rx-Rz");
    }
  dso::OrbitalElements el;
  el.Omega() = O; el.omega() = o; el.inclination() = i;
  Eigen::Matrix<double, 6, 1> Y;
  for (int k = 0; k < 6; k++)
    Y(k) = vc_real("y", -2, 2);
  const Eigen::Matrix<double, 6, 1> Z = dso::perifocal2equatorial(el, Y);
  const Eigen::Matrix<double, 6, 1> W = dso::equatorial2perifocal(el, Z);
  for (int k = 0; k < 6; k++)
    vc_eq(W(k), Y(k), 1e-12, "rotating-back-is-the-inverse");
  vc_eq(Z(0) * Z(0) + Z(1) * Z(1) + Z(2) * Z(2), Y(0) * Y(0) + Y(1) * Y(1) + Y(2) * Y(2), 1e-12, "length-preserved");
  vc_eq(Z(0) * Z(3) + Z(1) * Z(4) + Z(2) * Z(5), Y(0) * Y(3) + Y(1) * Y(4) + Y(2) * Y(5), 1e-12, "angles-preserved");
  // the three-vector variants agree with the state variant
  dso::Vector3 rp{{Y(0), Y(1), Y(2)}}, vp{{Y(3), Y(4), Y(5)}}, re, ve, rb, vb;
  dso::perifocal2equatorial(el, rp, vp, re, ve);
  dso::equatorial2perifocal(el, re, ve, rb, vb);
  for (int k = 0; k < 3; k++) {
    vc_eq(re(k), Z(k), 1e-12, "vector-variant-agrees");
    vc_eq(ve(k), Z(k + 3), 1e-12, "vector-variant-agrees");
    vc_eq(rb(k), Y(k), 1e-12, "vector-variant-inverts");
    vc_eq(vb(k), Y(k + 3), 1e-12, "vector-variant-inverts");
  }
}

// d/dt r = v and d/dt v = -GM r/|r|^3
template <typename F> static void newton(F f, double *x) {
  const Eigen::Matrix<double, 6, 1> Y = f(x);
  const double r2 = Y(0) * Y(0) + Y(1) * Y(1) + Y(2) * Y(2);
  const double r = std::sqrt(r2);
  int ok;
  const double n = std::sqrt(x[6] / (x[0] * x[0] * x[0]));
  const double E = dso::kepler(x[1], x[5] + n * x[7], ok, 0);
  const double rr = x[0] * (1e0 - x[1] * std::cos(E));
  vc_eq(r2, rr * rr, 1e-9, "distance-is-a(1-e-cosE)");
  for (int k = 0; k < 3; k++) {
    vc_eq(vc_partial([&](double *z) { return f(z)(k); }, x, 7), Y(k + 3), 1e-6, "position-rate-is-the-velocity");
    vc_eq(vc_partial([&](double *z) { return f(z)(k + 3); }, x, 7) * (rr * rr * rr), -x[6] * Y(k), 1e-5, "velocity-rate-is-gravity");
  }
}
HARNESS(propagate_newton) {
  Ele q;
  ell(q.x, q.x[7]);
  newton([](double *x) { return dso::propagate_state(x[6], ele(x), x[7]); }, q.x);
}
HARNESS(elements2state_newton) {
  Ele q;
  ell(q.x, q.x[7]);
  newton([](double *x) { int er; return dso::elements2state(x[6], x[7], ele(x), er); }, q.x);
}
HARNESS(elements2state_vec_newton) {
  Ele q;
  ell(q.x, q.x[7]);
  newton([](double *x) {
    dso::Vector3 r, v;
    dso::elements2state(ele(x), x[7], r, v, x[6]);
    Eigen::Matrix<double, 6, 1> Y;
    Y << r(0), r(1), r(2), v(0), v(1), v(2);
    return Y; }, q.x);
}
// the three routes from elements to a state agree
HARNESS(agreement) {
  Ele q;
  ell(q.x, q.x[7]);
  const Eigen::Matrix<double, 6, 1> A = dso::propagate_state(q.x[6], ele(q.x), q.x[7]);
  int er;
  const Eigen::Matrix<double, 6, 1> B = dso::elements2state(q.x[6], q.x[7], ele(q.x), er);
  dso::Vector3 r, v;
  dso::elements2state(ele(q.x), q.x[7], r, v, q.x[6]);
  const Eigen::Matrix<double, 6, 1> P = dso::elements2perifocal(q.x[6], ele(q.x), q.x[7]);
  const Eigen::Matrix<double, 6, 1> D = dso::perifocal2equatorial(ele(q.x), P);
  // pericenter on the first axis: (a(cos E - e), a sqrt(1-e^2) sin E, 0)
  const double *x = q.x;
  const double n = std::sqrt(x[6] / (x[0] * x[0] * x[0]));
  const double E = dso::kepler(x[1], x[5] + n * x[7], er, 0);
  vc_eq(P(0), x[0] * (std::cos(E) - x[1]), 1e-9, "perifocal-position");
  vc_eq(P(1), x[0] * std::sqrt(1e0 - x[1] * x[1]) * std::sin(E), 1e-9, "perifocal-position");
  vc_eq(P(2), 0e0, 1e-12, "perifocal-position");
  for (int k = 0; k < 6; k++) {
    vc_eq(B(k), A(k), 1e-9, "elements2state-agrees-with-propagate");
    vc_eq(k < 3 ? r(k) : v(k - 3), A(k), 1e-9, "vector-elements2state-agrees");
    vc_eq(D(k), A(k), 1e-9, "perifocal-route-agrees");
  }
}
HARNESS(partials) {
  Ele q;
  ell(q.x, q.x[7]);
  const Eigen::Matrix<double, 6, 6> D = dso::state_partials(q.x[6], ele(q.x), q.x[7]);
  for (int j = 0; j < 6; j++)
    for (int k = 0; k < 6; k++)
      vc_eq(D(k, j), vc_partial([&](double *x) { return dso::propagate_state(x[6], ele(x), x[7])(k); }, q.x, j), 1e-5, "partial-is-the-derivative");
}
