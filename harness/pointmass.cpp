// Third-body acceleration: src/gravity/point_mass_acceleration.cpp and the Vector3 form of
// src/egravity.hpp.
#include "vc.h"
#define __COMPACT_2D_SIMPLE_MATRIX_HPP__
#define __HARMONIC_POTENTIAL_COEFFICIENTS_HPP__
namespace dso {
enum class MatrixStorageType : char { RowWise, ColumnWise, Trapezoid };
template <MatrixStorageType T> struct Mat2D { int rows() const { return 0; } int cols() const { return 0; } };
struct HarmonicCoeffs { double Re() const { return 1; } double GM() const { return 1; } };
} // namespace dso
#include "gravity/point_mass_acceleration.cpp"
typedef Eigen::Matrix<double, 3, 1> V3;
typedef Eigen::Matrix<double, 3, 3> M3;
static double q[7]; // satellite, body, GM
static V3 sat(const double *x) { return V3(x[0], x[1], x[2]); }
static V3 obj(const double *x) { return V3(x[3], x[4], x[5]); }
static void setup() {
  const char *n[] = {"x", "y", "z", "X", "Y", "Z", "GM"};
  for (int i = 0; i < 7; i++) q[i] = vc_real(n[i], -3, 3);
  double d = 0, s = 0;
  for (int i = 0; i < 3; i++) d += (q[i] - q[i + 3]) * (q[i] - q[i + 3]), s += q[i + 3] * q[i + 3];
  vc_assume(d > (VC_NATIVE ? 0.2 : 0) && s > (VC_NATIVE ? 0.2 : 0));
}
// GM (1/|d| - d.s/|s|^3): the disturbing function without its constants
static double potential(const double *x) {
  double d = 0, s = 0, t = 0;
  for (int i = 0; i < 3; i++) d += (x[i] - x[i + 3]) * (x[i] - x[i + 3]), s += x[i + 3] * x[i + 3], t += x[i] * x[i + 3];
  return x[6] * (1e0 / std::sqrt(d) - t / (s * std::sqrt(s)));
}
HARNESS(acceleration) {
  setup();
  const V3 a = dso::point_mass_accel(q[6], sat(q), obj(q));
  for (int k = 0; k < 3; k++)
    vc_eq(a(k), vc_partial([&](double *x) { return potential(x); }, q, k), 1e-5, "acceleration-is-the-gradient");
}
HARNESS(variants) {
  setup();
  const V3 a = dso::point_mass_accel(q[6], sat(q), obj(q));
  M3 J;
  const V3 b = dso::point_mass_accel(q[6], sat(q), obj(q), J);
  const dso::Vector3 c = dso::point_mass_accel(dso::Vector3{{q[0], q[1], q[2]}}, dso::Vector3{{q[3], q[4], q[5]}}, q[6]);
  for (int k = 0; k < 3; k++) {
    vc_eq(b(k), a(k), 0, "forms-agree");
    vc_eq(c(k), a(k), 0, "forms-agree");
  }
}
HARNESS(partials) {
  setup();
  M3 J;
  dso::point_mass_accel(q[6], sat(q), obj(q), J);
  for (int k = 0; k < 3; k++)
    for (int j = 0; j < 3; j++)
      vc_eq(J(k, j), vc_partial([&](double *x) { return dso::point_mass_accel(x[6], sat(x), obj(x))(k); }, q, j), 1e-4, "partial-is-the-derivative");
}
// a satellite at the origin of the frame is not disturbed
HARNESS(origin) {
  setup();
  vc_assume(q[0] == 0 || VC_NATIVE);
  q[0] = q[1] = q[2] = 0;
  const V3 a = dso::point_mass_accel(q[6], sat(q), obj(q));
  for (int k = 0; k < 3; k++)
    vc_eq(a(k), 0, 1e-12, "no-disturbance-at-the-origin");
}
