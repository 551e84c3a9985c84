// Acceleration and its gradient from spherical harmonics:
// src/gravity/gravity_acceleration.cpp, the inline wrappers of src/egravity.hpp, and the copy in
// var/icgem (-DVC_ICGEM).  V, W and the coefficients are seen through their contracts (G01, M01,
// M02).  The derivatives of the result with respect to C(p,q) and S(p,q), for arbitrary p, q,
// are the second/third derivatives of the solid harmonics V(p,q), W(p,q) (Cunningham's
// relations), and no coefficients give no acceleration: so the result is the gradient
// (Hessian) of GM/Re sum C V + S W.
#include "vc.h"
#include <algorithm>
#define __COMPACT_2D_SIMPLE_MATRIX_HPP__
#define __COMPACT_2D_SYMMETRIC_MATRIX_HPP__
#define __HARMONIC_POTENTIAL_COEFFICIENTS_HPP__
static int g_deg, g_ord, g_need, g_p, g_q;
static double P[2] = {0, 0}; // added to C(p,q), S(p,q)
static bool g_zero;
static double g_Re, g_GM;
#ifdef VC_SYMBOLIC
static double sh(int w, int n, int m) { return vc_uf2(w ? "W" : "V", n, m); }
static double co(int s, int n, int m) { return vc_uf2(s ? "S" : "C", n, m); }
static double xyz[3];
#else
static double xyz[3];
static double sh(int w, int n, int m) {
  const double X = xyz[0], Y = xyz[1], Z = xyz[2], r = std::sqrt(X * X + Y * Y + Z * Z), lam = std::atan2(Y, X);
  return std::pow(g_Re / r, n + 1) * std::assoc_legendre(n, m, Z / r) * (w ? std::sin(m * lam) : std::cos(m * lam));
}
static double co(int s, int n, int m) { return std::sin(1.3 * n + 2.7 * m + s) / std::tgamma(n + m + 2e0) * std::tgamma(n - m + 1e0); }
#endif
static int g_lag_l, g_lag_k;
static bool g_lag;
namespace dso {
enum class MatrixStorageType : char { RowWise, ColumnWise, Trapezoid };
template <MatrixStorageType T> struct Mat2D {
  long w, r, c;
  int rows() const { return r; }
  int cols() const { return c; }
  double operator()(int i, int j) const {
    vc_assert(i >= 0 && i < r && j >= 0 && j <= i && j < c, "index-inside-the-matrix");
    vc_assert(i <= g_lag_l && j <= g_lag_k, "harmonic-was-computed");
    return sh(w, i, j);
  }
};
struct HarmonicCoeffs {
  double Re() const { return g_Re; }
  double GM() const { return g_GM; }
  double one(int s, int n, int m) const {
    vc_assert(n >= 0 && n <= g_deg && m >= 0 && m <= n && (!s || m > 0), "coefficient-in-the-triangle");
    if (g_zero)
      return 0e0;
    return co(s, n, m) + (((n == g_p) & (m == g_q)) ? P[s] : 0e0);
  }
  double C(int n, int m) const { return one(0, n, m); }
  double S(int n, int m) const { return one(1, n, m); }
};
} // namespace dso
#ifdef VC_ICGEM
#include "eigen3/Eigen/Eigen"
#include "var/icgem/src/gravity_acceleration.cpp"
#else
#include "gravity/gravity_acceleration.cpp"
#endif
using T2 = dso::Mat2D<dso::MatrixStorageType::Trapezoid>;
// the contract of G01
int dso::lagrange_polynomials(double x, double y, double z, double R, int l, int k, T2 &V, T2 &W) noexcept {
  vc_assert(x == xyz[0] && y == xyz[1] && z == xyz[2] && R == g_Re, "harmonics-at-the-position");
  vc_assert(l >= 1 && l < V.r && l < W.r && k < V.c && k < W.c, "harmonics-fit-the-matrix");
  if (k > l)
    return 1;
  g_lag_l = l, g_lag_k = k;
  return 0;
}

// derivatives of V(n,m), W(n,m) times the reference radius, as combinations of V, W
struct Lin {
  double f;
  int w, n, m;
};
static int D(Lin a, int axis, Lin *o) {
  const int n = a.n, m = a.m;
  const double k = (double)(n - m + 2) * (double)(n - m + 1);
  if (axis == 2) {
    o[0] = {-a.f * (double)(n - m + 1), a.w, n + 1, m};
    return 1;
  }
  if (m == 0) {
    if (a.w)
      return 0;
    o[0] = {-a.f, axis, n + 1, 1};
    return 1;
  }
  if (axis == 0) {
    o[0] = {-0.5 * a.f, a.w, n + 1, m + 1};
    o[1] = {0.5 * k * a.f, a.w, n + 1, m - 1};
  } else {
    const double s = a.w ? 1e0 : -1e0;
    o[0] = {0.5 * s * a.f, 1 - a.w, n + 1, m + 1};
    o[1] = {0.5 * s * k * a.f, 1 - a.w, n + 1, m - 1};
  }
  return 2;
}
static double val(Lin a) {
  if (a.w && a.m == 0)
    return 0e0;
  return a.f * sh(a.w, a.n, a.m);
}
static double d1(int w, int n, int m, int a) {
  Lin o[2];
  const int k = D({1e0, w, n, m}, a, o);
  double s = 0;
  for (int i = 0; i < k; i++) s += val(o[i]);
  return s;
}
static double d2(int w, int n, int m, int a, int b) {
  Lin o[2], u[2];
  const int k = D({1e0, w, n, m}, a, o);
  double s = 0;
  for (int i = 0; i < k; i++) {
    const int l = D(o[i], b, u);
    for (int j = 0; j < l; j++) s += val(u[j]);
  }
  return s;
}
static double pw(int n) {
#ifdef VC_SYMBOLIC
  return 0;
#else
  const double r = std::sqrt(xyz[0] * xyz[0] + xyz[1] * xyz[1] + xyz[2] * xyz[2]);
  return std::pow(g_Re / r, n) * g_GM;
#endif
}

static void setup(int need) {
  g_Re = vc_real("Re", 0.7, 1), g_GM = vc_real("GM", 0.5, 2);
  vc_assume(g_Re != 0);
  xyz[0] = vc_real("x", -2, 2), xyz[1] = vc_real("y", -2, 2), xyz[2] = vc_real("z", -2, 2);
  vc_assume(xyz[0] * xyz[0] + xyz[1] * xyz[1] + xyz[2] * xyz[2] > (VC_NATIVE ? 0.3 : 0));
  g_deg = vc_int("degree", 1, VC_NATIVE ? 12 : 20000);
  g_ord = vc_int("order", 0, VC_NATIVE ? g_deg : 20000);
  vc_assume(g_ord <= g_deg);
  g_p = vc_int("p", 0, VC_NATIVE ? g_deg : 20000), g_q = vc_int("q", 0, VC_NATIVE ? g_p : 20000);
  vc_assume(g_p <= g_deg && g_q <= g_p);
  P[0] = vc_real("dC", -1, 1), P[1] = vc_real("dS", -1, 1);
  g_zero = false;
  g_lag_l = g_deg + need, g_lag_k = g_ord + need;
}
static T2 mat(int w, int need) { return T2{w, g_deg + need + 1, g_ord + need + 1}; }
// the facts of W(n,0) the specification relies on (G01)
static void wzero() {
#ifdef VC_SYMBOLIC
  vc_assume(sh(1, g_p + 1, 0) == 0e0);
  vc_assume(sh(1, g_p + 2, 0) == 0e0);
#endif
}
static double wrt(double *out, double (*f)(int), int k, int s) {
#ifdef VC_SYMBOLIC
  return vc_diff(out[k], P[s]);
#else
  P[s] += 1;
  const double a = f(k);
  P[s] -= 2;
  const double b = f(k);
  P[s] += 1;
  return (a - b) / 2;
#endif
}

typedef Eigen::Matrix<double, 3, 1> V3;
typedef Eigen::Matrix<double, 3, 3> M3;
static V3 acc() {
  const T2 V = mat(0, 1), W = mat(1, 1);
  dso::HarmonicCoeffs hc;
#ifdef VC_ICGEM
  double v[3];
  vc_assert(dso::grav_potential_accel(g_deg, g_ord, g_Re, g_GM, V, W, hc, v) == 0, "accepted");
  V3 a;
  a << v[0], v[1], v[2];
  return a;
#else
  return dso::grav_potential_accel(g_deg, g_ord, g_Re, g_GM, V, W, hc);
#endif
}
static double accf(int k) { return acc()(k); }
static void check_acc(double *out, double (*f)(int)) {
  const double sc = g_GM / g_Re / g_Re, tl = VC_NATIVE ? 1e-9 * pw(g_p) * std::tgamma(g_p + g_q + 3.) : 0;
  for (int k = 0; k < 3; k++)
    for (int s = 0; s < 2; s++) {
      const double e = wrt(out, f, k, s);
      if (g_q > g_ord || (s && g_q == 0))
        vc_eq(e, 0, VC_NATIVE ? 1e-9 : 0, "unused-coefficient-has-no-effect");
      else
        vc_eq(e, sc * d1(s, g_p, g_q, k), tl, "acceleration-is-the-gradient");
    }
}
HARNESS(acceleration) {
  setup(1);
  const V3 a = acc();
  wzero();
  double out[3] = {a(0), a(1), a(2)};
  check_acc(out, accf);
  vc_cover("end");
}
HARNESS(no_coefficients) {
  setup(2);
  g_zero = true;
  const V3 a = acc();
  for (int k = 0; k < 3; k++)
    vc_eq(a(k), 0, 0, "no-coefficients-no-acceleration");
}
#ifndef VC_ICGEM
static V3 acc2(M3 &J) {
  const T2 V = mat(0, 2), W = mat(1, 2);
  dso::HarmonicCoeffs hc;
  return dso::grav_potential_accel(g_deg, g_ord, g_Re, g_GM, V, W, hc, J);
}
static double acc2f(int k) {
  M3 J;
  const V3 a = acc2(J);
  return k < 3 ? a(k) : J((k - 3) / 3, (k - 3) % 3);
}
static void check_jac(double *out, double (*f)(int)) {
  check_acc(out, f);
  const double sc = g_GM / g_Re / g_Re / g_Re, tl = VC_NATIVE ? 1e-9 * pw(g_p) * std::tgamma(g_p + g_q + 5.) : 0;
  for (int k = 0; k < 3; k++)
    for (int l = 0; l < 3; l++)
      for (int s = 0; s < 2; s++) {
        const double e = wrt(out, f, 3 + 3 * k + l, s);
        if (g_q > g_ord || (s && g_q == 0))
          vc_eq(e, 0, VC_NATIVE ? 1e-9 : 0, "unused-coefficient-has-no-effect");
        else
          vc_eq(e, sc * d2(s, g_p, g_q, k, l), tl, "partials-are-the-hessian");
      }
}
HARNESS(gradient) {
  setup(2);
  M3 J;
  const V3 a = acc2(J);
  wzero();
  double out[12] = {a(0), a(1), a(2), J(0, 0), J(0, 1), J(0, 2), J(1, 0), J(1, 1), J(1, 2), J(2, 0), J(2, 1), J(2, 2)};
  check_jac(out, acc2f);
  vc_cover("end");
}
HARNESS(no_coefficients_gradient) {
  setup(2);
  g_zero = true;
  M3 J;
  const V3 a = acc2(J);
  for (int k = 0; k < 3; k++) {
    vc_eq(a(k), 0, 0, "no-coefficients-no-acceleration");
    for (int l = 0; l < 3; l++)
      vc_eq(J(k, l), 0, 0, "no-coefficients-no-gradient");
  }
}
// the forms that compute the harmonics themselves
static V3 wacc(M3 *J) {
  g_lag_l = g_lag_k = -1;
  T2 V = mat(0, J ? 2 : 1), W = mat(1, J ? 2 : 1);
  dso::HarmonicCoeffs hc;
  V3 pos;
  pos << xyz[0], xyz[1], xyz[2];
  return J ? dso::grav_potential_accel(pos, g_deg, g_ord, V, W, hc, *J) : dso::grav_potential_accel(pos, g_deg, g_ord, V, W, hc);
}
static double waccf(int k) { return wacc(nullptr)(k); }
static double wacc2f(int k) {
  M3 J;
  const V3 a = wacc(&J);
  return k < 3 ? a(k) : J((k - 3) / 3, (k - 3) % 3);
}
HARNESS(from_position) {
  setup(1);
  const V3 a = wacc(nullptr);
  wzero();
  double out[3] = {a(0), a(1), a(2)};
  check_acc(out, waccf);
  vc_cover("end");
}
HARNESS(from_position_gradient) {
  setup(2);
  M3 J;
  const V3 a = wacc(&J);
  wzero();
  double out[12] = {a(0), a(1), a(2), J(0, 0), J(0, 1), J(0, 2), J(1, 0), J(1, 1), J(1, 2), J(2, 0), J(2, 1), J(2, 2)};
  check_jac(out, wacc2f);
  vc_cover("end");
}
#endif
// the relations D() uses: solid harmonics differentiate into solid harmonics.  Natively for the
// closed form up to degree 12; proved from the defining recursions up to degree TD (bounded)
static const int TD = 3;
static double tab[2][TD + 2][TD + 2];
static void table() {
  const double X = xyz[0], Y = xyz[1], Z = xyz[2], r2 = X * X + Y * Y + Z * Z, q = g_Re / r2;
  for (int m = 0; m <= TD + 1; m++)
    for (int n = m; n <= TD + 1; n++)
      for (int w = 0; w < 2; w++) {
        if (n == 0)
          tab[w][n][m] = w ? 0e0 : g_Re / std::sqrt(r2);
        else if (n == m)
          tab[w][n][m] = (2e0 * m - 1e0) * (w ? X * q * tab[1][m - 1][m - 1] + Y * q * tab[0][m - 1][m - 1] : X * q * tab[0][m - 1][m - 1] - Y * q * tab[1][m - 1][m - 1]);
        else
          tab[w][n][m] = ((2e0 * n - 1e0) * Z * q * tab[w][n - 1][m] - (n > m + 1 ? (n + m - 1e0) * g_Re * q * tab[w][n - 2][m] : 0e0)) / (n - m);
      }
}
HARNESS(cunningham) {
  setup(2);
#ifdef VC_SYMBOLIC
  for (int n = 0; n <= TD; n++)
    for (int m = 0; m <= n; m++)
      for (int s = 0; s < 2; s++)
        for (int a = 0; a < 3; a++) {
          if (s && m == 0)
            continue;
          const double d = vc_partial([&](double *) { table(); return tab[s][n][m]; }, xyz, a);
          Lin o[2];
          const int k = D({1e0, s, n, m}, a, o);
          double e = 0;
          for (int i = 0; i < k; i++)
            e += o[i].f * tab[o[i].w][o[i].n][o[i].m];
          vc_eq(d * g_Re, e, 0, "derivative-relations");
        }
#else
  for (int s = 0; s < 2; s++)
    for (int a = 0; a < 3; a++) {
      const double fd = vc_partial([&](double *) { return sh(s, g_p, g_q); }, xyz, a);
      vc_eq(fd * g_Re, d1(s, g_p, g_q, a), 1e-5 * pw(g_p) * std::tgamma(g_p + g_q + 4.), "derivative-relations");
    }
#endif
}
