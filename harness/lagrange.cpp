// Solid harmonics V, W: src/gravity/lagrange_poly.cpp (and its copy in var/icgem with
// -DVC_ICGEM).  The matrix is replaced by its contract (property M01): each element (i,j),
// 0<=j<=i<rows, j<cols, is a cell of its own.  A cell is written with the value the defining
// recursion gives for it, and read only after it was written; by induction over the writes
// every cell then holds the function V(n,m), W(n,m) the recursion defines.
#include "vc.h"
#include <cstdlib>
#include <algorithm>
#define __COMPACT_2D_SIMPLE_MATRIX_HPP__
#define __COMPACT_2D_SYMMETRIC_MATRIX_HPP__
static const long S = VC_NATIVE ? 256 : 20011;
static double X, Y, Z, R;
static int g_l, g_k;
#ifdef VC_SYMBOLIC
static double sh(int w, int n, int m) { return vc_uf2(w ? "W" : "V", n, m); }
#else
// closed form: (R/r)^(n+1) P_nm(sin phi) {cos,sin}(m lambda), no Condon-Shortley phase
static double sh(int w, int n, int m) {
  const double r = std::sqrt(X * X + Y * Y + Z * Z), lam = std::atan2(Y, X);
  return std::pow(R / r, n + 1) * std::assoc_legendre(n, m, Z / r) * (w ? std::sin(m * lam) : std::cos(m * lam));
}
#endif
static double fact(int n, int m) {
  double f = 1e0;
  for (int i = n - m + 1; i <= n + m; i++)
    f *= std::sqrt((double)i);
  return f;
}
static double spec(int w, int n, int m) {
#ifdef VC_SYMBOLIC
  const double r2 = X * X + Y * Y + Z * Z;
  if (n == 0)
    return w ? 0e0 : R / std::sqrt(r2);
  if (w && m == 0)
    return 0e0;
  if (n == m)
    return w ? (2e0 * m - 1e0) * (X * R / r2 * sh(1, m - 1, m - 1) + Y * R / r2 * sh(0, m - 1, m - 1))
             : (2e0 * m - 1e0) * (X * R / r2 * sh(0, m - 1, m - 1) - Y * R / r2 * sh(1, m - 1, m - 1));
  if (n == m + 1)
    return (2e0 * m + 1e0) * (Z * R / r2) * sh(w, m, m);
  return ((2e0 * n - 1e0) * (Z * R / r2) * sh(w, n - 1, m) - (n + m - 1e0) * (R * R / r2) * sh(w, n - 2, m)) / (n - m);
#else
  return sh(w, n, m);
#endif
}
struct Cell {
  char **wr;
  int w, n, m;
  void inside() const { vc_assert(n >= 0 && n <= g_l && m >= 0 && m <= n && m <= g_k, "index-inside-the-matrix"); }
  operator double() const {
    inside();
    vc_assert(wr[n][m] == 1, "read-after-written");
    return sh(w, n, m);
  }
  Cell &operator=(double v) {
    inside();
    const double s = spec(w, n, m);
    vc_eq(v, s, VC_NATIVE ? 1e-7 * (1e-6 + std::pow(R / std::sqrt(X * X + Y * Y + Z * Z), n + 1) * fact(n, m)) : 0, "value-follows-the-recursion");
    wr[n][m] = 1;
    return *this;
  }
  Cell &operator=(const Cell &o) { return *this = (double)o; }
};
namespace dso {
enum class MatrixStorageType : char { RowWise, ColumnWise, Trapezoid };
template <MatrixStorageType T> struct Mat2D {
  char **wr;
  int w, r, c;
  int rows() const { return r; }
  int cols() const { return c; }
  Cell operator()(int i, int j) { return Cell{wr, w, i, j}; }
  double operator()(int i, int j) const { return Cell{wr, w, i, j}; }
};
} // namespace dso
#ifdef VC_ICGEM
#define __EARTH_GRAVITY_N_POTENTIAL_HPP__
namespace dso {
int lagrange_polynomials(double, double, double, double, int, int, Mat2D<MatrixStorageType::Trapezoid> &, Mat2D<MatrixStorageType::Trapezoid> &) noexcept;
}
#include "var/icgem/src/lagrange_poly.cpp"
#else
#ifdef VC_DEBUG_VARIANT
#define DEBUG
#endif
#include "gravity/lagrange_poly.cpp"
#endif
template <dso::MatrixStorageType T> static void all() {
  X = vc_real("x", -2, 2), Y = vc_real("y", -2, 2), Z = vc_real("z", -2, 2), R = vc_real("R", 0.5, 1);
  vc_assume(X * X + Y * Y + Z * Z > (VC_NATIVE ? 0.1 : 0));
  g_l = vc_int("degree", 1, VC_NATIVE ? 40 : 20000);
  g_k = vc_int("order", 0, VC_NATIVE ? 40 : 20000);
  char **wv = (char **)malloc((g_l + 1) * sizeof(char *)), **ww = (char **)malloc((g_l + 1) * sizeof(char *));
  for (int i = 0; i <= g_l; i++) {
    wv[i] = (char *)calloc(S, 1);
    ww[i] = (char *)calloc(S, 1);
  }
  dso::Mat2D<T> V{wv, 0, g_l + 1, g_k + 1}, W{ww, 1, g_l + 1, g_k + 1};
  const int rc = dso::lagrange_polynomials(X, Y, Z, R, g_l, g_k, V, W);
  if (g_k > g_l) {
    vc_assert(rc != 0, "order-above-degree-refused");
  } else {
    vc_assert(rc == 0, "accepted");
    const int p = vc_int("p", 0, 20000), q = vc_int("q", 0, 20000);
    vc_assume(p <= g_l && q <= p && q <= g_k);
    vc_assert(wv[p][q] == 1, "every-V-is-computed");
    vc_assert(ww[p][q] == 1, "every-W-is-computed");
    vc_cover("end");
  }
  for (int i = 0; i <= g_l; i++) {
    free(wv[i]);
    free(ww[i]);
  }
  free(wv);
  free(ww);
}
HARNESS(solid_harmonics) { all<dso::MatrixStorageType::Trapezoid>(); }
#ifdef VC_DEBUG_VARIANT
HARNESS(solid_harmonics_rowwise) { all<dso::MatrixStorageType::RowWise>(); }
#endif
