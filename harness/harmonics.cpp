// VC harness: src/harmonic_coeffs.hpp, src/gravity/harmonic_coeffs.cpp
#include "vc.h"
#include <cstdlib>
#include <utility>
#include "gravity/harmonic_coeffs.cpp"
using dso::HarmonicCoeffs;
static const int DMAX = 20000;

// every coefficient of the triangle has a storage cell of its own
HARNESS(cells) {
  vc_live_mark();
  {
    const int n = vc_int("degree", 1, DMAX);
    HarmonicCoeffs h(n, 1e0, 2e0);
    vc_assert(h.degree() == n, "degree-as-constructed");
    const int i = vc_int("i", 0, DMAX), j = vc_int("j", 0, DMAX);
    const int k = vc_int("k", 0, DMAX), l = vc_int("l", 0, DMAX);
    const bool s1 = vc_bool("s1"), s2 = vc_bool("s2");
    vc_assume(i <= n && j <= i && k <= n && l <= k);
    vc_assume(!(s1 && j == 0) && !(s2 && l == 0));
    const double a = vc_real("a", -5, 5), b = vc_real("b", -5, 5);
    if (s1) h.S(i, j) = a; else h.C(i, j) = a;
    if (s2) h.S(k, l) = b; else h.C(k, l) = b;
    vc_assert((s2 ? h.S(k, l) : h.C(k, l)) == b, "reads-back-last-write");
    if (s1 != s2 || i != k || j != l)
      vc_assert((s1 ? h.S(i, j) : h.C(i, j)) == a, "distinct-coefficients-distinct-cells");
    vc_cover("end");
  }
  vc_noleak("storage-released-exactly-once");
}

// (n+m)!/(n-m)!
static double factorial_ratio(int n, int m) {
  double p = 1e0;
  if (m != 0)
    for (int i = n - m + 1; i <= n + m; i++) p *= (double)i;
  return p;
}

HARNESS(denormalize) {
  vc_live_mark();
  {
    const int N = vc_int("degree", 1, DMAX);
    const int order = vc_int("order", -1, DMAX + 5);
    HarmonicCoeffs h(N, 1e0, 2e0);
    vc_fill_rows(h.m_data, N + 1, N + 1, 0.5, 2);
    const int n = vc_int("n", 0, DMAX), m = vc_int("m", 0, DMAX);
    const bool s = vc_bool("s");
    vc_assume(n <= N && m <= n && !(s && m == 0));
    const double before = s ? h.S(n, m) : h.C(n, m);
    const int rc = h.denormalize(order);
    const double after = s ? h.S(n, m) : h.C(n, m);
    const int eff = order < 0 ? N : order;
    if (eff > N) {
      vc_assert(rc != 0, "order-above-degree-refused");
      vc_eq(after, before, 0, "refused-leaves-coefficients");
      vc_assert(h.normalized(), "refused-stays-normalised");
    } else {
      vc_assert(rc == 0, "accepted");
      vc_assert(!h.normalized(), "marked-unnormalised");
      if (n == 0 || m > eff)
        vc_eq(after, before, 0, "other-coefficients-untouched");
      else
        vc_eq(after, before / std::sqrt(factorial_ratio(n, m) / (2 * n + 1) / (m == 0 ? 1 : 2)), 0, "unnormalised-coefficient");
      vc_cover("ok");
      h.denormalize(order);
      vc_eq(s ? h.S(n, m) : h.C(n, m), after, 0, "second-call-is-no-op");
    }
  }
  vc_noleak("storage-released-exactly-once");
}

// resizing and moving keep every coefficient addressable and every block freed exactly once
HARNESS(resize) {
  vc_live_mark();
  {
    const int d0 = vc_int("degree", 0, DMAX), d1 = vc_int("degree1", 0, DMAX), d2 = vc_int("degree2", 0, DMAX);
    const int i = vc_int("i", 0, DMAX), j = vc_int("j", 0, DMAX);
    const int k = vc_int("k", 0, DMAX), l = vc_int("l", 0, DMAX);
    const bool def = vc_bool("default-constructed");
    vc_assume(i <= d1 && j <= i && k <= d2 && l <= k && l > 0);
    const double a = vc_real("a", -5, 5), b = vc_real("b", -5, 5);
    HarmonicCoeffs h = def ? HarmonicCoeffs() : HarmonicCoeffs(d0);
    h.resize(d1);
    vc_assert(h.degree() == d1, "degree-after-resize");
    h.C(i, j) = a;
    vc_assert(h.C(i, j) == a, "coefficient-addressable-after-resize");
    h.resize(d2);
    vc_assert(h.degree() == d2, "degree-after-resize");
    h.C(k, l) = a;
    h.S(k, l) = b;
    vc_assert(h.S(k, l) == b && h.C(k, l) == a, "coefficient-addressable-after-resize");
    vc_cover("end");
  }
  vc_noleak("storage-released-exactly-once");
}

HARNESS(moves) {
  vc_live_mark();
  {
    const int d0 = vc_int("degree", 1, DMAX), d1 = vc_int("degree1", 0, DMAX);
    const int i = vc_int("i", 0, DMAX), j = vc_int("j", 0, DMAX);
    vc_assume(i <= d0 && j <= i && j > 0);
    const double a = vc_real("a", -5, 5), b = vc_real("b", -5, 5);
    const double gm = vc_real("gm", 1, 5), re = vc_real("re", 1, 5);
    HarmonicCoeffs h(d0, gm, re);
    h.C(i, j) = a;
    h.S(i, j) = b;
    h.normalized() = false;
    HarmonicCoeffs m(std::move(h));
    vc_assert(m.degree() == d0 && m.C(i, j) == a && m.S(i, j) == b, "move-hands-the-coefficients-over");
    vc_assert(m.GM() == gm && m.Re() == re && !m.normalized(), "move-hands-the-constants-over");
    HarmonicCoeffs o(d1);
    o = std::move(m);
    vc_assert(o.degree() == d0 && o.C(i, j) == a && o.S(i, j) == b, "move-assignment-hands-the-coefficients-over");
    vc_assert(o.GM() == gm && o.Re() == re && !o.normalized(), "move-assignment-hands-the-constants-over");
    HarmonicCoeffs &self = o;
    o = std::move(self);
    vc_assert(o.degree() == d0 && o.C(i, j) == a && o.S(i, j) == b, "self-move-keeps-the-coefficients");
    m.resize(d1);
    vc_assert(m.degree() == d1, "moved-from-object-can-be-resized");
    vc_cover("end");
  }
  vc_noleak("storage-released-exactly-once");
}

// J2 and the rows are views of the coefficients
HARNESS(views) {
  const int n = vc_int("degree", 2, DMAX);
  HarmonicCoeffs h(n, 1e0, 2e0);
  const int i = vc_int("i", 0, DMAX), j = vc_int("j", 0, DMAX);
  vc_assume(i <= n && j <= i);
  const double a = vc_real("a", -5, 5);
  h.C(2, 0) = a;
  vc_assert(h.J2() == -a, "J2-is-minus-C20");
  vc_assert(h.C_row(i) + j == &h.C(i, j), "C-row-is-the-row");
  if (j > 0) vc_assert(h.S_row(i) + j - 1 == &h.S(i, j), "S-row-is-the-row");
  const HarmonicCoeffs &c = h;
  vc_assert(&c.C(i, j) == &h.C(i, j), "const-view-is-the-same-cell");
  if (j > 0) vc_assert(&c.S(i, j) == &h.S(i, j), "const-view-is-the-same-cell");
  vc_cover("end");
}
