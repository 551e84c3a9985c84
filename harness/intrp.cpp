// VC harness: var/intrp.cc
#include "vc.h"
#define main intrp_main
#include "../var/intrp.cc"
#undef main

struct Tab { int n; double *x, *y; };
static Tab table(int nmin) {
  Tab t;
  t.n = vc_int("n", nmin, 1000000);
  t.x = vc_sorted_darr("x", t.n, -10, 10);
  t.y = vc_darr("y", t.n, -10, 10);
  return t;
}
// outside the table: the end values and the status that says which side
template <typename I> static void outside() {
  Tab t = table(3);
  I in(t.x, t.y, t.n);
  const double x = vc_real("at", -12, 12);
  int st = 77;
  const double v = in.value_at(x, st);
  if (x < t.x[0]) {
    vc_assert(st == 1, "below-the-table-reported");
    vc_assert(v == t.y[0], "below-the-table-first-value");
  } else if (x > t.x[t.n - 1]) {
    vc_assert(st == 2, "above-the-table-reported");
    vc_assert(v == t.y[t.n - 1], "above-the-table-last-value");
  } else if (x < t.x[t.n - 1])
    vc_assert(st == 0, "inside-the-table-ok");
  vc_cover("end");
}
HARNESS(nearest_outside) { outside<NearestNeighborInterpolator>(); }
HARNESS(linear_outside) { outside<LinearInterpolator>(); }
HARNESS(quadratic_outside) { outside<QuadraticInterpolator>(); }

// every node returns its own value
template <typename I> static void node() {
  Tab t = table(3);
  I in(t.x, t.y, t.n);
  const long i = vc_int("i", 0, 999999);
  vc_assume(i < t.n);
  int st = 77;
  vc_eq(in.value_at(t.x[i], st), t.y[i], 1e-6, "node-returns-its-value");
  vc_cover("end");
}
HARNESS(nearest_node) { node<NearestNeighborInterpolator>(); }
HARNESS(linear_node) { node<LinearInterpolator>(); }
HARNESS(quadratic_node) { node<QuadraticInterpolator>(); }

static double inside(const Tab &t, long &i) {
  i = vc_int("i", 0, 999999);
  vc_assume(i < t.n - 1);
  double x = vc_real("at", -12, 12);
#ifndef VC_SYMBOLIC
  if (!(x >= t.x[i] && x < t.x[i + 1])) x = t.x[i] + (t.x[i + 1] - t.x[i]) * std::fabs(x) / 12.5;
#endif
  vc_assume(x >= t.x[i] && x < t.x[i + 1]);
  return x;
}
HARNESS(nearest) {
  Tab t = table(2);
  long i;
  const double x = inside(t, i);
  int st = 77;
  const double v = NearestNeighborInterpolator(t.x, t.y, t.n).value_at(x, st);
  if (x - t.x[i] < t.x[i + 1] - x) vc_assert(v == t.y[i], "nearer-node");
  if (x - t.x[i] > t.x[i + 1] - x) vc_assert(v == t.y[i + 1], "nearer-node");
  vc_assert(v == t.y[i] || v == t.y[i + 1], "a-bracketing-node");
  vc_cover("end");
}
HARNESS(linear) {
  Tab t = table(2);
  long i;
  const double x = inside(t, i);
  int st = 77;
  const double v = LinearInterpolator(t.x, t.y, t.n).value_at(x, st);
  const double w = (x - t.x[i]) / (t.x[i + 1] - t.x[i]);
  vc_eq(v, (1 - w) * t.y[i] + w * t.y[i + 1], 1e-6, "on-the-chord");
  vc_cover("end");
}
HARNESS(quadratic) {
  Tab t = table(3);
  long i;
  const double x = inside(t, i);
  const double a = vc_real("a", -2, 2), b = vc_real("b", -2, 2), c = vc_real("c", -2, 2);
  for (long k = i - 1; k <= i + 2; k++)
    if (k >= 0 && k < t.n) t.y[k] = a + b * t.x[k] + c * t.x[k] * t.x[k];
  int st = 77;
  const double v = QuadraticInterpolator(t.x, t.y, t.n).value_at(x, st);
  vc_eq(v, a + b * x + c * x * x, 1e-5, "quadratic-polynomials-are-reproduced");
  vc_cover("end");
}
