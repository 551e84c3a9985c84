// Polynomial models (src/filters/models.hpp)
#include "vc.h"
#include "filters/models.hpp"
typedef dso::PolynomialModel<double> Poly;
typedef dso::datetime<dso::nanoseconds> Epoch;
typedef dso::PolynomialModel<Epoch> EpochPoly;
static const int OMAX = 200;

HARNESS(linear) {
  dso::LinearModel<double> m;
  m.xref = vc_real("xref", -5, 5);
  m.a = vc_real("a", -5, 5);
  m.b = vc_real("b", -5, 5);
  const double x = vc_real("x", -5, 5);
  vc_eq(m.value_at(x), m.a + m.b * (x - m.xref), 1e-12, "offset-plus-drift");
  vc_assert(m.order() == 1, "order");
}
// order zero is the constant, and each further order adds its term: the polynomial, for every order
HARNESS(polynomial) {
  const int n = vc_int("order", 0, OMAX - 1);
  Poly p(n), q(n + 1), z(0);
  vc_assert(p.order() == n && q.order() == n + 1, "order");
  const double *c = vc_darr("coefficients", OMAX + 1, -1, 1);
  for (int i = 0; i <= n; i++)
    p.cf[i] = c[i];
  for (int i = 0; i <= n + 1; i++)
    q.cf[i] = c[i];
  z.cf[0] = c[0];
  p.xref = q.xref = z.xref = vc_real("xref", -0.5, 0.5);
  const double x = vc_real("x", -0.5, 0.5), t = x - p.xref;
  double pw = t;
  for (int i = 0; i < n; i++)
    pw *= t;
  vc_eq(z.value_at(x), c[0], 1e-12, "constant");
  vc_eq(q.value_at(x), p.value_at(x) + c[n + 1] * pw, 1e-9, "next-term");
  vc_cover("end");
}
// over epochs the variable is the time since the reference epoch in seconds
HARNESS(epochs) {
  EpochPoly p(1);
  const long t0 = vc_int("reference", -1000000, 1000000), t = vc_int("epoch", -1000000, 1000000);
  p.xref = Epoch(t0);
  p.cf[0] = vc_real("a", -5, 5);
  p.cf[1] = vc_real("b", -5, 5);
  vc_eq(p.value_at(Epoch(t)), p.cf[0] + p.cf[1] * ((t - t0) * 1e-9), 1e-12, "seconds-since-the-reference");
}
HARNESS(ownership) {
  vc_live_mark();
  {
    const int n = vc_int("order", 0, OMAX), n2 = vc_int("order2", 0, OMAX), i = vc_int("i", 0, OMAX);
    vc_assume(i <= n);
    const double a = vc_real("a", -5, 5), b = vc_real("b", -5, 5), xr = vc_real("xref", -5, 5);
    Poly p(n), e(n2);
    p.cf[i] = a;
    p.xref = xr;
    Poly d(p);
    vc_assert(d.order() == n && d.xref == xr && d.cf[i] == a, "copy-is-the-model");
    d.cf[i] = b;
    vc_assert(p.cf[i] == a, "copy-is-independent");
    e = p;
    vc_assert(e.order() == n && e.xref == xr && e.cf[i] == a, "assignment-takes-the-model");
    e.cf[i] = b;
    vc_assert(p.cf[i] == a, "copy-is-independent");
    Poly &self = e;
    e = self;
    vc_assert(e.order() == n && e.cf[i] == b, "self-assignment-keeps-the-model");
    Poly f(std::move(p));
    vc_assert(f.order() == n && f.xref == xr && f.cf[i] == a, "move-hands-the-model-over");
    d = std::move(f);
    vc_assert(d.order() == n && d.xref == xr && d.cf[i] == a, "move-assignment-hands-the-model-over");
    p = d;
    vc_assert(p.order() == n && p.cf[i] == a, "moved-from-model-can-be-assigned");
    d.resize(n2);
    vc_assert(d.order() == n2, "order-after-resize");
    d.cf[n2] = b;
    vc_assert(d.cf[n2] == b, "coefficient-addressable-after-resize");
    vc_cover("end");
  }
  vc_noleak("storage-released-exactly-once");
}
