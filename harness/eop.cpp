// Earth orientation tables (src/eop.hpp, src/iers/eop_interpolate.cpp)
#include "vc.h"
#include "iers/eop_interpolate.cpp"
using dso::EopLookUpTable;
static const int NMAX = 10000;

static double &cell(EopLookUpTable &t, int c, int i) {
  switch (c) {
  case 0: return *t.mjd(i);
  case 1: return *t.xp(i);
  case 2: return *t.yp(i);
  case 3: return *t.dut(i);
  case 4: return *t.dx(i);
  case 5: return *t.dy(i);
  case 6: return *t.lod(i);
  default: return *t.omega(i);
  }
}
static const double &cell(const EopLookUpTable &t, int c, int i) { return cell(const_cast<EopLookUpTable &>(t), c, i); }

// every quantity of every row has a cell of its own, whatever the table was resized to
HARNESS(columns) {
  vc_live_mark();
  {
    EopLookUpTable t(vc_int("capacity", 1, NMAX));
    const int n = vc_int("rows", 1, NMAX), n2 = vc_int("rows2", 1, NMAX);
    t.resize(n);
    if (vc_bool("resized-again"))
      t.resize(n2);
    const int m = t.size();
    vc_assert(m == n || m == n2, "size-as-requested");
    const int c = vc_int("c", 0, 7), d = vc_int("d", 0, 7), i = vc_int("i", 0, NMAX), j = vc_int("j", 0, NMAX);
    vc_assume(i < m && j < m);
    const double a = vc_real("a", -5, 5), b = vc_real("b", -5, 5);
    cell(t, c, i) = a;
    cell(t, d, j) = b;
    vc_assert(cell(t, d, j) == b, "reads-back-last-write");
    if (c != d || i != j)
      vc_assert(cell(t, c, i) == a, "other-element-untouched");
    vc_cover("end");
  }
  vc_noleak("storage-released-exactly-once");
}

// copies hold the same rows, are independent, and may be resized; also of tables smaller than
// their capacity
HARNESS(copies) {
  vc_live_mark();
  {
    const int cap = vc_int("capacity", 1, NMAX), n = vc_int("rows", 1, NMAX);
    EopLookUpTable t(cap);
    t.resize(n);
    const int c = vc_int("c", 0, 7), i = vc_int("i", 0, NMAX);
    vc_assume(i < n);
    const double a = vc_real("a", -5, 5), b = vc_real("b", -5, 5);
    cell(t, c, i) = a;
    EopLookUpTable d(t);
    vc_assert(d.size() == n, "copy-has-the-size");
    vc_assert(cell(d, c, i) == a, "copy-has-the-elements");
    cell(d, c, i) = b;
    vc_assert(cell(t, c, i) == a, "copy-is-independent");
    EopLookUpTable e(vc_int("capacity2", 1, NMAX));
    e = t;
    vc_assert(e.size() == n, "assignment-takes-the-size");
    vc_assert(cell(e, c, i) == a, "assignment-copies-the-elements");
    cell(e, c, i) = b;
    vc_assert(cell(t, c, i) == a, "copy-is-independent");
    EopLookUpTable &self = e;
    e = self;
    vc_assert(cell(e, c, i) == b, "self-assignment-keeps-the-elements");
    vc_cover("end");
  }
  vc_noleak("storage-released-exactly-once");
}

// moves hand the rows over; what was moved can be copied like any other table
HARNESS(moves) {
  vc_live_mark();
  {
    const int cap = vc_int("capacity", 1, NMAX), n = vc_int("rows", 1, NMAX);
    EopLookUpTable t(cap);
    t.resize(n);
    const int c = vc_int("c", 0, 7), i = vc_int("i", 0, NMAX);
    vc_assume(i < n);
    const double a = vc_real("a", -5, 5);
    cell(t, c, i) = a;
    EopLookUpTable d(std::move(t));
    vc_assert(d.size() == n && cell(d, c, i) == a, "move-hands-the-elements-over");
    EopLookUpTable e(vc_int("capacity2", 1, NMAX));
    e = std::move(d);
    vc_assert(e.size() == n && cell(e, c, i) == a, "move-assignment-hands-the-elements-over");
    EopLookUpTable &self = e;
    e = std::move(self);
    vc_assert(e.size() == n && cell(e, c, i) == a, "self-move-keeps-the-elements");
    const EopLookUpTable f(e);
    vc_assert(f.size() == n && cell(f, c, i) == a, "moved-table-can-be-copied");
    d.resize(n);
    vc_assert(d.size() == n, "moved-from-table-can-be-resized");
    vc_cover("end");
  }
  vc_noleak("storage-released-exactly-once");
}

// the external models: arbitrary functions of their arguments.  The Lagrangian interpolation is
// that of the column it is given, and may fail.
static const EopLookUpTable *g_tab;
static int g_order;
static double g_epoch;
static bool g_fail[8];
static double centuries(double mjd) { return (mjd - 51544.5e0) / 36525e0; }
static double lag(int c, double at) { return vc_uf2("lagrange", c, at); }
int iers2010::interp::lagint(const double *x, const double *y, int n, double xint, double &yout, int &, int order) {
  vc_assert(x == g_tab->mjd() && n == g_tab->size(), "interpolates-over-the-epochs");
  vc_assert(order == g_order, "interpolates-to-the-order");
  vc_eq(xint, g_epoch, 0, "interpolates-at-the-epoch");
  const EopLookUpTable &t = *g_tab;
  const int c = y == t.xp() ? 1 : y == t.yp() ? 2 : y == t.dut() ? 3 : y == t.dx() ? 4 : y == t.dy() ? 5 : y == t.lod() ? 6 : 7;
  if (g_fail[c])
    return 1;
  yout = lag(c, xint);
  return 0;
}
int iers2010::rg_zont2(double t, double &dut, double &dlod, double &domega) {
  dut = vc_uf1("zont-ut1", t);
  dlod = vc_uf1("zont-lod", t);
  domega = vc_uf1("zont-omega", t);
  return 0;
}
int iers2010::interp::pmut1_oceans(double t, double &cx, double &cy, double &cdut, double &clod) {
  cx = vc_uf1("ocean-x", t);
  cy = vc_uf1("ocean-y", t);
  cdut = vc_uf1("ocean-ut1", t);
  clod = vc_uf1("ocean-lod", t);
  return 0;
}
int iers2010::interp::pm_gravi(double t, double &cx, double &cy) {
  cx = vc_uf1("libration-x", t);
  cy = vc_uf1("libration-y", t);
  return 0;
}

// every parameter at an epoch: its own column interpolated, plus the effects of tides on it
HARNESS(interpolate) {
  const int n = vc_int("rows", 1, NMAX);
  EopLookUpTable t(vc_int("capacity", 1, NMAX));
  t.resize(n);
  g_tab = &t;
  g_order = vc_int("order", 1, 20);
  g_epoch = vc_real("epoch", 40000, 70000);
  bool bad = false;
  for (int c = 1; c < 7; c++) {
    g_fail[c] = vc_bool("fails");
    bad = bad || g_fail[c];
  }
  dso::EopRecord r = {0, 0, 0, 0, 0, 0, 0, 0};
  const int rc = t.interpolate(g_epoch, r, g_order);
  vc_assert((rc != 0) == bad, "failed-interpolation-reported");
  if (!rc) {
    const double jc = centuries(g_epoch);
    vc_eq(r.mjd, g_epoch, 0, "epoch");
    vc_eq(r.xp, lag(1, g_epoch) + vc_uf1("ocean-x", jc) + vc_uf1("libration-x", jc), 1e-9, "pole-x");
    vc_eq(r.yp, lag(2, g_epoch) + vc_uf1("ocean-y", jc) + vc_uf1("libration-y", jc), 1e-9, "pole-y");
    vc_eq(r.dut, lag(3, g_epoch) + vc_uf1("zont-ut1", jc) + vc_uf1("ocean-ut1", jc), 1e-9, "ut1");
    vc_eq(r.lod, lag(6, g_epoch) + vc_uf1("zont-lod", jc) + vc_uf1("ocean-lod", jc), 1e-9, "length-of-day");
    vc_eq(r.dx, lag(4, g_epoch), 0, "celestial-pole-x");
    vc_eq(r.dy, lag(5, g_epoch), 0, "celestial-pole-y");
    vc_cover("interpolated");
  }
}

// regularising takes the zonal tides out of UT1, length of day and rotation rate of every row
HARNESS(regularize) {
  const int n = vc_int("rows", 1, NMAX);
  EopLookUpTable t(n);
  double *const arena = t.mjd();
  const double *v = vc_darr("values", 8L * n, -5, 5);
  for (long k = 0; k < 8L * n; k++)
    arena[k] = v[k];
  t.regularize();
  const int i = vc_int("i", 0, NMAX);
  vc_assume(i < n);
  const double jc = centuries(v[i]);
  const long N = n;
  for (int c = 0; c < 6; c++)
    if (c != 3)
      vc_eq(cell(t, c, i), v[c * N + i], 0, "other-quantities-untouched");
  vc_eq(cell(t, 3, i), v[3 * N + i] - vc_uf1("zont-ut1", jc), 1e-9, "ut1-without-zonal-tides");
  vc_eq(cell(t, 6, i), v[6 * N + i] - vc_uf1("zont-lod", jc), 1e-9, "lod-without-zonal-tides");
  vc_eq(cell(t, 7, i), v[7 * N + i] - vc_uf1("zont-omega", jc), 1e-9, "rotation-rate-without-zonal-tides");
  vc_cover("end");
}
