// Filter parameter layout (src/filters/filters.hpp, src/filters/ekf.hpp)
#include "vc.h"
#include "datetime/dtcalendar.hpp"
#include "filters/filters.hpp"
using dso::BeaconClockModel;
typedef dso::datetime<dso::nanoseconds> Epoch;
static const int SMAX = 60;

// position of a parameter of a beacon: 0 wet delay, 1 frequency offset, 2 its drift (linear model)
template <int Np> static long place(const dso::EkfFilter<Np, BeaconClockModel::Linear> &f, int what, int b) {
  return what == 0 ? (long)f.tropo_index(b) : (long)f.rfoff_index(b) + (what - 1);
}
template <int Np> static long place(const dso::EkfFilter<Np, BeaconClockModel::None> &f, int what, int b) {
  return what == 0 ? (long)f.tropo_index(b) : (long)f.rfoff_index(b);
}

// each parameter of each beacon has a place of its own behind the state and force parameters
template <int Np, BeaconClockModel bcm> static void layout() {
  const int K = bcm == BeaconClockModel::Linear ? 3 : 2;
  const int ns = vc_int("stations", 1, SMAX);
  dso::EkfFilter<Np, bcm> f(ns, Epoch(vc_int("reference", -1000000, 1000000)));
  const int b = vc_int("beacon", 0, SMAX), b2 = vc_int("beacon2", 0, SMAX), w = vc_int("what", 0, K - 1), w2 = vc_int("what2", 0, K - 1);
  vc_assume(b < ns && b2 < ns);
  const long i = place(f, w, b), j = place(f, w2, b2);
  const long n = f.num_params();
  vc_assert(n == 6 + Np + (long)K * ns, "number-of-parameters");
  vc_assert(i >= 6 + Np && i < n, "beacon-parameter-behind-the-common-ones");
  if (b != b2 || w != w2)
    vc_assert(i != j, "one-place-per-parameter");
  vc_assert(f.drag_coef_index() >= 6 && f.drag_coef_index() < 6 + Np, "drag-coefficient-among-the-force-parameters");
  vc_cover("end");
}
HARNESS(layout_linear) { layout<1, BeaconClockModel::Linear>(); }
HARNESS(layout_none) { layout<2, BeaconClockModel::None>(); }

static void set_rf(dso::EkfFilter<1, BeaconClockModel::Linear> &f, double a, double d, int b) { f.set_rfoff_apriori(a, d, b); }
static void set_rf(dso::EkfFilter<1, BeaconClockModel::None> &f, double a, double, int b) { f.set_rfoff_apriori(a, b); }
static void set_rfs(dso::EkfFilter<1, BeaconClockModel::Linear> &f, double a, double d, int b) { f.set_rfoff_apriori_sigma(a, d, b); }
static void set_rfs(dso::EkfFilter<1, BeaconClockModel::None> &f, double a, double, int b) { f.set_rfoff_apriori_sigma(a, b); }

// a-priori values given to one beacon or to all reach exactly the parameters of those
template <BeaconClockModel bcm> static void apriori() {
  const int K = bcm == BeaconClockModel::Linear ? 3 : 2;
  const int ns = vc_int("stations", 1, SMAX);
  dso::EkfFilter<1, bcm> f(ns, Epoch(0));
  const int b = vc_int("beacon", -1, SMAX);
  vc_assume(b < ns);
  const double tr = vc_real("wet-delay", 0.1, 0.5), a = vc_real("offset", 1, 2), d = vc_real("drift", 3, 4), cd = vc_real("drag", 5, 6);
  f.set_tropo_apriori(tr, b);
  set_rf(f, a, d, b);
  f.set_drag_coef_apriori(cd);
  const long n = f.num_params();
  vc_assert(f.estimates().rows() == n, "one-estimate-per-parameter");
  vc_assert(f.drag_coef() == cd, "drag-coefficient-set");
  const int c = vc_int("other", 0, SMAX), w = vc_int("what", 0, K - 1);
  vc_assume(c < ns);
  const double v = f._ekf._ekf.x(place(f, w, c));
  if (b < 0 || c == b)
    vc_assert(v == (w == 0 ? tr : w == 1 ? a : d), "beacon-parameter-set");
  else
    vc_assert(v == 0e0, "other-beacons-untouched");
  if (w == 0)
    vc_assert(f.tropo_estimate(c) == v, "wet-delay-estimate");
  const int s = vc_int("state", 0, 5);
  vc_assert(f._ekf._ekf.x(s) == 0e0, "state-untouched");
  vc_cover("end");
}
HARNESS(apriori_linear) { apriori<BeaconClockModel::Linear>(); }
HARNESS(apriori_none) { apriori<BeaconClockModel::None>(); }

// the same for the a-priori uncertainties on the diagonal of the covariance, one beacon
template <BeaconClockModel bcm> static void sigma(int ns, int b) {
  const int K = bcm == BeaconClockModel::Linear ? 3 : 2;
  dso::EkfFilter<1, bcm> f(ns, Epoch(0));
  const double tr = vc_real("wet-delay", 2, 3), a = vc_real("offset", 4, 5), d = vc_real("drift", 6, 7), cd = vc_real("drag", 8, 9);
  const long n = f.num_params();
  vc_assert(f.P().rows() == n && f.P().cols() == n, "square-covariance");
  const int r = vc_int("row", 0, 6 + 1 + 3 * SMAX), q = vc_int("column", 0, 6 + 1 + 3 * SMAX);
  vc_assume(r < n && q < n);
  const double before = f.P()(r, q);
  const int what = vc_int("what", 0, 2);
  if (what == 0)
    f.set_tropo_apriori_sigma(tr, b);
  else if (what == 1)
    set_rfs(f, a, d, b);
  else
    f.set_drag_coef_apriori_sigma(cd);
  const double after = f.P()(r, q);
  const int base = 7 + K * (b < 0 ? 0 : b), end = b < 0 ? 7 + K * ns : base + K;
  if (r != q && b >= 0)
    for (int w = 0; w < K; w++) {
      // another column starts beyond, or ends before, the diagonal element of column i
      const long i = base + w, g = (q < i ? i - q - 1 : q > i ? q - i - 1 : 0) * n;
      vc_assert(g >= 0, "column-distance");
      vc_assume(g >= 0);
    }
  if (r != q)
    vc_assert(after == before, "no-correlations");
  else if (r == 6)
    vc_assert(after == (what == 2 ? cd : before), "drag-coefficient-set");
  else if (r >= base && r < end) {
    const int w = (r - base) % K;
    vc_assert(after == (w == 0 && what == 0 ? tr : w == 1 && what == 1 ? a : w == 2 && what == 1 ? d : before), "beacon-uncertainty-set");
  } else
    vc_assert(after == before, "other-beacons-untouched");
  vc_cover("end");
}
template <BeaconClockModel bcm> static void sigma_one() {
  const int ns = vc_int("stations", 1, SMAX), b = vc_int("beacon", 0, SMAX);
  vc_assume(b < ns);
  sigma<bcm>(ns, b);
}
HARNESS(sigma_linear) { sigma_one<BeaconClockModel::Linear>(); }
HARNESS(sigma_none) { sigma_one<BeaconClockModel::None>(); }
// all beacons at once (bounded: one to three beacons)
template <BeaconClockModel bcm> static void sigma_all() {
  switch (vc_int("stations", 1, 3)) {
  case 1: sigma<bcm>(1, -1); break;
  case 2: sigma<bcm>(2, -1); break;
  default: sigma<bcm>(3, -1);
  }
}
HARNESS(sigma_all_linear) { sigma_all<BeaconClockModel::Linear>(); }
HARNESS(sigma_all_none) { sigma_all<BeaconClockModel::None>(); }

// the frequency offset of a beacon at an epoch: offset plus drift times the time since the reference
HARNESS(offset_at_epoch) {
  const int ns = vc_int("stations", 1, SMAX), b = vc_int("beacon", 0, SMAX);
  vc_assume(b < ns);
  const long t0 = vc_int("reference", -1000000, 1000000), t = vc_int("epoch", -1000000, 1000000);
  dso::EkfFilter<1, BeaconClockModel::Linear> f(ns, Epoch(t0));
  const double a = vc_real("offset", 1, 2), d = vc_real("drift", 3, 4);
  f.set_rfoff_apriori(a, d, b);
  vc_eq(f.rfoff_estimate(b, Epoch(t)), a + d * ((t - t0) * 1e-9), 1e-9, "offset-plus-drift");
  vc_eq(f.deltat(Epoch(t)), (t - t0) * 1e-9, 1e-12, "time-since-the-reference");
  vc_cover("end");
}
