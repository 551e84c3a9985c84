// VC harness: var/compound_measurement.cc
#include "vc.h"
#define main cm_main
#include "../var/compound_measurement.cc"
#undef main
HARNESS(fields) {
  Flag f;
  vc_assert(f.get_flag1() == 0 && f.get_flag2() == 0 && f.get_missing() == 0, "new-flag-is-zero");
  f.flag_ = vc_intr("word", 0, 0xffffff);
  const unsigned a = f.get_flag1(), b = f.get_flag2(), m = f.get_missing();
  const unsigned v = vc_intr("value", 0, 255);
  Flag g = f;
  g.set_flag1(v);
  vc_assert(g.get_flag1() == v, "reads-back-what-was-set");
  vc_assert(g.get_flag2() == b && g.get_missing() == m, "other-fields-untouched");
  g = f;
  g.set_flag2(v);
  vc_assert(g.get_flag2() == v, "reads-back-what-was-set");
  vc_assert(g.get_flag1() == a && g.get_missing() == m, "other-fields-untouched");
  g = f;
  g.set_missing(v);
  vc_assert(g.get_missing() == v, "reads-back-what-was-set");
  vc_assert(g.get_flag1() == a && g.get_flag2() == b, "other-fields-untouched");
  vc_cover("end");
}
// the three measurement layouts decide the same value
HARNESS(same_decision) {
  const int a = vc_intr("flag1", 0, 127), b = vc_intr("flag2", 0, 127);
  const bool miss = vc_bool("missing");
  const double v = vc_realr("value", 1, 1000);
  Measurement1 m1;
  m1.val_ = v; m1.missing_ = miss; m1.flagm1_ = a; m1.flagm2_ = b;
  Measurement2 m2;
  m2.val_ = miss ? MISSING : v; m2.flagm1_ = a; m2.flagm2_ = b;
  Measurement3 m3;
  m3.val_ = v; m3.flag_.set_missing(miss); m3.flag_.set_flag1(a); m3.flag_.set_flag2(b);
  const double want = miss ? -999.99e0 : a > 16 ? v + 1e3 : b < 16 ? v - 1e-3 : v / 1e3;
  vc_eq(foo1(m1), want, 0, "separate-fields");
  vc_eq(foo1(m2), want, 0, "sentinel-value");
  vc_eq(foo1(m3), want, 0, "packed-flag");
  vc_cover("end");
}
