// VC harness: var/flags.cc
#include "vc.h"
#define main flags_main
#include "../var/flags.cc"
#undef main
static Sp3Event event(const char *n) { return static_cast<Sp3Event>(vc_int(n, 0, 11)); }

HARNESS(set_clear) {
  Sp3Flag f;
  f.bits_ = vc_intr("bits", 0, 0xffff);
  const Sp3Event e = event("event"), o = event("other");
  const bool had = f.is_set(o);
  Sp3Flag g = f;
  g.set(e);
  vc_assert(g.is_set(e), "set-event-is-set");
  if (o != e) vc_assert(g.is_set(o) == had, "set-leaves-the-others");
  vc_assert(!g.is_clean(), "set-flag-is-not-clean");
  g.clear(e);
  vc_assert(!g.is_set(e), "cleared-event-is-not-set");
  if (o != e) vc_assert(g.is_set(o) == had, "clear-leaves-the-others");
  g.reset();
  vc_assert(g.is_clean() && !g.is_set(o), "reset-clears-everything");
  vc_cover("end");
}
HARNESS(clean) {
  Sp3Flag f;
  vc_assert(f.is_clean() && !f.is_set(event("event")), "new-flag-is-clean");
  bool any = false;
  f.bits_ = vc_intr("bits", 0, 0xfff);
  for (int i = 0; i < 12; i++) any = any || f.is_set(static_cast<Sp3Event>(i));
  vc_assert(any == !f.is_clean(), "clean-means-no-event-set");
  vc_cover("end");
}
HARNESS(combine) {
  Sp3Flag f;
  f.bits_ = vc_intr("bits", 0, 0xffff);
  const Sp3Event a = event("a"), b = event("b"), c = event("c"), o = event("other");
  f.set(a | b | c);
  vc_assert(f.is_set(o) == (o == a || o == b || o == c), "combination-sets-exactly-its-events");
  f.set(a | b);
  vc_assert(f.is_set(o) == (o == a || o == b), "combination-sets-exactly-its-events");
  vc_cover("end");
}
