// VC harness: src/enum_bitset.hpp
#include "vc.h"
#include <initializer_list>
#include "enum_bitset.hpp"
enum class E8 : unsigned char { a = 1, b = 2, c = 4, d = 8, e = 16, f = 32, g = 64, h = 128 };
using F = dso::EnumBitset<E8>;
static E8 bit(const char *n) { return static_cast<E8>(1 << vc_int(n, 0, 7)); }
static F any() {
  F f;
  const int m = vc_intr("mask", 0, 255);
  for (int i = 0; i < 8; i++)
    if (m & (1 << i)) f.set(static_cast<E8>(1 << i));
  for (int i = 0; i < 8; i++)
    vc_assert(f.check(static_cast<E8>(1 << i)) == !!(m & (1 << i)), "holds-exactly-what-was-set");
  return f;
}
HARNESS(set_clear) {
  F f;
  vc_assert(f.is_clean(), "new-set-is-clean");
  const E8 a = bit("a"), b = bit("b"), c = bit("c"), o = bit("other");
  vc_assert(!f.check(o), "new-set-is-clean");
  f.set(a).set(b);
  vc_assert(f.check(o) == (o == a || o == b), "set-adds-exactly-its-member");
  vc_assert(!f.is_clean(), "set-is-not-clean");
  f.clear(c);
  vc_assert(f.check(o) == ((o == a || o == b) && o != c), "clear-removes-exactly-its-member");
  vc_assert(f.is_clean() == ((a == c) && (b == c)), "clean-means-empty");
  f.clear();
  vc_assert(f.is_clean() && !f.check(o), "clear-all-empties");
  vc_cover("end");
}
HARNESS(construct) {
  const E8 a = bit("a"), b = bit("b"), c = bit("c"), o = bit("other");
  F f(a);
  vc_assert(f.check(o) == (o == a), "constructed-from-one-member");
  F g({a, b, c});
  vc_assert(g.check(o) == (o == a || o == b || o == c), "constructed-from-a-list");
  F h;
  h.set(c).set(b).set(a);
  vc_assert(g == h && !(g != h), "equal-sets-compare-equal");
  vc_assert((f == g) == (a == b && b == c), "equality-is-same-members");
  vc_assert((f != g) == !(f == g), "inequality-negates-equality");
  vc_cover("end");
}
HARNESS(mask) { F f = any(); vc_assert(f == f, "equal-to-itself"); vc_cover("end"); }
