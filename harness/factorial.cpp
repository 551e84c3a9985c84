// VC harness: src/factorial.hpp
#include "vc.h"
#include "factorial.hpp"
HARNESS(ratio) {
  const int a = vc_int("nominator", 0, 100000), b = vc_int("denominator", 0, 100000);
  // (hi)!/(lo)! as the product of the factors between
  const int hi = a > b ? a : b, lo = a < b ? a : b;
  double want = 1e0;
  for (int i = lo + 1; i <= hi; i++) want *= (double)i;
  vc_eq(dso::factorialRatio<double>(a, b), want, 0, "product-of-the-factors-between");
  vc_cover("end");
}
HARNESS(table) {
  dso::FactorialLookUpTable<double, 60> t;
  const int i = vc_int("i", 1, 60);
  vc_eq(t.factorial(0), 1e0, 0, "factorial-of-0");
  vc_eq(t.factorial(i), i * t.factorial(i - 1), 0, "factorial-recursion");
  vc_cover("end");
}
