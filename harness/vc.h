// Verification intrinsics.  Compiled twice: with -DVC_SYMBOLIC by clang to LLVM IR (the
// verifier gives the declarations below their meaning) and natively (vc_native.cpp), where
// the same harness replays a counterexample or a seeded sample against the real code.
#pragma once
#include <cmath>
#include <cstddef>
#include <cstring>
extern "C" {
// fresh integer lo<=v<=hi;  vc_intr: same, natively sampled over the whole range
long vc_int(const char *name, long lo, long hi);
long vc_intr(const char *name, long lo, long hi);
// fresh real, unconstrained (natively sampled in [lo,hi])
double vc_real(const char *name, double lo, double hi);
// fresh real constrained to [lo,hi]
double vc_realr(const char *name, double lo, double hi);
bool vc_bool(const char *name);
double *vc_darr(const char *name, long n, double lo, double hi);
// strictly increasing
double *vc_sorted_darr(const char *name, long n, double lo, double hi);
char *vc_barr(const char *name, long n, long lo, long hi);
int *vc_iarr(const char *name, long n, long lo, long hi);
void vc_assume(bool c);
void vc_assert(bool c, const char *name);
// a is what the code computed, b the specification; exact over the reals, natively within
// tol + 1e-9*max(|a|,|b|)
void vc_eq(double a, double b, double tol, const char *name);
void vc_le(double a, double b, double tol, const char *name);
void vc_cover(const char *name);
void vc_stop();
// uninterpreted functions of reals (natively: fixed smooth functions)
double vc_uf1(const char *name, double);
double vc_uf2(const char *name, double, double);
double vc_uf3(const char *name, double, double, double);
double vc_uf4(const char *name, double, double, double, double);
double vc_uf5(const char *name, double, double, double, double, double);
double vc_diff(double f, double x);
void vc_fill_rows(double **rows, long nrows, long ncols, double lo, double hi);
void vc_live_mark();
void vc_noleak(const char *name);
void vc_note_d(const char *name, double v);
}

#ifdef VC_SYMBOLIC
extern "C" long vc_forall(const char *name, long lo, long hi);
// one arbitrary index instead of a loop: what is asserted holds for every index
#define VC_FORALL(i, lo, hi)                                                   \
  for (long vc_once_##i = 1, i = ((lo) <= (hi)-1 ? vc_forall(#i, (lo), (hi)-1) : (vc_once_##i = 0, 0L)); vc_once_##i; vc_once_##i = 0)
#define VC_NATIVE 0
template <typename F> inline double vc_partial(F f, double *x, int i) {
  return vc_diff(f(x), x[i]);
}
#else
#define VC_FORALL(i, lo, hi) for (long i = (lo); i < (hi); i++)
#define VC_NATIVE 1
template <typename F> inline double vc_partial(F f, double *x, int i) {
  const double x0 = x[i];
  const double h = 1e-4 * (std::fabs(x0) > 1e0 ? std::fabs(x0) : 1e0);
  x[i] = x0 + h;
  const double fp = f(x);
  x[i] = x0 - h;
  const double fm = f(x);
  x[i] = x0 + 2 * h;
  const double fp2 = f(x);
  x[i] = x0 - 2 * h;
  const double fm2 = f(x);
  x[i] = x0;
  return (8e0 * (fp - fm) - (fp2 - fm2)) / (12e0 * h);
}
#endif
#define HARNESS(n) extern "C" void H_##n()
