#include <algorithm>
// Native meaning of the verification intrinsics: replay of a counterexample (--values FILE)
// or seeded sampling (--search SEED0 SECONDS).
#include "vc.h"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <setjmp.h>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>
#include <new>
#include <fcntl.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t),
                                                         void (*)(const volatile void *)) __attribute__((weak));
namespace {
struct Skip {};
std::map<std::string, int> *occ;
std::map<std::string, double> *vals;
bool use_vals = false;
unsigned long long rs;
FILE *rec = nullptr;
long live = 0, mark = 0;
FILE *out = stderr;
struct Shared {
  long seed;
  long runs, skips, asserts;
  char msg[512];
} *sh;
unsigned long long rnd() {
  rs += 0x9E3779B97F4A7C15ull;
  unsigned long long z = rs;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
double u01() { return (rnd() >> 11) * 0x1.0p-53; }
std::string uniq(const char *n) {
  int k = (*occ)[n]++;
  return k ? std::string(n) + "#" + std::to_string(k) : std::string(n);
}
void record(const std::string &n, double v) {
  if (rec) {
    fprintf(rec, "%s=%.17g\n", n.c_str(), v);
    fflush(rec);
  }
}
void recordi(const std::string &n, long v) {
  if (rec) {
    fprintf(rec, "%s=%ld\n", n.c_str(), v);
    fflush(rec);
  }
}
bool lookup(const std::string &n, double &v) {
  if (!use_vals) return false;
  auto it = vals->find(n);
  if (it == vals->end()) return false;
  v = it->second;
  return true;
}
double sample_real(double lo, double hi) {
  switch (rnd() % 12) {
  case 0: return lo;
  case 1: return hi;
  case 2: { double v = (double)((long)(rnd() % 9) - 4); return v < lo ? lo : v > hi ? hi : v; }
  case 3: return lo + (hi - lo) * std::pow(u01(), 4);
  default: return lo + (hi - lo) * u01();
  }
}
long sample_int(long lo, long hi) {
  if (hi <= lo) return lo;
  unsigned long long span = (unsigned long long)hi - (unsigned long long)lo;
  switch (rnd() % 10) {
  case 0: return lo;
  case 1: if (span <= 2000) return hi; /* fallthrough */
  case 2: case 3: case 4: case 5: { unsigned long long s = span < 12 ? span : 12; return lo + (long)(rnd() % (s + 1)); }
  case 6: case 7: { unsigned long long s = span < 40 ? span : 40; return lo + (long)(rnd() % (s + 1)); }
  default: { unsigned long long s = span < 300 ? span : 300; return lo + (long)(rnd() % (s + 1)); }
  }
}
double ufn(const char *n, int k, const double *a) {
  unsigned long long h = 1469598103934665603ull;
  for (const char *c = n; *c; c++) h = (h ^ (unsigned char)*c) * 1099511628211ull;
  double r = (h % 1000) / 500e0 - 1e0;
  for (int i = 0; i < k; i++) {
    h = h * 6364136223846793005ull + 1442695040888963407ull;
    double w = 0.3 + (h >> 40) / (double)(1 << 24);
    r += std::sin(w * a[i] + (h % 7)) + 0.3 * w * a[i] / (1 + std::fabs(a[i]));
  }
  for (int i = 0; i + 1 < k; i++) r += 0.25 * std::cos(a[i] * 0.7 - 0.4 * a[i + 1]);
  return r;
}
int guard = 0;
struct G { G() { guard++; } ~G() { guard--; } };
std::vector<void *> *bufs;
void hk_m(const volatile void *, size_t) { if (!guard) live++; }
void hk_f(const volatile void *p) { if (p && !guard) live--; }
[[noreturn]] void fail(const char *name, const char *extra) {
  snprintf(sh->msg, sizeof sh->msg, "assertion %s fails%s", name, extra);
  if (rec) fflush(rec);
  _exit(42);
}
} // namespace
extern "C" {
long vc_int(const char *name, long lo, long hi) {
  G g_; std::string n = uniq(name);
  double v;
  long r = lookup(n, v) ? (long)v : sample_int(lo, hi);
  if (r < lo || r > hi) throw Skip();
  recordi(n, r);
  return r;
}
long vc_intr(const char *name, long lo, long hi) {
  G g_; std::string n = uniq(name);
  double v;
  long r;
  if (lookup(n, v)) r = (long)v;
  else {
    unsigned long long span = (unsigned long long)hi - (unsigned long long)lo;
    switch (rnd() % 8) {
    case 0: r = lo; break;
    case 1: r = hi; break;
    case 2: r = sample_int(lo, hi); break;
    default: r = lo + (long)(span == ~0ull ? rnd() : rnd() % (span + 1));
    }
  }
  if (r < lo || r > hi) throw Skip();
  recordi(n, r);
  return r;
}
double vc_real(const char *name, double lo, double hi) {
  G g_; std::string n = uniq(name);
  double v;
  if (!lookup(n, v)) v = sample_real(lo, hi);
  record(n, v);
  return v;
}
double vc_realr(const char *name, double lo, double hi) {
  double v = vc_real(name, lo, hi);
  if (v < lo || v > hi) throw Skip();
  return v;
}
bool vc_bool(const char *name) {
  G g_; std::string n = uniq(name);
  double v;
  bool r = lookup(n, v) ? v != 0 : (rnd() & 1);
  record(n, r);
  return r;
}
#define ARR(fn, T, ARGT, SAMPLE)                                               \
  T *fn(const char *name, long n, ARGT lo, ARGT hi) {                          \
    G g_; std::string nm = uniq(name);                                         \
    T *p = (T *)malloc((n > 0 ? n : 0) * sizeof(T) + (n > 0 ? 0 : 1));         \
    for (long i = 0; i < n; i++) {                                             \
      double v;                                                                \
      std::string q = nm + "[" + std::to_string(i) + "]";                      \
      p[i] = lookup(q, v) ? (T)v : (T)SAMPLE(lo, hi);                          \
      record(q, (double)p[i]);                                                 \
    }                                                                          \
    bufs->push_back(p);                                                        \
    return p;                                                                  \
  }
static long sample_full(long lo, long hi) { return lo + (long)(rnd() % (unsigned long long)(hi - lo + 1)); }
ARR(vc_darr, double, double, sample_real)
double *vc_sorted_darr(const char *name, long n, double lo, double hi) {
  double *p = (double *)malloc((n > 0 ? n : 0) * sizeof(double) + (n > 0 ? 0 : 1));
  G g_; std::string nm = uniq(name);
  for (long i = 0; i < n; i++) p[i] = sample_real(lo, hi);
  std::sort(p, p + (n > 0 ? n : 0));
  for (long i = 0; i < n; i++) {
    double v;
    std::string q = nm + "[" + std::to_string(i) + "]";
    const bool given = lookup(q, v);
    if (given) p[i] = v;
    if (i && !(p[i] > p[i - 1] + (given ? 1e-6 : 1e-3) * (hi - lo))) {
      if (given) { free(p); throw Skip(); }
      p[i] = p[i - 1] + (hi - lo) * 1e-3 * (1 + u01());
    }
    record(q, p[i]);
  }
  bufs->push_back(p);
  return p;
}
ARR(vc_barr, char, long, sample_full)
ARR(vc_iarr, int, long, sample_full)
void vc_assume(bool c) {
  if (!c) throw Skip();
}
void vc_assert(bool c, const char *name) {
  sh->asserts++;
  if (!c) fail(name, "");
}
void vc_eq(double a, double b, double tol, const char *name) {
  sh->asserts++;
  if (std::isnan(b) || std::isinf(b)) throw Skip();
  double d = std::fabs(a - b);
  if (!(d <= tol + 1e-9 * std::fmax(std::fabs(a), std::fabs(b)))) {
    char s[200];
    snprintf(s, sizeof s, ": got %.17g, expected %.17g", a, b);
    fail(name, s);
  }
}
void vc_le(double a, double b, double tol, const char *name) {
  sh->asserts++;
  if (std::isnan(b) || std::isinf(b)) throw Skip();
  if (!(a <= b + tol + 1e-9 * std::fmax(std::fabs(a), std::fabs(b)))) {
    char s[200];
    snprintf(s, sizeof s, ": got %.17g, expected <= %.17g", a, b);
    fail(name, s);
  }
}
void vc_fill_rows(double **rows, long nrows, long ncols, double lo, double hi) {
  for (long i = 0; i < nrows; i++)
    for (long j = 0; j < ncols; j++) rows[i][j] = sample_real(lo, hi);
}
void vc_cover(const char *) {}
void vc_stop() { throw Skip(); }
double vc_uf1(const char *n, double a) { return ufn(n, 1, &a); }
double vc_uf2(const char *n, double a, double b) { double v[] = {a, b}; return ufn(n, 2, v); }
double vc_uf3(const char *n, double a, double b, double c) { double v[] = {a, b, c}; return ufn(n, 3, v); }
double vc_uf4(const char *n, double a, double b, double c, double d) { double v[] = {a, b, c, d}; return ufn(n, 4, v); }
double vc_uf5(const char *n, double a, double b, double c, double d, double e) { double v[] = {a, b, c, d, e}; return ufn(n, 5, v); }
double vc_diff(double, double) { abort(); }
void vc_live_mark() { mark = live; }
void vc_noleak(const char *name) {
  sh->asserts++;
  if (live != mark && __sanitizer_install_malloc_and_free_hooks) {
    char s[64];
    snprintf(s, sizeof s, ": %ld blocks still allocated", live - mark);
    fail(name, s);
  }
}
void vc_note_d(const char *name, double v) { fprintf(stderr, "note %s=%.17g\n", name, v); }
}
#ifndef VC_ENTRY
#error "VC_ENTRY"
#endif
extern "C" void VC_ENTRY();
static bool one(long seed) {
  rs = (unsigned long long)seed * 0x2545F4914F6CDD1Dull + 12345;
  { G g_; occ->clear(); for (void *b : *bufs) free(b); bufs->clear(); }
  try {
    VC_ENTRY();
  } catch (Skip &) {
    sh->skips++;
    return false;
  } catch (std::bad_alloc &) {
    return false;
  }
  return true;
}
static void death() {}
int main(int argc, char **argv) {
  occ = new std::map<std::string, int>();
  bufs = new std::vector<void *>();
  vals = new std::map<std::string, double>();
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(hk_m, hk_f);
  (void)death;
  std::string mode = argc > 1 ? argv[1] : "";
  const char *recname = getenv("VC_RECORD");
  if (mode == "--values" || mode == "--seed") {
    // replay: FILE of name=value, or SEED
    long seed = 0;
    if (mode == "--values") {
      use_vals = true;
      FILE *f = fopen(argv[2], "r");
      if (!f) return 3;
      char buf[512];
      while (fgets(buf, sizeof buf, f)) {
        char *e = strrchr(buf, '=');
        if (!e || buf[0] == '#') continue;
        *e = 0;
        (*vals)[buf] = atof(e + 1);
        if (!strcmp(buf, "seed")) seed = atol(e + 1);
      }
      fclose(f);
    } else
      seed = atol(argv[2]);
    if (recname) rec = fopen(recname, "a");
    pid_t p = fork();
    if (!p) {
      int dn = open("/dev/null", O_WRONLY);
      dup2(dn, 1);
      alarm(60);
      one(seed);
      _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
      fprintf(out, "replay: %s\n", sh->skips ? "inputs outside the precondition" : "no failure");
      return 0;
    }
    if (!sh->msg[0] && WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || (WTERMSIG(st) == SIGALRM && !getenv("VC_TIMEOUT_FAILS")))) {
      fprintf(out, "replay: out of time or memory\n");
      return 0;
    }
    if (!sh->msg[0])
      snprintf(sh->msg, sizeof sh->msg, WIFSIGNALED(st) ? "terminated by signal %d" : "run-time error (exit %d, sanitizer or abort)",
               WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    fprintf(out, "replay: FAILURE %s\n", sh->msg);
    return 42;
  }
  if (mode == "--search") {
    long seed = atol(argv[2]);
    double secs = atof(argv[3]);
    long maxruns = argc > 4 ? atol(argv[4]) : 1000000000L;
    timespec t0;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    sh->seed = seed;
    pid_t p = fork();
    if (!p) {
      int dn = open("/dev/null", O_WRONLY);
      dup2(dn, 1);
      dup2(dn, 2);
      for (long k = 0; k < maxruns; k++) {
        sh->seed = seed + k;
        alarm(30);
        one(seed + k);
        sh->runs++;
        timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        if ((t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec) > secs) break;
      }
      _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
      fprintf(out, "search: no failure runs=%ld skipped=%ld asserts=%ld\n", sh->runs, sh->skips, sh->asserts);
      return 0;
    }
    if (!sh->msg[0] && WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || (WTERMSIG(st) == SIGALRM && !getenv("VC_TIMEOUT_FAILS")))) {
      fprintf(out, "search: out of time or memory after runs=%ld\n", sh->runs);
      return 0;
    }
    if (!sh->msg[0])
      snprintf(sh->msg, sizeof sh->msg, WIFSIGNALED(st) ? "terminated by signal %d" : "run-time error (exit %d, sanitizer or abort)",
               WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    fprintf(out, "search: FAILURE seed=%ld runs=%ld %s\n", sh->seed, sh->runs, sh->msg);
    return 42;
  }
  return 2;
}
