// DORIS observation codes, beacon frequencies and station records:
// src/doris_system_info.hpp, src/doris/doris_system_info.cpp
#include "vc.h"
#include <cassert>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#ifdef VC_SYMBOLIC
// contract of strtol: reads only from its argument, gives the number starting there (if any)
static const char *line0;
static long len0;
static long number50, number52, digits50, digits52;
static long vc_number(const char *s, char **end) {
  const long at = s - line0;
  vc_assert(at >= 0 && at <= len0, "number-field-inside-the-line");
  const long v = at == 50 ? number50 : (at == 52 ? number52 : vc_intr("other-number", -2147483648L, 2147483647L));
  const long k = at == 50 ? digits50 : (at == 52 ? digits52 : vc_intr("other-digits", 0, 20));
  vc_assume(k <= len0 - at);
  *end = (char *)s + k;
  return v;
}
// contract of strlen: the line is its characters up to the terminating zero
static size_t vc_length(const char *s) {
  vc_assert(s == line0, "length-of-the-line");
  return len0;
}
namespace std { inline size_t vc_strlen(const char *s) { return vc_length(s); } inline long vc_strtol(const char *s, char **end, int) { return vc_number(s, end); } }
#define strtol vc_strtol
#define strlen vc_strlen
#endif
#include "doris/doris_system_info.cpp"
using dso::ObservationType;
static int throws_char(ObservationType t, char *c) {
  try {
    *c = dso::ObservationType_to_char(t);
    return 0;
  } catch (...) {
    return 1;
  }
}
static int throws_type(char c, ObservationType *t) {
  try {
    *t = dso::char_to_observationType(c);
    return 0;
  } catch (...) {
    return 1;
  }
}
static int throws_code(ObservationType t, int_fast8_t f, ObservationType *tt, int_fast8_t *ff, bool *has) {
  try {
    dso::ObservationCode c(t, f);
    *tt = c.m_type;
    *ff = c.m_freq;
    *has = c.has_frequency();
    return 0;
  } catch (...) {
    return 1;
  }
}
HARNESS(letters) {
  const char letters[] = "LCWFPTH"; // RINEX DORIS 3.0
  const long i = vc_intr("type", -128, 127);
  char c = 0;
  ObservationType t = ObservationType::phase;
  const int e = throws_char(static_cast<ObservationType>(i), &c);
  vc_assert(e == !(i >= 0 && i <= 6), "only-the-seven-types-have-a-letter");
  if (!e) {
    vc_assert(c == letters[i], "letter-of-the-type");
    vc_assert(!throws_type(c, &t) && static_cast<long>(t) == i, "letter-reads-back-as-the-type");
  }
  const long ch = vc_intr("letter", -128, 127);
  const int e2 = throws_type(ch, &t);
  vc_assert(e2 == !(ch == 'L' || ch == 'C' || ch == 'W' || ch == 'F' || ch == 'P' || ch == 'T' || ch == 'H'), "only-the-seven-letters-are-types");
  if (!e2) vc_assert(!throws_char(t, &c) && c == ch, "type-writes-back-as-the-letter");
}
HARNESS(codes) {
  const long i = vc_intr("type", 0, 6), f = vc_intr("freq", -128, 127);
  const bool needs = i <= 2; // phase, pseudorange, power level
  ObservationType t = ObservationType::phase;
  int_fast8_t ff = 99;
  bool has = false;
  vc_assert(dso::observationType_has_frequency(static_cast<ObservationType>(i)) == needs, "types-with-a-frequency");
  const int e = throws_code(static_cast<ObservationType>(i), f, &t, &ff, &has);
  vc_assert(e == (needs && f != 1 && f != 2), "invalid-frequency-is-refused");
  if (!e) {
    vc_assert(static_cast<long>(t) == i && has == needs, "type-kept");
    vc_assert(ff == (needs ? f : 0), "frequency-kept-or-zero");
  }
  const long j = vc_intr("type2", 0, 6), g = vc_intr("freq2", 1, 2), h = vc_intr("freq1", 1, 2);
  const dso::ObservationCode a(static_cast<ObservationType>(i), h), b(static_cast<ObservationType>(j), g);
  vc_assert((a == b) == (i == j && (!needs || g == h)), "codes-equal-when-type-and-frequency-are");
  vc_assert((a != b) == !(a == b), "unequal-is-not-equal");
}
HARNESS(frequencies) {
  const long k = vc_intr("k", -2000000, 2000000);
  double s1 = 0, u2 = 0;
  dso::beacon_nominal_frequency(k, s1, u2);
  // 543 (107) times 5 MHz (3/4 + 87 k / (5 2^26))
  const double f = 5e6 * (0.75 + 87e0 * k / (5e0 * 67108864e0));
  vc_eq(s1, 543e0 * f, 1e-6, "S1-frequency-of-the-shift-factor");
  vc_eq(u2, 107e0 * f, 1e-6, "U2-frequency-of-the-shift-factor");
  double a = 0, b = 0;
  dso::beacon_nominal_frequency(0, a, b);
  vc_eq(a, dso::DORIS_FREQ1_MHZ * 1e6, 1e-6, "unshifted-beacon-sends-the-nominal-frequencies");
  vc_eq(b, dso::DORIS_FREQ2_MHZ * 1e6, 1e-6, "unshifted-beacon-sends-the-nominal-frequencies");
}
static char *l;
static dso::BeaconStation b;
static long n;
static bool record(bool name, bool domes) {
  n = vc_int("length", 60, 90);
  l = vc_barr("line", n + 1, 32, 90);
  l[n] = 0;
#ifdef VC_SYMBOLIC
  line0 = l;
  len0 = n;
  number50 = vc_intr("number50", -128, 127), number52 = vc_intr("number52", -2147483648L, 2147483647L);
  digits50 = vc_intr("digits50", 0, 8), digits52 = vc_intr("digits52", 0, 8);
#else
  char w[16];
  const int nw = snprintf(w, sizeof w, "%ld %+04ld ", vc_intr("t", 1, 3), vc_intr("k", -99, 99));
  std::memcpy(l + 50, w, nw);
#endif
  if (!name) vc_assume(l[39] != ' ');
  if (!domes) vc_assume(l[49] != ' ');
  errno = vc_intr("errno", 0, 40);
  const int rc = b.set_from_rinex_line(l);
#ifdef VC_SYMBOLIC
  vc_assert((rc == 0) == (digits50 > 0 && digits52 > 0), "accepted-exactly-when-both-numbers-can-be-read");
  if (rc) return false;
  vc_assert(b.m_type == number50, "type-from-column-50");
  vc_assert(b.m_shift_factor == number52, "shift-factor-from-column-52");
#else
  vc_assert(rc == 0, "accepted-exactly-when-both-numbers-can-be-read");
  vc_assert(b.m_type == atoi(l + 50), "type-from-column-50");
  vc_assert(b.m_shift_factor == atoi(l + 52), "shift-factor-from-column-52");
#endif
  return true;
}
HARNESS(record_codes) {
  if (!record(false, false)) return;
  VC_FORALL(i, 0, 3) vc_assert(b.m_internal_code[i] == l[i], "internal-code-from-column-0");
  VC_FORALL(j, 0, 4) vc_assert(b.m_station_id[j] == l[5 + j], "station-code-from-column-5");
}
HARNESS(record_name) {
  if (!record(true, false)) return;
  VC_FORALL(k, 0, 30) vc_assert(b.m_station_name[k] == l[10 + k] || (k && l[10 + k] == ' ' && b.m_station_name[k] == 0), "station-name-from-column-10");
  vc_assert(b.m_station_name[29] != ' ', "trailing-blanks-removed");
}
HARNESS(record_domes) {
  if (!record(false, true)) return;
  VC_FORALL(k, 0, 10) vc_assert(b.m_station_domes[k] == l[40 + k] || (k && l[40 + k] == ' ' && b.m_station_domes[k] == 0), "DOMES-number-from-column-40");
  vc_assert(b.m_station_domes[9] != ' ', "trailing-blanks-removed");
}
HARNESS(record_short) {
  const long len = vc_int("length", 0, 59);
  char *s = vc_barr("line", len + 1, 32, 90);
  s[len] = 0;
#ifdef VC_SYMBOLIC
  line0 = s;
  len0 = len;
#endif
  vc_assert(b.set_from_rinex_line(s) != 0, "short-line-is-refused");
}
