// Assumed constants and units of the author's external "datetime" library
#ifndef VC_STUB_DTFUND_HPP
#define VC_STUB_DTFUND_HPP
#include <cassert>
#include <cmath>
#include <cstdio>
namespace dso {
constexpr double j2000_jd = 2451545e0;
constexpr double mjd0_jd = 2400000.5e0;
constexpr double sec_per_day = 86400e0;
class modified_julian_day {
  int d_{0};

public:
  constexpr explicit modified_julian_day(int d = 0) noexcept : d_(d) {}
  constexpr int as_underlying_type() const noexcept { return d_; }
};
class nanoseconds {
  long s_{0};

public:
  constexpr explicit nanoseconds(long s = 0) noexcept : s_(s) {}
  constexpr double to_fractional_seconds() const noexcept { return s_ * 1e-9; }
};
} // namespace dso
#endif
