// Assumed interface of the author's external "datetime" library: what the verified files use.
#ifndef VC_STUB_DTCALENDAR_HPP
#define VC_STUB_DTCALENDAR_HPP
#include "datetime/dtfund.hpp"
namespace dso {
// an instant, counted in the unit S from an arbitrary origin
template <typename S> class datetime {
  long t_{0};

public:
  constexpr datetime(long t = 0) noexcept : t_(t) {}
  static constexpr datetime min() noexcept { return datetime(0); }
  constexpr S delta_sec(const datetime &o) const noexcept { return S(t_ - o.t_); }
};
enum class DateTimeDifferenceType { FractionalDays, FractionalSeconds };
template <DateTimeDifferenceType D, typename S> constexpr double date_diff(const datetime<S> &a, const datetime<S> &b) noexcept {
  const double s = a.delta_sec(b).to_fractional_seconds();
  return D == DateTimeDifferenceType::FractionalSeconds ? s : s / 86400e0;
}
} // namespace dso
#endif
