// Assumed contract of the external "geodesy" library: angle units
#ifndef VC_STUB_UNITS_HPP
#define VC_STUB_UNITS_HPP
#include <cmath>
#include "iers2010/iersc.hpp"
namespace dso {
enum class AngleUnit : char { Radians, Degrees };
template <typename T = double> constexpr T deg2rad(T d) noexcept { return d * (iers2010::DPI / 180e0); }
template <typename T = double> constexpr T rad2deg(T r) noexcept { return r * (180e0 / iers2010::DPI); }
template <typename T = double> constexpr T arcsec2rad(T s) noexcept { return s * iers2010::DAS2R; }
template <typename T = double> constexpr T sec2rad(T s) noexcept { return s * iers2010::DAS2R; }
#ifdef VC_NORM_ANGLE_OPAQUE
// equal to the angle up to full turns, in [0, 2pi): see the harness that defines it
extern "C" double vc_norm_angle(double a);
template <typename T, AngleUnit U = AngleUnit::Radians> T norm_angle(T a) noexcept { return vc_norm_angle(a); }
#else
template <typename T, AngleUnit U = AngleUnit::Radians> T norm_angle(T a) noexcept {
  constexpr const T full = (U == AngleUnit::Radians) ? iers2010::D2PI : T(360);
  const T t = std::fmod(a, full);
  return t < 0 ? t + full : t;
}
#endif
} // namespace dso
#endif
