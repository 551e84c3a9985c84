#ifndef VC_STUB_ELLIPSOID_HPP
#define VC_STUB_ELLIPSOID_HPP
namespace dso {
enum class ellipsoid : char { grs80, wgs84, pz90 };
template <ellipsoid E> struct ellipsoid_traits {};
template <> struct ellipsoid_traits<ellipsoid::grs80> { static constexpr double a = 6378137e0; static constexpr double f = 1e0 / 298.257222101e0; };
template <> struct ellipsoid_traits<ellipsoid::wgs84> { static constexpr double a = 6378137e0; static constexpr double f = 1e0 / 298.257223563e0; };
template <ellipsoid E> constexpr double mean_earth_radius() noexcept { return 6371008.7714e0; }
} // namespace dso
#endif
