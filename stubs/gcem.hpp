// constexpr asin/tan of small arguments (series), standing in for the gcem library
#ifndef VC_STUB_GCEM_HPP
#define VC_STUB_GCEM_HPP
namespace gcem {
constexpr double asin(double x) { double t = x, s = x; for (int n = 1; n < 60; n++) { t *= x * x * (2. * n - 1) * (2. * n - 1) / (2. * n * (2. * n + 1)); s += t; } return s; }
constexpr double sin_(double x) { double t = x, s = x; for (int n = 1; n < 30; n++) { t *= -x * x / ((2. * n) * (2. * n + 1)); s += t; } return s; }
constexpr double cos_(double x) { double t = 1, s = 1; for (int n = 1; n < 30; n++) { t *= -x * x / ((2. * n - 1) * (2. * n)); s += t; } return s; }
constexpr double tan(double x) { return sin_(x) / cos_(x); }
} // namespace gcem
#endif
