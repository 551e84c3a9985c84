// Assumed contract of the external "geodesy" library: car2ell gives some longitude, latitude
// and height (functions of the position)
#ifndef VC_STUB_GEODESY_HPP
#define VC_STUB_GEODESY_HPP
#include "eigen3/Eigen/Eigen"
#include "geodesy/ellipsoid.hpp"
extern "C" double vc_uf3(const char *name, double, double, double);
namespace dso {
template <ellipsoid E>
Eigen::Matrix<double, 3, 1> car2ell(const Eigen::Matrix<double, 3, 1> &r) noexcept {
  return Eigen::Matrix<double, 3, 1>(vc_uf3("longitude", r(0), r(1), r(2)), vc_uf3("latitude", r(0), r(1), r(2)),
                                     vc_uf3("height", r(0), r(1), r(2)));
}
} // namespace dso
#endif
