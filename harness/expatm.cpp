// Exponential atmosphere (src/atmosphere/exponential_atmospheric_model.cpp)
#include "vc.h"
#define __DSO_DORIS_ATMOSPHERE_MODELS_HPP__
namespace dso { namespace air_density_models { namespace exponential { double density(double) noexcept; } } }
#include "atmosphere/exponential_atmospheric_model.cpp"
using dso::air_density_models::exponential::density;
// layer bounds of Vallado's model [km]
static const double B[] = {0, 25, 30, 40, 50, 60, 70, 80, 90, 100, 110, 120, 130, 140, 150, 180, 200, 250, 300, 350, 400, 450, 500, 600, 700, 800, 900, 1000};
// nominal density at those bounds [kg/m^3]
static const double D[] = {1.225, 3.899e-2, 1.774e-2, 3.972e-3, 1.057e-3, 3.206e-4, 8.770e-5, 1.905e-5, 3.396e-6, 5.297e-7, 9.661e-8, 2.438e-8, 8.484e-9, 3.845e-9, 2.070e-9, 5.464e-10, 2.789e-10, 7.248e-11, 2.418e-11, 9.518e-12, 3.725e-12, 1.585e-12, 6.967e-13, 1.454e-13, 3.614e-14, 1.170e-14, 5.245e-15, 3.019e-15};
HARNESS(bounds) {
  for (int i = 1; i < 28; i++) {
    vc_eq(density(B[i]) / D[i], 1e0, 1e-9, "nominal-density-at-the-bound");
    // from below: continuous within half a percent (a percent over the first 25 km)
    const double below = density(B[i] - 1e-9) / D[i];
    vc_assert(below > 0.995 && below < 1.005, "continuous-across-the-bound");
  }
}
// -d(log density)/dh is positive, and what the nominal densities at the layer's bounds imply
HARNESS(decay) {
  double h[1] = {vc_realr("h", 1e-6, 5000)};
  if (VC_NATIVE) for (int i = 0; i < 28; i++) vc_assume(std::fabs(h[0] - B[i]) > 3e-4 * B[i] + 1e-3);
  const double r = density(h[0]);
  vc_assert(r > 0, "positive");
  const double slope = -vc_partial([](double *x) { return density(x[0]); }, h, 0); // rate of decay times density
  vc_assert(slope > 0, "decreasing");
  for (int i = 0; i < 27; i++)
    if (h[0] >= B[i] && h[0] < B[i + 1]) {
      const double s = std::log(D[i] / D[i + 1]);
      vc_assert(slope * (B[i + 1] - B[i]) > (s - 0.005) * r && slope * (B[i + 1] - B[i]) < (s + 0.005) * r, "scale-height-joins-the-nominal-densities");
    }
}
