// Assumed interface of the external "iers2010" library: declarations only, their results are
// arbitrary functions of their arguments in the contracts
#ifndef VC_STUB_IERS2010_HPP
#define VC_STUB_IERS2010_HPP
#include "iers2010/iersc.hpp"
namespace iers2010 {
int rg_zont2(double t, double &dut, double &dlod, double &domega);
namespace interp {
int lagint(const double *x, const double *y, int n, double xint, double &yout, int &idx, int order);
int pmut1_oceans(double t, double &cx, double &cy, double &cdut, double &clod);
int pm_gravi(double t, double &cx, double &cy);
} // namespace interp
} // namespace iers2010
#endif
