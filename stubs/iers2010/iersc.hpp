// Assumed constants of the external "iers2010" library (IERS Conventions 2010, IAU)
#ifndef VC_STUB_IERSC_HPP
#define VC_STUB_IERSC_HPP
namespace iers2010 {
constexpr double DPI = 3.141592653589793238462643e0;
constexpr double D2PI = 6.283185307179586476925287e0;
constexpr double DR2D = 57.29577951308232087679815e0;
constexpr double DD2R = 1.745329251994329576923691e-2;
constexpr double DR2AS = 206264.8062470963551564734e0;
constexpr double DAS2R = 4.848136811095359935899141e-6;
constexpr double DMAS2R = DAS2R / 1e3;
constexpr double TURNAS = 1296000e0;
constexpr double C = 299792458e0;
constexpr double OmegaEarth = 7.292115e-5;
constexpr double Re = 6378136.6e0;
constexpr double Rs = 696000e3;
constexpr double AU = 149597870700e0;
constexpr double GMe = 3.986004418e14;
constexpr double GMSun = 1.32712442076e20;
} // namespace iers2010
namespace dso { constexpr double DPI = iers2010::DPI; constexpr double D2PI = iers2010::D2PI; }
#endif
