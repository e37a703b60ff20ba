#ifndef VERIF_SHIM_GEODESY_GEOCONST_HPP
#define VERIF_SHIM_GEODESY_GEOCONST_HPP
namespace dso {
constexpr const double DPI = 3.141592653589793238462643383279502884e0;
constexpr const double D2PI = 2e0 * DPI;
/* arcseconds in a full circle */
constexpr const double TURNAS = 1296000e0;
} /* namespace dso */
#endif
