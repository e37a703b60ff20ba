#ifndef VERIF_SHIM_GEODESY_TRANSF_HPP
#define VERIF_SHIM_GEODESY_TRANSF_HPP
#include "core/crdtype_warppers.hpp"
#include "units.hpp"
#include <cmath>
namespace dso {
template <typename C> inline SphericalCrd cartesian2spherical(const C &v) noexcept {
  const double x = v.x(), y = v.y(), z = v.z();
  const double r = std::sqrt(x * x + y * y + z * z);
  return SphericalCrd(r, std::atan2(z, std::sqrt(x * x + y * y)),
                      std::atan2(y, x));
}
/** Rotation from the local (East, North, Up) frame to the Earth-fixed one */
inline Eigen::Matrix<double, 3, 3> geodetic2lvlh(double lat,
                                                 double lon) noexcept {
  const double sf = std::sin(lat), cf = std::cos(lat);
  const double sl = std::sin(lon), cl = std::cos(lon);
  Eigen::Matrix<double, 3, 3> R;
  R << -sl, -sf * cl, cf * cl, cl, -sf * sl, cf * sl, 0e0, cf, sf;
  return R;
}
} /* namespace dso */
#endif
