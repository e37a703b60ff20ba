/** Minimal stand-in for the coordinate types of the ggeodesy library */
#ifndef VERIF_SHIM_GEODESY_CRDTYPES_HPP
#define VERIF_SHIM_GEODESY_CRDTYPES_HPP
#include "eigen3/Eigen/Eigen"
namespace dso {
struct SphericalCrdConstView;
struct CartesianCrdConstView;

struct CartesianCrd {
  Eigen::Matrix<double, 3, 1> mv = Eigen::Matrix<double, 3, 1>::Zero();
  CartesianCrd() {}
  CartesianCrd(double x, double y, double z) : mv(x, y, z) {}
  template <typename D>
  explicit CartesianCrd(const Eigen::MatrixBase<D> &m) : mv(m) {}
  double x() const noexcept { return mv(0); }
  double y() const noexcept { return mv(1); }
  double z() const noexcept { return mv(2); }
  double &x() noexcept { return mv(0); }
  double &y() noexcept { return mv(1); }
  double &z() noexcept { return mv(2); }
};
struct CartesianCrdConstView {
  const Eigen::Matrix<double, 3, 1> &mv;
  explicit CartesianCrdConstView(const Eigen::Matrix<double, 3, 1> &m)
      : mv(m) {}
  CartesianCrdConstView(const CartesianCrd &c) : mv(c.mv) {}
  double x() const noexcept { return mv(0); }
  double y() const noexcept { return mv(1); }
  double z() const noexcept { return mv(2); }
};
/* geocentric latitude, longitude [rad], radius */
struct SphericalCrd {
  Eigen::Matrix<double, 3, 1> mv = Eigen::Matrix<double, 3, 1>::Zero();
  SphericalCrd() {}
  SphericalCrd(double r, double lat, double lon) : mv(r, lat, lon) {}
  double r() const noexcept { return mv(0); }
  double lat() const noexcept { return mv(1); }
  double lon() const noexcept { return mv(2); }
  double &r() noexcept { return mv(0); }
  double &lat() noexcept { return mv(1); }
  double &lon() noexcept { return mv(2); }
};
struct SphericalCrdConstView {
  const Eigen::Matrix<double, 3, 1> &mv;
  explicit SphericalCrdConstView(const Eigen::Matrix<double, 3, 1> &m)
      : mv(m) {}
  SphericalCrdConstView(const SphericalCrd &c) : mv(c.mv) {}
  double r() const noexcept { return mv(0); }
  double lat() const noexcept { return mv(1); }
  double lon() const noexcept { return mv(2); }
};
template <typename T> struct CoordinateTypeTraits {
  static constexpr bool isCartesian = false;
};
template <> struct CoordinateTypeTraits<CartesianCrd> {
  static constexpr bool isCartesian = true;
};
template <> struct CoordinateTypeTraits<CartesianCrdConstView> {
  static constexpr bool isCartesian = true;
};
} /* namespace dso */
#endif
