/** Minimal stand-in for the units part of the ggeodesy library (see DESIGN.md) */
#ifndef VERIF_SHIM_GEODESY_UNITS_HPP
#define VERIF_SHIM_GEODESY_UNITS_HPP
#include <cmath>
#include <cstddef>
#include "core/geoconst.hpp"
namespace dso {
namespace detail {
enum class AngleUnit { Radians, Degrees, Seconds };
template <AngleUnit U> struct AngleUnitTraits {};
template <> struct AngleUnitTraits<AngleUnit::Radians> {
  static constexpr double full_circle() noexcept { return D2PI; }
};
template <> struct AngleUnitTraits<AngleUnit::Degrees> {
  static constexpr double full_circle() noexcept { return 360e0; }
};
template <> struct AngleUnitTraits<AngleUnit::Seconds> {
  static constexpr double full_circle() noexcept { return 1296000e0; }
};
} /* namespace detail */
/** normalize angle into [0, full circle) */
template <detail::AngleUnit U = detail::AngleUnit::Radians>
inline double anp(double a) noexcept {
  constexpr double full = detail::AngleUnitTraits<U>::full_circle();
  const double w = std::fmod(a, full);
  return w + full * (w < 0e0);
}
constexpr double deg2rad(double d) noexcept { return d * (DPI / 180e0); }
constexpr double rad2deg(double r) noexcept { return r * (180e0 / DPI); }
constexpr double sec2rad(double s) noexcept {
  return s * (DPI / 180e0 / 3600e0);
}
/** hours-seconds (i.e. seconds of time) to radians */
constexpr double hsec2rad(double s) noexcept { return s * (D2PI / 86400e0); }
} /* namespace dso */
#endif
