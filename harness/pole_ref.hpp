/* IERS Conventions 2010, 6.4, 6.5, 7.1.4, 7.1.5 (with the secular pole of 2018), in extended precision */
#pragma once
#include "mc.hpp"
#include "pole_tide.hpp"
#include <cmath>
#include <fstream>
#include <string>
#include <vector>
typedef long double ld;
static const ld PI_L = 3.141592653589793238462643383279502884L;
struct Date {
  int mjd;
  double sec;
  dso::MjdEpoch t() const { return dso::MjdEpoch(mjd, dso::FractionalSeconds(sec)); }
  /* Julian years since J2000 */
  ld years() const { return ((ld)(mjd - 51544) + ((ld)sec - 43200) / 86400) / 365.25L; }
};
struct Wobble {
  ld m1, m2; /* arcseconds */
};
static Wobble wobble(const Date &d, ld xp, ld yp) {
  const ld y = d.years();
  return {xp - (0.055L + 0.001677L * y), -(yp - (0.3205L + 0.00346L * y))};
}
static bool near(ld got, ld want, ld tol) { return fabsl(got - want) <= tol; }
static std::string spot(mc::Ctx &c, const std::string &text, const char *name = "/f") {
  const std::string fn = c.tmpdir + name;
  std::ofstream(fn, std::ios::binary) << text;
  return fn;
}
