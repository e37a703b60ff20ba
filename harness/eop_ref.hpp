/** Reference model of a series of Earth orientation parameters. */
#ifndef VERIF_EOP_REF_HPP
#define VERIF_EOP_REF_HPP
#include "eop.hpp"
#include "mc.hpp"
#include <string>
#include <vector>
typedef long double ld;
using Res = dso::EopSeries::EopInterpolationResult;

/** TAI-UTC, independent of the library's conversion */
inline int tai_utc(long mjd) {
  static const int leap[] = {41317, 41499, 41683, 42048, 42413, 42778, 43144, 43509, 43874, 44239,
                             44786, 45151, 45516, 46247, 47161, 47892, 48257, 48804, 49169, 49534,
                             50083, 50630, 51179, 53736, 54832, 56109, 57204, 57754};
  int n = 9;
  for (int l : leap)
    n += mjd >= l;
  return n;
}
struct Rec {
  long mjd;     /* UTC day, 0h (or fraction below) */
  double frac;  /* fraction of day */
  double v[8];  /* xp yp dut dX dY xrt yrt lod */
};
inline dso::MjdEpoch rec_tt(const Rec &r) {
  return dso::MjdEpoch(
      r.mjd, dso::FractionalSeconds{r.frac * 86400e0 + tai_utc(r.mjd) + 32.184});
}
inline ld days_since(const dso::MjdEpoch &t) {
  return (ld)(t.imjd() - 57750) + (ld)t.seconds().seconds() / 86400;
}
/** smooth, distinct functions of time with the UT1-UTC jump at leap seconds */
inline Rec make_rec(long mjd, double frac = 0e0) {
  const double x = (mjd - 57750) + frac;
  Rec r{mjd, frac, {}};
  const double base[8] = {.0868, .2647, -.4053 - 36, -.000123,
                          -.000021, -.002333, -.000179, .0008067};
  for (int i = 0; i < 8; i++)
    r.v[i] = base[i] * (1 + .01 * (i + 1) * x) +
             1e-4 * (i + 1) * ((int)(mjd * (i + 3)) % 7);
  r.v[2] += tai_utc(mjd);
  return r;
}
/** values as they are over decades; with a field each that has no pattern */
inline Rec decades_rec(long mjd) {
  const double x = (mjd - 57750) * .0172;
  Rec r{mjd, 0e0, {}};
  const double amp[8] = {.3, .4, .45, 3e-4, 2e-4, 3e-3, 2e-3, 2e-3};
  for (int i = 0; i < 8; i++)
    r.v[i] = amp[i] * (std::sin(x * (1 + .1 * i)) * .7 + .3 * ((double)(mc::mix((std::uint64_t)mjd, (std::uint64_t)i) >> 40) / 16777216. - .5));
  return r;
}
inline dso::EopRecord lib_rec(const Rec &r) {
  dso::EopRecord e;
  e.t() = rec_tt(r);
  e.xp() = r.v[0];
  e.yp() = r.v[1];
  e.dut() = r.v[2];
  e.dX() = r.v[3];
  e.dY() = r.v[4];
  e.xp_rate() = r.v[5];
  e.yp_rate() = r.v[6];
  e.lod() = r.v[7];
  e.dat() = tai_utc(r.mjd);
  return e;
}
inline void same_record(mc::Ctx &c, const dso::EopRecord &e, const Rec &r,
                        const char *what, bool rates = true) {
  const double got[8] = {e.xp(), e.yp(),      e.dut(),     e.dX(),
                         e.dY(), e.xp_rate(), e.yp_rate(), e.lod()};
  static const char *nm[] = {"xp", "yp", "UT1-UTC", "dX",
                             "dY", "xp rate", "yp rate", "LOD"};
  const dso::MjdEpoch t = rec_tt(r);
  if (e.t() != t &&
      std::fabs(e.t().diff<dso::DateTimeDifferenceType::FractionalSeconds>(t)
                    .seconds()) > 1e-6)
    c.fail("epoch", "%s: record of MJD %ld has a wrong epoch", what, r.mjd);
  for (int i = 0; i < 8; i++) {
    if (!rates && (i == 5 || i == 6))
      continue;
    if (!(got[i] == r.v[i]))
      c.fail("value", "%s: %s of MJD %ld is %.17g and not %.17g", what, nm[i],
             r.mjd, got[i], r.v[i]);
    c.checked();
  }
}
#endif
