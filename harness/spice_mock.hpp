/* CSPICE as far as the library uses it: a pool of kernels and an ephemeris that is a known function of all its arguments */
#pragma once
#include "mc.hpp"
#include "planets.hpp"
#include <string>
#include <vector>
struct Spice {
  std::vector<std::string> pool;
  std::vector<std::string> furnished; /* all calls */
  std::string wrong;                  /* first misuse */
  double et = 0;
  void misuse(const std::string &s) {
    if (wrong.empty())
      wrong = s;
  }
};
static Spice SP;
/* position and velocity in km and km/s; Earth relative to itself is at rest */
static double mock(int target, int observer, double et, int k) {
  return target == observer ? 0. : (target * 1000. + k * 100 + 1) * (k & 1 ? -1 : 1) + observer * 1e6 + et / 1e3 * (k + 1);
}
extern "C" {
void ktotal_c(const char *kind, SpiceInt *count) {
  if (std::string(kind) != "ALL")
    SP.misuse("kind of kernel");
  *count = (int)SP.pool.size();
}
void kdata_c(SpiceInt which, const char *, SpiceInt fileln, SpiceInt filtln, SpiceInt srclen, SpiceChar *file, SpiceChar *filtyp,
             SpiceChar *srcfil, SpiceInt *handle, SpiceBoolean *found) {
  *handle = 0;
  if (which < 0 || which >= (int)SP.pool.size()) {
    *found = 0;
    return;
  }
  *found = 1;
  std::memset(file, 'x', fileln);
  std::memset(filtyp, 0, filtln);
  std::memset(srcfil, 0, srclen);
  std::snprintf(file, fileln, "%s", SP.pool[which].c_str());
  std::snprintf(filtyp, filtln, "SPK");
}
void furnsh_c(const char *file) {
  SP.furnished.push_back(file);
  /* a kernel loaded again is read again, and has precedence */
  for (auto i = SP.pool.begin(); i != SP.pool.end(); ++i)
    if (*i == file) {
      SP.pool.erase(i);
      break;
    }
  SP.pool.push_back(file);
}
void bodvrd_c(const char *body, const char *item, SpiceInt maxn, SpiceInt *dim, SpiceDouble *values) {
  if (std::string(item) != "GM" || maxn < 1)
    SP.misuse("item");
  *dim = 1;
  if (SP.pool.empty())
    SP.misuse("constants of no kernel");
  const double k = SP.pool.empty() ? 0 : SP.pool.back().size();
  *values = std::string(body) == "SUN" ? 132712440041.93938 + k : std::string(body) == "MOON" ? 4902.800066 + k : -1;
}
SpiceDouble unitim_c(SpiceDouble epoch, const char *in, const char *out) {
  if (std::string(in) != "JDTDT" || std::string(out) != "ET")
    SP.misuse("time scale");
  return SP.et = (epoch - 2451545e0) * 86400e0 + 0.25; /* the offset is exaggerated to show */
}
void spkezp_c(SpiceInt targ, SpiceDouble et, const char *ref, const char *abcorr, SpiceInt obs, SpiceDouble *p, SpiceDouble *lt) {
  if (std::string(ref) != "J2000" || std::string(abcorr) != "NONE")
    SP.misuse("frame or correction");
  for (int k = 0; k < 3; k++)
    p[k] = mock(targ, obs, et, k);
  *lt = 1;
}
void spkezr_c(const char *targ, SpiceDouble et, const char *ref, const char *abcorr, const char *obs, SpiceDouble *p, SpiceDouble *lt) {
  if (std::string(ref) != "J2000" || std::string(abcorr) != "NONE")
    SP.misuse("frame or correction");
  char *e1, *e2;
  const int t = (int)std::strtol(targ, &e1, 10), o = (int)std::strtol(obs, &e2, 10);
  if (*e1 || *e2 || e1 == targ || e2 == obs)
    SP.misuse("name of a body");
  for (int k = 0; k < 6; k++)
    p[k] = mock(t, o, et, k);
  *lt = 1;
}
}
