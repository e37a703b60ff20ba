/* Tidal variations of Earth orientation on lattices that determine them. */
#include "eop_ref.hpp"
#include "eop_tables.hpp"
#include "farg_ref.hpp"

struct Args {
  double f[5], gmst;
};
static ld doodson_arg(const double *n, const Args &a) {
  const ld s = (ld)a.f[2] + a.f[4];
  const ld h = s - a.f[3], p = s - a.f[0], N = -(ld)a.f[4],
           ps = h - a.f[1], tau = a.gmst + LPI - s;
  return n[0] * tau + n[1] * s + n[2] * h + n[3] * p + n[4] * N + n[5] * ps;
}
/* K: highest multiple of each argument in the published table */
static Args lattice(mc::Ctx &c, const int *K, bool gmst) {
  Args a;
  /* a trigonometric polynomial with multiples up to K is determined by 2K+1
   * points; the second, denser lattice reveals foreign frequencies */
  const int dense = c.choose(3, "lattice");
  static const double off[] = {0e0, .3217, .7071};
  for (int i = 0; i < 5; i++) {
    const int n = 2 * K[i] + 1 + (dense ? 1 : 0);
    a.f[i] = std::fmod(off[dense] + 2 * M_PI * c.choose(n, "argument") / n,
                       2 * M_PI);
  }
  a.gmst = 0;
  if (gmst) {
    const int n = 5 + dense;
    a.gmst = off[dense] + 2 * M_PI * c.choose(n, "sidereal time") / n;
  }
  return a;
}
static void same(mc::Ctx &c, const char *what, const Args &a, double got,
                 ld want, ld size) {
  if (!(fabsl(got - want) <= 1e-13L * size))
    c.fail(what, "%s at (%.17g %.17g %.17g %.17g %.17g; %.17g) is %.17g and "
           "not %.17Lg", what, a.f[0], a.f[1], a.f[2], a.f[3], a.f[4], a.gmst,
           got, want);
  c.checked();
}
static void zonal_at(mc::Ctx &c, const Args &a) {
  ld w[3] = {0, 0, 0}, s[3] = {0, 0, 0};
  for (const auto &r : ZONAL) {
    ld x = 0;
    for (int i = 0; i < 5; i++)
      x += r[i] * (ld)a.f[i];
    const ld sn = sinl(x), cs = cosl(x);
    w[0] += r[6] * sn + r[7] * cs;
    w[1] += r[8] * cs + r[9] * sn;
    w[2] += r[10] * cs + r[11] * sn;
    for (int k = 0; k < 3; k++)
      s[k] += 20 * (fabsl(r[6 + 2 * k]) + fabsl(r[7 + 2 * k]));
  }
  double dut, dlod, dom;
  if (dso::deop_zonal_tide(a.f, dut, dlod, dom))
    c.fail("status", "not zero");
  same(c, "zonal-ut1", a, dut, 100 * w[0], 100 * s[0]);
  same(c, "zonal-lod", a, dlod, 10 * w[1], 10 * s[1]);
  same(c, "zonal-omega", a, dom, w[2], s[2]);
  c.state(mc::mix(mc::bits(dut), mc::bits(dlod)));
}
static void zonal(mc::Ctx &c) {
  static const int K[] = {3, 2, 2, 2, 2};
  zonal_at(c, lattice(c, K, false));
}
static void libration_at(mc::Ctx &c, const Args &a) {
  ld w[4] = {0, 0, 0, 0}, s[4] = {0, 0, 0, 0};
  auto add = [&](const double *r, int k0) {
    ld x = r[0] * (a.gmst + LPI);
    for (int i = 0; i < 5; i++)
      x += r[1 + i] * (ld)a.f[i];
    for (int k = 0; k < 2; k++) {
      w[k0 + k] += r[7 + 2 * k] * sinl(x) + r[8 + 2 * k] * cosl(x);
      s[k0 + k] += 20 * (fabsl(r[7 + 2 * k]) + fabsl(r[8 + 2 * k]));
    }
  };
  for (const auto &r : LIB_PM)
    add(r, 0);
  for (const auto &r : LIB_UT)
    add(r, 2);
  double d[4];
  if (dso::deop_libration(a.f, a.gmst, d[0], d[1], d[2], d[3]))
    c.fail("status", "not zero");
  static const char *nm[] = {"libration-xp", "libration-yp", "libration-ut1",
                             "libration-lod"};
  for (int k = 0; k < 4; k++)
    same(c, nm[k], a, d[k], w[k], s[k]);
  c.state(mc::mix(mc::bits(d[0]), mc::bits(d[2])));
}
static void libration(mc::Ctx &c) {
  static const int K[] = {2, 1, 2, 2, 2};
  libration_at(c, lattice(c, K, true));
}
static void ocean_at(mc::Ctx &c, const Args &a) {
  ld w[4] = {0, 0, 0, 0}, s[4] = {0, 0, 0, 0};
  for (const auto &r : OCEAN) {
    const ld x = doodson_arg(r, a);
    const ld sn = sinl(x), cs = cosl(x);
    for (int k = 0; k < 4; k++) {
      w[k] += r[6 + 2 * k] * sn + r[7 + 2 * k] * cs;
      s[k] += 20 * (fabsl(r[6 + 2 * k]) + fabsl(r[7 + 2 * k]));
    }
  }
  double d[4];
  if (dso::deop_ocean_tide(a.f, a.gmst, d[0], d[1], d[2], d[3]))
    c.fail("status", "not zero");
  static const char *nm[] = {"ocean-xp", "ocean-yp", "ocean-ut1", "ocean-lod"};
  for (int k = 0; k < 4; k++)
    same(c, nm[k], a, d[k], w[k], s[k]);
  c.state(mc::mix(mc::bits(d[0]), mc::bits(d[2])));
}
static void ocean(mc::Ctx &c) {
  static const int K[] = {3, 1, 2, 2, 2};
  ocean_at(c, lattice(c, K, true));
}
/* requests that differ by little, or in one argument */
static void near(mc::Ctx &c) {
  const int what = c.choose(3, "what");
  mc::neighbours(c, {0.7, 1.9, 3.1, 4.3, 5.2, 2.6}, [&](const std::vector<double> &x) {
    const Args a{{x[0], x[1], x[2], x[3], x[4]}, x[5]};
    (what == 0 ? zonal_at : what == 1 ? libration_at : ocean_at)(c, a);
  });
}
int main(int argc, char **argv) {
  /* the lattices must suit the tables */
  return mc::run(argc, argv, {{"zonal", zonal, 3},
                              {"libration", libration, 3},
                              {"ocean", ocean, 3}, {"near", near, 2}});
}
