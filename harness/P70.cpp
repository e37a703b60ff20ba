#include "earth_ref.hpp"
#include "iau.hpp"
static const double SEC[] = {0, 1e-6, 43200, 86399.999, 0.5, 21600.125, 64800, 33333.3333};
static void angle(mc::Ctx &c, const char *what, double got, ld want, ld tol) {
  if (!(got >= 0 && got < 6.2831853071795868))
    c.fail("range", "%s is %.17g", what, got);
  if (!(fabsl(wrap(got - want)) <= tol))
    c.fail(what, "%s is %.17g, and off by %.3Le rad", what, got, wrap(got - want));
  c.checked(2);
}
static void at(mc::Ctx &c, const dso::MjdEpoch &tt, const dso::MjdEpoch &ut1) {
  const ld t = cent(tt);
  const ld tol = 2e-12L * (1 + fabsl(days(ut1)) / 3000);
  angle(c, "era", dso::era00(ut1), ref_era(ut1), tol);
  angle(c, "gmst", dso::gmst(tt, ut1), ref_gmst06(tt, ut1), tol);
  { /* Aoki et al. 1982, seconds of time at 0h and the day at the sidereal rate */
    const ld u = cent(ut1);
    const ld s = 24110.54841L + (8640184.812866L + (0.093104L - 6.2e-6L * u) * u) * u + ut1.seconds().seconds();
    angle(c, "gmst82", dso::gmst82(ut1), fmodl(s, 86400.L) / 86400 * 2 * LPI, tol);
  }
  ld p = 0;
  for (int i = 5; i > 0; i--)
    p = p * t + i * GPOLY[i];
  const ld rate = 2 * LPI * 1.00273781191135448L + p * AS2R / 36525;
  const double d = dso::dgmst(tt);
  if (!(fabsl(d - rate) <= 1e-14L))
    c.fail("rate", "the rate of gmst is %.17g instead of %.17Lg", d, rate);
  /* and it is that of gmst: over a minute */
  const dso::MjdEpoch tt1 = tt.add_seconds(dso::FractionalSeconds(60)), ut2 = ut1.add_seconds(dso::FractionalSeconds(60));
  const ld step = wrap((ld)dso::gmst(tt1, ut2) - dso::gmst(tt, ut1));
  if (!(fabsl(step - d / 1440) <= 4 * tol + 1e-11L))
    c.fail("step", "gmst moves by %.12Lg in a minute, and %.12g a day", step, d);
  const double sp = dso::sp00(tt);
  if (!(fabsl(sp + 47e-6L * t * AS2R) <= 1e-24L + 1e-15L * fabsl(sp)))
    c.fail("sp", "s' is %.17g", sp);
  c.checked(3);
}
/* days around J2000 and over centuries, at eight times of day, and UT1 up to 100 s away */
static void epochs(mc::Ctx &c) {
  const int nd = c.thorough() ? 4000 : 800;
  const int span = c.choose(3, "span"), k = c.choose(nd, "day") - nd / 2, s = c.choose(8, "second");
  static const int STEP[] = {1, 37, 365};
  const int day = 51544 + k * STEP[span];
  const dso::MjdEpoch tt(day, dso::FractionalSeconds(SEC[s]));
  static const double DT[] = {0, -63.8, -70.25, 90, -0.3};
  const dso::MjdEpoch ut1 = tt.add_seconds(dso::FractionalSeconds(DT[c.choose(5, "UT1 - TT")]));
  at(c, tt, ut1);
  c.state(mc::mix((std::uint64_t)day, (std::uint64_t)s));
}
/* every minute or second of some days */
static void day(mc::Ctx &c) {
  const int n = c.thorough() ? 86400 : 1440, d = c.choose(4, "day"), s = c.choose(n, "second");
  static const int D[] = {51544, 53736, 41317, 60676};
  const dso::MjdEpoch tt(D[d], dso::FractionalSeconds(s * (86400. / n)));
  at(c, tt, tt.add_seconds(dso::FractionalSeconds(-69.184)));
  c.state(mc::mix((std::uint64_t)d, (std::uint64_t)(s / 60)));
}
/* the values of SOFA's own tests */
static void sofa(mc::Ctx &c) {
  const struct {
    const char *what;
    double got, want, tol;
  } T[] = {{"era00", dso::era00(dso::MjdEpoch(54388)), 0.4022837240028158102, 1e-12},
           {"gmst06", dso::gmst(dso::MjdEpoch(53736), dso::MjdEpoch(53736)), 1.754174971870091203, 1e-12},
           {"gmst82", dso::gmst82(dso::MjdEpoch(53736)), 1.754174981860675096, 1e-12},
           {"sp00", dso::sp00(dso::MjdEpoch(52541)), -0.6216698469981019309e-11, 1e-12}};
  const auto &t = T[c.choose(4, "function")];
  if (!(std::fabs(t.got - t.want) <= (t.want < 0 ? 1e-22 : t.tol * 20)))
    c.fail("sofa", "%s is %.17g instead of %.17g", t.what, t.got, t.want);
  c.checked();
  c.state(mc::bits(t.want));
}
/* each of the inputs changes, or does not, from one request to the next */
static void inputs(mc::Ctx &c) {
  mc::inputs(c, 4, [&](int b) {
    const dso::MjdEpoch tt(b & 1 ? 51600 : 59000, dso::FractionalSeconds(b & 2 ? 43200 : 70)),
        ut1(b & 4 ? 51600 : 59000, dso::FractionalSeconds(b & 8 ? 43130 : 0.25));
    at(c, tt, ut1);
  });
}
/* requests that differ by little, or in one input */
static void near(mc::Ctx &c) {
  mc::neighbours(c, {43200.25, 43130.75}, [&](const std::vector<double> &x) {
    if (x[0] < 0 || x[1] < 0)
      c.prune();
    at(c, dso::MjdEpoch(58849, dso::FractionalSeconds(x[0])), dso::MjdEpoch(58849, dso::FractionalSeconds(x[1])));
  });
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, {{"epochs", epochs, 2}, {"day", day, 1}, {"sofa", sofa, 1}, {"inputs", inputs, 1}, {"near", near, 1}});
}
