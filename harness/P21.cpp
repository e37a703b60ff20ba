/* Fundamental arguments, at the epochs of lattices that determine them. */
#include "fundarg.hpp"
#include "farg_ref.hpp"
#include "mc.hpp"

typedef double (*OfT)(double);
typedef double (*OfE)(const dso::MjdEpoch &);
namespace i = dso::iers2010;
struct Fn {
  const char *name;
  OfT t;
  OfE e;
};
static const Fn FN[] = {{"l", i::fal03, dso::fal03},
                        {"l'", i::falp03, dso::falp03},
                        {"F", i::faf03, dso::faf03},
                        {"D", i::fad03, dso::fad03},
                        {"Om", i::faom03, dso::faom03},
                        {"Mercury", i::fame03, dso::fame03},
                        {"Venus", i::fave03, dso::fave03},
                        {"Earth", i::fae03, dso::fae03},
                        {"Mars", i::fama03, dso::fama03},
                        {"Jupiter", i::faju03, dso::faju03},
                        {"Saturn", i::fasa03, dso::fasa03},
                        {"Uranus", i::faur03, dso::faur03},
                        {"Neptune", i::fane03, dso::fane03},
                        {"pA", i::fapa03, dso::fapa03},
                        {"dl/dt", i::dfal03, dso::dfal03},
                        {"dl'/dt", i::dfalp03, dso::dfalp03},
                        {"dF/dt", i::dfaf03, dso::dfaf03},
                        {"dD/dt", i::dfad03, dso::dfad03},
                        {"dOm/dt", i::dfaom03, dso::dfaom03}};
static ld ref(int k, ld t) {
  if (k < 5)
    return farg(k, t);
  if (k < 13)
    return PCOEF[k - 5][0] + PCOEF[k - 5][1] * t;
  if (k == 13)
    return (0.024381750L + 0.00000538691L * t) * t;
  return dfarg(k - 14, t);
}
static void same(mc::Ctx &c, int k, double got, ld t, const char *how,
                 ld dt = 0) {
  ld want = ref(k, t), d = got - want;
  ld tol;
  if (k < 13) {
    d = wrap(d);
    const ld rate = k < 5 ? fabsl(dfarg(k, t)) : PCOEF[k - 5][1];
    tol = 3e-15L + 6e-16L * (10 + rate * fabsl(t)) + dt * rate;
    if (!(fabs(got) <= 2 * M_PI))
      c.fail("range", "%s%s at t = %.17Lg is %.17g, more than a turn",
             FN[k].name, how, t, got);
  } else
    tol = 2e-15L * fabsl(want) + dt;
  if (!(fabsl(d) <= tol))
    c.fail(FN[k].name, "%s%s at t = %.17Lg centuries is %.17g and not %.17Lg "
           "(difference %.3Lg)", FN[k].name, how, t, got,
           k < 13 ? wrap(want) : want, d);
  c.checked();
}
static double epoch(mc::Ctx &c) {
  /* nested lattices, from minutes to millennia: a polynomial of degree four
   * that vanishes (modulo full turns) on all of them is zero */
  static const double step[] = {1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, .01,
                                .1,   .25,  1,    3.7,  10};
  const int s = c.choose(12, "step");
  const int m = c.thorough() ? 40 : 12;
  const int j = c.choose(2 * m + 1, "point") - m;
  static const double base[] = {0, .1, -.7, 3.3};
  return base[c.choose(4, "base")] + j * step[s];
}
static void polynomials(mc::Ctx &c) {
  const double t = epoch(c);
  for (int k = 0; k < 19; k++)
    same(c, k, FN[k].t(t), t, "");
  double v[7], d[7];
  for (int k = 0; k < 7; k++)
    v[k] = d[k] = -77.7;
  if (i::fundarg(t, v + 1) != v + 1 || i::fundarg_derivs(t, d + 1) != d + 1)
    c.fail("pointer", "the array returned is not the one given");
  if (v[0] != -77.7 || v[6] != -77.7 || d[0] != -77.7 || d[6] != -77.7)
    c.fail("overrun", "an element around the array was written");
  for (int k = 0; k < 5; k++) {
    same(c, k, v[1 + k], t, " of the array");
    same(c, 14 + k, d[1 + k], t, " of the array");
  }
  c.state(mc::bits(t));
}
static void epochs(mc::Ctx &c) {
  static const long day[] = {51544, 51545, 57754, 41317, 37665, 69807, 15020};
  static const double sec[] = {0,     1e-3,    43200,        32.184,
                               86399, 86399.999, 12345.678901};
  const long mjd = c.thorough() ? 37000 + 97 * c.choose(340, "day")
                                : c.pick(std::vector<long>(day, day + 7), "day");
  const double s = c.pick(std::vector<double>(sec, sec + 7), "second");
  const dso::MjdEpoch e((int)mjd, dso::FractionalSeconds{s});
  const ld t = ((ld)(mjd - 51544) - .5L + (ld)s / 86400) / 36525;
  for (int k = 0; k < 19; k++)
    same(c, k, FN[k].e(e), t, " for an epoch", 3e-16L * (1 + fabsl(t)));
  double v[5], d[5];
  if (dso::fundarg(e, v) != v || dso::fundarg_derivs(e, d) != d)
    c.fail("pointer", "the array returned is not the one given");
  for (int k = 0; k < 5; k++) {
    same(c, k, v[k], t, " of the array for an epoch", 3e-16L * (1 + fabsl(t)));
    same(c, 14 + k, d[k], t, " of the array for an epoch",
         3e-16L * (1 + fabsl(t)));
  }
  c.state(mc::mix(mjd, mc::bits(s)));
}
int main(int argc, char **argv) {
  return mc::run(argc, argv,
                 {{"polynomials", polynomials, 2}, {"epochs", epochs, 1}});
}
