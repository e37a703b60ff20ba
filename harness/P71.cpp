#include "earth_ref.hpp"
#include "iau.hpp"
/* the bounds on rounding, in microarcseconds */
static const ld TOL = 2e-5L;
static void close(mc::Ctx &c, const char *what, ld got, ld want, ld tol) {
  if (!(fabsl(got - want) <= tol))
    c.fail(what, "%s is off by %.3Le of %.3Le allowed (%.12Lg)", what, got - want, tol, want);
  c.checked();
}
static const double LOW[] = {0.31, 1.07, 2.53, 0.83, 4.41, 5.77, 3.89, 2.11, 0.59, 1.73, 6.01, 3.31, 4.93, 0.24};
static const double TIMES[] = {0., 1., -1., 0.5, -2., 0.25};
/* the series as functions of fourteen angles: all corners of a box */
static void corners(mc::Ctx &c) {
  /* the lunisolar angles, then the planetary ones */
  double a[14];
  const int sets = c.thorough() ? 3 : 1, set = c.choose(sets, "box");
  const int bits = c.choose(1 << (c.thorough() ? 12 : 8), "corner");
  /* 14 angles by so many bits: an angle may follow that of another */
  for (int i = 0; i < 14; i++) {
    const int b = c.thorough() ? i % 12 : i % 8;
    a[i] = LOW[i] + ((bits >> b) & 1) * (1.3 + 0.17 * i) + set * 0.37 * (i % 5 + 1);
  }
  const Series x = series(CIP_X, a), y = series(CIP_Y, a), s = series(CIP_S, a);
  for (double t : TIMES) {
    const ld tol = TOL * (1 + fabsl((ld)t)), wx = x.at(POLY_X, t), wy = y.at(POLY_Y, t);
    double gx = 7, gy = 7;
    if (dso::detail::xycip06a(a, t, gx, gy))
      c.fail("result", "X and Y are refused");
    close(c, "X", gx, wx, tol);
    close(c, "Y", gy, wy, tol);
    close(c, "X alone", dso::detail::xcip06a(a, t), wx, tol);
    close(c, "Y alone", dso::detail::ycip06a(a, t), wy, tol);
    for (double px : {0., 1e-3, -0.25})
      for (double py : {0., 2e-3, 0.5})
        close(c, "s", dso::detail::s06(a, t, px, py) / AS2R * 1e6L, s.at(POLY_S, t) - (ld)px * py / 2 / AS2R * 1e6L,
              tol * (1 + fabsl((ld)px * py) * 1e4));
  }
  c.state(mc::mix((std::uint64_t)bits, (std::uint64_t)set));
}
/* each angle alone through a full turn, the others fixed: every multiplier of it */
static void turns(mc::Ctx &c) {
  const int i = c.choose(14, "angle"), n = c.thorough() ? 256 : 64, k = c.choose(n, "part");
  double a[14];
  for (int j = 0; j < 14; j++)
    a[j] = LOW[j];
  a[i] = 2 * (double)LPI / n * k;
  const Series x = series(CIP_X, a), y = series(CIP_Y, a), s = series(CIP_S, a);
  for (double t : {0., -1.5}) {
    double gx = 7, gy = 7;
    dso::detail::xycip06a(a, t, gx, gy);
    const ld tol = TOL * (1 + fabsl((ld)t));
    close(c, "X", gx, x.at(POLY_X, t), tol);
    close(c, "Y", gy, y.at(POLY_Y, t), tol);
    close(c, "X alone", dso::detail::xcip06a(a, t), x.at(POLY_X, t), tol);
    close(c, "Y alone", dso::detail::ycip06a(a, t), y.at(POLY_Y, t), tol);
    close(c, "s", dso::detail::s06(a, t, 0, 0) / AS2R * 1e6L, s.at(POLY_S, t), tol);
  }
  c.state(mc::mix((std::uint64_t)i, (std::uint64_t)k));
}
/* at epochs: the same with the fundamental arguments, in radians */
static void epochs(mc::Ctx &c) {
  const int span = c.choose(3, "span"), n = c.thorough() ? 500 : 100, k = c.choose(n, "day") - n / 2;
  static const int STEP[] = {1, 29, 365};
  static const double SEC[] = {0, 43200, 86399.5};
  const int sec = c.choose(3, "second");
  const dso::MjdEpoch tt(51544 + k * STEP[span], dso::FractionalSeconds(SEC[sec]));
  const ld t = cent(tt);
  ld a[14];
  ref_args(t, a);
  /* arguments to 1e-9 rad or so, times the amplitude */
  const ld u = AS2R * 1e-6L, tol = u * 1e-2L * (1 + fabsl(t));
  const ld wx = series(CIP_X, a).at(POLY_X, t) * u, wy = series(CIP_Y, a).at(POLY_Y, t) * u;
  double x = 7, y = 7, f[16], X = 7, Y = 7, F[16];
  for (int i = 0; i < 16; i++)
    f[i] = F[i] = -77;
  if (dso::xycip06a(tt, x, y, f + 1) || dso::extra::xycip06a(tt, X, Y, F + 1))
    c.fail("result", "X and Y are refused");
  close(c, "X", x, wx, tol);
  close(c, "Y", y, wy, tol);
  close(c, "X alone", X, wx, tol);
  close(c, "Y alone", Y, wy, tol);
  for (int i = 0; i < 14; i++)
    if (!(fabsl(wrap(f[i + 1] - a[i])) < 1e-9L * (1 + fabsl(t))) || !(std::fabs(f[i + 1] - F[i + 1]) < 1e-9 * (1 + std::fabs((double)t))))
      c.fail("arguments", "argument %d is %.12f or %.12f instead of %.12Lf", i, f[i + 1], F[i + 1], a[i]);
  if (f[0] != -77 || f[15] != -77 || F[0] != -77 || F[15] != -77)
    c.fail("arguments", "written outside of the array");
  /* without the arguments */
  double x2, y2;
  dso::xycip06a(tt, x2, y2);
  if (!(std::fabs(x2 - x) < 1e-15 && std::fabs(y2 - y) < 1e-15))
    c.fail("same", "X and Y depend on the arguments being asked for");
  dso::extra::xycip06a(tt, x2, y2);
  if (!(std::fabs(x2 - X) < 1e-15 && std::fabs(y2 - Y) < 1e-15))
    c.fail("same", "X and Y depend on the arguments being asked for");
  const ld ws = series(CIP_S, a).at(POLY_S, t) * u - (ld)x * y / 2;
  close(c, "s", dso::s06(tt, x, y), ws, tol / 10);
  close(c, "s of arguments", dso::s06(tt, x, y, f + 1), ws, tol / 10);
  c.checked(6);
  c.state(mc::mix((std::uint64_t)(span * 3 + sec), (std::uint64_t)(k + n)));
}
/* the values of SOFA's own tests of iauXy06 and iauS06 */
static void sofa(mc::Ctx &c) {
  const bool e = c.flag("extra");
  double x, y;
  const dso::MjdEpoch t(53736);
  e ? dso::extra::xycip06a(t, x, y) : dso::xycip06a(t, x, y);
  close(c, "X", x, 0.5791308486706010975e-3L, 1e-15L);
  close(c, "Y", y, 0.4020579816732958141e-4L, 1e-15L);
  close(c, "s", dso::s06(t, 0.5791308486706011000e-3, 0.4020579816732961219e-4), -0.1220032213076463117e-7L, 1e-18L);
  c.state(e);
}
/* each of the inputs changes, or does not, from one request to the next */
static void inputs(mc::Ctx &c) {
  mc::inputs(c, 6, [&](int b) {
    double a[14];
    for (int i = 0; i < 14; i++)
      a[i] = LOW[i] + (b >> (i < 2 ? 0 : i < 5 ? 1 : 2) & 1) * (1.3 + 0.17 * i);
    const double t = b & 8 ? 0.5 : -1.25, px = b & 16 ? 1e-3 : 0.2, py = b & 32 ? -2e-3 : 0.1;
    const Series x = series(CIP_X, a), y = series(CIP_Y, a), s = series(CIP_S, a);
    const ld tol = TOL * (1 + fabsl((ld)t)), wx = x.at(POLY_X, t), wy = y.at(POLY_Y, t);
    double gx = 7, gy = 7;
    dso::detail::xycip06a(a, t, gx, gy);
    close(c, "X", gx, wx, tol);
    close(c, "Y", gy, wy, tol);
    close(c, "X alone", dso::detail::xcip06a(a, t), wx, tol);
    close(c, "Y alone", dso::detail::ycip06a(a, t), wy, tol);
    close(c, "s", dso::detail::s06(a, t, px, py) / AS2R * 1e6L, s.at(POLY_S, t) - (ld)px * py / 2 / AS2R * 1e6L,
          tol * (1 + fabsl((ld)px * py) * 1e4));
  });
}
/* requests that differ by little, or in one input */
static void near(mc::Ctx &c) {
  std::vector<double> b(LOW, LOW + 14);
  b.insert(b.end(), {0.35, 1e-3, -2e-3});
  mc::neighbours(c, b, [&](const std::vector<double> &x) {
    const double *a = x.data(), t = x[14], px = x[15], py = x[16];
    const Series sx = series(CIP_X, a), sy = series(CIP_Y, a), ss = series(CIP_S, a);
    const ld tol = TOL * (1 + fabsl((ld)t)), wx = sx.at(POLY_X, t), wy = sy.at(POLY_Y, t);
    double gx = 7, gy = 7;
    dso::detail::xycip06a(a, t, gx, gy);
    close(c, "X", gx, wx, tol);
    close(c, "Y", gy, wy, tol);
    close(c, "X alone", dso::detail::xcip06a(a, t), wx, tol);
    close(c, "Y alone", dso::detail::ycip06a(a, t), wy, tol);
    close(c, "s", dso::detail::s06(a, t, px, py) / AS2R * 1e6L, ss.at(POLY_S, t) - (ld)px * py / 2 / AS2R * 1e6L,
          tol * (1 + fabsl((ld)px * py) * 1e4));
  });
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, {{"corners", corners, 2}, {"turns", turns, 2}, {"epochs", epochs, 2}, {"sofa", sofa, 1}, {"inputs", inputs, 1}, {"near", near, 1}});
}
