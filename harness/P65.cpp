#include "pole_ref.hpp"
static const int DAYS[] = {51544, 51545, 45000, 41684, 58849, 60310, 62502, 50448, 51909, 53371};
static const double SECS[] = {0, 43200, 86399.5, 21600.25};
static const double POLE[] = {0, 0.055, 0.3205, -0.25, 0.5, 0.1, -1, 20, 1e-6};
static Date date(mc::Ctx &c) {
  const int d = c.choose(10, "day"), s = c.choose(4, "second");
  return {DAYS[d], SECS[s]};
}
static void wobbling(mc::Ctx &c, const Date &d, double xp, double yp) {
  const auto sp = dso::secular_pole(d.t());
  if (!near(sp.xs, 55 + 1.677L * d.years(), 1e-9L) || !near(sp.ys, 320.5L + 3.46L * d.years(), 1e-9L))
    c.fail("secular pole", "the secular pole is at %.10f %.10f", sp.xs, sp.ys);
  const Wobble w = wobble(d, xp, yp);
  const auto m = dso::pole_tide_details::mcoeffs(d.t(), xp, yp);
  if (!near(m.m1, w.m1, 1e-12L * 20) || !near(m.m2, w.m2, 1e-12L * 20))
    c.fail("wobble", "m1 m2 are %.14f %.14f instead of %.14Lf %.14Lf", m.m1, m.m2, w.m1, w.m2);
  double C = 7, S = 7;
  if (dso::PoleTide::stokes_coeffs(d.t(), xp, yp, C, S))
    c.fail("refused", "the solid pole tide is not computed");
  if (!near(C, -1.333e-9L * (w.m1 + 0.0115L * w.m2), 1e-20L) || !near(S, -1.333e-9L * (w.m2 - 0.0115L * w.m1), 1e-20L))
    c.fail("solid", "the solid pole tide is %.12e %.12e", C, S);
  C = S = 7;
  if (dso::OceanPoleTide::stokes_coeffs(d.t(), xp, yp, C, S))
    c.fail("refused", "the ocean pole tide is not computed");
  if (!near(C, -2.1778e-10L * (w.m1 - 0.01724L * w.m2), 1e-20L) ||
      !near(S, -1.7232e-10L * (w.m2 - 0.03365L * w.m1), 1e-20L))
    c.fail("ocean", "the ocean pole tide is %.12e %.12e", C, S);
  c.checked(4);
  c.state(mc::mix(mc::bits(C), mc::bits(S)));
}
/* all poles at all dates */
static void wobbles(mc::Ctx &c) {
  const Date d = date(c);
  const double xp = POLE[c.choose(9, "xp")];
  wobbling(c, d, xp, POLE[c.choose(9, "yp")]);
}
static void displaced(mc::Ctx &c, const Date &d, double xp, double yp, double lon, double lat, double r) {
  const Wobble w = wobble(d, xp, yp);
  const dso::SphericalCrd s(r, lat, lon);
  const dso::CartesianCrd x = dso::PoleTide::deformation(d.t(), xp, yp, s);
  const ld sf = sinl((ld)lat), cf = cosl((ld)lat), sl = sinl((ld)lon), cl = cosl((ld)lon);
  /* colatitude: cos is sf, sin is cf; mm */
  const ld Sr = -33 * 2 * cf * sf * (w.m1 * cl + w.m2 * sl), St = -9 * (sf * sf - cf * cf) * (w.m1 * cl + w.m2 * sl),
           Sl = 9 * sf * (w.m1 * sl - w.m2 * cl);
  /* along the axes: up, south, east */
  const ld X = Sr * cf * cl + St * sf * cl - Sl * sl, Y = Sr * cf * sl + St * sf * sl + Sl * cl, Z = Sr * sf - St * cf;
  const ld tol = 1e-14L * (1 + fabsl(w.m1) + fabsl(w.m2));
  if (!near(x.x(), X / 1000, tol) || !near(x.y(), Y / 1000, tol) || !near(x.z(), Z / 1000, tol))
    c.fail("displacement", "at %.4f %.4f %.10e %.10e %.10e m instead of %.10Le %.10Le %.10Le", lon, lat, x.x(), x.y(),
           x.z(), X / 1000, Y / 1000, Z / 1000);
  c.checked();
  c.state(mc::mix(mc::bits(x.x()), mc::bits(x.z())));
}
/* the displacement at all places of a lattice; poles and the date line included */
static void displacement(mc::Ctx &c) {
  const int n = c.thorough() ? 48 : 24, k = c.thorough() ? 24 : 12;
  static const double W[][2] = {{0.055, 0.3205}, {0.455, 0.3205}, {0.055, 0.0205}, {-0.25, 0.7}, {20, -20}, {0, 0}};
  const Date d{c.flag("2020") ? 58849 : 51544, 43200};
  const int w_ = c.choose(6, "pole");
  const int i = c.choose(3 * n + 1, "longitude") - n, j = c.choose(k + 1, "latitude") - k / 2;
  const double lon = M_PI * i / n, lat = M_PI * j / k;
  /* neither the radius nor anything else but the direction counts */
  const double r = c.flag("high") ? 7e6 : 6371e3;
  displaced(c, d, W[w_][0], W[w_][1], lon, lat, r);
}
/* each of the inputs changes, or does not, from one request to the next */
static void inputs(mc::Ctx &c) {
  mc::inputs(c, 6, [&](int b) {
    const Date d{b & 1 ? 58849 : 51544, b & 2 ? 43200. : 100.5};
    const double xp = b & 4 ? 0.2 : -0.35, yp = b & 8 ? 0.1 : 0.6, lon = b & 16 ? 1.1 : -2.3, lat = b & 32 ? 0.4 : -0.9;
    wobbling(c, d, xp, yp);
    displaced(c, d, xp, yp, lon, lat, 6371e3);
  });
}
/* requests that differ by little, or in one input */
static void neighbouring(mc::Ctx &c) {
  mc::neighbours(c, {43200.25, 0.2, -0.35, 1.1, 0.4, 6371e3}, [&](const std::vector<double> &x) {
    const Date d{58849, x[0]};
    wobbling(c, d, x[1], x[2]);
    displaced(c, d, x[1], x[2], x[3], x[4], x[5]);
  });
}
int main(int a, char **b) { return mc::run(a, b, {{"wobbles", wobbles, 2}, {"displacement", displacement, 3}, {"inputs", inputs, 1}, {"near", neighbouring, 1}}); }
