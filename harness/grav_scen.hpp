/* Scenarios shared by the checks of acceleration and of its gradient. */
#ifndef VERIF_GRAV_SCEN_HPP
#define VERIF_GRAV_SCEN_HPP
#include "grav_ref.hpp"
#ifndef DO_ACC
#error
#endif
static const double RE = 6378136.3e0, GM0 = 3.986004415e14;

static void judge(mc::Ctx &c, const V3 &acc, const M3 &grad, const Expect &e,
                  const char *what) {
  compare_gravity(c, acc, grad, e, what, DO_ACC, DO_GRAD);
  if (DO_GRAD) {
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < i; j++)
        if (!(std::fabs(grad(i, j) - grad(j, i)) <= 4e-15 * (double)e.sg))
          c.fail("symmetric", "%s: gradient (%d,%d) is %.17g, (%d,%d) is %.17g",
                 what, i, j, grad(i, j), j, i, grad(j, i));
    if (!(fabsl((ld)grad(0, 0) + grad(1, 1) + grad(2, 2)) <= 1e-14L * e.sg))
      c.fail("trace", "%s: trace of the gradient is %.17g", what, grad.trace());
    c.checked(4);
  }
}
static double radius(mc::Ctx &c) {
  static const std::vector<double> rho = {1e0, 1.09e0, 3.7e0, 40e0};
  return rho[c.choose(c.thorough() ? 4 : 3, "radius")];
}

/* each single coefficient x each degree and order of expansion */
static void units(mc::Ctx &c) {
  const int top = c.thorough() ? 9 : 6;
  const auto &dirs = directions(false);
  const V3 dir = dirs[c.choose((int)dirs.size(), "direction")];
  const double rho = radius(c);
  const int n = c.choose(top + 1, "n"), m = c.choose(n + 1, "m");
  const bool sine = c.flag("sine");
  const int deg = c.choose(top + 1, "degree of expansion");
  const int ord = c.choose(deg + 1, "order of expansion");
  dso::StokesCoeffs cs(top, top, GM0, RE);
  cs.clear();
  (sine ? cs.S(n, m) : cs.C(n, m)) = 1e0;
  const V3 r = dir * rho * RE;
  V3 acc;
  M3 grad;
  if (dso::sh2gradient_cunningham(cs, r, acc, grad, deg, ord))
    c.fail("status", "valid request of degree/order %d/%d refused", deg, ord);
  Expect e;
  /* S(n,0) stands with sin(0), and terms above the expansion are left out */
  if (n <= deg && m <= ord)
    e.add(harmonics(r, RE, top), n, m, !sine, sine && m, rho, GM0, RE);
  if (n <= deg && m <= ord && sine && !m)
    e.sa = e.sg = 0;
  char what[120];
  std::snprintf(what, sizeof what, "%c(%d,%d) alone, expansion %d/%d, at %.3g Re",
                sine ? 'S' : 'C', n, m, deg, ord, rho);
  c.log("%s", what);
  judge(c, acc, grad, e, what);
  c.state(mc::mix((unsigned)(n * 100 + m + 50 * sine), (unsigned)(deg * 100 + ord)));
}
/* each single coefficient of a larger model, full expansion and up to it */
static void large(mc::Ctx &c) {
  const int top = c.thorough() ? 60 : 30;
  const auto &dirs = directions(false);
  const V3 dir = dirs[c.choose((int)dirs.size(), "direction")];
  const int n = c.choose(top + 1, "n"), m = c.choose(n + 1, "m");
  const bool sine = c.flag("sine");
  const int how = c.choose(4, "expansion");
  const double rho = 1.06e0;
  dso::StokesCoeffs cs(top, top, GM0, RE);
  cs.clear();
  (sine ? cs.S(n, m) : cs.C(n, m)) = 1e0;
  const V3 r = dir * rho * RE;
  V3 acc;
  M3 grad;
  const int deg[] = {-1, n, top, std::min(top, n + 1)},
            ord[] = {-1, n, m, m};
  if (dso::sh2gradient_cunningham(cs, r, acc, grad, deg[how], ord[how]))
    c.fail("status", "valid request of degree/order %d/%d refused", deg[how],
           ord[how]);
  Expect e;
  if (m || !sine)
    e.add(harmonics(r, RE, top), n, m, !sine, sine, rho, GM0, RE);
  char what[120];
  std::snprintf(what, sizeof what, "%c(%d,%d) alone, expansion %d/%d",
                sine ? 'S' : 'C', n, m, deg[how], ord[how]);
  c.log("%s", what);
  judge(c, acc, grad, e, what);
  c.state(mc::mix((unsigned)(n * 1000 + m), 77u + sine));
}
/* all coefficients at once, up to the largest degree that is supported, on a
 * denser lattice of points */
static void dense(mc::Ctx &c) {
  const auto &dirs = directions(true);
  const int at = c.choose(c.thorough() ? (int)dirs.size() : 40, "direction");
  const V3 dir = dirs[c.thorough() ? at : (at * 10) % (int)dirs.size()];
  static const int degs[] = {2, 3, 4, 5, 10, 20, 50, 100, 150, 197, 198};
  const int deg = degs[c.choose(11, "degree")];
  const int ords[] = {deg, 0, 1, 2, deg / 2, deg - 1};
  const int ord = ords[c.choose(6, "order")];
  const double rho = radius(c);
  dso::StokesCoeffs cs(deg, deg, GM0, RE);
  std::uint32_t x = 12345;
  for (int n = 0; n <= deg; n++)
    for (int m = 0; m <= n; m++)
      for (int k = 0; k < 2; k++) {
        x = x * 1664525u + 1013904223u;
        (k ? cs.S(n, m) : cs.C(n, m)) =
            ((x >> 8) / 16777216e0 - .5e0) / (n * n + 1);
      }
  const V3 r = dir * rho * RE;
  V3 acc;
  M3 grad;
  if (dso::sh2gradient_cunningham(cs, r, acc, grad, deg, ord))
    c.fail("status", "valid request of degree/order %d/%d refused", deg, ord);
  Expect e;
  const Harmonics &H = harmonics(r, RE, deg);
  for (int n = 0; n <= deg; n++)
    for (int m = 0; m <= std::min(n, ord); m++)
      e.add(H, n, m, cs.C(n, m), m ? cs.S(n, m) : 0, rho, GM0, RE);
  char what[120];
  std::snprintf(what, sizeof what, "dense coefficients, expansion %d/%d", deg,
                ord);
  c.log("%s", what);
  judge(c, acc, grad, e, what);
}
int main(int argc, char **argv) {
  return mc::run(argc, argv,
                 {{"units", units, 3}, {"large", large, 2}, {"dense", dense, 1}});
}
#endif
