/* Which part of a model an expansion uses, and which requests it refuses. */
#include "grav_ref.hpp"
#include <limits>
static const double RE = 6378136.3e0, GM0 = 3.986004415e14;
static const double NaN = std::numeric_limits<double>::quiet_NaN();
static const V3 PTS[] = {V3(.6, -.5, .7), V3(0, 0, -1.2), V3(-1.05, 0, 0),
                         V3(0, 2.5, .3)};

static double val(int n, int m, int k) {
  return (k ? -1 : 1) * (1e0 + .01 * n - .003 * m) / (1 + n);
}
static void expect(Expect &e, const Harmonics &H, int deg, int ord, double rho,
                   double GM, double Re) {
  for (int n = 0; n <= deg; n++)
    for (int m = 0; m <= std::min(n, ord); m++)
      e.add(H, n, m, val(n, m, 0), m ? val(n, m, 1) : 0, rho, GM, Re);
}
/* coefficients above the requested (or else available) degree and order are
 * not used: they may even be undefined. Radius and GM given or taken from the
 * model. */
static void isolation(mc::Ctx &c) {
  const int top = c.thorough() ? 7 : 5;
  const int N = c.choose(top + 1, "model degree");
  const int M = c.choose(N + 1, "model order");
  const int storage = c.choose(3, "model storage");
  /* -1: not given */
  const int rd = c.choose(top + 3, "requested degree") - 1;
  const int ro = c.choose(top + 3, "requested order") - 1;
  const int own = c.choose(5, "radius and GM");
  const V3 p = PTS[c.choose(c.thorough() ? 4 : 2, "point")];
  dso::StokesCoeffs cs(N, M, GM0, RE);
  if (storage == 1) {
    cs = dso::StokesCoeffs(N + 2, N + 1, GM0, RE);
    cs.shrink_dimensions(N, M);
  } else if (storage == 2) {
    cs = dso::StokesCoeffs(N + 3, N + 3, GM0, RE);
    cs.resize(N, M);
  }
  if (cs.max_degree() != N || cs.max_order() != M)
    c.fail("model", "size %d/%d and not %d/%d", cs.max_degree(),
           cs.max_order(), N, M);
  const int deg = rd < 0 ? N : rd, ord = ro < 0 ? M : ro;
  const bool valid = deg <= N && ord <= M && ord <= deg;
  const int rows = storage == 1 ? N + 2 : N;
  for (int n = 0; n <= rows; n++)
    for (int m = 0; m <= n; m++) {
      const bool in = n <= deg && m <= ord;
      cs.C(n, m) = in ? val(n, m, 0) : NaN;
      cs.S(n, m) = in ? val(n, m, 1) : NaN;
      if (in && !m)
        cs.S(n, m) = 0;
    }
  const double Re = own & 1 ? 6.4e6 : RE, GM = own == 4 ? 0e0 : own & 2 ? 1e14 : GM0;
  const V3 r = p * Re;
  V3 acc;
  M3 grad;
  c.log("model %d/%d request %d/%d", N, M, rd, ro);
  const int rc = dso::sh2gradient_cunningham(
      cs, r, acc, grad, rd, ro, own & 1 ? Re : -1e0, own & 6 ? GM : -1e0);
  if ((rc == 0) != valid)
    c.fail("refuse", "model %d/%d, request %d/%d: status %d", N, M, rd, ro, rc);
  c.checked();
  c.state(mc::mix((unsigned)(N * 100 + M), (unsigned)(deg * 100 + ord)));
  if (!valid)
    return;
  Expect e;
  expect(e, harmonics(r, Re, top + 1), deg, ord, p.norm(), GM, Re);
  char what[120];
  std::snprintf(what, sizeof what, "model %d/%d, expansion %d/%d, own %d", N, M,
                rd, ro, own);
  compare_gravity(c, acc, grad, e, what, true, true);
}
/* scratch space that is too small is refused, and nothing leaks */
static void scratch(mc::Ctx &c) {
  const int top = c.thorough() ? 6 : 4;
  const int N = c.choose(top + 1, "degree");
  const int w = c.choose(5, "W"), m = c.choose(5, "M"); /* 0: not given */
  dso::StokesCoeffs cs(N, N, GM0, RE);
  for (int i = 0; i <= N; i++)
    for (int j = 0; j <= i; j++) {
      cs.C(i, j) = val(i, j, 0);
      cs.S(i, j) = j ? val(i, j, 1) : 0;
    }
  const V3 r = PTS[0] * RE;
  V3 acc;
  M3 grad;
  Tri *W = w ? new Tri(N + w, N + w) : nullptr,
      *M = m ? new Tri(N + m, N + m) : nullptr;
  /* sizes N+1, N+2 are too small, N+3 and N+4 are enough */
  const bool valid = w != 1 && w != 2 && m != 1 && m != 2;
  int rc = 0;
  std::size_t before = 0, after = 0;
  Expect e;
  expect(e, harmonics(r, RE, top), N, N, PTS[0].norm(), GM0, RE);
  for (int k = 0; k < 3; k++) {
    before = mc::live_bytes();
    rc = dso::sh2gradient_cunningham(cs, r, acc, grad, -1, -1, -1, -1, W, M);
    after = mc::live_bytes();
  }
  const bool small_w = w == 1, small_m = m == 1;
  if (rc && valid)
    c.fail("refuse", "degree %d with scratch %d, %d: status %d", N, N + w,
           N + m, rc);
  if (!rc && (small_w || small_m))
    c.fail("refuse", "degree %d with scratch %d, %d accepted", N, N + w, N + m);
  if (before != after)
    c.fail("leak", "degree %d with scratch +%d, +%d: %zu bytes live before, "
           "%zu after", N, w, m, before, after);
  if (!rc) /* if it was accepted, it must be right */
    compare_gravity(c, acc, grad, e, "with scratch", true, true);
  delete W;
  delete M;
  c.checked(2);
}
/* around the largest degree that is supported */
static void limit(mc::Ctx &c) {
  static const int degs[] = {196, 197, 198, 199, 200, 201, 230};
  const int N = degs[c.choose(7, "degree")];
  const int kind = c.choose(3, "order");
  const int rd = c.choose(3, "request");
  const int deg = rd == 0 ? N : rd == 1 ? 198 : 5;
  if (deg > N)
    c.prune();
  const int ord = kind == 0 ? deg : kind == 1 ? 0 : deg / 2;
  dso::StokesCoeffs cs(N, N, GM0, RE);
  cs.clear();
  cs.C(deg, ord) = 1e0;
  const V3 r = V3(.9, -.8, .7) * RE;
  V3 acc;
  M3 grad;
  const int rc = dso::sh2gradient_cunningham(cs, r, acc, grad, deg, ord);
  if (rc && deg <= 198)
    c.fail("refuse", "degree %d refused", deg);
  c.checked();
  if (rc)
    return;
  Expect e;
  e.add(harmonics(r, RE, N), deg, ord, 1, 0, V3(.9, -.8, .7).norm(), GM0, RE);
  compare_gravity(c, acc, grad, e, "high degree", true, true);
}
int main(int argc, char **argv) {
  return mc::run(argc, argv,
                 {{"isolation", isolation, 3},
                  {"scratch", scratch, 2},
                  {"limit", limit, 2}});
}
