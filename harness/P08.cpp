/* First derivative of the normalised associated Legendre functions. */
#include "alf_ref.hpp"

static void compare(mc::Ctx &c, const Tri &P, const Tri &D, const AlfRef &R,
                    int N, int M, double lat) {
  const ld u = cosl((ld)lat);
  for (int n = 0; n <= N; n++)
    for (int m = 0; m <= std::min(n, M); m++) {
      const ld e = R.E(n, m) + (m < n ? R.E(n, m) : 0);
      const ld tol = 2e-15L * (n + 4) * (n + 4) * e * (n + 1) / u +
                     1e-15L * fabsl(R.D(n, m)) + 1e-250L;
      const double got = D(n, m);
      if (!(fabsl(got - R.D(n, m)) <= tol))
        c.fail("derivative",
               "latitude %.17g, degree/order %d/%d: P'(%d,%d) is %.17g and "
               "not %.17Lg",
               lat, N, M, n, m, got, R.D(n, m));
      if (!(fabsl(P(n, m) - R.P(n, m)) <=
            2e-15L * (n + 4) * (n + 4) * R.E(n, m) + 1e-250L))
        c.fail("value",
               "latitude %.17g, degree/order %d/%d: P(%d,%d) is %.17g and "
               "not %.17Lg",
               lat, N, M, n, m, P(n, m), R.P(n, m));
      c.checked(2);
    }
}
static void lat_ok(mc::Ctx &c, double lat) {
  /* the derivative is defined by a quotient that vanishes at the poles */
  if (std::fabs(lat) > PI2 - 1e-7)
    c.prune();
}
static void values(mc::Ctx &c) {
  const int top = c.thorough() ? 60 : 30;
  const double lat = c.pick(latitudes(c.thorough()), "latitude");
  const int N = c.choose(top + 1, "degree");
  const int M = c.choose(N + 1, "order");
  static const int extra[] = {0, 1, 3};
  const int sp = N + 1 + extra[c.choose(3, "storage of values")];
  const int sd = N + 1 + extra[c.choose(3, "storage of derivatives")];
  lat_ok(c, lat);
  Tri P(sp, sp), D(sd, sd);
  if (dso::normalised_associated_legendre_functions(lat, N, M, P, D))
    c.fail("status", "non-zero");
  compare(c, P, D, alf_ref(lat, top), N, M, lat);
  c.state(mc::mix(mc::bits(lat), (unsigned)(N * 1000 + M)));
}
static void reuse(mc::Ctx &c) {
  static const std::vector<double> lats = {0e0, 1.5e0, -.9e0, .3e0};
  const int depth = c.thorough() ? 3 : 2;
  Tri P(9, 9), D(9, 9);
  for (int i = 0; i < depth; i++) {
    const double lat = c.pick(lats, "latitude");
    const int N = c.choose(c.thorough() ? 7 : 9, "degree");
    const int M = c.choose(N + 1, "order");
    dso::normalised_associated_legendre_functions(lat, N, M, P, D);
    compare(c, P, D, alf_ref(lat, 8), N, M, lat);
  }
}
static void high(mc::Ctx &c) {
  const double lat = c.pick(latitudes(c.thorough()), "latitude");
  static const int deg[] = {90, 180, 360, 1030};
  const int N = deg[c.choose(c.thorough() ? 4 : 3, "degree")];
  const int ord[] = {0, 1, N / 2, N};
  const int M = ord[c.choose(4, "order")];
  lat_ok(c, lat);
  if (N > 400 && std::fabs(lat) > .8)
    c.prune(); /* sectorial seeds leave the range of a double */
  Tri P(N + 1, N + 1), D(N + 1, N + 1);
  dso::normalised_associated_legendre_functions(lat, N, M, P, D);
  compare(c, P, D, alf_ref(lat, N), N, M, lat);
}
/* requests that differ by little, or in one input */
static void near(mc::Ctx &c) {
  mc::neighbours(c, {c.pick(latitudes(false), "latitude")}, [&](const std::vector<double> &x) {
    lat_ok(c, x[0]);
    Tri P(9, 9), D(9, 9);
    dso::normalised_associated_legendre_functions(x[0], 8, 8, P, D);
    compare(c, P, D, alf_ref(x[0], 8), 8, 8, x[0]);
  });
}
int main(int argc, char **argv) {
  return mc::run(argc, argv,
                 {{"values", values, 3}, {"reuse", reuse, 3}, {"high", high, 3}, {"near", near, 1}});
}
