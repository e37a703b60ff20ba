/* Values of the normalised associated Legendre functions, and the memory they
 * are written to. */
#include "alf_ref.hpp"

static void compare(mc::Ctx &c, const Tri &P, const AlfRef &R, int N, int M,
                    double lat, ld floor) {
  for (int n = 0; n <= N; n++)
    for (int m = 0; m <= std::min(n, M); m++) {
      const double got = P(n, m);
      const ld want = R.P(n, m);
      const ld tol =
          2e-15L * (n + 4) * (n + 4) * R.E(n, m) + floor;
      if (!(fabsl(got - want) <= tol))
        c.fail("value",
               "latitude %.17g, degree/order %d/%d: P(%d,%d) is %.17g and not "
               "%.17Lg",
               lat, N, M, n, m, got, want);
      c.checked();
    }
}
static int call(mc::Ctx &c, int which, double lat, int N, int M, Tri &P,
                Tri &D) {
  const int rc =
      which ? dso::normalised_associated_legendre_functions(lat, N, M, P, D)
            : dso::normalised_associated_legendre_functions(lat, N, M, P);
  if (rc)
    c.fail("status", "degree/order %d/%d: status %d", N, M, rc);
  return rc;
}
/* every degree and order, on storage that is just large enough or larger */
static void values(mc::Ctx &c) {
  const int top = c.thorough() ? 60 : 28;
  const int which = c.choose(2, "function");
  const double lat = c.pick(latitudes(c.thorough()), "latitude");
  const int N = c.choose(top + 1, "degree");
  const int M = c.choose(N + 1, "order");
  static const int extra[] = {0, 1, 3};
  const int size = N + 1 + extra[c.choose(3, "storage")];
  Tri P(size, size), D(size, size);
  c.log("latitude %.9f degree %d order %d storage %d", lat, N, M, size);
  call(c, which, lat, N, M, P, D);
  compare(c, P, alf_ref(lat, top), N, M, lat, 1e-290L);
  c.state(mc::mix(mc::bits(lat), (unsigned)(N * 1000 + M)));
}
/* storage that was used before, for something else, gives the same */
static void reuse(mc::Ctx &c) {
  static const std::vector<double> lats = {0e0, PI2, -.9e0, .3e0};
  const int which = c.choose(2, "function");
  const int depth = c.thorough() ? 3 : 2;
  Tri P(9, 9), D(9, 9);
  for (int i = 0; i < depth; i++) {
    const double lat = c.pick(lats, "latitude");
    const int N = c.choose(c.thorough() ? 7 : 9, "degree");
    const int M = c.choose(N + 1, "order");
    call(c, which, lat, N, M, P, D);
    compare(c, P, alf_ref(lat, 8), N, M, lat, 1e-290L);
  }
}
/* the sum over all orders of the squares is 2n+1 on every latitude */
static void addition(mc::Ctx &c) {
  const int which = c.choose(2, "function");
  const double lat = c.pick(latitudes(c.thorough()), "latitude");
  static const int deg[] = {1, 2, 5, 40, 90, 150, 180, 200, 360};
  const int N = deg[c.choose(9, "degree")];
  Tri P(N + 1, N + 1), D(N + 1, N + 1);
  call(c, which, lat, N, N, P, D);
  for (int n = 0; n <= N; n++) {
    ld s = 0;
    for (int m = 0; m <= n; m++)
      s += (ld)P(n, m) * P(n, m);
    if (!(fabsl(s - (2 * n + 1)) <= 1e-14L * (2 * n + 1) * (n + 4) * (n + 4)))
      c.fail("addition", "latitude %.17g: squares of degree %d sum to %.17Lg",
             lat, n, s);
    c.checked();
  }
  compare(c, P, alf_ref(lat, N), N, N, lat, 1e-200L);
}
/* high degrees (factors exceed the range of 32-bit integers) */
static void high(mc::Ctx &c) {
  const int which = c.choose(2, "function");
  static const std::vector<double> lats = {0e0, .4e0, -.75e0, 1.2e0};
  const double lat = c.pick(lats, "latitude");
  static const int deg[] = {600, 1030, 1500};
  const int N = deg[c.choose(c.thorough() ? 3 : 2, "degree")];
  const int ord[] = {0, 1, 2, N / 3, N / 2, N - 1, N};
  const int M = ord[c.choose(7, "order")];
  Tri P(N + 1, N + 1), D(which ? N + 1 : 1, which ? N + 1 : 1);
  call(c, which, lat, N, M, P, D);
  compare(c, P, alf_ref(lat, N), N, M, lat, 1e-100L);
}

/* requests that differ by little, or in one input */
static void near(mc::Ctx &c) {
  const int which = c.choose(2, "function");
  mc::neighbours(c, {c.pick(latitudes(false), "latitude")}, [&](const std::vector<double> &x) {
    if (std::fabs(x[0]) > M_PI / 2)
      c.prune();
    Tri P(9, 9), D(9, 9);
    call(c, which, x[0], 8, 8, P, D);
    compare(c, P, alf_ref(x[0], 8), 8, 8, x[0], 1e-290L);
  });
}
int main(int argc, char **argv) {
  return mc::run(argc, argv,
                 {{"values", values, 4},
                  {"reused storage", reuse, 3},
                  {"addition theorem", addition, 3},
                  {"high degrees", high, 3}, {"near", near, 1}});
}
