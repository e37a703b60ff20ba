/* Accumulating one set of Stokes coefficients into another. */
#include "stokes_ref.hpp"
#include <stdexcept>
using dso::StokesCoeffs;

static void fill(StokesCoeffs &s, SRef &f, double base) {
  for (int n = 0; n <= s.max_degree(); n++)
    for (int m = 0; m <= n; m++) {
      s.C(n, m) = f.C[n][m] = base + 16 * n + m;
      s.S(n, m) = f.S[n][m] = -(base + 16 * n + m) - 0.5e0;
    }
  f.deg = s.max_degree();
  f.ord = s.max_order();
  f.GM = s.GM();
  f.Re = s.Re();
  f.norm = s.normalized();
}

static void make(mc::Ctx &c, StokesCoeffs &s, SRef &f, double base, int top,
                 const char *who) {
  const int n = c.choose(top + 1, who);
  const int m = c.choose(n + 1, "order");
  const int sh = c.choose(3, "made by");
  s = StokesCoeffs(n, m, base, 2 * base);
  if (sh == 1) {
    s.resize(n, m);
  } else if (sh == 2) {
    /* a larger set cut down; its storage still has the larger size */
    s = StokesCoeffs(n + 2, n + 1, base, 2 * base);
    SRef x;
    fill(s, x, 7 * base);
    if (s.shrink_dimensions(n, m))
      c.fail("shrink", "could not cut degree/order %d/%d to %d/%d", n + 2,
             n + 1, n, m);
  }
  fill(s, f, base);
}

static void add(mc::Ctx &c) {
  const int top = c.thorough() ? 5 : 3;
  StokesCoeffs a(1), b(1);
  SRef fa, fb;
  make(c, a, fa, 1000e0, top, "target degree");
  make(c, b, fb, 65536e0, top, "argument degree");
  const int times = 1 + c.choose(2, "times");
  c.log("%d/%d += %d/%d, %d times", fa.deg, fa.ord, fb.deg, fb.ord, times);
  const bool fits = fb.deg <= fa.deg && fb.ord <= fa.ord;
  for (int k = 0; k < times; k++) {
    bool threw = false;
    try {
      StokesCoeffs &r = (a += b);
      if (&r != &a)
        c.fail("ret", "+= returns another object");
    } catch (std::exception &) {
      threw = true;
    }
    if (threw == fits)
      c.fail("refuse", "%d/%d += %d/%d was %s", fa.deg, fa.ord, fb.deg, fb.ord,
             threw ? "refused" : "accepted");
    if (fits)
      for (int n = 0; n <= fb.deg; n++)
        for (int m = 0; m <= std::min(n, fb.ord); m++) {
          fa.C[n][m] += fb.C[n][m];
          fa.S[n][m] += fb.S[n][m];
        }
    verify_stokes(c, "addition", "target", a, fa);
    verify_stokes(c, "addition", "argument", b, fb);
    c.state(hash_stokes(fa));
  }
}
static void self(mc::Ctx &c) {
  const int top = c.thorough() ? 5 : 3;
  StokesCoeffs a(1);
  SRef fa;
  make(c, a, fa, 1000e0, top, "degree");
  c.log("%d/%d to itself", fa.deg, fa.ord);
  a += a;
  for (int n = 0; n <= fa.deg; n++)
    for (int m = 0; m <= std::min(n, fa.ord); m++) {
      fa.C[n][m] *= 2;
      fa.S[n][m] *= 2;
    }
  verify_stokes(c, "addition to itself", "set", a, fa);
  c.state(hash_stokes(fa));
}
/* sums of several sets do not depend on anything but the sets */
static void many(mc::Ctx &c) {
  StokesCoeffs a(3, 3, 1e0, 2e0);
  SRef fa;
  fill(a, fa, 0e0);
  const int k = c.thorough() ? 4 : 3;
  for (int i = 0; i < k; i++) {
    StokesCoeffs b(1);
    SRef fb;
    const int n = c.choose(4, "argument degree");
    const int m = c.choose(n + 1, "order");
    b = StokesCoeffs(n, m, 3e0, 4e0);
    fill(b, fb, 1024e0 * (i + 1));
    a += b;
    for (int l = 0; l <= n; l++)
      for (int q = 0; q <= std::min(l, m); q++) {
        fa.C[l][q] += fb.C[l][q];
        fa.S[l][q] += fb.S[l][q];
      }
  }
  verify_stokes(c, "additions", "sum", a, fa);
  c.state(hash_stokes(fa));
}

/* sets as large as those of the models */
static void large(mc::Ctx &c) {
  static const int D[][2] = {{120, 120}, {180, 180}, {120, 60}, {60, 60}, {60, 30}, {96, 40}, {360, 360}, {360, 300}, {180, 0}, {2, 1}};
  const int n = c.thorough() ? 10 : 8;
  const int *x = D[c.choose(n, "target")], *y = D[c.choose(n, "argument")], how = c.choose(2, "cut");
  StokesCoeffs a(x[0], x[1], 1e0, 2e0), b(how ? y[0] + 20 : y[0], how ? y[1] + 7 : y[1], 3e0, 4e0);
  auto val = [](int k, int l, int m) { return k * 1e6 + l * 512e0 + m; };
  for (int k = 0; k < 2; k++) {
    StokesCoeffs &s = k ? b : a;
    for (int l = 0; l <= s.max_degree(); l++)
      for (int m = 0; m <= l; m++) {
        s.C(l, m) = val(k + 1, l, m);
        s.S(l, m) = -val(k + 1, l, m) - .5;
      }
  }
  if (how && b.shrink_dimensions(y[0], y[1]))
    c.fail("shrink", "could not cut to %d/%d", y[0], y[1]);
  const bool fits = y[0] <= x[0] && y[1] <= x[1];
  bool threw = false;
  try {
    a += b;
  } catch (std::exception &) {
    threw = true;
  }
  if (threw == fits)
    c.fail("refuse", "%d/%d += %d/%d was %s", x[0], x[1], y[0], y[1], threw ? "refused" : "accepted");
  if (a.max_degree() != x[0] || a.max_order() != x[1] || a.GM() != 1e0 || a.Re() != 2e0 || b.max_degree() != y[0] ||
      b.max_order() != y[1] || b.GM() != 3e0 || b.Re() != 4e0)
    c.fail("dims", "%d/%d += %d/%d changed an attribute", x[0], x[1], y[0], y[1]);
  for (int l = 0; l <= x[0]; l++)
    for (int m = 0; m <= l; m++) {
      const bool in = fits && l <= y[0] && m <= y[1];
      const double w = val(1, l, m) + (in ? val(2, l, m) : 0), v = -val(1, l, m) - .5 + (in ? -val(2, l, m) - .5 : 0);
      if (a.C(l, m) != w || a.S(l, m) != v)
        c.fail("sum", "%d/%d += %d/%d: C, S(%d,%d) are %.17g, %.17g, not %.17g, %.17g", x[0], x[1], y[0], y[1], l, m,
               a.C(l, m), a.S(l, m), w, v);
      c.checked(2);
    }
  for (int l = 0; l <= y[0]; l++)
    for (int m = 0; m <= l; m++)
      if (b.C(l, m) != val(2, l, m) || b.S(l, m) != -val(2, l, m) - .5)
        c.fail("argument", "%d/%d += %d/%d: the argument changed at %d,%d", x[0], x[1], y[0], y[1], l, m);
  c.state(mc::mix((std::uint64_t)(x[0] * 200 + x[1]), (std::uint64_t)(y[0] * 200 + y[1])));
}

int main(int argc, char **argv) {
  return mc::run(argc, argv,
                 {{"two sets", add, 2}, {"with itself", self}, {"many", many, 2}, {"large", large}});
}
