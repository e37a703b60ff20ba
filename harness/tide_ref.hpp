/* Tide models: the waves they are made from, and what they sum up to. */
#pragma once
#include "atmospheric_tides.hpp"
#include "mc.hpp"
#include "ocean_tide.hpp"
#include "tide_atlas.hpp"
#include <algorithm>
#include <memory>
#include <string>
#include <sys/stat.h>

using dso::StokesCoeffs;
typedef long double ld;
static const ld LPI = 3.14159265358979323846264338327950288L;

/* a coefficient, unique to its set, degree and order; exact in binary */
static double tcoef(int id, int l, int m, bool s) {
  if (s && !m)
    return 0.;
  const int k = ((id * 11 + l) * 11 + m) * 2 + s + 1;
  return (((l + 2 * m + id + s) % 3) ? -1. : 1.) * std::ldexp((double)k, -40);
}
static void fill(StokesCoeffs &cs, int id) {
  for (int m = 0; m <= cs.max_degree(); m++)
    for (int l = m; l <= cs.max_degree(); l++) {
      const bool in = m <= cs.max_order();
      cs.C(l, m) = in ? tcoef(id, l, m, false) : 0.;
      cs.S(l, m) = in ? tcoef(id, l, m, true) : 0.;
    }
}
#ifndef VERIF_HAVE_DIRTY
static void dirty(StokesCoeffs &cs) {
  for (int m = 0; m <= cs.max_order(); m++)
    for (int l = m; l <= cs.max_degree(); l++)
      cs.C(l, m) = cs.S(l, m) = 777.;
}
#endif
/* a set of coefficients */
struct Set {
  int id, degree, order;
  ld at(int l, int m, bool s) const {
    return l <= degree && m <= order ? (ld)tcoef(id, l, m, s) : 0.L;
  }
};
struct Wave {
  int n[6];
  ld phase;   /* in quarter turns */
  Set cs, sn; /* cosine and sine coefficients */
  int degree() const { return std::max(cs.degree, sn.degree); }
  int order() const { return std::max(cs.order, sn.order); }
};
/* Greenwich mean sidereal time (IAU 2006), IERS Conventions 2010, 5.32 */
static ld ref_gmst(const dso::MjdEpoch &tt, const dso::MjdEpoch &ut1) {
  const ld tu = (ut1.imjd() - 51544.5L) + (ld)ut1.seconds().seconds() / 86400.L;
  const ld t = ((tt.imjd() - 51544.5L) + (ld)tt.seconds().seconds() / 86400.L) / 36525.L;
  const ld era = 2 * LPI * (0.7790572732640L + 1.00273781191135448L * tu);
  const ld p[] = {0.014506L, 4612.156534L, 1.3915817L, -0.00000044L, -0.000029956L, -0.0000000368L};
  ld s = 0;
  for (int i = 5; i >= 0; i--)
    s = s * t + p[i];
  return era + s / 3600.L * LPI / 180.L;
}
/* the Doodson variables; IERS Conventions 2010, 5.43 and 6.8 */
static void ref_doodson(const double *d, ld gmst, ld *b) {
  const ld s = (ld)d[2] + d[4];
  b[0] = gmst + LPI - s;
  b[1] = s;
  b[2] = s - d[3];
  b[3] = s - d[0];
  b[4] = -(ld)d[4];
  b[5] = s - d[3] - d[1];
}
static ld ref_argument(const int *n, const ld *b) {
  ld a = 0;
  for (int i = 0; i < 6; i++)
    a += n[i] * b[i];
  return fmodl(a, 2 * LPI);
}
/* compare a sum of waves with factors f (cosine, sine) */
static void expect_sum(mc::Ctx &c, const StokesCoeffs &got, const std::vector<Wave> &w,
                       const std::vector<ld> &fc, const std::vector<ld> &fs) {
  int degree = 0, order = 0;
  for (const Wave &x : w) {
    degree = std::max(degree, x.degree());
    order = std::max(order, x.order());
  }
  if (got.max_degree() != degree || got.max_order() != order)
    c.fail("size", "coefficients up to (%d,%d), waves up to (%d,%d)", got.max_degree(), got.max_order(), degree, order);
  for (int m = 0; m <= order; m++)
    for (int l = m; l <= degree; l++)
      for (int s = 0; s < 2; s++) {
        ld v = 0, size = 0;
        for (std::size_t i = 0; i < w.size(); i++) {
          const ld a = w[i].cs.at(l, m, s), b = w[i].sn.at(l, m, s);
          v += a * fc[i] + b * fs[i];
          size += fabsl(a * fc[i]) + fabsl(b * fs[i]) + 1e-3L * (fabsl(a) + fabsl(b));
        }
        const double g = s ? got.S(l, m) : got.C(l, m);
        if (!(fabsl(g - v) <= 2e-10L * size))
          c.fail("sum", "%c(%d,%d) is %.17g instead of %.17g", s ? 'S' : 'C', l, m, g, (double)v);
        c.checked();
      }
}
static std::string put(const std::string &fn, const std::string &text) {
  FILE *f = std::fopen(fn.c_str(), "wb");
  if (!f) {
    std::perror(fn.c_str());
    std::_Exit(96);
  }
  std::fwrite(text.data(), 1, text.size(), f);
  std::fclose(f);
  return fn;
}
/* a gfc file with the coefficients of a set */
static std::string gfc(const Set &s, const char *model = "EXAMPLE", int announced = -1) {
  std::string t = std::string("begin_of_head =====\nproduct_type gravity_field\nmodelname ") + model +
                  "\nearth_gravity_constant 0.3986004415E+15\nradius 0.6378136460E+07\nmax_degree " +
                  std::to_string(announced < 0 ? s.degree : announced) +
                  "\nerrors no\nformat icgem1.0\nkey L M C S\nend_of_head =====\n";
  for (int l = 0; l <= s.degree; l++)
    for (int m = 0; m <= std::min(l, s.order); m++) {
      char b[160];
      std::snprintf(b, sizeof b, "gfc %4d %4d %.17e %.17e\n", l, m, tcoef(s.id, l, m, false), tcoef(s.id, l, m, true));
      t += b;
    }
  return t;
}
/* what is kept of a set when (N,M) is asked for (<0: all); false: refused */
static bool limited(const Set &s, int announced, int N, int M, Set &r) {
  const int n = N < 0 ? announced : N, m = M < 0 ? n : M;
  r = s;
  if (n > announced || m > n)
    return false;
  r.degree = std::min(n, s.degree);
  r.order = std::min(m, std::min(s.order, r.degree));
  return true;
}
static void expect_set(mc::Ctx &c, const StokesCoeffs &cs, const Set &s, const char *what) {
  if (cs.max_degree() != s.degree || cs.max_order() != s.order)
    c.fail("size", "%s coefficients up to (%d,%d) instead of (%d,%d)", what, cs.max_degree(), cs.max_order(), s.degree,
           s.order);
  for (int m = 0; m <= s.order; m++)
    for (int l = m; l <= s.degree; l++) {
      if (!(cs.C(l, m) == (double)s.at(l, m, false)) || !(cs.S(l, m) == (double)s.at(l, m, true)))
        c.fail("coefficients", "%s coefficients of (%d,%d): (%.17g,%.17g) instead of (%.17g,%.17g)", what, l, m,
               cs.C(l, m), cs.S(l, m), (double)s.at(l, m, false), (double)s.at(l, m, true));
      c.checked(2);
    }
}
/* named waves of a GROOPS atlas */
struct Named {
  const char *digits, *name;
  int n[6];
};
static const Named WAVES[] = {{"255.555", "m2", {2, 0, 0, 0, 0, 0}},      {"165.555", "k1", {1, 1, 0, 0, 0, 0}},
                              {"5A0.555", "s5", {5, 5, -5, 0, 0, 0}},      {"6bz.555", "s6", {6, 6, -6, 0, 0, 0}},
                              {"055.565", "om1", {0, 0, 0, 0, 1, 0}},      {"272.556", "t2", {2, 2, -3, 0, 0, 1}},
                              {"175.455", "quitelong", {1, 2, 0, -1, 0, 0}},
                              /* and those of models that are in use */
                              {"145.555", "o1", {1, -1, 0, 0, 0, 0}},      {"135.655", "q1", {1, -2, 0, 1, 0, 0}},
                              {"163.555", "p1", {1, 1, -2, 0, 0, 0}},      {"273.555", "s2", {2, 2, -2, 0, 0, 0}},
                              {"245.655", "n2", {2, -1, 0, 1, 0, 0}},      {"275.555", "k2", {2, 2, 0, 0, 0, 0}},
                              {"235.755", "2n2", {2, -2, 0, 2, 0, 0}},     {"065.455", "mm", {0, 1, 0, -1, 0, 0}},
                              {"075.555", "mf", {0, 2, 0, 0, 0, 0}},       {"085.455", "mtm", {0, 3, 0, -1, 0, 0}},
                              {"057.555", "ssa", {0, 0, 2, 0, 0, 0}},      {"056.554", "sa", {0, 0, 1, 0, 0, -1}},
                              {"455.555", "m4", {4, 0, 0, 0, 0, 0}},       {"655.555", "m6", {6, 0, 0, 0, 0, 0}},
                              {"855.555", "m8", {8, 0, 0, 0, 0, 0}},       {"355.555", "m3", {3, 0, 0, 0, 0, 0}},
                              {"164.556", "s1", {1, 1, -1, 0, 0, 1}},      {"247.455", "nu2", {2, -1, 2, -1, 0, 0}},
                              {"237.555", "mu2", {2, -2, 2, 0, 0, 0}},     {"227.655", "eps2", {2, -3, 2, 1, 0, 0}},
                              {"263.655", "la2", {2, 1, -2, 1, 0, 0}},     {"265.455", "l2", {2, 1, 0, -1, 0, 0}},
                              {"274.554", "r2", {2, 2, -1, 0, 0, -1}},     {"445.655", "mn4", {4, -1, 0, 1, 0, 0}},
                              {"473.555", "ms4", {4, 2, -2, 0, 0, 0}},     {"491.555", "s4", {4, 4, -4, 0, 0, 0}},
                              {"093.555", "msqm", {0, 4, -2, 0, 0, 0}},    {"073.555", "msf", {0, 2, -2, 0, 0, 0}}};
