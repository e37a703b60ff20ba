/** Generated ICGEM files and what they mean. */
#ifndef VERIF_ICGEM_REF_HPP
#define VERIF_ICGEM_REF_HPP
#include "icgemio.hpp"
#include "mc.hpp"
#include <fstream>
#include <memory>
#include <stdexcept>
#include <string>
typedef long double ld;
static const ld LPI = 3.14159265358979323846264338327950288L;
using When = dso::Icgem::Datetime;

struct Date {
  int y, m, d, hh, mm;
  ld days() const {
    return (ld)dso::shim::days_from_civil(y, (unsigned)m, (unsigned)d) +
           (hh * 60 + mm) / 1440.L;
  }
  When when() const {
    return When(dso::year(y), dso::month(m), dso::day_of_month(d),
                dso::hours(hh), dso::minutes(mm), dso::nanoseconds(0));
  }
  std::string str(bool v2) const {
    char b[32];
    std::snprintf(b, sizeof b, v2 ? "%04d%02d%02d.%02d%02d" : "%04d%02d%02d", y,
                  m, d, hh, mm);
    return b;
  }
};
enum Key { GFC, GFCT, TRND, ASIN, ACOS, DOT };
static const char *KEY[] = {"gfc ", "gfct", "trnd", "asin", "acos", "dot "};
struct Term {
  Key key;
  int n, m;
  double C, S;
  Date t0, t1;
  double period;
};
/** how numbers and columns are written */
struct Style {
  int exponent = 0; /* e E D d */
  bool plus = false;
  int gap = 1, tail = 0, errcols = 0;
};
static std::string real(double v, const Style &s) {
  char b[64];
  std::snprintf(b, sizeof b, s.plus ? "%+.15e" : "%.15e", v);
  if (char *e = std::strchr(b, 'e'))
    *e = "eEDd"[s.exponent];
  return b;
}
/** the line, and where its last required field starts */
static std::string line_of(const Term &t, bool v2, const Style &s,
                           std::vector<std::size_t> *fields = nullptr) {
  std::string l = KEY[t.key];
  if (l.back() == ' ')
    l.pop_back(); /* one space is enough */
  const std::string gap((std::size_t)s.gap, ' ');
  auto add = [&](const std::string &x, bool needed = true) {
    l += gap;
    if (needed && fields)
      fields->push_back(l.size());
    l += x;
  };
  add(std::to_string(t.n));
  add(std::to_string(t.m));
  add(real(t.C, s));
  add(real(t.S, s));
  for (int i = 0; i < s.errcols; i++)
    add(i % 2 ? "0" : "0.1234e-12", false);
  if (v2 ? t.key != GFC : t.key == GFCT) {
    add(t.t0.str(v2));
    if (v2)
      add(t.t1.str(v2));
  }
  if (t.key == ASIN || t.key == ACOS)
    add(real(t.period, s));
  return l + std::string((std::size_t)s.tail, ' ');
}
static const char *ERRS[] = {"no", "calibrated", "formal",
                             "calibrated_and_formal"};
static const int ERRCOLS[] = {0, 2, 2, 4};
static std::string header(bool v2, int err, int maxdeg) {
  return std::string("begin_of_head =====\nproduct_type gravity_field\n"
                     "modelname EXAMPLE\nearth_gravity_constant "
                     "0.3986004415E+15\nradius 0.6378136460E+07\nmax_degree ") +
         std::to_string(maxdeg) + "\nerrors " + ERRS[err] +
         (v2 ? "\nformat icgem2.0" : "\nformat icgem1.0") +
         "\nkey L M C S\nend_of_head =====\n";
}
static std::string write_file(mc::Ctx &c, const std::string &text, const char *name = "model.gfc") {
  const std::string fn = c.tmpdir + "/" + name;
  std::ofstream f(fn, std::ios::trunc | std::ios::binary);
  f << text;
  f.close();
  return fn;
}
/** the sum of the terms at an epoch */
struct Field {
  ld C[8][8] = {}, S[8][8] = {};
  ld size = 0;
  int deg = 0, ord = 0;
  bool error = false;
};
static Field sum(const std::vector<Term> &terms, bool v2, const Date &t, int N,
                 int M) {
  Field f;
  const Term *ref = nullptr; /* v1: the last term with an epoch */
  for (const Term &x : terms) {
    if (x.n > N || x.m > M)
      continue;
    ld dt = 0, k = 1;
    if (v2) {
      if (x.key != GFC) {
        if (!(x.t0.days() <= t.days() && t.days() < x.t1.days()))
          continue;
        dt = (t.days() - x.t0.days()) / 365.25L;
      }
    } else if (x.key == GFCT) {
      ref = &x;
    } else if (x.key != GFC) {
      if (!ref || ref->n != x.n || ref->m != x.m) {
        f.error = true;
        return f;
      }
      dt = (t.days() - ref->t0.days()) / 365.25L;
    }
    switch (x.key) {
    case TRND:
    case DOT:
      k = dt;
      break;
    case ASIN:
      k = sinl(2 * LPI * dt / x.period);
      break;
    case ACOS:
      k = cosl(2 * LPI * dt / x.period);
      break;
    default:
      break;
    }
    f.C[x.n][x.m] += k * x.C;
    f.S[x.n][x.m] += k * x.S;
    f.size += (fabsl(x.C) + fabsl(x.S)) * (1 + fabsl(dt)) *
              (1 + (x.key >= ASIN && x.key != DOT ? 7 * fabsl(dt) / x.period : 0));
    f.deg = std::max(f.deg, x.n);
    f.ord = std::max(f.ord, x.m);
  }
  return f;
}
static void same_field(mc::Ctx &c, const dso::StokesCoeffs &s, const Field &f) {
  if (s.max_degree() != f.deg || s.max_order() != f.ord)
    c.fail("dimensions", "degree and order are (%d, %d) and not (%d, %d)",
           s.max_degree(), s.max_order(), f.deg, f.ord);
  for (int m = 0; m <= f.ord; m++)
    for (int n = m; n <= f.deg; n++) {
      if (!(fabsl(s.C(n, m) - f.C[n][m]) <= 2e-15L * f.size) ||
          !(fabsl(s.S(n, m) - f.S[n][m]) <= 2e-15L * f.size))
        c.fail("coefficient", "C, S of (%d, %d) are %.17g, %.17g and not "
               "%.17Lg, %.17Lg", n, m, s.C(n, m), s.S(n, m), f.C[n][m],
               f.S[n][m]);
      c.checked(2);
    }
  if (s.GM() != 0.3986004415E+15 || s.Re() != 0.6378136460E+07 ||
      !s.normalized())
    c.fail("constants", "GM, radius or normalisation are not the file's");
}
static const Date EPOCH[] = {{2005, 1, 1, 0, 0},   {2010, 7, 2, 12, 30},
                             {1997, 5, 17, 23, 59}, {2011, 12, 31, 0, 0}};
static const Date T0[] = {{2005, 1, 1, 0, 0}, {2010, 7, 2, 12, 30},
                          {1950, 1, 1, 0, 0}};
static const Date T1[] = {{2010, 7, 2, 12, 30}, {2050, 1, 1, 0, 0}};
#endif
