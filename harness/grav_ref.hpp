/* Reference for the gravity of a spherical harmonics expansion: unnormalised
 * solid harmonics in long double over second order jets, i.e. the acceleration
 * and its gradient come out of the potential by automatic differentiation and
 * not by formulas for derivatives. Regular on the whole lattice, poles too. */
#ifndef VERIF_GRAV_REF_HPP
#define VERIF_GRAV_REF_HPP
#include "gravity.hpp"
#include "mc.hpp"
#include <array>
typedef long double ld;
typedef dso::CoeffMatrix2D<dso::MatrixStorageType::LwTriangularColWise> Tri;
typedef Eigen::Matrix<double, 3, 1> V3;
typedef Eigen::Matrix<double, 3, 3> M3;

struct Jet {
  ld v = 0, g[3] = {0, 0, 0}, h[3][3] = {{0}};
};
inline Jet operator+(const Jet &a, const Jet &b) {
  Jet r;
  r.v = a.v + b.v;
  for (int i = 0; i < 3; i++) {
    r.g[i] = a.g[i] + b.g[i];
    for (int j = 0; j < 3; j++)
      r.h[i][j] = a.h[i][j] + b.h[i][j];
  }
  return r;
}
inline Jet operator*(ld k, const Jet &a) {
  Jet r;
  r.v = k * a.v;
  for (int i = 0; i < 3; i++) {
    r.g[i] = k * a.g[i];
    for (int j = 0; j < 3; j++)
      r.h[i][j] = k * a.h[i][j];
  }
  return r;
}
inline Jet operator*(const Jet &a, const Jet &b) {
  Jet r;
  r.v = a.v * b.v;
  for (int i = 0; i < 3; i++) {
    r.g[i] = a.v * b.g[i] + b.v * a.g[i];
    for (int j = 0; j < 3; j++)
      r.h[i][j] = a.v * b.h[i][j] + b.v * a.h[i][j] + a.g[i] * b.g[j] +
                  a.g[j] * b.g[i];
  }
  return r;
}
inline Jet operator-(const Jet &a, const Jet &b) { return a + (-1.L) * b; }
/* f(a) given f, f', f'' at a.v */
inline Jet chain(const Jet &a, ld f, ld f1, ld f2) {
  Jet r;
  r.v = f;
  for (int i = 0; i < 3; i++) {
    r.g[i] = f1 * a.g[i];
    for (int j = 0; j < 3; j++)
      r.h[i][j] = f1 * a.h[i][j] + f2 * a.g[i] * a.g[j];
  }
  return r;
}

/* every solid harmonic of a point, normalised, for Re = GM = 1 */
struct Harmonics {
  int N = -1;
  std::vector<Jet> c, s;
  static std::size_t at(int n, int m) { return (std::size_t)n * (n + 1) / 2 + m; }
  void make(const ld *r, int n1) {
    N = n1;
    c.assign(at(N + 1, 0), Jet());
    s.assign(at(N + 1, 0), Jet());
    Jet X[3];
    for (int i = 0; i < 3; i++) {
      X[i].v = r[i];
      X[i].g[i] = 1;
    }
    const Jet q = X[0] * X[0] + X[1] * X[1] + X[2] * X[2];
    const ld i1 = 1 / sqrtl(q.v), i2 = 1 / q.v;
    const Jet rinv = chain(q, i1, -.5L * i1 * i2, .75L * i1 * i2 * i2);
    const Jet w = rinv * rinv; /* (Re/r)^2 */
    const Jet x = X[0] * w, y = X[1] * w, z = X[2] * w;
    c[0] = rinv;
    for (int m = 1; m <= N; m++) {
      c[at(m, m)] = (2.L * m - 1) *
                    (x * c[at(m - 1, m - 1)] - y * s[at(m - 1, m - 1)]);
      s[at(m, m)] = (2.L * m - 1) *
                    (x * s[at(m - 1, m - 1)] + y * c[at(m - 1, m - 1)]);
    }
    for (int m = 0; m <= N; m++)
      for (int n = m + 1; n <= N; n++) {
        const ld a = (2.L * n - 1) / (n - m);
        c[at(n, m)] = a * (z * c[at(n - 1, m)]);
        s[at(n, m)] = a * (z * s[at(n - 1, m)]);
        if (n > m + 1) {
          const ld b = (n + m - 1.L) / (n - m);
          c[at(n, m)] = c[at(n, m)] - b * (w * c[at(n - 2, m)]);
          s[at(n, m)] = s[at(n, m)] - b * (w * s[at(n - 2, m)]);
        }
      }
    for (int n = 0; n <= N; n++)
      for (int m = 0; m <= n; m++) {
        ld f = (m ? 2.L : 1.L) * (2 * n + 1);
        for (int k = n - m + 1; k <= n + m; k++)
          f /= k;
        f = sqrtl(f);
        c[at(n, m)] = f * c[at(n, m)];
        s[at(n, m)] = f * s[at(n, m)];
      }
  }
};
inline const Harmonics &harmonics(const V3 &r, double Re, int n) {
  static std::map<std::array<double, 5>, Harmonics> cache;
  std::array<double, 5> k{r(0), r(1), r(2), Re, (double)n};
  auto it = cache.find(k);
  if (it == cache.end()) {
    if (cache.size() > 64)
      cache.clear();
    const ld x[3] = {(ld)r(0) / Re, (ld)r(1) / Re, (ld)r(2) / Re};
    it = cache.emplace(k, Harmonics()).first;
    it->second.make(x, n);
  }
  return it->second;
}

/* where to evaluate, in units of the reference radius: every octant, the axes
 * (i.e. the poles and the equator), coordinate planes, close to a pole */
inline const std::vector<V3> &directions(bool thorough) {
  static std::vector<V3> d[2];
  auto &v = d[thorough];
  if (v.empty()) {
    for (int i = -1; i <= 1; i++)
      for (int j = -1; j <= 1; j++)
        for (int k = -1; k <= 1; k++)
          if (i || j || k)
            v.push_back(V3(i * 1.0, j * .7, k * .45).normalized());
    v.push_back(V3(1e-7, -2e-7, 1).normalized());
    v.push_back(V3(-3e-4, 1e-5, -1).normalized());
    if (thorough)
      for (int a = 0; a < 24; a++)
        for (int b = -8; b <= 8; b++)
          v.push_back(V3(std::cos(a * .27) * std::cos(b * .19),
                         std::sin(a * .27) * std::cos(b * .19),
                         std::sin(b * .19)));
  }
  return v;
}

/* sums of unit contributions */
struct Expect {
  ld a[3] = {0, 0, 0}, g[3][3] = {{0}};
  ld sa = 0, sg = 0; /* scale of rounding errors */
  /* coefficient (n,m) with values C, S at a point |r|/Re = rho */
  void add(const Harmonics &H, int n, int m, ld C, ld S, ld rho, ld GM,
           ld Re) {
    const Jet &c = H.c[Harmonics::at(n, m)], &s = H.s[Harmonics::at(n, m)];
    const ld ka = GM / (Re * Re), kg = ka / Re;
    for (int i = 0; i < 3; i++) {
      a[i] += ka * (C * c.g[i] + S * s.g[i]);
      for (int j = 0; j < 3; j++)
        g[i][j] += kg * (C * c.h[i][j] + S * s.h[i][j]);
    }
    const ld size = (fabsl(C) + fabsl(S)) * sqrtl(2 * n + 1.L) * (n + 1) *
                    powl(rho, -(n + 2));
    sa += ka * size * (n + 2);
    sg += kg * size * (n + 2) * (n + 3) / rho;
  }
};

/* compare acceleration and/or gradient */
inline void compare_gravity(mc::Ctx &c, const V3 &acc, const M3 &grad,
                            const Expect &e, const char *what, bool do_acc,
                            bool do_grad) {
  const ld eps = 4e-15L;
  for (int i = 0; do_acc && i < 3; i++) {
    if (!(fabsl(acc(i) - e.a[i]) <= eps * e.sa))
      c.fail("acceleration",
             "%s: component %d of the acceleration is %.15g and not %.15Lg "
             "(tolerance %.2Lg)",
             what, i, acc(i), e.a[i], eps * e.sa);
    c.checked();
  }
  for (int i = 0; do_grad && i < 3; i++)
    for (int j = 0; j < 3; j++) {
      if (!(fabsl(grad(i, j) - e.g[i][j]) <= eps * e.sg))
        c.fail("gradient",
               "%s: component (%d,%d) of the gradient is %.15g and not %.15Lg "
               "(tolerance %.2Lg)",
               what, i, j, grad(i, j), e.g[i][j], eps * e.sg);
      c.checked();
    }
}
#endif
