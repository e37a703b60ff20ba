/* Reference for the normalised associated Legendre functions: long double,
 * column recursion with its own factors, derivative from the neighbouring
 * orders (a formula that stays regular at the poles).  */
#ifndef VERIF_ALF_REF_HPP
#define VERIF_ALF_REF_HPP
#include "gravity.hpp"
#include "mc.hpp"
typedef long double ld;
typedef dso::CoeffMatrix2D<dso::MatrixStorageType::LwTriangularColWise> Tri;

struct AlfRef {
  int N = -1;
  std::vector<ld> p, d, env; /* [n*(n+1)/2+m] */
  static std::size_t at(int n, int m) { return (std::size_t)n * (n + 1) / 2 + m; }
  ld P(int n, int m) const { return p[at(n, m)]; }
  ld D(int n, int m) const { return d[at(n, m)]; }
  /* magnitude of column m down to degree n: the scale of rounding errors */
  ld E(int n, int m) const { return env[at(n, m)]; }
  void make(double lat, int n1) {
    N = n1;
    p.assign(at(N + 1, 0), 0);
    d.assign(at(N + 1, 0), 0);
    env.assign(at(N + 1, 0), 0);
    const ld s = sinl((ld)lat), c = cosl((ld)lat);
    p[0] = 1;
    for (int m = 1; m <= N; m++)
      p[at(m, m)] = p[at(m - 1, m - 1)] * c *
                    (m == 1 ? sqrtl(3.L) : sqrtl((2.L * m + 1) / (2.L * m)));
    for (int m = 0; m <= N; m++)
      for (int n = m + 1; n <= N; n++) {
        const ld den = (ld)(n - m) * (n + m);
        ld v = sqrtl((2.L * n - 1) * (2.L * n + 1) / den) * s * p[at(n - 1, m)];
        if (n > m + 1)
          v -= sqrtl((2.L * n + 1) * (n + m - 1.L) * (n - m - 1.L) /
                     (den * (2.L * n - 3))) *
               p[at(n - 2, m)];
        p[at(n, m)] = v;
      }
    for (int m = 0; m <= N; m++) {
      ld e = 0;
      for (int n = m; n <= N; n++) {
        e = std::max(e, fabsl(p[at(n, m)]));
        env[at(n, m)] = e;
      }
    }
    for (int n = 0; n <= N; n++)
      for (int m = 0; m <= n; m++) {
        ld v = 0;
        if (m > 0)
          v += (m == 1 ? sqrtl(2.L) : 1.L) * sqrtl((ld)(n + m) * (n - m + 1)) *
               p[at(n, m - 1)];
        if (m < n)
          v -= (m == 0 ? sqrtl(.5L) : 1.L) * sqrtl((ld)(n + m + 1) * (n - m)) *
               p[at(n, m + 1)] * (m == 0 ? 1.L : 1.L);
        d[at(n, m)] = (m == 0 ? 1.L : .5L) * v;
      }
  }
};
/* one latitude stays in memory, traces of the same latitude follow */
inline const AlfRef &alf_ref(double lat, int n) {
  static std::map<std::pair<double, int>, AlfRef> cache;
  auto k = std::make_pair(lat, n);
  auto it = cache.find(k);
  if (it == cache.end()) {
    if (cache.size() > 40)
      cache.clear();
    it = cache.emplace(k, AlfRef()).first;
    it->second.make(lat, n);
  }
  return it->second;
}
static const double PI2 = M_PI / 2;
inline const std::vector<double> &latitudes(bool thorough) {
  static std::vector<double> v[2];
  auto &l = v[thorough];
  if (l.empty()) {
    l = {0e0,   PI2,     -PI2, PI2 - 1e-9, -PI2 + 1e-6, 1.5e0, -1.5e0, .1e0,
         -.1e0, M_PI / 4, -M_PI / 3, 1e0,  -1e0, .7e0, 1e-12};
    if (thorough)
      for (int i = -31; i <= 31; i++)
        l.push_back(i * 0.05e0);
  }
  return l;
}
#endif
