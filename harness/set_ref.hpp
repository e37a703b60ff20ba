/* solid Earth tide of the IERS Conventions 2010, 6.2 and 7.1.1, in extended precision and along the vectors */
#pragma once
#include "earth_ref.hpp"
#include "solid_earth_tide.hpp"
#include <array>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <vector>
struct V3 {
  ld x, y, z;
};
static V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static V3 operator*(ld f, V3 a) { return {f * a.x, f * a.y, f * a.z}; }
static ld dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static ld len(V3 a) { return sqrtl(dot(a, a)); }
static V3 vec(const Eigen::Vector3d &v) { return {v(0), v(1), v(2)}; }
static Eigen::Vector3d place(double lon, double lat, double r) {
  return Eigen::Vector3d(r * std::cos(lat) * std::cos(lon), r * std::cos(lat) * std::sin(lon), r * std::sin(lat));
}
/* the angle of a Doodson number written as "165.555"; the arguments as in 6.2.1: m (gmst + pi) - N F */
static ld theta(const char *d, const double *f, ld gmst) {
  const int n[6] = {d[0] - '0', d[1] - '5', d[2] - '5', d[4] - '5', d[5] - '5', d[6] - '5'};
  const ld l = f[0], lp = f[1], F = f[2], D = f[3], om = f[4];
  const ld s = F + om, h = s - D, p = s - l, N = -om, ps = s - D - lp, tau = gmst + LPI - s;
  return n[0] * tau + n[1] * s + n[2] * h + n[3] * p + n[4] * N + n[5] * ps;
}
/* table 6.5: number, in phase, out of phase */
struct T65 {
  const char *d;
  ld ip, op;
};
static const T65 TABLE65[] = {
    {"125.755", -0.1L, 0},      {"127.555", -0.1L, 0},      {"135.645", -0.1L, 0},      {"135.655", -0.7L, 0.1L},
    {"137.455", -0.1L, 0},      {"145.545", -1.3L, 0.1L},   {"145.555", -6.8L, 0.6L},   {"147.555", 0.1L, 0},
    {"153.655", 0.1L, 0},       {"155.445", 0.1L, 0},       {"155.455", 0.4L, 0},       {"155.655", 1.3L, -0.1L},
    {"155.665", 0.3L, 0},       {"157.455", 0.3L, 0},       {"157.465", 0.1L, 0},       {"162.556", -1.9L, 0.1L},
    {"163.545", 0.5L, 0},       {"163.555", -43.4L, 2.9L},  {"164.554", 0.6L, 0},       {"164.556", 1.6L, -0.1L},
    {"165.345", 0.1L, 0},       {"165.535", 0.1L, 0},       {"165.545", -8.8L, 0.5L},   {"165.555", 470.9L, -30.2L},
    {"165.565", 68.1L, -4.6L},  {"165.575", -1.6L, 0.1L},   {"166.455", 0.1L, 0},       {"166.544", -0.1L, 0},
    {"166.554", -20.6L, -0.3L}, {"166.556", 0.3L, 0},       {"166.564", -0.3L, 0},      {"167.355", -0.2L, 0},
    {"167.365", -0.1L, 0},      {"167.555", -5.0L, 0.3L},   {"167.565", 0.2L, 0},       {"168.554", -0.2L, 0},
    {"173.655", -0.5L, 0},      {"173.665", -0.1L, 0},      {"175.445", 0.1L, 0},       {"175.455", -2.1L, 0.1L},
    {"175.465", -0.4L, 0},      {"183.555", -0.2L, 0},      {"185.355", -0.1L, 0},      {"185.555", -0.6L, 0},
    {"185.565", -0.4L, 0},      {"185.575", -0.1L, 0},      {"195.455", -0.1L, 0},      {"195.465", -0.1L, 0},
    {"055.565", 16.6L, -6.7L},  {"055.575", -0.1L, 0.1L},   {"056.554", -1.2L, 0.8L},   {"057.555", -5.5L, 4.3L},
    {"057.565", 0.1L, -0.1L},   {"058.554", -0.3L, 0.2L},   {"063.655", -0.3L, 0.7L},   {"065.445", 0.1L, -0.2L},
    {"065.455", -1.2L, 3.7L},   {"065.465", 0.1L, -0.2L},   {"065.655", 0.1L, -0.2L},   {"073.555", 0, 0.6L},
    {"075.355", 0, 0.3L},       {"075.555", 0.6L, 6.3L},    {"075.565", 0.2L, 2.6L},    {"075.575", 0, 0.2L},
    {"083.655", 0.1L, 0.2L},    {"085.455", 0.4L, 1.1L},    {"085.465", 0.2L, 0.5L},    {"093.555", 0.1L, 0.2L},
    {"095.355", 0.1L, 0.1L},    {"245.655", -0.3L, 0},      {"255.555", -1.2L, 0}};
/* table 7.3 as extended by the published program: number, R in and out of phase, T in and out of phase, mm */
struct T73 {
  const char *d;
  ld rip, rop, tip, top;
};
static const T73 TABLE73[] = {
    {"125.755", -0.01L, -0.01L, 0, 0},        {"127.555", -0.01L, -0.01L, 0, 0},
    {"135.645", -0.02L, -0.01L, 0, 0},        {"135.655", -0.08L, 0, -0.01L, 0.01L},
    {"137.455", -0.02L, -0.01L, 0, 0},        {"145.545", -0.10L, 0, 0, 0},
    {"145.555", -0.51L, 0, -0.02L, 0.03L},    {"147.555", 0.01L, 0, 0, 0},
    {"153.655", 0.01L, 0, 0, 0},              {"155.455", 0.02L, 0.01L, 0, 0},
    {"155.655", 0.06L, 0, 0, 0},              {"155.665", 0.01L, 0, 0, 0},
    {"157.455", 0.01L, 0, 0, 0},              {"162.556", -0.06L, 0, 0, 0},
    {"163.545", 0.01L, 0, 0, 0},              {"163.555", -1.23L, -0.07L, 0.06L, 0.01L},
    {"164.554", 0.02L, 0, 0, 0},              {"164.556", 0.04L, 0, 0, 0},
    {"165.545", -0.22L, 0.01L, 0.01L, 0},     {"165.555", 12, -0.78L, -0.67L, -0.03L},
    {"165.565", 1.73L, -0.12L, -0.10L, 0},    {"165.575", -0.04L, 0, 0, 0},
    {"166.554", -0.50L, -0.01L, 0.03L, 0},    {"166.556", 0.01L, 0, 0, 0},
    {"166.564", -0.01L, 0, 0, 0},             {"167.355", -0.01L, 0, 0, 0},
    {"167.555", -0.11L, 0.01L, 0.01L, 0},     {"173.655", -0.01L, 0, 0, 0},
    {"175.455", -0.02L, 0.02L, 0, 0.01L},     {"185.555", 0, 0.01L, 0, 0.01L},
    {"185.565", 0, 0.01L, 0, 0},              {"055.565", 0.47L, 0.16L, 0.23L, 0.07L},
    {"057.555", -0.20L, -0.11L, -0.12L, -0.05L}, {"065.455", -0.11L, -0.09L, -0.08L, -0.04L},
    {"075.555", -0.13L, -0.15L, -0.11L, -0.07L}, {"075.565", -0.05L, -0.06L, -0.05L, -0.03L}};
struct Body {
  V3 r;
  ld ratio; /* GM over that of the Earth */
};
/* C and S of degrees 2 to 4 */
struct Coef {
  ld C[5][5] = {}, S[5][5] = {};
};
/* Legendre functions from their derivatives, without the phase (-1)^m */
static ld legendre(int n, int m, ld t) {
  const ld u = sqrtl(1 - t * t);
  switch (10 * n + m) {
  case 20: return (3 * t * t - 1) / 2;
  case 21: return 3 * t * u;
  case 22: return 3 * u * u;
  case 30: return (5 * t * t * t - 3 * t) / 2;
  case 31: return u * (15 * t * t - 3) / 2;
  case 32: return 15 * t * u * u;
  case 33: return 15 * u * u * u;
  }
  return 0;
}
static ld norm(int n, int m) {
  ld f = 1;
  for (int k = n - m + 1; k <= n + m; k++)
    f *= k;
  return sqrtl((m ? 2 : 1) * (2 * n + 1) / f);
}
static void ref_step1(const Body &b, ld Re, Coef &k) {
  static const ld LOVE[5][5] = {{}, {}, {0.30190L, 0.29830L, 0.30102L}, {0.093L, 0.093L, 0.093L, 0.094L}};
  static const ld IMAG[3] = {0, -0.00144L, -0.00130L}, PLUS[3] = {-0.00089L, -0.00080L, -0.00057L};
  const ld r = len(b.r), t = b.r.z / r, lon = atan2l(b.r.y, b.r.x);
  for (int n = 2; n <= 3; n++)
    for (int m = 0; m <= n; m++) {
      const ld f = b.ratio * powl(Re / r, n + 1) * norm(n, m) * legendre(n, m, t) / (2 * n + 1);
      const ld c = f * cosl(m * lon), s = f * sinl(m * lon), im = n == 2 ? IMAG[m] : 0;
      k.C[n][m] += LOVE[n][m] * c + im * s;
      k.S[n][m] += LOVE[n][m] * s - im * c;
      if (n == 2) {
        k.C[4][m] += PLUS[m] * c;
        k.S[4][m] += PLUS[m] * s;
      }
    }
  /* S of order zero is none */
  k.S[2][0] = k.S[3][0] = k.S[4][0] = 0;
}
static void ref_step2(const double *f, ld gmst, Coef &k) {
  for (const auto &w : TABLE65) {
    const ld a = theta(w.d, f, gmst), c = cosl(a), s = sinl(a);
    /* eta (ip + i op) (c + i s) is C - i S, with eta 1, -i, 1 */
    const ld re = 1e-12L * (w.ip * c - w.op * s), im = 1e-12L * (w.ip * s + w.op * c);
    const int m = w.d[0] - '0';
    if (m == 1)
      k.C[2][1] += im, k.S[2][1] += re;
    else {
      k.C[2][m] += re;
      if (m)
        k.S[2][m] -= im;
    }
  }
}
/* along up, east, north of the geocentric direction */
struct Local {
  V3 u, e, n;
  ld sf, cf, sl, cl;
};
static Local local(V3 s) {
  const ld r = len(s), q = sqrtl(s.x * s.x + s.y * s.y);
  Local l;
  l.sf = s.z / r, l.cf = q / r;
  l.sl = q > 0 ? s.y / q : 0, l.cl = q > 0 ? s.x / q : 1;
  l.u = {l.cf * l.cl, l.cf * l.sl, l.sf};
  l.e = {-l.sl, l.cl, 0};
  l.n = {-l.sf * l.cl, -l.sf * l.sl, l.cf};
  return l;
}
/* 7.5 to 7.11, the last as in the published program: along the coordinates of the body */
static V3 ref_disp1(V3 sta, const Body &b, ld Re) {
  const Local l = local(sta);
  const ld r = len(b.r);
  const V3 w = (1 / r) * b.r;
  const ld q = dot(w, l.u), p2 = (3 * l.sf * l.sf - 1) / 2;
  const ld h2 = 0.6078L - 0.0006L * p2, l2 = 0.0847L + 0.0002L * p2;
  const V3 side = w - q * l.u;
  const ld f2 = b.ratio * Re * powl(Re / r, 3), f3 = f2 * Re / r;
  V3 d = f2 * (h2 * (3 * q * q - 1) / 2 * l.u + 3 * l2 * q * side) +
         f3 * (0.292L * (5 * q * q * q - 3 * q) / 2 * l.u + 0.015L * (15 * q * q - 3) / 2 * side);
  /* the body along the meridian of the station and across it */
  const ld a = w.x * l.cl + w.y * l.sl, c = w.x * l.sl - w.y * l.cl; /* cos(lat) cos(dl), cos(lat) sin(dl) */
  const ld c2 = a * a - c * c, s2 = 2 * a * c;
  const ld cos2 = l.cf * l.cf - l.sf * l.sf;
  ld U = 0, E = 0, N = 0;
  /* out of phase, diurnal and semidiurnal */
  U += 3 * 0.0025L * l.sf * l.cf * w.z * c;
  N += 3 * 0.0007L * cos2 * w.z * c;
  E += 3 * 0.0007L * l.sf * w.z * a;
  U += 0.75L * 0.0022L * l.cf * l.cf * s2;
  N += -1.5L * 0.0007L * l.sf * l.cf * s2;
  E += 1.5L * 0.0007L * l.cf * c2;
  /* latitude dependence */
  N += -3 * 0.0012L * l.sf * l.sf * w.z * a;
  E += 3 * 0.0012L * l.sf * cos2 * w.z * c;
  N += -1.5L * 0.0024L * l.sf * l.cf * c2;
  E += -1.5L * 0.0024L * l.sf * l.sf * l.cf * s2;
  return d + f2 * (U * l.u + E * l.e + N * l.n);
}
static V3 ref_disp2(V3 sta, const double *f, ld gmst) {
  const Local l = local(sta);
  const ld lon = atan2l(sta.y, sta.x);
  ld U = 0, E = 0, N = 0;
  for (const auto &w : TABLE73) {
    const ld a = theta(w.d, f, gmst);
    if (w.d[0] == '1') {
      const ld c = cosl(a + lon), s = sinl(a + lon);
      U += (w.rip * s + w.rop * c) * 2 * l.sf * l.cf;
      E += (w.tip * c - w.top * s) * l.sf;
      N += (w.tip * s + w.top * c) * (l.cf * l.cf - l.sf * l.sf);
    } else {
      const ld c = cosl(a), s = sinl(a);
      U += (w.rip * c + w.rop * s) * (3 * l.sf * l.sf - 1) / 2;
      N += (w.tip * c + w.top * s) * 2 * l.sf * l.cf;
    }
  }
  return 1e-3L * (U * l.u + E * l.e + N * l.n);
}
/* epochs, and arguments that need not be those of the epoch */
static const int EPOCH[][4] = {{51544, 43200, 51544, 43136}, {58849, 69, 58849, 0}, {45000, 86000, 45001, 7000},
                               {60310, 1, 60310, 50000}};
static dso::MjdEpoch ep(int d, int s) { return dso::MjdEpoch(d, dso::FractionalSeconds((double)s)); }
/* the library prints to the standard output in debug mode: not from the workers */
static int run_quiet(int a, char **b, const std::vector<mc::Scenario> &v) {
  for (int i = 1; i < a; i++)
    if (!std::strcmp(b[i], "--shard") && !std::freopen("/dev/null", "w", stdout))
      std::abort();
  return mc::run(a, b, v);
}
