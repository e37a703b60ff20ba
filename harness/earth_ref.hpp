/* Earth rotation after chapter 5 of the IERS Conventions (2010), in extended
 * precision and independent of the library */
#pragma once
#include "cip_tables.hpp"
#include "datetime/calendar.hpp"
#include "farg_ref.hpp"
#include "mc.hpp"
#include <cmath>
static ld days(const dso::MjdEpoch &t) { return (t.imjd() - 51544.5L) + (ld)t.seconds().seconds() / 86400.L; }
static ld cent(const dso::MjdEpoch &t) { return days(t) / 36525.L; }
/* angles modulo a full turn */
static ld ref_era(const dso::MjdEpoch &ut1) {
  const ld d = days(ut1);
  return 2 * LPI * (0.7790572732640L + 0.00273781191135448L * d + fmodl(d, 1.L));
}
static const ld GPOLY[] = {0.014506L, 4612.156534L, 1.3915817L, -0.00000044L, -0.000029956L, -0.0000000368L};
static ld ref_gmst06(const dso::MjdEpoch &tt, const dso::MjdEpoch &ut1) {
  ld s = 0;
  for (int i = 5; i >= 0; i--)
    s = s * cent(tt) + GPOLY[i];
  return ref_era(ut1) + s * AS2R;
}
/* all fourteen arguments, l to p_A */
static void ref_args(ld t, ld *a) {
  for (int i = 0; i < 5; i++)
    a[i] = farg(i, t);
  for (int i = 0; i < 8; i++)
    a[5 + i] = PCOEF[i][0] + PCOEF[i][1] * t;
  a[13] = (0.024381750L + 0.00000538691L * t) * t;
}
static const ld POLY_X[] = {-16617, 2004191898, -429782.9L, -198618.34L, 7.578L, 5.9285L};
static const ld POLY_Y[] = {-6951, -25896, -22407274.7L, 1900.59L, 1112.526L, 0.1358L};
static const ld POLY_S[] = {94, 3808.65L, -122.68L, -72574.11L, 27.98L, 15.62L};
/* the series of tables 5.2a, b and d, in microarcseconds; T is the argument's
 * type */
struct Series {
  ld w[5]; /* by power of t */
  ld at(const ld *poly, ld t) const {
    ld p = 0, s = 0;
    for (int i = 5; i >= 0; i--)
      p = p * t + poly[i];
    for (int i = 4; i >= 0; i--)
      s = s * t + w[i];
    return p + s;
  }
};
template <std::size_t N, typename T> static Series series(const CipTerm (&tab)[N], const T *a) {
  Series r{};
  for (const CipTerm &x : tab) {
    ld arg = 0;
    for (int i = 0; i < 14; i++)
      if (x.n[i])
        arg += x.n[i] * (ld)a[i];
    arg = fmodl(arg, 2 * LPI);
    r.w[x.j] += x.s * sin((double)arg) + x.c * cos((double)arg);
  }
  return r;
}
/* rotation matrices, seen from the turned frame, as R1, R2 and R3 of the Conventions */
struct Mat {
  ld m[3][3];
  Mat operator*(const Mat &b) const {
    Mat r{};
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++)
        for (int k = 0; k < 3; k++)
          r.m[i][j] += m[i][k] * b.m[k][j];
    return r;
  }
  Mat t() const {
    Mat r{};
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++)
        r.m[i][j] = m[j][i];
    return r;
  }
};
static Mat R1(ld a) { return {{{1, 0, 0}, {0, cosl(a), sinl(a)}, {0, -sinl(a), cosl(a)}}}; }
static Mat R2(ld a) { return {{{cosl(a), 0, -sinl(a)}, {0, 1, 0}, {sinl(a), 0, cosl(a)}}}; }
static Mat R3(ld a) { return {{{cosl(a), sinl(a), 0}, {-sinl(a), cosl(a), 0}, {0, 0, 1}}}; }
/* d R3 / da */
static Mat dR3(ld a) { return {{{-sinl(a), cosl(a), 0}, {-cosl(a), -sinl(a), 0}, {0, 0, 0}}}; }
/* eq. 5.3: W = R3(-s') R2(xp) R1(yp), from the ITRS */
static Mat ref_W(ld xp, ld yp, ld sp) { return R3(-sp) * R2(xp) * R1(yp); }
/* eq. 5.6 and 5.7: Q = R3(-E) R2(-d) R3(E) R3(s), to the GCRS */
static Mat ref_Q(ld x, ld y, ld s) {
  const ld r = sqrtl(x * x + y * y), e = r > 0 ? atan2l(y, x) : 0, d = asinl(r);
  return R3(-e) * R2(-d) * R3(e) * R3(s);
}
/* GCRS to ITRS: (Q R W)^T, R = R3(-ERA) */
static Mat ref_c2i(ld era, ld s, ld sp, ld x, ld y, ld xp, ld yp) {
  return (ref_Q(x, y, s) * R3(-era) * ref_W(xp, yp, sp)).t();
}
