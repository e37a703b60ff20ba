#include "set_ref.hpp"
static const ld GE = 3.986004418e14L, GS = 1.32712442076e20L, GL = 0.49028010560e13L, RE = 6378136.6L;
/* double arguments of the series, any of them */
static const double ANG[] = {0, 1.1, 2.7, 4.4};
static void expect(mc::Ctx &c, const dso::StokesCoeffs &s, const Coef &k, ld tol) {
  if (s.max_degree() != 4 || s.max_order() != 4)
    c.fail("size", "degree %d order %d", s.max_degree(), s.max_order());
  for (int n = 0; n <= 4; n++)
    for (int m = 0; m <= n; m++)
      if (!(fabsl(s.C(n, m) - k.C[n][m]) <= tol) || !(fabsl(s.S(n, m) - k.S[n][m]) <= tol))
        c.fail("coefficient", "%d,%d is %.16e %.16e instead of %.16Le %.16Le", n, m, s.C(n, m), s.S(n, m), k.C[n][m],
               k.S[n][m]);
  c.checked(30);
}
/* one body, or both, anywhere */
static void bodies(mc::Ctx &c) {
  const int which = c.choose(3, "bodies"), nl = c.thorough() ? 48 : 16, nb = c.thorough() ? 24 : 12;
  const int i = c.choose(nl, "longitude"), j = c.choose(nb + 1, "latitude");
  static const ld DIST[] = {3.6e8L, 4.06e8L, 1.5e8L};
  const ld rl = DIST[c.choose(3, "distance")];
  const double lon = 2 * M_PI * i / nl - M_PI, lat = M_PI * j / nb - M_PI / 2;
  const int k = c.choose(4, "other");
  const Eigen::Vector3d moon = place(lon, lat, (double)rl),
                        sun = place(lon * 0.5 + k * 1.3, (k - 2) * 0.2, 1.47e11 + 1e9 * k);
  /* the constants given, or the default ones */
  const bool def = which == 2 && k % 2;
  const double gs = which == 1 ? 0 : 1.32712442076e20, gl = which == 0 ? 0 : 0.49028010560e13;
  const double ge = def ? 3.986004418e14 : 4e14, re = def ? 6378136.6 : 6371e3;
  /* the sun has to be seen too where it is alone */
  const Eigen::Vector3d &far = which == 0 ? moon : sun;
  dso::SolidEarthTide t = def ? dso::SolidEarthTide() : dso::SolidEarthTide(ge, re, gs, gl);
  if (!(std::fabs(t.stokes_coeffs().Re() - re) < 1e-9 * re) || !(std::fabs(t.stokes_coeffs().GM() - ge) < 1e-9 * ge))
    c.fail("constants", "the coefficients are for other constants");
  const double f[5] = {0.3, 1.7, 2.9, 4.1, 5.3};
  const dso::MjdEpoch tt = ep(EPOCH[k][0], EPOCH[k][1]), ut = ep(EPOCH[k][2], EPOCH[k][3]);
  if (t.stokes_coeffs(tt, ut, which == 0 ? sun : moon, far, f))
    c.fail("refused", "no coefficients");
  Coef want;
  ref_step1({vec(far), (ld)gs / ge}, re, want);
  ref_step1({vec(which == 0 ? sun : moon), (ld)gl / ge}, re, want);
  const ld big = (ld)gs / ge * powl(re / len(vec(far)), 3) + (ld)gl / ge * powl(re / len(vec(moon)), 3);
  ref_step2(f, ref_gmst06(tt, ut), want);
  expect(c, t.stokes_coeffs(), want, 1e-14L * big + 5e-20L);
  c.state(mc::mix(mc::bits(t.stokes_coeffs().C(2, 1)), mc::bits(t.stokes_coeffs().S(3, 3))));
}
/* every combination of the arguments, without the bodies */
static void waves(mc::Ctx &c) {
  double f[5];
  const int n = c.thorough() ? 4 : 3;
  for (auto &x : f)
    x = ANG[c.choose(n, "argument")];
  const int e = c.choose(4, "epoch");
  const dso::MjdEpoch tt = ep(EPOCH[e][0], EPOCH[e][1]), ut = ep(EPOCH[e][2], EPOCH[e][3]);
  dso::SolidEarthTide t(3.986004418e14, 6378136.6, 0, 0);
  const Eigen::Vector3d r(3e8, 1e8, 1e8);
  if (t.stokes_coeffs(tt, ut, r, r, f))
    c.fail("refused", "no coefficients");
  Coef want;
  ref_step2(f, ref_gmst06(tt, ut), want);
  expect(c, t.stokes_coeffs(), want, 5e-20L);
  c.state(mc::mix(mc::bits(t.stokes_coeffs().C(2, 0)), mc::bits(t.stokes_coeffs().S(2, 1))));
}
/* the day: turning once and a bit */
static void day(mc::Ctx &c) {
  const int n = c.thorough() ? 720 : 144, i = c.choose(n, "time"), d = c.choose(3, "day") * 3000 + 52000;
  const int s = 86400 / n * i;
  const double f[5] = {0.3 + d, 1.7, 2.9, 4.1 + s * 1e-5, 5.3};
  const dso::MjdEpoch tt = ep(d, s), ut = ep(s < 60 ? d - 1 : d, s < 60 ? s + 86340 : s - 60);
  dso::SolidEarthTide t(3.986004418e14, 6378136.6, 0, 0);
  const Eigen::Vector3d r(3e8, 1e8, 1e8);
  t.stokes_coeffs(tt, ut, r, r, f);
  Coef want;
  ref_step2(f, ref_gmst06(tt, ut), want);
  expect(c, t.stokes_coeffs(), want, 5e-20L);
  c.state(mc::mix((std::uint64_t)i, (std::uint64_t)d));
}
/* nothing is left of former calls */
static void history(mc::Ctx &c) {
  dso::SolidEarthTide t(4e14, 6.4e6, 1.3e20, 5e12);
  const int depth = c.thorough() ? 4 : 3;
  std::uint64_t h = 0;
  for (int i = 0; i < depth; i++) {
    const int k = c.choose(6, "call");
    const Eigen::Vector3d moon = k == 0 ? place(0, 0, 4e8) : place(1.1 * k, 0.1 * k, 3.8e8), sun = place(0.7 * k, -0.1 * k, 1.5e11);
    const double f[5] = {0.3 * k, 1.7 + k, 2.9 * k, 4.1, 5.3};
    const dso::MjdEpoch tt = ep(50000 + k, 100 * k), ut = ep(50000 + k, 0);
    t.stokes_coeffs(tt, ut, moon, sun, f);
    Coef want;
    ref_step1({vec(sun), 1.3e20L / 4e14L}, 6.4e6L, want);
    ref_step1({vec(moon), 5e12L / 4e14L}, 6.4e6L, want);
    ref_step2(f, ref_gmst06(tt, ut), want);
    expect(c, t.stokes_coeffs(), want, 1e-20L);
    h = mc::mix(h, (std::uint64_t)k);
  }
  c.state(h);
}
/* each of the inputs changes, or does not, from one request to the next */
static void inputs(mc::Ctx &c) {
  dso::SolidEarthTide t[2] = {dso::SolidEarthTide(4e14, 6.4e6, 1.3e20, 5e12), dso::SolidEarthTide(4e14, 6.4e6, 1.3e20, 5e12)};
  const int two = c.choose(2, "models");
  int n = 0;
  mc::inputs(c, 9, [&](int b) {
    double f[5];
    for (int j = 0; j < 5; j++)
      f[j] = b >> j & 1 ? 2.1 + j : 0.3 + 0.2 * j;
    const dso::MjdEpoch tt = ep(54650, b & 32 ? 43000 : 51), ut = ep(54650, b & 64 ? 42900 : 0);
    const Eigen::Vector3d moon = b & 128 ? place(1.1, 0.1, 3.8e8) : place(-2.3, -0.4, 3.8e8),
                          sun = b & 256 ? place(0.7, -0.3, 1.5e11) : place(2.7, 0.2, 1.5e11);
    auto &s = t[two ? n++ % 2 : 0];
    s.stokes_coeffs(tt, ut, moon, sun, f);
    Coef want;
    ref_step1({vec(sun), 1.3e20L / 4e14L}, 6.4e6L, want);
    ref_step1({vec(moon), 5e12L / 4e14L}, 6.4e6L, want);
    ref_step2(f, ref_gmst06(tt, ut), want);
    expect(c, s.stokes_coeffs(), want, 1e-20L);
  });
}
/* requests that differ by little, or in one input */
static void near(mc::Ctx &c) {
  dso::SolidEarthTide t(4e14, 6.4e6, 1.3e20, 5e12);
  mc::neighbours(c, {0.3, 1.7, 2.9, 4.1, 5.3, 43000, 42900, -2.3e8, 3e8, -1e8, 1.1e11, -0.9e11, 0.4e11}, [&](const std::vector<double> &x) {
    const dso::MjdEpoch tt = ep(54650, 0).add_seconds(dso::FractionalSeconds(x[5])), ut = ep(54650, 0).add_seconds(dso::FractionalSeconds(x[6]));
    const Eigen::Vector3d moon(x[7], x[8], x[9]), sun(x[10], x[11], x[12]);
    t.stokes_coeffs(tt, ut, moon, sun, x.data());
    Coef want;
    ref_step1({vec(sun), 1.3e20L / 4e14L}, 6.4e6L, want);
    ref_step1({vec(moon), 5e12L / 4e14L}, 6.4e6L, want);
    ref_step2(x.data(), ref_gmst06(tt, ut), want);
    expect(c, t.stokes_coeffs(), want, 1e-20L);
  });
}
int main(int a, char **b) {
  return run_quiet(a, b, {{"bodies", bodies, 2}, {"waves", waves, 3}, {"day", day, 1}, {"history", history, 2}, {"inputs", inputs, 2}, {"near", near, 1}});
}
