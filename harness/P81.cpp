#include "set_ref.hpp"
static const double ANG[] = {0, 1.1, 2.7, 4.4};
static void expect(mc::Ctx &c, const Eigen::Vector3d &g, V3 w, ld tol) {
  const V3 d = vec(g) - w;
  if (!(fabsl(d.x) <= tol && fabsl(d.y) <= tol && fabsl(d.z) <= tol))
    c.fail("displacement", "%.15e %.15e %.15e instead of %.15Le %.15Le %.15Le", g(0), g(1), g(2), w.x, w.y, w.z);
  c.checked(3);
}
/* stations anywhere, bodies anywhere */
static void bodies(mc::Ctx &c) {
  const int which = c.choose(3, "bodies"), n = c.thorough() ? 12 : 8;
  const int i = c.choose(n, "longitude"), j = c.choose(n + 1, "latitude");
  const int k = c.choose(n, "station longitude"), l = c.choose(n + 1, "station latitude");
  const ld rl = c.flag("near") ? 3.6e8L : 4.06e8L;
  const Eigen::Vector3d moon = place(2 * M_PI * i / n - M_PI, M_PI * j / n - M_PI / 2, (double)rl);
  const Eigen::Vector3d sun = which == 0 ? Eigen::Vector3d(moon * (1.47e11 / (double)rl)) : place(i + 0.3, 0.2 * j - 0.9, 1.5e11);
  Eigen::Vector3d sta = place(2 * M_PI * k / n - M_PI, M_PI * l / n - M_PI / 2, 6.36e6 + 1e4 * k);
  if (l == 0 || l == n)
    sta = {0, 0, l ? 6356752. : -6356752.};
  const double gs = which == 1 ? 0 : 1.32712442076e20, gl = which == 0 ? 0 : 0.49028010560e13;
  const bool def = which == 2 && k % 2;
  const double ge = def ? 3.986004418e14 : 4e14, re = def ? 6378136.6 : 6371e3;
  dso::SolidEarthTide t = def ? dso::SolidEarthTide() : dso::SolidEarthTide(ge, re, gs, gl);
  const double f[5] = {0.3, 1.7, 2.9, 4.1, 5.3};
  const int e = k % 4;
  const dso::MjdEpoch tt = ep(EPOCH[e][0], EPOCH[e][1]), ut = ep(EPOCH[e][2], EPOCH[e][3]);
  const Eigen::Vector3d g = t.displacement(tt, ut, sta, moon, sun, f);
  const V3 w = ref_disp1(vec(sta), {vec(sun), (ld)gs / ge}, re) + ref_disp1(vec(sta), {vec(moon), (ld)gl / ge}, re) +
               ref_disp2(vec(sta), f, ref_gmst06(tt, ut));
  expect(c, g, w, 1e-13L);
  c.state(mc::mix(mc::bits(g(0)), mc::bits(g(2))));
}
/* every combination of the arguments at some stations */
static void waves(mc::Ctx &c) {
  double f[5];
  const int n = c.thorough() ? 4 : 3;
  for (auto &x : f)
    x = ANG[c.choose(n, "argument")];
  const int e = c.choose(4, "epoch"), k = c.choose(c.thorough() ? 12 : 6, "station");
  const dso::MjdEpoch tt = ep(EPOCH[e][0], EPOCH[e][1]), ut = ep(EPOCH[e][2], EPOCH[e][3]);
  dso::SolidEarthTide t(3.986004418e14, 6378136.6, 0, 0);
  const Eigen::Vector3d r(3e8, 1e8, 1e8), sta = place(k * 2.3 - 3, (k % 6 - 2.5) * 0.6, 6.37e6);
  expect(c, t.displacement(tt, ut, sta, r, r, f), ref_disp2(vec(sta), f, ref_gmst06(tt, ut)), 1e-13L);
  c.state(mc::mix(mc::bits(f[0] + 10 * f[1] + 100 * f[2]), (std::uint64_t)k));
}
/* stations all over, as the Earth turns */
static void day(mc::Ctx &c) {
  const int n = c.thorough() ? 48 : 24, i = c.choose(24, "time"), j = c.choose(n, "longitude"), k = c.choose(n / 2 + 1, "latitude");
  const double f[5] = {0.3, 1.7, 2.9, 4.1 + i, 5.3};
  const dso::MjdEpoch tt = ep(57000, i * 3600 + 69), ut = ep(57000, i * 3600);
  dso::SolidEarthTide t(3.986004418e14, 6378136.6, 0, 0);
  const Eigen::Vector3d r(3e8, 1e8, 1e8), sta = place(2 * M_PI * j / n - M_PI, 2 * M_PI * k / n - M_PI / 2, 6.37e6);
  expect(c, t.displacement(tt, ut, sta, r, r, f), ref_disp2(vec(sta), f, ref_gmst06(tt, ut)), 1e-13L);
  c.state(mc::mix((std::uint64_t)i, (std::uint64_t)(j * 100 + k)));
}
/* as published with the program of the IERS; its fundamental arguments are others, the step they are for is small */
static void published(mc::Ctx &c) {
  c.choose(1, "one");
  const Eigen::Vector3d sta(4075578.385, 931852.890, 4801570.154), sun(137859926952.015, 54228127881.4350, 23509422341.6960),
      moon(-179996231.920342, -312468450.131567, -169288918.592160);
  const dso::MjdEpoch tt = ep(54934, 66), ut = ep(54934, 0);
  double f[5];
  for (int i = 0; i < 5; i++)
    f[i] = (double)farg(i, cent(tt));
  dso::SolidEarthTide t(3.986004418e14, 6378136.6, 3.986004418e14 * 332946.0482, 3.986004418e14 * 0.0123000371);
  expect(c, t.displacement(tt, ut, sta, moon, sun, f), {0.07700420357108125891L, 0.06304056321824967613L, 0.05516568152597246810L},
         5e-5L);
}
/* each of the inputs changes, or does not, from one request to the next */
static void inputs(mc::Ctx &c) {
  dso::SolidEarthTide t[2] = {dso::SolidEarthTide(4e14, 6.4e6, 1.3e20, 5e12), dso::SolidEarthTide(4e14, 6.4e6, 1.3e20, 5e12)};
  const int two = c.choose(2, "models");
  int n = 0;
  mc::inputs(c, 9, [&](int b) {
    double f[5];
    for (int j = 0; j < 5; j++)
      f[j] = b >> (j == 4 ? 3 : j) & 1 ? 2.1 + j : 0.3 + 0.2 * j;
    const dso::MjdEpoch tt = ep(54650, b & 16 ? 43000 : 51), ut = ep(54650, b & 32 ? 42900 : 0);
    const Eigen::Vector3d moon = b & 64 ? place(1.1, 0.1, 3.8e8) : place(-2.3, -0.4, 3.8e8),
                          sun = b & 128 ? place(0.7, -0.3, 1.5e11) : place(2.7, 0.2, 1.5e11),
                          sta = b & 256 ? place(-1.3, 0.8, 6.37e6) : place(2.2, -0.5, 6.37e6);
    const V3 w = ref_disp1(vec(sta), {vec(sun), 1.3e20L / 4e14L}, 6.4e6L) +
                 ref_disp1(vec(sta), {vec(moon), 5e12L / 4e14L}, 6.4e6L) + ref_disp2(vec(sta), f, ref_gmst06(tt, ut));
    expect(c, t[two ? n++ % 2 : 0].displacement(tt, ut, sta, moon, sun, f), w, 1e-13L);
  });
}
/* requests that differ by little, or in one input */
static void near(mc::Ctx &c) {
  dso::SolidEarthTide t(4e14, 6.4e6, 1.3e20, 5e12);
  mc::neighbours(c, {0.3, 1.7, 2.9, 4.1, 5.3, 43000, 42900, -2.3e8, 3e8, -1e8, 1.1e11, -0.9e11, 0.4e11, 4.1e6, 2.2e6, -4.3e6}, [&](const std::vector<double> &x) {
    const dso::MjdEpoch tt = ep(54650, 0).add_seconds(dso::FractionalSeconds(x[5])), ut = ep(54650, 0).add_seconds(dso::FractionalSeconds(x[6]));
    const Eigen::Vector3d moon(x[7], x[8], x[9]), sun(x[10], x[11], x[12]), sta(x[13], x[14], x[15]);
    const V3 w = ref_disp1(vec(sta), {vec(sun), 1.3e20L / 4e14L}, 6.4e6L) +
                 ref_disp1(vec(sta), {vec(moon), 5e12L / 4e14L}, 6.4e6L) + ref_disp2(vec(sta), x.data(), ref_gmst06(tt, ut));
    expect(c, t.displacement(tt, ut, sta, moon, sun, x.data()), w, 1e-13L);
  });
}
int main(int a, char **b) {
  return run_quiet(a, b, {{"bodies", bodies, 3}, {"waves", waves, 3}, {"day", day, 2}, {"published", published, 1}, {"inputs", inputs, 2}, {"near", near, 1}});
}
