/* relativistic acceleration of a satellite: equation 10.12 of the IERS Conventions 2010 */
#include "mc.hpp"
#include "relativity.hpp"
typedef long double ld;
struct W {
  ld x[3];
};
static W at(const Eigen::Matrix<double, 6, 1> &s, int o) { return {{s(o), s(o + 1), s(o + 2)}}; }
static ld dot(W a, W b) { return a.x[0] * b.x[0] + a.x[1] * b.x[1] + a.x[2] * b.x[2]; }
static W cross(W a, W b) {
  return {{a.x[1] * b.x[2] - a.x[2] * b.x[1], a.x[2] * b.x[0] - a.x[0] * b.x[2], a.x[0] * b.x[1] - a.x[1] * b.x[0]}};
}
static W add(ld f, W a, W b) { return {{f * a.x[0] + b.x[0], f * a.x[1] + b.x[1], f * a.x[2] + b.x[2]}}; }
static ld norm(W a) { return sqrtl(dot(a, a)); }
/* the size of each term, to scale the tolerance of each by itself */
static W ref(const Eigen::Matrix<double, 6, 1> &sat, const Eigen::Matrix<double, 6, 1> &sun, ld gme, ld gms, ld J, ld c, ld be,
             ld ga, ld &scale) {
  const W r = at(sat, 0), v = at(sat, 3);
  const W R = {{-(ld)sun(0), -(ld)sun(1), -(ld)sun(2)}}, V = {{-(ld)sun(3), -(ld)sun(4), -(ld)sun(5)}}; /* Earth from the Sun */
  const ld s = norm(r), S = norm(R), k = gme / (c * c * s * s * s);
  W a = {{0, 0, 0}};
  a = add(k * (2 * (be + ga) * gme / s - ga * dot(v, v)), r, a);
  a = add(k * 2 * (1 + ga) * dot(r, v), v, a);
  const W j = {{0, 0, J}};
  a = add((1 + ga) * k * 3 / (s * s) * dot(r, j), cross(r, v), a);
  a = add((1 + ga) * k, cross(v, j), a);
  const ld n[3] = {norm(a), (1 + ga) * k * fabsl(J) * norm(v) * 4, (1 + 2 * ga) * gms / (c * c * S * S) * norm(V) * norm(v)};
  const W g = {{-gms / (c * c * S * S * S) * R.x[0], -gms / (c * c * S * S * S) * R.x[1], -gms / (c * c * S * S * S) * R.x[2]}};
  a = add(1 + 2 * ga, cross(cross(V, g), v), a);
  scale = 4 * k * (fabsl(be) + fabsl(ga) + 1) * (gme + dot(v, v) * s) + n[0] + n[1] + n[2];
  return a;
}
static Eigen::Matrix<double, 6, 1> sixth(int i, int j, int n, double r, double v) {
  static const int D[26][3] = {{1, 0, 0},  {0, 1, 0},  {0, 0, 1},   {-1, 0, 0},  {0, -1, 0},  {0, 0, -1}, {1, 1, 0},  {1, -1, 0},  {-1, 1, 0},
                               {-1, -1, 0}, {1, 0, 1},  {1, 0, -1},  {-1, 0, 1},  {-1, 0, -1}, {0, 1, 1},  {0, 1, -1}, {0, -1, 1}, {0, -1, -1},
                               {1, 1, 1},  {1, 1, -1}, {1, -1, 1},  {1, -1, -1}, {-1, 1, 1},  {-1, 1, -1}, {-1, -1, 1}, {-1, -1, -1}};
  Eigen::Matrix<double, 6, 1> s;
  for (int k = 0; k < 3; k++) {
    s(k) = r * D[i][k] * (1 + .1 * k);
    s(k + 3) = v * D[j][k] * (1 - .15 * k);
  }
  (void)n;
  return s;
}
static void check(mc::Ctx &c, const Eigen::Matrix<double, 6, 1> &sat, const Eigen::Matrix<double, 6, 1> &sun, const ld *p, bool def) {
  ld scale;
  const W w = ref(sat, sun, p[0], p[1], p[2], p[3], p[4], p[5], scale);
  const auto a = def ? dso::iers2010_relativistic_acceleration(sat, sun)
                     : dso::iers2010_relativistic_acceleration(sat, sun, p[0], p[1], p[2], p[3], p[4], p[5]);
  for (int k = 0; k < 3; k++)
    if (!(fabsl(a(k) - w.x[k]) <= 1e-14L * scale))
      c.fail("acceleration", "component %d is %.17g instead of %.17Lg, scale %.2Lg", k, a(k), w.x[k], scale);
  c.checked(3);
  c.state(mc::mix(mc::bits(a(0)), mc::mix(mc::bits(a(1)), mc::bits(a(2)))));
}
static const ld TN[6] = {3.986004418e14L, 1.32712442099e20L, 9.8e8L, 299792458, 1, 1};
/* each term as large as the others or alone, so that none hides */
static void terms(mc::Ctx &c) {
  const int n = c.thorough() ? 26 : 14;
  const auto sat = sixth(c.choose(26, "position"), c.choose(n, "velocity"), 0, 7e6, 7e3);
  const auto sun = sixth(c.choose(n, "Earth"), c.choose(n, "its velocity"), 0, 1.5e11, 3e4);
  ld p[6];
  for (int k = 0; k < 6; k++)
    p[k] = TN[k];
  switch (c.choose(4, "terms")) {
  case 0: break;                                  /* as they are */
  case 1: p[0] = 1e5L; p[2] = 0; break;          /* the Sun only */
  case 2: p[2] *= 1e5L; p[1] = 0; break;         /* rotation, no Sun */
  case 3: p[0] = 4e13L; p[1] *= 1e6L; p[2] *= 300; p[3] = 1e7L; p[4] = .5L; p[5] = 2; break;
  }
  check(c, sat, sun, p, false);
}
/* arguments: none forgotten, none mixed up, their defaults */
static void arguments(mc::Ctx &c) {
  static const ld F[3] = {1, .5L, 3};
  ld p[6];
  bool any = false;
  for (int k = 0; k < 6; k++) {
    const int i = c.choose(3, "factor");
    p[k] = TN[k] * F[i];
    any |= i;
  }
  const auto sat = sixth(c.choose(26, "position"), 4, 0, 8e6, 6e3);
  check(c, sat, sixth(18, 22, 0, 1.4e11, 2.9e4), p, !any);
}
/* distances and speeds from the atmosphere to beyond the stationary orbit */
static void orbits(mc::Ctx &c) {
  const double r = 6.4e6 * std::pow(1.2, c.choose(14, "radius")), v = std::pow(2., c.choose(16, "speed"));
  const int i = c.choose(26, "position"), j = c.choose(26, "velocity");
  const double R = c.pick<double>({1.47e11, 1.52e11, 7e11}, "Sun");
  check(c, sixth(i, j, 0, r, v), sixth((i + j) % 26, (i + 5 * j) % 26, 0, R, 3e4), TN, true);
}
/* each of the inputs changes, or does not, from one request to the next */
static void inputs(mc::Ctx &c) {
  mc::inputs(c, 8, [&](int b) {
    const auto sat0 = sixth(b & 1 ? 3 : 18, b & 2 ? 8 : 22, 0, 7e6, 7e3), sun0 = sixth(b & 4 ? 5 : 19, b & 8 ? 1 : 20, 0, 1.5e11, 3e4);
    ld p[6];
    for (int k = 0; k < 6; k++)
      p[k] = TN[k] * (b >> (k < 3 ? 4 + k : 7) & 1 ? 1.5L : 1);
    check(c, sat0, sun0, p, false);
  });
}
/* requests that differ by little, or in one input */
static void near(mc::Ctx &c) {
  mc::neighbours(c, {4e6, -3e6, 5e6, 4e3, 5.5e3, -3e3, 1.1e11, -0.9e11, 0.4e11, 2e4, 2.2e4, 1e3, (double)TN[0], (double)TN[1], (double)TN[2], (double)TN[3], (double)TN[4], (double)TN[5]}, [&](const std::vector<double> &x) {
    if (!x[12] || !x[15])
      c.prune();
    Eigen::Matrix<double, 6, 1> sat, sun;
    ld p[6];
    for (int k = 0; k < 6; k++) {
      sat(k) = x[(std::size_t)k], sun(k) = x[(std::size_t)k + 6];
      p[k] = x[(std::size_t)k + 12];
    }
    check(c, sat, sun, p, false);
  });
}
int main(int a, char **b) { return mc::run(a, b, {{"terms", terms, 2}, {"arguments", arguments, 2}, {"orbits", orbits, 2}, {"inputs", inputs, 2}, {"near", near, 1}}); }
