/* Third body acceleration and its Jacobian. */
#include "grav_ref.hpp"

static Jet var(ld x, int i) {
  Jet j;
  j.v = x;
  j.g[i] = 1;
  return j;
}
static void judge(mc::Ctx &c, const V3 &rr, const V3 &bb, double gm) {
  /* potential  GM (1/|r-b| - r.b/|b|^3), differentiated automatically */
  Jet d2;
  for (int i = 0; i < 3; i++) {
    Jet d = var((ld)rr(i) - bb(i), i);
    d2 = d2 + d * d;
  }
  const ld d = sqrtl(d2.v), B = sqrtl((ld)bb(0) * bb(0) + (ld)bb(1) * bb(1) +
                                      (ld)bb(2) * bb(2));
  const Jet u = chain(d2, 1 / d, -.5L / (d * d * d),
                      .75L / (d * d * d * d * d));
  const V3 a = dso::point_mass_acceleration(rr, bb, gm);
  M3 J = M3::Constant(1e0);
  const V3 a2 = dso::point_mass_acceleration(rr, bb, gm, J);
  const ld ta = 2e-14L * fabsl((ld)gm) * (1 / (d * d) + 1 / (B * B)) *
                    (1 + (rr.norm() + bb.norm()) / d),
           tj = 4e-14L * fabsl((ld)gm) / (d * d * d) * (1 + (rr.norm() + bb.norm()) / d);
  c.log("r=(%g,%g,%g) body=(%g,%g,%g) GM=%g", rr(0), rr(1), rr(2), bb(0), bb(1),
        bb(2), gm);
  for (int i = 0; i < 3; i++) {
    const ld want = gm * (u.g[i] - bb(i) / (B * B * B));
    if (!(fabsl(a(i) - want) <= ta))
      c.fail("acceleration", "component %d is %.17g and not %.17Lg", i, a(i),
             want);
    if (!(fabsl(a2(i) - want) <= ta))
      c.fail("acceleration",
             "component %d is %.17g and not %.17Lg when the Jacobian is "
             "computed too",
             i, a2(i), want);
    for (int j = 0; j < 3; j++) {
      const ld w = gm * u.h[i][j];
      if (!(fabsl(J(i, j) - w) <= tj))
        c.fail("jacobian", "(%d,%d) is %.17g and not %.17Lg", i, j, J(i, j), w);
    }
    c.checked(5);
  }
  c.state(mc::mix(mc::bits(a(0)), mc::bits(a(1))));
}
static void body(mc::Ctx &c) {
  static const std::vector<V3> sat = {
      V3(7e6, 0, 0), V3(-3e6, 5e6, 4e6), V3(0, 0, 7.2e6), V3(1e6, -2e6, -6.9e6),
      V3(0, -4.2164e7, 1e3), V3(1e-3, 6378e3, -1e6), V3(0, 0, 0),
      V3(-6.6e6, -6.6e6, -6.6e6)};
  static const std::vector<V3> cb = {
      V3(3.84e8, 1e6, -2e7),   V3(-1.2e11, 8e10, 3.5e10), V3(0, 0, 3.6e8),
      V3(-2e8, -3e8, 1e8),     V3(0, 1.5e11, 0),          V3(1e7, 1e7, 1e7),
      V3(-7.5e11, 1e11, -3e10), V3(8e6, 0, 0)};
  static const std::vector<double> gms = {4.9028e12, 1.32712442e20, 1e0, 0e0};
  const double unit = c.flag("km") ? 1e-3 : 1e0; /* any consistent unit */
  const V3 r = sat[c.choose((int)sat.size(), "satellite")] * unit;
  V3 b = cb[c.choose((int)cb.size(), "body")] * unit;
  const int perm = c.choose(6, "axes");
  static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2},
                              {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  const int sgn = c.choose(8, "signs");
  V3 rr, bb;
  for (int i = 0; i < 3; i++) {
    const double s = (sgn >> i & 1) ? -1e0 : 1e0;
    rr(i) = s * r(P[perm][i]);
    bb(i) = s * b(P[perm][i]);
  }
  const double gm =
      gms[c.choose((int)gms.size(), "GM")] * unit * unit * unit;
  judge(c, rr, bb, gm);
}
/* each of the inputs changes, or does not, from one request to the next */
static void inputs(mc::Ctx &c) {
  mc::inputs(c, 7, [&](int b) {
    const V3 r(b & 1 ? 7e6 : -3e6, b & 2 ? 5e6 : 1e6, b & 4 ? 4e6 : -2e6),
        o(b & 8 ? 3.84e8 : -2e8, b & 16 ? -3e8 : 1e6, b & 32 ? 1e8 : -2e7);
    judge(c, r, o, b & 64 ? 4.9028e12 : 1.3e20);
  });
}
/* requests that differ by little, or in one input */
static void near(mc::Ctx &c) {
  mc::neighbours(c, {7e6, -3e6, 1e6, 3.1e8, -2e8, 1e8, 4.9028e12}, [&](const std::vector<double> &x) {
    judge(c, V3(x[0], x[1], x[2]), V3(x[3], x[4], x[5]), x[6]);
  });
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, {{"third body", body, 3}, {"inputs", inputs, 1}, {"near", near, 1}});
}
