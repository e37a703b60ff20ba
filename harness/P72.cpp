#include "rot_cmp.hpp"
namespace d = dso::detail;
static const ld TOL = 1e-14L;
static const double CIP[] = {0., 1e-3, -2e-3, 0.05, -0.3, 1e-9, -4e-7, 2e-5};
static const double ANG[] = {0., 0.7, 2.9, 4.4, 6.1, -1.2, 3.14159265358979312};
static const double POLE[] = {0., 2e-6, -1e-6, 0.4, -1.1};
static const double SMALL[] = {0., -1e-8, 0.3, -2.};
/* pole of the GCRS: all ways to write it */
static void cip(mc::Ctx &c) {
  const int n = c.thorough() ? 41 : 13;
  const double x = (c.choose(n, "X") - n / 2) * (0.62 / (n / 2)), y = (c.choose(n, "Y") - n / 2) * (0.62 / (n / 2));
  const double scale = std::vector<double>{1, 1e-3, 1e-6}[(std::size_t)c.choose(3, "scale")];
  const double s = ANG[c.choose(7, "s")], X = x * scale, Y = y * scale;
  double dd = 9, ee = 9;
  d::xycip2spherical(X, Y, dd, ee);
  if (!(fabsl(sinl(dd) * cosl(ee) - X) <= 1e-15L && fabsl(sinl(dd) * sinl(ee) - Y) <= 1e-15L && dd >= 0 && dd < 1.5))
    c.fail("spherical", "X = %g and Y = %g give d = %.17g and E = %.17g", X, Y, dd, ee);
  const Mat want = ref_Q(X, Y, s).t();
  turn(c, "C", Eigen::Quaterniond(d::C(X, Y, s)), want, TOL);
  turn(c, "C as quaternion", d::C_qimpl(X, Y, s), want, TOL);
  /* the matrix is a development in X and Y, of fourth order */
  const ld r2 = (ld)X * X + (ld)Y * Y;
  same(c, "C of X and Y", Eigen::Matrix3d(d::C_rxyimpl(X, Y, s)), want, TOL + r2 * r2 * r2 / 4);
  c.checked();
  c.state(mc::mix(mc::bits(X), mc::bits(Y)));
}
/* all parts together, and one by one */
static void whole(mc::Ctx &c) {
  const double X = CIP[c.choose(c.thorough() ? 8 : 7, "X")], Y = CIP[c.choose(c.thorough() ? 8 : 7, "Y")];
  const double era = ANG[c.choose(7, "era")], s = SMALL[c.choose(4, "s")], sp = SMALL[c.choose(c.thorough() ? 4 : 3, "s'")];
  const double xp = POLE[c.choose(5, "xp")], yp = POLE[c.choose(5, "yp")];
  double dd, ee;
  d::xycip2spherical(X, Y, dd, ee);
  const Mat Q = ref_Q(X, Y, s), W = ref_W(xp, yp, sp), R = R3(-(ld)era);
  const Mat all = (Q * R * W).t();
  turn(c, "GCRS to ITRS", d::c2i(era, s, sp, dd, ee, xp, yp), all, TOL);
  turn(c, "GCRS to ITRS in one", d::gcrs2itrs_quaternion(era, s, sp, X, Y, xp, yp), all, TOL);
  const Eigen::Quaterniond a = d::c2tirs(era, s, dd, ee), b = d::tirs2i(xp, yp, sp);
  turn(c, "GCRS to TIRS", a, (Q * R).t(), TOL);
  turn(c, "TIRS to ITRS", b, W.t(), TOL);
  turn(c, "parts", b * a, all, TOL);
  c.state(mc::mix(mc::mix(mc::bits(X), mc::bits(Y)), mc::mix(mc::bits(era), mc::bits(xp))));
}
/* the rate of the rotation */
static void rate(mc::Ctx &c) {
  const int n = c.thorough() ? 720 : 180;
  const double a = c.choose(n, "era") * (4 * (double)LPI / n) - 2 * (double)LPI;
  const double lod = (c.choose(21, "lod") - 10) * 5e-4 + 1e-5;
  const ld want = 7.2921151467064e-5L * (1 - (ld)lod / 86400);
  const double w = dso::earth_rotation_rate(lod);
  if (!(fabsl(w - want) <= 1e-19L))
    c.fail("rate", "a length of day of %g s gives %.17g rad/s", lod, w);
  const Eigen::Vector3d v = dso::earth_rotation_axis(lod);
  if (v(0) != 0 || v(1) != 0 || !(std::fabs(v(2) - w) <= 1e-19))
    c.fail("axis", "the rotation vector is %g %g %g", v(0), v(1), v(2));
  for (double o : {1., w, -3.}) {
    Mat m = dR3(a);
    for (auto &r : m.m)
      for (ld &x : r)
        x *= o;
    same(c, "rate of R", d::dRdt(a, o), m, 1e-15L * std::fabs(o) * 4);
  }
  c.checked(2);
  c.state(mc::mix(mc::bits(a), mc::bits(lod)));
}
/* each of the inputs changes, or does not, from one request to the next */
static void inputs(mc::Ctx &c) {
  mc::inputs(c, 7, [&](int b) {
    const double X = b & 1 ? 1e-3 : -2e-3, Y = b & 2 ? 0.05 : -2e-4, era = b & 4 ? 0.7 : 4.4, s = b & 8 ? -1e-8 : 0.3,
                 sp = b & 16 ? -1e-8 : -2., xp = b & 32 ? 2e-6 : 0.4, yp = b & 64 ? -1e-6 : -1.1;
    double dd, ee;
    d::xycip2spherical(X, Y, dd, ee);
    const Mat Q = ref_Q(X, Y, s), W = ref_W(xp, yp, sp), R = R3(-(ld)era);
    const Mat all = (Q * R * W).t();
    turn(c, "C as quaternion", d::C_qimpl(X, Y, s), Q.t(), TOL);
    turn(c, "GCRS to ITRS", d::c2i(era, s, sp, dd, ee, xp, yp), all, TOL);
    turn(c, "GCRS to ITRS in one", d::gcrs2itrs_quaternion(era, s, sp, X, Y, xp, yp), all, TOL);
    turn(c, "GCRS to TIRS", d::c2tirs(era, s, dd, ee), (Q * R).t(), TOL);
    turn(c, "TIRS to ITRS", d::tirs2i(xp, yp, sp), W.t(), TOL);
  });
}
/* requests that differ by little, or in one input */
static void near(mc::Ctx &c) {
  mc::neighbours(c, {1e-3, -2e-4, 0.7, 0.3, -0.2, 0.4, -1.1}, [&](const std::vector<double> &x) {
    const double X = x[0], Y = x[1], era = x[2], s = x[3], sp = x[4], xp = x[5], yp = x[6];
    double dd, ee;
    d::xycip2spherical(X, Y, dd, ee);
    const Mat Q = ref_Q(X, Y, s), W = ref_W(xp, yp, sp), R = R3(-(ld)era);
    const Mat all = (Q * R * W).t();
    turn(c, "C as quaternion", d::C_qimpl(X, Y, s), Q.t(), TOL);
    turn(c, "GCRS to ITRS", d::c2i(era, s, sp, dd, ee, xp, yp), all, TOL);
    turn(c, "GCRS to ITRS in one", d::gcrs2itrs_quaternion(era, s, sp, X, Y, xp, yp), all, TOL);
    turn(c, "GCRS to TIRS", d::c2tirs(era, s, dd, ee), (Q * R).t(), TOL);
    turn(c, "TIRS to ITRS", d::tirs2i(xp, yp, sp), W.t(), TOL);
  });
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, {{"cip", cip, 2}, {"whole", whole, 3}, {"rate", rate, 1}, {"inputs", inputs, 1}, {"near", near, 1}});
}
