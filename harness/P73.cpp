#include "rot_cmp.hpp"
#include "iau.hpp"
/* seconds TAI - UTC, for the epochs below */
static ld tai_utc(int mjd) { return mjd >= 57754 ? 37 : mjd >= 57204 ? 36 : mjd >= 56109 ? 35 : mjd >= 54832 ? 34 : mjd >= 53736 ? 33 : mjd >= 51179 ? 32 : 0; }
static const int DAY[] = {51544, 52541, 53736, 54388, 55500, 57000, 59000, 60310, 54832, 54831};
static const double SEC[] = {100., 43200., 86399.999, 70.};
static dso::EopRecord record(mc::Ctx &c, bool few) {
  static const double XP[] = {0., 0.0349282, -0.2}, YP[] = {0., 0.4833163, -0.1}, DUT[] = {0., -0.072073685, 0.6},
                      LOD[] = {0., 0.0017, -0.001}, DX[] = {0., 0.000175, -0.5}, DY[] = {0., -0.0002265, 0.25};
  dso::EopRecord e;
  const int n = few ? 2 : 3;
  auto put = [&](double &x, const double *v, const char *what) { x = v[c.choose(n, what) + (few ? 1 : 0)]; };
  put(e.xp(), XP, "xp");
  put(e.yp(), YP, "yp");
  put(e.dut(), DUT, "dut");
  put(e.lod(), LOD, "lod");
  put(e.dX(), DX, "dX");
  put(e.dY(), DY, "dY");
  e.xp_rate() = 11, e.yp_rate() = 12, e.dat() = 13;
  return e;
}
static void check(mc::Ctx &c, int day, double sec, const dso::EopRecord &e) {
  const dso::MjdEpoch tt(day, dso::FractionalSeconds(sec));
  const ld t = cent(tt);
  ld a[14];
  ref_args(t, a);
  const ld u = AS2R * 1e-6L;
  ld X = series(CIP_X, a).at(POLY_X, t) * u, Y = series(CIP_Y, a).at(POLY_Y, t) * u;
  const ld s = series(CIP_S, a).at(POLY_S, t) * u - X * Y / 2;
  X += e.dX() * AS2R;
  Y += e.dY() * AS2R;
  /* UT1 */
  ld utc = day * 86400.L + sec - 32.184L - tai_utc(day);
  if (utc < day * 86400.L) /* still the day before */
    utc = day * 86400.L + sec - 32.184L - tai_utc(day - 1);
  const ld d = (utc + e.dut()) / 86400 - 51544.5L;
  const ld era = 2 * LPI * (0.7790572732640L + 0.00273781191135448L * d + fmodl(d, 1.L));
  const ld sp = -47e-6L * t * AS2R, xp = e.xp() * AS2R, yp = e.yp() * AS2R;
  const Mat Q = ref_Q(X, Y, s), W = ref_W(xp, yp, sp), all = (Q * R3(-era) * W).t();
  const ld tol = 3e-12L;
  const Eigen::Quaterniond q = dso::c2i06a(tt, e);
  turn(c, "c2i06a", q, all, tol);
  turn(c, "c2i06a_bz", dso::c2i06a_bz(tt, e), all, tol);
  Eigen::Matrix3d dm = Eigen::Matrix3d::Constant(77);
  const Eigen::Quaterniond q1 = dso::c2i06a(tt, e, dm);
  turn(c, "c2i06a with rate", q1, all, tol);
  if (!((q1.coeffs() - q.coeffs()).cwiseAbs().maxCoeff() < 1e-15))
    c.fail("same", "the rotation depends on the rate being asked for");
  const ld w = 7.2921151467064e-5L * (1 - (ld)e.lod() / 86400);
  Mat rate = W.t() * dR3(era) * Q.t();
  for (auto &r : rate.m)
    for (ld &x : r)
      x *= w;
  same(c, "rate of c2i06a", dm, rate, tol * w);
  Eigen::Quaterniond qa(9, 9, 9, 9), qb(9, 9, 9, 9);
  const Eigen::Vector3d om = dso::c2i06a(tt, e, qa, qb);
  turn(c, "GCRS to TIRS", qa, (Q * R3(-era)).t(), tol);
  turn(c, "TIRS to ITRS", qb, W.t(), tol);
  if (om(0) != 0 || om(1) != 0 || !(fabsl(om(2) - w) <= 1e-18L))
    c.fail("axis", "the rotation vector is %g %g %.17g", om(0), om(1), om(2));
  c.checked(2);
}
/* all combinations of parameters at an epoch */
static void parameters(mc::Ctx &c) {
  const int d = c.choose(c.thorough() ? 10 : 2, "day");
  const dso::EopRecord e = record(c, !c.thorough());
  check(c, DAY[d], SEC[1], e);
  c.state(mc::mix((std::uint64_t)d, mc::mix(mc::bits(e.xp()), mc::mix(mc::bits(e.dut()), mc::bits(e.dX())))));
}
/* epochs, some at the turn of a leap second */
static void epochs(mc::Ctx &c) {
  const int d = c.choose(10, "day"), s = c.choose(4, "second");
  dso::EopRecord e;
  e.xp() = 0.0349282, e.yp() = 0.4833163, e.dut() = -0.072073685, e.lod() = 0.0017, e.dX() = 0.000175, e.dY() = -0.0002265;
  check(c, DAY[d], SEC[s], e);
  c.state(mc::mix((std::uint64_t)d, (std::uint64_t)s));
}
/* the matrix of SOFA's cookbook "Tools for Earth attitude", section 5.6 (IAU 2006/2000A, X,Y series) */
static void sofa(mc::Ctx &c) {
  static const ld M[3][3] = {{+0.973104317697536L, +0.230363826239128L, -0.000703163481769L},
                             {-0.230363800456036L, +0.973104570632801L, +0.000118545368117L},
                             {+0.000711560162594L, +0.000046626402444L, +0.999999745754024L}};
  dso::EopRecord e;
  e.xp() = 0.0349282, e.yp() = 0.4833163, e.dut() = -0.072073685, e.lod() = 0, e.dX() = 0.0001750, e.dY() = -0.0002259;
  /* 2007 April 5, 12h UTC */
  const dso::MjdEpoch tt(54195, dso::FractionalSeconds(43200 + 33 + 32.184));
  Mat w;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      w.m[i][j] = M[i][j];
  same(c, "cookbook", (c.flag("bz") ? dso::c2i06a_bz(tt, e) : dso::c2i06a(tt, e)).toRotationMatrix(), w, 5e-12L);
  c.state(1);
}
/* each of the inputs changes, or does not, from one request to the next */
static void inputs(mc::Ctx &c) {
  mc::inputs(c, 8, [&](int b) {
    dso::EopRecord e;
    e.xp() = b & 1 ? 0.0349282 : -0.2, e.yp() = b & 2 ? 0.4833163 : -0.1, e.dut() = b & 4 ? -0.072073685 : 0.6;
    e.lod() = b & 8 ? 0.0017 : -0.001, e.dX() = b & 16 ? 0.000175 : -0.5, e.dY() = b & 32 ? -0.0002265 : 0.25;
    check(c, b & 64 ? 55500 : 59000, b & 128 ? 43200 : 100, e);
  }, !c.thorough());
}
/* requests that differ by little, or in one input */
static void near(mc::Ctx &c) {
  mc::neighbours(c, {43200.25, 0.0349282, 0.4833163, -0.072073685, 0.0017, 0.000175, -0.0002265}, [&](const std::vector<double> &x) {
    if (x[0] < 0)
      c.prune();
    dso::EopRecord e;
    e.xp() = x[1], e.yp() = x[2], e.dut() = x[3], e.lod() = x[4], e.dX() = x[5], e.dY() = x[6];
    check(c, 55500, x[0], e);
  });
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, {{"parameters", parameters, 3}, {"epochs", epochs, 1}, {"sofa", sofa, 1}, {"inputs", inputs, 2}, {"near", near, 1}});
}
