#include "fcn_ref.hpp"
using Coef = dso::fcn::LambertCoefficients;
/* Conventions (2010), Table 5.2c: MJD, Xc, Xs, Sx in microarcseconds */
static const double T52C[][4] = {
    {45700, 4.55, -36.58, 19.72},    {46066, -141.82, -105.35, 11.12}, {46431, -246.56, -170.21, 9.47},
    {46796, -281.89, -159.24, 8.65}, {47161, -255.05, -43.58, 8.11},   {47527, -210.46, -88.56, 7.31},
    {47892, -187.79, -57.35, 6.41},  {48257, -163.01, 26.26, 5.52},    {48622, -145.53, 44.65, 4.80},
    {48988, -145.12, 51.49, 5.95},   {49353, -109.93, 16.87, 9.45},    {49718, -87.30, 5.36, 8.25},
    {50083, -90.61, 1.52, 7.67},     {50449, -94.73, 35.35, 4.40},     {50814, -67.52, 27.57, 3.40},
    {51179, -44.11, -14.31, 3.45},   {51544, 5.21, -74.87, 3.26},      {51910, 70.37, -129.66, 2.86},
    {52275, 86.47, -127.84, 2.75},   {52640, 110.44, -42.73, 2.59},    {53005, 114.78, -0.13, 2.53},
    {53371, 132.96, -4.78, 2.72},    {53736, 157.36, 28.63, 2.19},     {54101, 160.40, 58.87, 1.87},
    {54466, 156.76, 101.24, 1.74},   {54832, 142.99, 143.01, 1.89},    {55197, 33.70, 184.46, 1.95},
    {55562, 0.76, 253.70, 1.14},     {55927, 25.47, 271.66, 1.07},     {56293, 113.42, 256.50, 1.86}};
static const int N52C = sizeof T52C / sizeof *T52C;
/* seconds since MJD 0 */
static ld secs(const dso::MjdEpoch &t) { return t.imjd() * 86400.L + t.seconds().seconds(); }
static void expect(mc::Ctx &c, const dso::fcn::FcnResult &g, const dso::MjdEpoch &t, const std::vector<Coef> &v) {
  const ld s = secs(t);
  ld a, b, u;
  if (s <= secs(v.front().t)) {
    a = v.front().real, b = v.front().imag;
    u = v.front().sigma + .3L * (secs(v.front().t) - s) / 86400;
  } else if (s >= secs(v.back().t)) {
    a = v.back().real, b = v.back().imag;
    u = v.back().sigma + .3L * (s - secs(v.back().t)) / 86400;
  } else {
    std::size_t i = 0;
    while (!(s >= secs(v[i].t) && s < secs(v[i + 1].t)))
      ++i;
    const ld f = (s - secs(v[i].t)) / (secs(v[i + 1].t) - secs(v[i].t));
    a = v[i].real + (ld)(v[i + 1].real - v[i].real) * f;
    b = v[i].imag + (ld)(v[i + 1].imag - v[i].imag) * f;
    u = v[i].sigma + (ld)(v[i + 1].sigma - v[i].sigma) * f;
  }
  const ld phi = 2 * acosl(-1.L) / -430.21L * (s / 86400 - 51544.5L);
  const ld want[4] = {a * cosl(phi) - b * sinl(phi), b * cosl(phi) + a * sinl(phi), 2 * u, 2 * u};
  const double got[4] = {g.xcip, g.ycip, g.sxcip, g.sycip};
  static const char *what[] = {"x", "y", "sigma x", "sigma y"};
  for (int i = 0; i < 4; i++)
    if (!(fabsl(got[i] - want[i]) <= 1e-9L * (fabsl(a) + fabsl(b) + fabsl(u) + 1)))
      c.fail(what[i], "%s is %.12f instead of %.12Lf", what[i], got[i], want[i]);
  c.checked(4);
}
static const int OFF[] = {-86400, -1, 0, 1, 43200, 86399};
/* the table of the Conventions, every day of it or every tenth */
static void conventions(mc::Ctx &c) {
  const auto v = dso::fcn::load_iers10_table52c();
  if ((int)v.size() != N52C)
    c.fail("table", "%zu rows", v.size());
  for (int i = 0; i < N52C; i++)
    if (secs(v[(std::size_t)i].t) != T52C[i][0] * 86400 || v[(std::size_t)i].real != T52C[i][1] ||
        v[(std::size_t)i].imag != T52C[i][2] || v[(std::size_t)i].sigma != T52C[i][3])
      c.fail("table", "row %d differs", i);
  const int step = c.thorough() ? 1 : 10;
  const int d = 43000 + step * c.choose(18000 / step, "day"), o = c.choose(6, "second");
  const dso::MjdEpoch t(d, dso::FractionalSeconds(OFF[o]));
  const auto r = dso::lambert_fcn(t);
  expect(c, r, t, v);
  const auto q = dso::lambert_fcn(t, v);
  auto far = [](double u, double v) { return !(std::fabs(u - v) <= 1e-10 * (1 + std::fabs(v))); };
  if (far(q.xcip, r.xcip) || far(q.ycip, r.ycip) || far(q.sxcip, r.sxcip) || far(q.sycip, r.sycip))
    c.fail("same", "the table of the Conventions gives two results");
  /* the test case of the Conventions' FCNNUT */
  if (d == 54790 && OFF[o] == 0 &&
      !(std::fabs(r.xcip + 176.8012290066270680) < 1e-9 && std::fabs(r.ycip + 93.51855308903756736) < 1e-9 &&
        std::fabs(r.sxcip - 3.745573770491803067) < 1e-9 && std::fabs(r.sycip - 3.745573770491803067) < 1e-9))
    c.fail("fcnnut", "the test case of FCNNUT is not met");
  c.state(mc::mix((std::uint64_t)d, 1));
}
/* around every date of the table */
static void knots(mc::Ctx &c) {
  const auto v = dso::fcn::load_iers10_table52c();
  const int i = c.choose(N52C, "row"), o = c.choose(6, "second");
  const dso::MjdEpoch t((long)T52C[i][0], dso::FractionalSeconds(OFF[o]));
  expect(c, dso::lambert_fcn(t), t, v);
  c.state(mc::mix((std::uint64_t)i, (std::uint64_t)o));
}
/* every table of up to four rows out of a few values and distances */
static void tables(mc::Ctx &c) {
  const int n = 1 + c.choose(4, "rows");
  std::vector<Coef> v;
  static const double GAP[] = {182.6, 1, 365, 3000.25};
  static const double VAL[][3] = {{100, -30, 5}, {-220.93, 0, 0}, {0, 271.66, 12.5}, {-7, -8, 1}};
  ld day = 45708.25L;
  for (int i = 0; i < n; i++) {
    if (i)
      day += GAP[c.choose(c.thorough() ? 4 : 3, "gap")];
    const double *x = VAL[c.choose(4, "value")];
    const long d = (long)floorl(day);
    v.emplace_back(dso::MjdEpoch(d, dso::FractionalSeconds((double)((day - d) * 86400))), x[0], x[1], x[2]);
  }
  const auto w = v;
  /* at, around and between the dates, and before and after all */
  for (int i = -1; i <= n; i++)
    for (int k = 0; k < 6; k++) {
      const auto &b = i < 0 ? v.front().t : i == n ? v.back().t : v[(std::size_t)i].t;
      const double more = i < 0 ? -86400. * 5000 * (k + 1) : i == n ? 86400. * 5000 * (k + 1) : OFF[k];
      const long dd = (long)std::floor(more / 86400);
      const dso::MjdEpoch t(b.imjd() + dd, dso::FractionalSeconds(b.seconds().seconds() + (more - dd * 86400.)));
      expect(c, dso::lambert_fcn(t, v), t, w);
    }
  c.state(mc::mix((std::uint64_t)n, mc::bits((double)day)));
}
/* tables of many rows */
static void many(mc::Ctx &c) {
  static const int N[] = {5, 31, 81, 200, 1000};
  const int n = N[c.choose(5, "rows")], gap = std::vector<int>{1, 18, 182}[(std::size_t)c.choose(3, "gap")];
  std::vector<Coef> v;
  for (int i = 0; i < n; i++)
    v.emplace_back(dso::MjdEpoch(45708 + i * gap + (gap > 1 ? i % 7 : 0), dso::FractionalSeconds((i * 5 % 10) * 8640.)),
                   -220.93 + (i * 37 % 441), 210.75 - (i * 53 % 400), (i % 90) * .25);
  const auto w = v;
  const int k = c.choose(6, "second"), step = std::max(1, n / 64);
  for (int i = 0; i < n; i += step) {
    dso::MjdEpoch t = v[(std::size_t)i].t;
    const double more = t.seconds().seconds() + OFF[k];
    const long d = (long)std::floor(more / 86400);
    t = dso::MjdEpoch(t.imjd() + d, dso::FractionalSeconds(more - d * 86400.));
    expect(c, dso::lambert_fcn(t, v), t, w);
  }
  c.state(mc::mix((std::uint64_t)(n * 200 + gap), (std::uint64_t)k));
}
static void nothing(mc::Ctx &c) {
  const int d = 43000 + 100 * c.choose(180, "day");
  const auto r = dso::lambert_fcn(dso::MjdEpoch(d), {});
  if (!std::isnan(r.xcip) || !std::isnan(r.ycip) || !std::isnan(r.sxcip) || !std::isnan(r.sycip))
    c.fail("nothing", "no coefficients give a result");
  c.checked();
  c.state((std::uint64_t)d);
}
/* each of the inputs changes, or does not, from one request to the next */
static void inputs(mc::Ctx &c) {
  mc::inputs(c, 5, [&](int b) {
    std::vector<Coef> v;
    v.emplace_back(dso::MjdEpoch(50000), b & 1 ? 100 : -30, -7, 5);
    v.emplace_back(dso::MjdEpoch(b & 2 ? 50300 : 50365), 12, b & 4 ? -8 : 20, 3);
    const dso::MjdEpoch t(b & 8 ? 50100 : 50200, dso::FractionalSeconds(b & 16 ? 43200 : 0));
    expect(c, dso::lambert_fcn(t, v), t, v);
    expect(c, dso::lambert_fcn(t), t, dso::fcn::load_iers10_table52c());
  });
}
/* requests that differ by little, or in one input */
static void near(mc::Ctx &c) {
  std::vector<Coef> v;
  v.emplace_back(dso::MjdEpoch(45708, dso::FractionalSeconds(8640.)), -220.93, 33.5, 5.);
  v.emplace_back(dso::MjdEpoch(45890, dso::FractionalSeconds(0.)), -150.25, 21.5, 4.);
  v.emplace_back(dso::MjdEpoch(46100, dso::FractionalSeconds(43200.)), 17.75, -60.5, 3.);
  const int d = std::vector<int>{45500, 45708, 45800, 45890, 46000, 46100, 46500}[(std::size_t)c.choose(7, "day")], k = c.choose(3, "row");
  mc::neighbours(c, {50000.25, v[(std::size_t)k].xc(), v[(std::size_t)k].xs(), v[(std::size_t)k].sx()}, [&](const std::vector<double> &x) {
    if (x[0] < 0 || x[3] < 0)
      c.prune();
    auto w = v;
    w[(std::size_t)k] = Coef(v[(std::size_t)k].t, x[1], x[2], x[3]);
    const dso::MjdEpoch t(d, dso::FractionalSeconds(x[0]));
    expect(c, dso::lambert_fcn(t, w), t, w);
  });
}
int main(int argc, char **argv) {
  return mc::run(argc, argv,
                 {{"conventions", conventions, 1}, {"knots", knots, 1}, {"tables", tables, 3}, {"many", many, 2}, {"nothing", nothing, 1}, {"inputs", inputs, 1}, {"near", near, 1}});
}
