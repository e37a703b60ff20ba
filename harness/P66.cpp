#include "love_table.hpp"
#include "pole_ref.hpp"
typedef dso::CoeffMatrix2D<dso::MatrixStorageType::LwTriangularColWise> Mx;
static const char *HEAD = "  n   m     Anm(Real)      Bnm(Real)      Anm(Imaginary) Bnm(Imaginary)";
struct Row {
  int n, m;
  double v[4]; /* AR BR AI BI */
};
static Row row(int n, int m) {
  const double s = 1. / (1 << (n % 7));
  return {n, m, {s * (1 + n * 0.25 - m * 0.5), -s * (3 + m * 2.5), s * (n * 0.125 + 7.25), s * (-11 + n - 0.0625 * m)}};
}
static std::string line_of(const Row &r, int style) {
  static const char *F[] = {"%4d%4d %18.9e %18.9e %18.9e %18.9e", "%d %d %.12f %.12f %.12f %.12f",
                            "   %d   %d %46.10e   %46.10e %46.10e   %.10e   "};
  char b[256];
  std::snprintf(b, sizeof b, F[style], r.n, r.m, r.v[0], r.v[1], r.v[2], r.v[3]);
  return b;
}
/* records of degree 1 to N, in one of several orders */
static std::string text_of(int N, int order, int style) {
  std::vector<std::string> l;
  if (order == 1) { /* by order */
    for (int m = 0; m <= N; m++)
      for (int n = m ? m : 1; n <= N; n++)
        l.push_back(line_of(row(n, m), style));
  } else {
    for (int n = 1; n <= N; n++)
      for (int m = 0; m <= n; m++)
        l.push_back(line_of(row(n, m), style));
    if (order == 2)
      std::reverse(l.begin(), l.end());
  }
  std::string t = std::string(HEAD) + "\n";
  for (auto &s : l)
    t += s + "\n";
  return t;
}
/* every degree and order asked of every file */
static void table(mc::Ctx &c) {
  static const int BIG[] = {360, 361, 1000};
  const int N = c.choose(6, "degree of the file");
  auto size = [&](const char *w) {
    const int k = c.choose(12, w);
    return k < 9 ? k - 2 : BIG[k - 9];
  };
  const int D = size("degree"), O = size("order");
  /* the largest size once only */
  const bool big = D == 360;
  const int order = big ? N % 3 : c.choose(3, "sequence"), style = big ? D % 3 : c.choose(3, "layout");
  const bool open = !big && c.flag("no final newline");
  std::string t = text_of(N, order, style);
  if (open)
    t.pop_back();
  Mx M[4] = {Mx(0, 0), Mx(0, 0), Mx(0, 0), Mx(0, 0)};
  if (!big && c.flag("used before"))
    for (auto &x : M) {
      x.resize(5, 5);
      x.fill_with(99e0);
    }
  /* AR AI BR BI */
  const int e = dso::pole_tide_details::parse_desai02_coeffs(spot(c, t).c_str(), D, O, M[0], M[1], M[2], M[3]);
  const bool ok = O >= 0 && O <= D && D <= 360;
  if ((e == 0) != ok)
    c.fail("range", "degree %d order %d returned %d", D, O, e);
  c.checked();
  if (ok)
    for (int n = 0; n <= D; n++)
      for (int m = 0; m <= n; m++) {
        Row w{n, m, {0, 0, 0, 0}};
        if (n && n <= N && m <= O)
          w = row(n, m);
        if (!near(M[0](n, m), w.v[0], 1e-8) || !near(M[2](n, m), w.v[1], 1e-8) || !near(M[1](n, m), w.v[2], 1e-8) ||
            !near(M[3](n, m), w.v[3], 1e-8))
          c.fail("value", "%d,%d is %g %g %g %g", n, m, M[0](n, m), M[2](n, m), M[1](n, m), M[3](n, m));
        c.checked();
      }
  c.state(mc::mix((std::uint64_t)(D + 3), (std::uint64_t)(O + 3)));
}
struct Consts {
  double om = 7.2921151467064e-5, G = 6.67428e-11, ge = 9.7803278;
};
/* (6.23a) of the conventions */
static void expect(mc::Ctx &c, const dso::StokesCoeffs &s, int D, int O, int maxD, int maxO, const Date &d, double xp,
                   double yp, const Consts &k, int stride = 1) {
  const Wobble w = wobble(d, xp, yp);
  const ld as = PI_L / 180 / 3600, gr = 0.6870L, gi = 0.0036L;
  const ld fr = (w.m1 * gr + w.m2 * gi) * as, fi = (w.m2 * gr - w.m1 * gi) * as;
  const ld Re = s.Re(), GM = s.GM();
  const ld R = (ld)k.om * k.om * Re * Re * Re * Re / GM * 4 * PI_L * (ld)k.G * 1025 / k.ge;
  if (s.max_degree() != maxD || s.max_order() != maxO)
    c.fail("size", "coefficients up to %d,%d in a model of %d,%d", s.max_degree(), s.max_order(), maxD, maxO);
  for (int n = 0; n <= maxD; n++)
    for (int m = 0; m <= n && m <= maxO; m++) {
      if (stride > 1 && n != m && m != maxO && n < maxD - 1 && m > 2 && (n * 7 + m) % stride)
        continue;
      ld C = 0, S = 0, sz = 0;
      if (n && n <= D && m <= O) {
        const Row r = row(n, m);
        const ld f = R * (1 + KN[n]) / (2 * n + 1);
        C = f * (r.v[0] * fr + r.v[2] * fi);
        S = f * (r.v[1] * fr + r.v[3] * fi);
        sz = fabsl(f) * (fabsl(r.v[0] * fr) + fabsl(r.v[2] * fi) + fabsl(r.v[1] * fr) + fabsl(r.v[3] * fi));
      }
      if (!near(s.C(n, m), C, 3e-12L * sz) || !near(s.S(n, m), S, 3e-12L * sz))
        c.fail("coefficient", "%d,%d is %.14e %.14e instead of %.14Le %.14Le (degree %d order %d)", n, m, s.C(n, m),
               s.S(n, m), C, S, D, O);
      c.checked();
    }
}
static const Date DATE[] = {{51544, 43200}, {58849, 100.5}};
static const double POLE[][2] = {{0.2, 0.1}, {-0.35, 0.6}, {0.055, 0.0205}};
/* requests one after another of one model */
static void history(mc::Ctx &c) {
  static const int SIZE[][2] = {{4, 4}, {4, 2}, {3, 0}, {1, 1}, {0, 0}};
  const int sz = c.choose(6, "model");
  const int MD = sz == 5 ? 2 : SIZE[sz][0], MO = sz == 5 ? 2 : SIZE[sz][1];
  const std::string f = spot(c, text_of(6, 0, 1));
  dso::OceanPoleTide p = sz == 5 ? dso::OceanPoleTide()
                         : (MD == MO && c.flag("short form")) ? dso::OceanPoleTide(MD, f.c_str())
                                                              : dso::OceanPoleTide(MD, MO, f.c_str());
  if (p.max_degree() != MD || p.max_order() != MO)
    c.fail("size", "a model of degree %d order %d says %d %d", MD, MO, p.max_degree(), p.max_order());
  if (c.flag("other planet")) {
    p.stokes_coeffs().Re() = 6371e3;
    p.stokes_coeffs().GM() = 4e14;
  }
  int lD = -1, lO = -1, ld_ = 0, lp = 0;
  Consts lk;
  const int depth = c.thorough() ? 3 : 2;
  for (int i = 0; i < depth; i++) {
    /* the last but few, the last all */
    static const int FEW[] = {-1, 1, 2, 4};
    const bool last = i == depth - 1;
    const int D = last ? c.choose(7, "degree") - 1 : FEW[c.choose(4, "degree")],
              O = last ? c.choose(7, "order") - 1 : FEW[c.choose(4, "order")], pole = c.choose(2, "pole") * (1 + i % 2);
    Consts k;
    const bool def = (i < depth - 1 && depth > 2) || !c.flag("constants");
    if (!def)
      k = {7.3e-5 + 1e-6 * i, 6.7e-11, 9.8 + i};
    const Date d = DATE[i % 2];
    const int e = (def && D == -1 && O == -1)
                      ? p.stokes_coeffs(d.t(), POLE[pole][0], POLE[pole][1])
                      : p.stokes_coeffs(d.t(), POLE[pole][0], POLE[pole][1], D, O, k.om, k.G, k.ge);
    const int d_ = D < 0 ? MD : D, o_ = O < 0 ? MO : O;
    const bool ok = sz != 5 && d_ <= MD && o_ <= MO && o_ <= d_;
    if ((e == 0) != ok)
      c.fail("request", "degree %d order %d of a model of %d %d returned %d", D, O, MD, MO, e);
    if (ok)
      lD = d_, lO = o_, ld_ = i % 2, lp = pole, lk = k;
    /* what is there is of the last request that was met */
    if (lD >= 0)
      expect(c, p.stokes_coeffs(), lD, lO, MD, MO, DATE[ld_], POLE[lp][0], POLE[lp][1], lk);
    c.state(mc::mix(mc::mix((std::uint64_t)(lD + 2), (std::uint64_t)(lO + 2)), mc::mix((std::uint64_t)lp, (std::uint64_t)sz)));
  }
}
/* every coefficient of the full model */
static void full(mc::Ctx &c) {
  static const int D[] = {360, 359, 100};
  const int k = c.choose(c.thorough() ? 3 : 2, "degree"), pole = c.choose(3, "pole");
  const std::string f = spot(c, text_of(D[k], 0, 1));
  dso::OceanPoleTide p = D[k] == 360 ? dso::OceanPoleTide(f.c_str()) : dso::OceanPoleTide(D[k], f.c_str());
  if (p.max_degree() != D[k] || p.max_order() != D[k])
    c.fail("size", "a model of degree %d says %d %d", D[k], p.max_degree(), p.max_order());
  if (p.stokes_coeffs(DATE[1].t(), POLE[pole][0], POLE[pole][1]))
    c.fail("full", "the full model is not computed");
  expect(c, p.stokes_coeffs(), D[k], D[k], D[k], D[k], DATE[1], POLE[pole][0], POLE[pole][1], Consts());
  /* then only a part of it */
  const int m = c.choose(4, "order") * 50, n = m + 7;
  if (p.stokes_coeffs(DATE[0].t(), POLE[0][0], POLE[0][1], n, m) != (n > D[k]))
    c.fail("part", "a part of the model is not computed");
  if (n <= D[k])
    expect(c, p.stokes_coeffs(), n, m, D[k], D[k], DATE[0], POLE[0][0], POLE[0][1], Consts(), 5);
  c.state(mc::mix((std::uint64_t)k, (std::uint64_t)pole));
}
/* a damaged file makes no model */
static void damaged(mc::Ctx &c) {
  const int N = 2, kind = c.choose(6, "damage"), style = c.choose(3, "layout");
  std::string t = text_of(N, 0, style), fn;
  std::vector<std::string> l;
  for (std::size_t i = 0; i < t.size();) {
    const std::size_t e = t.find('\n', i);
    l.push_back(t.substr(i, e - i));
    i = e + 1;
  }
  const int at = 1 + c.choose((int)l.size() - 1, "line");
  std::string &s = l[(std::size_t)at];
  std::vector<std::pair<std::size_t, std::size_t>> tk;
  for (std::size_t i = 0; i < s.size();) {
    if (s[i] == ' ') {
      ++i;
      continue;
    }
    const std::size_t b = i;
    while (i < s.size() && s[i] != ' ')
      ++i;
    tk.emplace_back(b, i - b);
  }
  switch (kind) {
  case 0: {
    static const char *J[] = {"x", "*****", "-", ".", "--1", "e5", "#1"};
    const auto k = tk[(std::size_t)c.choose(6, "value")];
    s.replace(k.first, k.second, J[c.choose(7, "junk")]);
    break;
  }
  case 1: {
    const int k = c.choose(6, "values kept");
    s.resize(k ? tk[(std::size_t)k - 1].first + tk[(std::size_t)k - 1].second : 0);
    break;
  }
  case 2: { /* no such degree or order */
    static const char *J[] = {"-1 0", "2 3", "1 -1", "-2 -2", "0 1", "-1 -3", "2 99999"};
    const std::size_t e = tk[1].first + tk[1].second;
    s.replace(0, e, J[c.choose(7, "degree and order")]);
    break;
  }
  case 3: { /* the header is another one */
    if (at > 1)
      c.prune();
    static const char *J[] = {"", "n m", "  n   m     Bnm(Real)      Anm(Real)      Anm(Imaginary) Bnm(Imaginary)",
                              "  n   m     Anm(Real)      Bnm(Real)      Anm(Imaginary) Bnm(Imaginary) x",
                              "  n   m     Anm(Real)      Bnm(Real)      Anm(Imaginary) Bnm(Imaginary"};
    l[0] = J[c.choose(5, "header")];
    break;
  }
  case 4: /* a line that does not end */
    s += std::string(300, c.flag("digits") ? '7' : ' ');
    break;
  case 5:
    if (at > 1)
      c.prune();
    fn = c.flag("directory") ? c.tmpdir : c.tmpdir + "/nothing-here";
    break;
  }
  t.clear();
  for (auto &x : l)
    t += x + "\n";
  if (fn.empty())
    fn = spot(c, t);
  const int D = 1 + c.choose(2, "degree");
  Mx M[4] = {Mx(3, 3), Mx(3, 3), Mx(3, 3), Mx(3, 3)};
  if (!dso::pole_tide_details::parse_desai02_coeffs(fn.c_str(), D, D, M[0], M[1], M[2], M[3]))
    c.fail("damage", "a damaged file is read (degree %d)", D);
  bool thrown = false;
  try {
    dso::OceanPoleTide p(D, fn.c_str());
  } catch (std::exception &) {
    thrown = true;
  }
  if (!thrown)
    c.fail("damage", "a damaged file makes a model of degree %d", D);
  c.checked(2);
  c.state(mc::mix((std::uint64_t)kind, (std::uint64_t)at));
}
/* each of the inputs changes, or does not, from one request to the next */
static void inputs(mc::Ctx &c) {
  const std::string f = spot(c, text_of(6, 0, 1));
  dso::OceanPoleTide p[2] = {dso::OceanPoleTide(3, f.c_str()), dso::OceanPoleTide(3, f.c_str())};
  const int two = c.choose(2, "models");
  static const double P[][2] = {{0.2, 0.1}, {-0.35, 0.1}, {0.2, 0.6}, {-0.35, 0.6}};
  int n = 0;
  mc::inputs(c, 8, [&](int b) {
    Consts k;
    if (b & 1)
      k = {7.3e-5, 6.7e-11, 9.9};
    const Date d{b & 2 ? 58849 : 51544, b & 4 ? 100.5 : 43200};
    const int D = b & 8 ? 2 : 3, O = b & 16 ? 1 : 2;
    auto &x = p[two ? n++ % 2 : 0];
    x.stokes_coeffs().Re() = b & 128 ? 6371e3 : 6378136.6;
    x.stokes_coeffs().GM() = b & 128 ? 4e14 : 3.986004418e14;
    const double *q = P[b >> 5 & 3];
    if (x.stokes_coeffs(d.t(), q[0], q[1], D, O, k.om, k.G, k.ge))
      c.fail("request", "degree %d order %d was refused", D, O);
    expect(c, x.stokes_coeffs(), D, O, 3, 3, d, q[0], q[1], k);
  }, !c.thorough());
}
/* requests that differ by little, or in one input */
static void neighbouring(mc::Ctx &c) {
  const std::string f = spot(c, text_of(6, 0, 1));
  dso::OceanPoleTide p[2] = {dso::OceanPoleTide(3, f.c_str()), dso::OceanPoleTide(3, f.c_str())};
  const int two = c.choose(2, "models");
  int n = 0;
  mc::neighbours(c, {43200.25, 0.2, -0.35, 7.3e-5, 6.7e-11, 9.9, 6371e3, 4e14}, [&](const std::vector<double> &x) {
    if (!x[5] || !x[7])
      c.prune(); /* these divide */
    const Consts k = {x[3], x[4], x[5]};
    const Date d{58849, x[0]};
    auto &q = p[two ? n++ % 2 : 0];
    q.stokes_coeffs().Re() = x[6];
    q.stokes_coeffs().GM() = x[7];
    if (q.stokes_coeffs(d.t(), x[1], x[2], 3, 2, k.om, k.G, k.ge))
      c.fail("request", "degree 3 order 2 was refused");
    expect(c, q.stokes_coeffs(), 3, 2, 3, 3, d, x[1], x[2], k);
  });
}
int main(int a, char **b) {
  return mc::run(a, b, {{"table", table, 3}, {"history", history, 4}, {"full", full, 3}, {"damaged", damaged, 3}, {"inputs", inputs, 2}, {"near", neighbouring, 2}});
}
