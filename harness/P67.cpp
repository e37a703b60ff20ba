#include "pole_ref.hpp"
struct Grid {
  double x0, dx;
  int nx;
  double y0, dy;
  int ny;
  bool global() const { return std::fabs(nx * dx - 360) < 1e-6; }
};
static const Grid GRID[] = {{22.5, 45, 8, -67.5, 45, 4}, {0, 60, 6, -90, 60, 4},    {-180, 40, 9, -80, 40, 5},
                            {10, 5, 4, 35, 2.5, 3},      {15, 30, 12, -0.3, 0.1, 7}, {-150, 120, 3, -60, 60, 3},
                            {350, 5, 4, -5, 5, 3},
                            /* almost around */
                            {0, 30, 11, -40, 20, 4},     {-170, 20, 15, -30, 30, 3}, {5, 10, 35, 40, 10, 3}};
static const int NG = 10;
/* the six coefficients of a node */
static void node(int ix, int iy, double *v) {
  for (int k = 0; k < 6; k++)
    v[k] = 0.001 * ((ix * 7 + iy * 31 + k * 5 + ix * iy * (k + 1) + ix * ix * (3 - k)) % 1999 - 700 * (k & 1));
}
static std::vector<std::string> head(const Grid &g) {
  char b[8][128];
  std::snprintf(b[0], 128, "Number_longitude_Grid_Points = %9d", g.nx);
  std::snprintf(b[1], 128, "First_longitude_degrees      = %9.2f", g.x0);
  std::snprintf(b[2], 128, "Last_longitude_degrees       = %9.2f", g.x0 + (g.nx - 1) * g.dx);
  std::snprintf(b[3], 128, "Longitude_step_degrees       = %9.2f", g.dx);
  std::snprintf(b[4], 128, "Number_latitude_grid_points  = %9d", g.ny);
  std::snprintf(b[5], 128, "First_latitude_degrees       = %9.2f", g.y0);
  std::snprintf(b[6], 128, "Last_latitude_degrees        = %9.2f", g.y0 + (g.ny - 1) * g.dy);
  std::snprintf(b[7], 128, "Latitude_step_degrees        = %9.2f", g.dy);
  std::vector<std::string> l{"Ocean Pole Load Tide Deformation Parameters from Self-Consistent",
                             "Equilibrium Model of Ocean Pole Tide (Desai, 2002)",
                             "Deformation Parameters Generated by S. Desai on March 28, 2006: CM correction applied"};
  for (auto &x : b)
    l.push_back(x);
  l.push_back("Longitude   Latitude   u_r^R       u_r^I       u_n^R       u_n^I       u_e^R       u_e^I");
  l.push_back("(degrees)  (degrees)  (        )  (        )  (        )  (        )  (        )  (        )");
  l.push_back("-----------------------------------------------------------------------------------------");
  return l;
}
static const int NHEAD = 14;
static std::string row(const Grid &g, int ix, int iy) {
  double v[6];
  node(ix, iy, v);
  char b[200];
  std::snprintf(b, sizeof b, "%9.3f %9.3f %11.6f %11.6f %11.6f %11.6f %11.6f %11.6f", g.x0 + ix * g.dx, g.y0 + iy * g.dy,
                v[0], v[1], v[2], v[3], v[4], v[5]);
  return b;
}
static std::vector<std::string> lines(const Grid &g) {
  auto l = head(g);
  for (int y = 0; y < g.ny; y++)
    for (int x = 0; x < g.nx; x++)
      l.push_back(row(g, x, y));
  return l;
}
static std::string join(const std::vector<std::string> &l) {
  std::string t;
  for (auto &s : l)
    t += s + "\n";
  return t;
}
static std::vector<dso::SphericalCrd> at(std::initializer_list<std::pair<double, double>> d) {
  std::vector<dso::SphericalCrd> v;
  for (auto &p : d)
    v.emplace_back(6371e3, p.second * M_PI / 180, p.first * M_PI / 180);
  return v;
}
/* what bilinear interpolation gives at lon, lat [deg]; -1: outside, 1: inside, 0: at the border */
static int want(const Grid &g, double lon, double lat, ld *w) {
  ld x = fmodl((ld)lon - g.x0, 360);
  if (x < -1e-9)
    x += 360;
  const ld full = g.global() ? 360 : (g.nx - 1) * (ld)g.dx, y = (ld)lat - g.y0, h = (g.ny - 1) * (ld)g.dy;
  int r = 1;
  if (!g.global() && (fabsl(x - full) < 1e-9 || fabsl(x) < 1e-9 || fabsl(x - 360) < 1e-9))
    r = 0;
  else if (!g.global() && x > full)
    return -1;
  if (fabsl(y) < 1e-9 || fabsl(y - h) < 1e-9)
    r = r ? 0 : r;
  else if (y < 0 || y > h)
    return -1;
  int ix = (int)floorl(x / g.dx), iy = (int)floorl(y / g.dy);
  ix = ix < 0 ? 0 : ix > g.nx - 1 ? g.nx - 1 : ix;
  if (!g.global() && ix > g.nx - 2)
    ix = g.nx - 2;
  iy = iy < 0 ? 0 : iy > g.ny - 2 ? g.ny - 2 : iy;
  const ld a = x / g.dx - ix, b = y / g.dy - iy;
  double n[4][6];
  node(ix, iy, n[0]);
  node((ix + 1) % g.nx, iy, n[1]);
  node(ix, iy + 1, n[2]);
  node((ix + 1) % g.nx, iy + 1, n[3]);
  for (int k = 0; k < 6; k++)
    w[k] = (1 - a) * (1 - b) * n[0][k] + a * (1 - b) * n[1][k] + (1 - a) * b * n[2][k] + a * b * n[3][k];
  return r;
}
static void compare(mc::Ctx &c, const dso::OceanPoleTideDesaiCoeffs &o, const ld *w, double lon, double lat) {
  const double g[] = {o.rR, o.rI, o.nR, o.nI, o.eR, o.eI};
  static const char *N[] = {"rR", "rI", "nR", "nI", "eR", "eI"};
  for (int k = 0; k < 6; k++)
    if (!near(g[k], w[k], 1e-9L))
      c.fail("coefficient", "%s at %.3f %.3f is %.9f instead of %.9Lf", N[k], lon, lat, g[k], w[k]);
  c.checked(6);
}
/* all cells of all grids: places at the quarters of each, in any turn of the longitude */
static void cells(mc::Ctx &c) {
  const Grid &g = GRID[c.choose(NG, "grid")];
  const int q = c.thorough() ? 4 : 2;
  const int nx = g.global() ? g.nx * q : (g.nx + 2) * q;
  const int ix = c.choose(nx, "x") - (g.global() ? 0 : q), iy = c.choose((g.ny + 1) * q, "y") - q;
  const double lon = g.x0 + g.dx * ix / q + 360 * (c.choose(3, "turn") - 1), lat = g.y0 + g.dy * iy / q;
  std::vector<dso::OceanPoleTideDesaiCoeffs> v;
  ld w[6];
  const int r = want(g, lon, lat, w);
  const int e = dso::get_desai_ocp_deformation_coeffs(spot(c, join(lines(g))).c_str(), at({{lon, lat}}), v);
  if (r == 1 && e)
    c.fail("refused", "nothing at %.3f %.3f", lon, lat);
  if (r == -1 && !e)
    c.fail("outside", "something at %.3f %.3f, outside of the grid", lon, lat);
  if (!e) {
    if (v.size() != 1)
      c.fail("size", "%zu results for one place", v.size());
    compare(c, v[0], w, lon, lat);
  }
  c.checked();
  c.state(mc::mix(mc::mix((std::uint64_t)(ix + 10), (std::uint64_t)(iy + 10)), mc::bits(g.x0)));
}
/* lists of places: one result for each, in their order */
static void sites(mc::Ctx &c) {
  static const double S[][2] = {{30, 10}, {-20, -40}, {170, 44.5}, {-170, -10}, {10, 66}, {30, -66}, {30, 10.5}};
  const int n = c.choose(c.thorough() ? 6 : 5, "places");
  const Grid &g = GRID[0];
  std::vector<int> k;
  std::vector<dso::SphericalCrd> s;
  for (int i = 0; i < n; i++) {
    k.push_back(c.choose(7, "place"));
    s.emplace_back(6371e3, S[k.back()][1] * M_PI / 180, S[k.back()][0] * M_PI / 180);
  }
  std::vector<dso::OceanPoleTideDesaiCoeffs> v(c.flag("used before") ? 3 : 0);
  static std::string fn;
  fn = spot(c, join(lines(g)));
  if (dso::get_desai_ocp_deformation_coeffs(fn.c_str(), s, v))
    c.fail("refused", "no result for %d places", n);
  if ((int)v.size() != n)
    c.fail("size", "%zu results for %d places", v.size(), n);
  std::uint64_t h = 0;
  for (int i = 0; i < n; i++) {
    ld w[6];
    want(g, S[k[(std::size_t)i]][0], S[k[(std::size_t)i]][1], w);
    compare(c, v[(std::size_t)i], w, S[k[(std::size_t)i]][0], S[k[(std::size_t)i]][1]);
    h = mc::mix(h, (std::uint64_t)k[(std::size_t)i]);
  }
  c.state(h);
}
/* many places, all around */
static void crowd(mc::Ctx &c) {
  static const int N[] = {17, 64, 100, 1000};
  const Grid &g = GRID[c.choose(4, "grid") * 2 % 7];
  const int n = N[c.choose(4, "places")], step = 1 + 2 * c.choose(6, "stride");
  std::vector<std::pair<double, double>> p;
  std::vector<dso::SphericalCrd> s;
  for (int i = 0; i < n; i++) {
    const int k = (int)((long)i * step * 37 % 997);
    const double span = g.global() ? 360 : (g.nx - 1) * g.dx;
    p.push_back({g.x0 + span * (0.001 + 0.998 * (k % 31) / 31.), g.y0 + (g.ny - 1) * g.dy * (0.001 + 0.998 * (k % 29) / 29.)});
    s.emplace_back(6371e3, p.back().second * M_PI / 180, p.back().first * M_PI / 180);
  }
  std::vector<dso::OceanPoleTideDesaiCoeffs> v;
  if (dso::get_desai_ocp_deformation_coeffs(spot(c, join(lines(g))).c_str(), s, v) || (int)v.size() != n)
    c.fail("refused", "%zu results for %d places", v.size(), n);
  for (int i = 0; i < n; i++) {
    ld w[6];
    want(g, p[(std::size_t)i].first, p[(std::size_t)i].second, w);
    compare(c, v[(std::size_t)i], w, p[(std::size_t)i].first, p[(std::size_t)i].second);
  }
  c.state(mc::mix((std::uint64_t)n, (std::uint64_t)step));
}
/* the grid as published: half a degree */
static void fine(mc::Ctx &c) {
  const Grid g{0.25, 0.5, 720, -89.75, 0.5, 360};
  static const double X[] = {-179.99, -0.1, 0.1, 0.25, 23.6, 179.75, 180, -90.3, 359.8, 359.7},
                      Y[] = {-89.7, -45.1, 0.05, 0.3, 71.25, 89.7};
  static std::string text = join(lines(g));
  std::vector<std::pair<double, double>> p;
  const int x = c.choose(10, "x"), y = c.choose(6, "y");
  std::vector<dso::OceanPoleTideDesaiCoeffs> v;
  const auto s = at({{X[x], Y[y]}, {X[(x + 3) % 10], Y[(y + 5) % 6]}, {X[(x + 7) % 10], Y[(y + 2) % 6]}});
  if (dso::get_desai_ocp_deformation_coeffs(spot(c, text).c_str(), s, v) || v.size() != 3)
    c.fail("refused", "nothing at %.3f %.3f", X[x], Y[y]);
  static const int DX[] = {0, 3, 7}, DY[] = {0, 5, 2};
  for (int i = 0; i < 3; i++) {
    ld w[6];
    const double a = X[(x + DX[i]) % 10], b = Y[(y + DY[i]) % 6];
    want(g, a, b, w);
    compare(c, v[(std::size_t)i], w, a, b);
  }
  c.state(mc::mix((std::uint64_t)x, (std::uint64_t)y));
}
/* finer grids than the published one */
static void finer(mc::Ctx &c) {
  static const Grid F[] = {{0, 0.02, 18000, -0.5, 0.5, 3}, {20, 0.5, 3, -90, 0.02, 9001}};
  static const std::string text[] = {join(lines(F[0])), join(lines(F[1]))};
  const int k = c.choose(2, "grid");
  const Grid &g = F[k];
  const double f = 0.0005 + c.choose(20, "x") / 20., h = 0.0003 + c.choose(20, "y") / 20.;
  const double lon = g.x0 + f * (g.nx - 1) * g.dx, lat = g.y0 + h * (g.ny - 1) * g.dy;
  std::vector<dso::OceanPoleTideDesaiCoeffs> v;
  if (dso::get_desai_ocp_deformation_coeffs(spot(c, text[k]).c_str(), at({{lon, lat}}), v) || v.size() != 1)
    c.fail("refused", "nothing at %.3f %.3f", lon, lat);
  ld w[6];
  want(g, lon, lat, w);
  compare(c, v[0], w, lon, lat);
  c.state(mc::mix(mc::bits(lon), mc::bits(lat)));
}
/* damage is reported */
static void damaged(mc::Ctx &c) {
  const Grid &g = GRID[0];
  auto l = lines(g);
  const int kind = c.choose(10, "damage");
  /* in the last cell that uses these nodes: x 2..3, y 1..2 */
  const auto s = at({{g.x0 + 2.5 * g.dx, g.y0 + 1.5 * g.dy}});
  const int used[] = {NHEAD + 1 * 8 + 2, NHEAD + 1 * 8 + 3, NHEAD + 2 * 8 + 2, NHEAD + 2 * 8 + 3};
  std::string fn, t;
  switch (kind) {
  case 0: { /* a line of the header is missing */
    const int k = c.choose(10, "line");
    l.erase(l.begin() + 3 + k);
    break;
  }
  case 1: { /* no, or no useful, value in the header */
    const int k = 3 + c.choose(8, "line");
    std::string &x = l[(std::size_t)k];
    const std::size_t e = x.find('=');
    static const char *J[] = {"", "=", "= x", "= -", "   12", "= ********", "= nan", "=    "};
    x = x.substr(0, e) + J[c.choose(8, "junk")];
    break;
  }
  case 2: { /* the numbers do not make a grid */
    const int k = 3 + c.choose(8, "line");
    std::string &x = l[(std::size_t)k];
    const std::size_t e = x.find('=');
    static const char *J[] = {"= 0", "= -1", "= 17", "= 1", "= -45", "= 100000000000000", "= 7"};
    x = x.substr(0, e) + J[c.choose(7, "number")];
    break;
  }
  case 3: { /* keywords */
    const int k = 3 + c.choose(10, "line");
    l[(std::size_t)k][(std::size_t)c.choose(3, "letter") * 4 + 1] = '#';
    break;
  }
  case 4: { /* a value of a node that is used */
    std::string &x = l[(std::size_t)used[c.choose(4, "node")]];
    const int f = c.choose(8, "value");
    std::size_t p = 0;
    for (int i = 0; i <= f; i++) {
      p = x.find_first_not_of(' ', p);
      if (i < f)
        p = x.find(' ', p);
    }
    static const char *J[] = {"x", "*****", "-", "."};
    const int j = c.choose(5, "junk");
    if (j == 4)
      x.resize(p);
    else
      x.replace(p, std::min(x.find(' ', p), x.size()) - p, J[j]);
    break;
  }
  case 5: { /* the nodes are others: a line twice, or missing */
    const int k = NHEAD + c.choose(8 + 4, "line");
    if (k > used[0])
      c.prune();
    if (c.flag("twice"))
      l.insert(l.begin() + k, l[(std::size_t)k]);
    else
      l.erase(l.begin() + k);
    break;
  }
  case 6: { /* cut */
    t = join(l);
    std::size_t last = 0;
    for (int i = 0; i < used[3]; i++)
      last += l[(std::size_t)i].size() + 1;
    last += l[(std::size_t)used[3]].size() - 12;
    const int n = (int)last;
    t.resize((std::size_t)(n - 1 - c.choose(n, "bytes")));
    break;
  }
  case 7:
    fn = c.flag("directory") ? c.tmpdir : c.tmpdir + "/nothing-here";
    break;
  case 8: { /* a record of another place */
    std::string &x = l[(std::size_t)used[c.choose(4, "node")]];
    const bool lat = c.flag("latitude");
    static const double D[] = {-1, -0.5, -0.1, 0.1, 0.5, 1, 2, 8};
    char b[16];
    std::snprintf(b, sizeof b, "%9.3f", std::atof(x.c_str() + (lat ? 10 : 0)) + 45 * D[c.choose(8, "steps")]);
    x.replace(lat ? 10 : 0, 9, b);
    break;
  }
  case 9: { /* in other order */
    const int i = c.choose(4, "node"), j = c.choose(4 * 8, "line");
    if (used[i] == NHEAD + j)
      c.prune();
    std::swap(l[(std::size_t)used[i]], l[(std::size_t)(NHEAD + j)]);
    break;
  }
  }
  if (kind != 6)
    t = join(l);
  if (fn.empty())
    fn = spot(c, t);
  std::vector<dso::OceanPoleTideDesaiCoeffs> v;
  if (!dso::get_desai_ocp_deformation_coeffs(fn.c_str(), s, v))
    c.fail("damage", "a damaged file gives coefficients");
  c.checked();
  c.state(mc::mix((std::uint64_t)kind, (std::uint64_t)t.size()));
}
static void displaced(mc::Ctx &c, const dso::CartesianCrd &x, const Date &d, double xp, double yp,
                      const dso::OceanPoleTideDesaiCoeffs &o, double lon, double lat, double Re, double GM, double om,
                      double G, double ge) {
  const Wobble w = wobble(d, xp, yp);
  const ld as = PI_L / 180 / 3600, gr = 0.6870L, gi = 0.0036L;
  const ld fr = (w.m1 * gr + w.m2 * gi) * as, fi = (w.m2 * gr - w.m1 * gi) * as;
  const ld Hp = sqrtl(8 * PI_L / 15) * (ld)om * om * Re * Re * Re * Re / GM;
  const ld K = 4 * PI_L * G * Re * 1025 * Hp / (3 * (ld)ge);
  const ld U = K * (fr * o.rR + fi * o.rI), N = K * (fr * o.nR + fi * o.nI), E = K * (fr * o.eR + fi * o.eI);
  const ld sf = sinl((ld)lat), cf = cosl((ld)lat), sl = sinl((ld)lon), cl = cosl((ld)lon);
  const ld X = U * cf * cl - N * sf * cl - E * sl, Y = U * cf * sl - N * sf * sl + E * cl, Z = U * sf + N * cf;
  const ld tol = 1e-12L * fabsl(K) * as;
  if (!near(x.x(), X, tol) || !near(x.y(), Y, tol) || !near(x.z(), Z, tol))
    c.fail("displacement", "at %.4f %.4f %.10e %.10e %.10e m instead of %.10Le %.10Le %.10Le", lon, lat, x.x(), x.y(),
           x.z(), X, Y, Z);
  c.checked();
  c.state(mc::mix(mc::bits(x.x()), mc::bits(x.z())));
}
/* eq. 7.29 of the conventions */
static void displacement(mc::Ctx &c) {
  static const double POLE[][2] = {{0.2, 0.1}, {-0.35, 0.6}, {0.055, 0.0205}, {0.455, 0.3205}};
  const Date d = c.flag("2020") ? Date{58849, 100.5} : Date{51544, 43200};
  const int p = c.choose(4, "pole"), k = c.choose(8, "coefficients");
  const int n = c.thorough() ? 12 : 6;
  const int i = c.choose(2 * n + 1, "longitude") - n, j = c.choose(n + 1, "latitude") - n / 2;
  const double lon = M_PI * i / n, lat = M_PI * j / n;
  dso::OceanPoleTideDesaiCoeffs o{0, 0, 0, 0, 0, 0};
  double *f[] = {&o.rR, &o.rI, &o.nR, &o.nI, &o.eR, &o.eI};
  if (k < 6)
    *f[k] = 0.7;
  else
    o = k == 6 ? dso::OceanPoleTideDesaiCoeffs{-0.1, 0.2, 0.03, -0.04, 0.05, 0.06}
               : dso::OceanPoleTideDesaiCoeffs{1, 1, 1, 1, 1, 1};
  double Re = 6378136.6, GM = 3.986004418e14, om = 7.2921151467064e-5, G = 6.67428e-11, ge = 9.7803278;
  const dso::SphericalCrd s(Re, lat, lon);
  dso::CartesianCrd x;
  switch (c.choose(4, "constants")) {
  case 0:
    x = dso::OceanPoleTide::deformation(d.t(), POLE[p][0], POLE[p][1], s, o);
    break;
  case 1:
    Re = 6371e3, GM = 4e14;
    x = dso::OceanPoleTide::deformation(d.t(), POLE[p][0], POLE[p][1], s, o, Re, GM);
    break;
  case 2:
    om = 8e-5;
    x = dso::OceanPoleTide::deformation(d.t(), POLE[p][0], POLE[p][1], s, o, Re, GM, om);
    break;
  default:
    G = 7e-11, ge = 10;
    x = dso::OceanPoleTide::deformation(d.t(), POLE[p][0], POLE[p][1], s, o, Re, GM, om, G, ge);
  }
  displaced(c, x, d, POLE[p][0], POLE[p][1], o, lon, lat, Re, GM, om, G, ge);
}
/* each of the inputs changes, or does not, from one request to the next */
static void inputs(mc::Ctx &c) {
  mc::inputs(c, 8, [&](int b) {
    const Date d{b & 1 ? 58849 : 51544, 100.5};
    const double xp = b & 2 ? 0.2 : -0.35, yp = b & 4 ? 0.1 : 0.6, lon = b & 8 ? 1.1 : -2.3, lat = b & 16 ? 0.4 : -0.9;
    const double u = b & 32 ? 0.7 : -0.2, v = b & 64 ? 0.3 : -0.6, k = b & 128 ? 1 : 1.01;
    const dso::OceanPoleTideDesaiCoeffs o{u, v, v - 1, u / 2, -v, u + v};
    const double Re = 6378136.6 * k, GM = 3.986004418e14 * k, om = 7.2921151467064e-5 * k, G = 6.67428e-11 * k, ge = 9.7803278 * k;
    displaced(c, dso::OceanPoleTide::deformation(d.t(), xp, yp, dso::SphericalCrd(6378136.6, lat, lon), o, Re, GM, om, G, ge), d,
              xp, yp, o, lon, lat, Re, GM, om, G, ge);
  });
}
/* requests that differ by little, or in one input */
static void neighbouring(mc::Ctx &c) {
  mc::neighbours(c, {43200.25, 0.2, -0.35, 1.1, 0.4, 0.7, -0.2, 0.3, -0.6, 0.25, 0.45, 6378136.6, 3.986004418e14, 7.2921151467064e-5, 6.67428e-11, 9.7803278}, [&](const std::vector<double> &x) {
    if (!x[12] || !x[15] || !x[11])
      c.prune(); /* these divide */
    const Date d{58849, x[0]};
    const dso::OceanPoleTideDesaiCoeffs o{x[5], x[6], x[7], x[8], x[9], x[10]};
    displaced(c, dso::OceanPoleTide::deformation(d.t(), x[1], x[2], dso::SphericalCrd(6378136.6, x[4], x[3]), o, x[11], x[12], x[13], x[14], x[15]), d,
              x[1], x[2], o, x[3], x[4], x[11], x[12], x[13], x[14], x[15]);
  });
}
int main(int a, char **b) {
  return mc::run(a, b, {{"cells", cells, 2}, {"sites", sites, 3}, {"crowd", crowd, 2}, {"fine", fine, 2}, {"finer", finer, 2}, {"damaged", damaged, 3},
                        {"displacement", displacement, 3}, {"inputs", inputs, 2}, {"near", neighbouring, 1}});
}
