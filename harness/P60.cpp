#include "fcn_ref.hpp"
/* rows of a file: dates grow in steps of half a year or so */
static const Row POOL[] = {{45708, 0, -220.93, -147.19, 10.22}, {45890, 6, -219.08, -144.10, 9.76},
                           {46073, 2, 208.97, -103.48, 9.29},   {46255, 9, -213.49, 110.42, 8.63},
                           {46438, 5, 0, 0, 0},                 {46621, 1, -1e3, 1e-2, 1.5},
                           {51544, 5, 12, -3, 4},               {60310, 0, -0.01, 0.02, 100.25}};
static const int NP = 8;
static std::string line_of(const Row &r, int style) {
  char b[256];
  static const char *F[] = {"%.1f  %.1f   %.2f   %.2f     %.2f", "%8.1f%9.1f%10.2f%10.2f%10.2f",
                            "%.1f %.1f %.2f %.2f %.2f   ", " %.3f %.4f %.2f %.2f %.2f 17 extra",
                            "      %.1f          %.1f            %.2f             %.2f             %.2f",
                            "%.1f %.1f %.6e %.6e %.6e"};
  std::snprintf(b, sizeof b, F[style], 1984. + (r.day - 45708) / 365.25, r.day + r.tenths / 10., r.re, r.im, r.sg);
  return b;
}
static const int NSTYLE = 6;
static const char *HEAD[] = {"%           mjd     real     imag    sigma  (all in microas)", "%", "   % x", "%%%%"};
static void expect(mc::Ctx &c, const std::vector<dso::fcn::LambertCoefficients> &v, const std::vector<Row> &w) {
  if (v.size() != w.size())
    c.fail("rows", "%zu rows instead of %zu", v.size(), w.size());
  for (std::size_t i = 0; i < w.size(); i++) {
    const double s = (v[i].t.imjd() - w[i].day) * 86400. + v[i].t.seconds().seconds() - w[i].tenths * 8640.;
    if (!(std::fabs(s) < 1e-3))
      c.fail("date", "row %zu is %.6f s off", i, s);
    if (v[i].real != w[i].re || v[i].imag != w[i].im || v[i].sigma != w[i].sg)
      c.fail("value", "row %zu is %g %g %g instead of %g %g %g", i, v[i].real, v[i].imag, v[i].sigma, w[i].re, w[i].im,
             w[i].sg);
    if (v[i].xc() != w[i].re || v[i].xs() != w[i].im || v[i].yc() != w[i].im || v[i].ys() != -w[i].re ||
        v[i].sx() != w[i].sg || v[i].sy() != w[i].sg)
      c.fail("part", "row %zu has other parts than its coefficients", i);
    c.checked(3);
  }
}
/* every subset of the rows, every layout */
static void table(mc::Ctx &c) {
  const int set = c.choose(1 << NP, "rows"), style = c.choose(NSTYLE, "layout"), head = c.choose(4, "header");
  const bool open = c.flag("no final newline");
  std::string t = std::string(HEAD[head]) + "\n";
  std::vector<Row> w;
  const int order = c.choose(3, "order");
  for (int k = 0; k < NP; k++) {
    const int i = order == 0 ? k : order == 1 ? NP - 1 - k : k * 3 % NP;
    if (set >> i & 1) {
      w.push_back(POOL[i]);
      t += line_of(POOL[i], style) + "\n";
    }
  }
  if (open)
    t.pop_back();
  std::vector<dso::fcn::LambertCoefficients> v;
  if (c.flag("used before"))
    v.assign(3, {dso::MjdEpoch(50000), 1., 2., 3.});
  if (dso::parse_lambert_coefficients(spot(c, t).c_str(), v))
    c.fail("refused", "a well formed file is refused");
  expect(c, v, w);
  c.state(mc::mix((std::uint64_t)set, (std::uint64_t)style));
}
/* every range between the rows, including their dates and the days around */
static void range(mc::Ctx &c) {
  std::vector<dso::MjdEpoch> at{dso::MjdEpoch::min(), dso::MjdEpoch::max()};
  std::vector<ld> sec{-1e30L, 1e30L};
  for (int i = 0; i < NP; i++)
    for (int k = -1; k < 2; k++) {
      /* the date itself only where it is exact in binary */
      if (k == 0 && POOL[i].tenths % 5)
        continue;
      at.emplace_back(POOL[i].day, dso::FractionalSeconds(POOL[i].tenths * 8640. + k * 1.));
      sec.push_back(POOL[i].day * 86400.L + POOL[i].tenths * 8640.L + k);
    }
  const int f = c.choose((int)at.size(), "from"), t = c.choose((int)at.size(), "to"), set = c.choose(6, "rows");
  std::string text = std::string(HEAD[0]) + "\n";
  static const int SETS[] = {0xff, 0x55, 0xaa, 0x0f, 0xf0, 0x81};
  std::vector<Row> w;
  for (int i = 0; i < NP; i++)
    if (SETS[set] >> i & 1) {
      text += line_of(POOL[i], 0) + "\n";
      const ld s = POOL[i].day * 86400.L + POOL[i].tenths * 8640.L;
      if (s >= sec[(std::size_t)f] && s < sec[(std::size_t)t])
        w.push_back(POOL[i]);
    }
  std::vector<dso::fcn::LambertCoefficients> v;
  const int e = dso::parse_lambert_coefficients(spot(c, text).c_str(), at[(std::size_t)f], at[(std::size_t)t], v);
  const bool ok = sec[(std::size_t)f] <= sec[(std::size_t)t];
  if ((e == 0) != ok)
    c.fail("range", "the range %d to %d returned %d", f, t, e);
  if (ok)
    expect(c, v, w);
  c.checked();
  c.state(mc::mix((std::uint64_t)f, (std::uint64_t)t));
}
/* damage is reported */
static void damaged(mc::Ctx &c) {
  const int n = 1 + c.choose(3, "rows"), kind = c.choose(8, "damage"), style = c.choose(5, "layout");
  std::vector<std::string> l{HEAD[0]};
  for (int i = 0; i < n; i++)
    l.push_back(line_of(POOL[i], style == 3 ? 0 : style));
  std::string fn;
  const int at = 1 + c.choose(n, "line");
  std::string &s = l[(std::size_t)at];
  auto tokens = [&] {
    std::vector<std::pair<std::size_t, std::size_t>> v;
    for (std::size_t i = 0; i < s.size();) {
      if (s[i] == ' ') {
        ++i;
        continue;
      }
      const std::size_t b = i;
      while (i < s.size() && s[i] != ' ')
        ++i;
      v.emplace_back(b, i - b);
    }
    return v;
  }();
  switch (kind) {
  case 0: { /* a value is no number */
    const auto k = tokens[(std::size_t)c.choose(5, "value")];
    static const char *J[] = {"x", "-", ".", "*****", "--1", "e3", "#1.0", ",5"};
    s.replace(k.first, k.second, J[c.choose(8, "junk")]);
    break;
  }
  case 1: { /* a value, or several, are missing */
    const int k = c.choose(5, "values kept");
    s.resize(k ? tokens[(std::size_t)k].first : 0);
    break;
  }
  case 2: /* a line too long to be one */
    s.append(128 + (std::size_t)c.choose(3, "more") * 100, ' ');
    break;
  case 3: /* no header */
    l.erase(l.begin());
    break;
  case 4: {
    static const char *J[] = {"", "   ", "mjd %", "# mjd"};
    l[0] = J[c.choose(4, "header")];
    break;
  }
  case 5: /* longer than any table */
    for (int i = 0; i < 1000; i++)
      l.push_back(l[1]);
    break;
  case 6:
    fn = c.flag("folder") ? c.tmpdir : c.tmpdir + "/none.txt";
    break;
  default: /* empty */
    l.clear();
  }
  if (fn.empty()) {
    std::string t;
    for (auto &x : l)
      t += x + "\n";
    fn = spot(c, t);
  }
  std::vector<dso::fcn::LambertCoefficients> v;
  if (!dso::parse_lambert_coefficients(fn.c_str(), v))
    c.fail("accepted", "a damaged file was accepted (damage %d)", kind);
  c.checked();
  c.state(mc::mix((std::uint64_t)kind, (std::uint64_t)style));
}
/* every byte of a file replaced, every prefix: no harm, and what is not touched is what it was */
static void bytes(mc::Ctx &c) {
  std::string t = std::string(HEAD[0]) + "\n";
  std::size_t ends[3];
  for (int i = 0; i < 3; i++) {
    t += line_of(POOL[i], 1) + "\n";
    ends[i] = t.size();
  }
  const int at = c.choose((int)t.size(), "place"), k = c.choose(8, "replacement");
  static const char with[] = {'\0', '\n', ' ', '9', '-', 'e', '\xff'};
  if (k == 7)
    t.resize((std::size_t)at);
  else
    t[(std::size_t)at] = with[k];
  std::vector<dso::fcn::LambertCoefficients> v;
  const int e = dso::parse_lambert_coefficients(spot(c, t).c_str(), v);
  if (!e) {
    /* the lines before the damage */
    std::vector<Row> w;
    for (int i = 0; i < 3; i++)
      if (ends[i] <= (std::size_t)at)
        w.push_back(POOL[i]);
    if (v.size() < w.size())
      c.fail("lost", "rows before the damage are lost");
    v.erase(v.begin() + (long)w.size(), v.end());
    expect(c, v, w);
  }
  c.checked();
  c.state((std::uint64_t)at);
}
/* tables as long as the published one, which grows */
static void published(mc::Ctx &c) {
  static const int N[] = {45, 81, 82, 128, 300, 900};
  const int n = N[c.choose(6, "rows")], style = c.choose(NSTYLE, "layout"), how = c.choose(5, "range");
  std::string t = std::string(HEAD[0]) + "\n";
  std::vector<Row> w;
  for (int i = 0; i < n; i++) {
    const Row r{45708 + i * (n > 200 ? 18 : 182), (i * 5) % 10, (-22093 + (i * 37 % 441) * 100) / 100., 210.75 - (i * 53 % 400), (i % 90) * .25};
    t += line_of(r, style) + "\n";
    w.push_back(r);
  }
  std::vector<dso::fcn::LambertCoefficients> v;
  const std::string fn = spot(c, t);
  if (!how) {
    if (dso::parse_lambert_coefficients(fn.c_str(), v))
      c.fail("refused", "a well formed file of %d rows is refused", n);
  } else {
    /* from row a up to row b */
    const int a = std::vector<int>{0, n / 2, n - 1, 40}[(std::size_t)how - 1], b = std::min(n - 1, a + n / 3);
    auto at = [&](int i) { return dso::MjdEpoch(w[(std::size_t)i].day, dso::FractionalSeconds(w[(std::size_t)i].tenths * 8640.)); };
    if (dso::parse_lambert_coefficients(fn.c_str(), at(a), at(b), v))
      c.fail("refused", "rows %d to %d of %d are refused", a, b, n);
    w = std::vector<Row>(w.begin() + a, w.begin() + b);
  }
  expect(c, v, w);
  c.state(mc::mix((std::uint64_t)n, (std::uint64_t)(style * 8 + how)));
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, {{"table", table, 2}, {"range", range, 2}, {"damaged", damaged, 3}, {"bytes", bytes, 1}, {"published", published, 1}});
}
