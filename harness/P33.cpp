/* Tidal AOD1B products. */
#include "aod_ref.hpp"

struct Tide {
  int degree = 2, style = 0, order = 0;
  bool eol = true;
  const char *wave = "M2";
};
static std::string header(const Tide &f) {
  File g;
  g.degree = f.degree;
  std::string t = file_header(g);
  auto rep = [&](const char *key, const std::string &with) {
    const std::size_t a = t.find(key), b = t.find('\n', a) + 1;
    t.replace(a, b - a, with);
  };
  rep("TIME FIRST", head("TIME FIRST OBS (YEAR START)", "1976"));
  rep("TIME LAST", head("TIME LAST OBS (YEAR END)", "2015"));
  rep("PRESSURE TYPE", head("PRESSURE TYPE (ATM OR OCN)", "ATM"));
  rep("NUMBER OF DATA SETS", head("NUMBER OF DATA SETS", "2"));
  rep("END OF HEADER", head("PARTIAL TIDE", f.wave) + "END OF HEADER\n");
  return t;
}
static std::vector<std::string> data(const Tide &f) {
  std::vector<std::string> v;
  const auto lm = lm_of(f.degree, f.order);
  for (int k = 0; k < 2; k++) {
    char b[128];
    std::snprintf(b, sizeof b, "DATA SET %02d: %7d COEFFICIENTS OF TYPE %s\n", k + 1, (int)lm.size(), k ? "sin" : "cos");
    v.push_back(b);
    for (const auto &p : lm)
      v.push_back(data_line(p.first, p.second, coef(k, p.first, p.second, false), coef(k, p.first, p.second, true), f.style));
  }
  return v;
}
static std::string text(const Tide &f) {
  std::string t = header(f);
  for (auto &l : data(f))
    t += l;
  if (!f.eol)
    t.pop_back();
  return t;
}
static void requests(mc::Ctx &c) {
  Tide f;
  f.degree = c.choose(5, "degree of file");
  f.style = c.choose(4, "style");
  f.order = c.choose(3, "order of lines");
  f.eol = !c.flag("last line without end");
  const int L = f.degree;
  const int wl = c.choose(L + 3, "degree") - 1, wm = c.choose(wl < 0 ? L + 2 : wl + 3, "order") - 1;
  const int l = wl < 0 ? L : wl, m = wm < 0 ? l : wm;
  /* of either set: larger in degree or order, or smaller in one of them */
  const int extra = c.choose(9, "container");
  static const int DN[9][2] = {{0, 0}, {1, 2}, {2, 2}, {-1, -1}, {0, 0}, {0, 0}, {-1, 0}, {0, -1}, {3, 0}},
                   DM[9][2] = {{0, 0}, {0, 0}, {2, 0}, {0, 0}, {-1, 0}, {0, -1}, {0, 0}, {0, 0}, {1, 1}};
  int cl[2], cm[2];
  for (int k = 0; k < 2; k++) {
    cl[k] = std::max(0, l + DN[extra][k]);
    cm[k] = std::max(0, std::min(cl[k], m + DM[extra][k]));
  }
  StokesCoeffs cc(cl[0], cm[0], 1., 1.), ss(cl[1], cm[1], 1., 1.);
  dirty(cc);
  dirty(ss);
  dso::Aod1bIn a(write_file(c, text(f)).c_str());
  const bool ok = l <= L && m <= l && cl[0] >= l && cm[0] >= m && cl[1] >= l && cm[1] >= m;
  const int e = a.get_tidal_wave_coeffs(cc, ss, wl, wm);
  if ((e == 0) != ok)
    c.fail("request", "(%d,%d) of a file of degree %d into (%d,%d) returned %d", wl, wm, L, cl[0], cm[0], e);
  if (ok) {
    same(c, cc, 0, l, m, "cosine");
    same(c, ss, 1, l, m, "sine");
  }
  c.checked();
  c.state(mc::mix((std::uint64_t)(wl * 64 + wm * 8 + extra), (std::uint64_t)(L * 4 + f.style)));
}
static void damage(mc::Ctx &c) {
  Tide f;
  f.degree = 1;
  auto v = data(f);
  const int n = (int)v.size();
  const int kind = c.choose(6, "damage");
  bool bad = true;
  if (kind == 0) { /* any line missing, twice, or swapped with its neighbour */
    const int i = c.choose(n, "line");
    const int how = c.choose(2, "how");
    if (how == 0)
      v.erase(v.begin() + i);
    else
      v.insert(v.begin() + i, v[(std::size_t)i]);
  } else if (kind == 1) { /* cut short */
    const int i = c.choose(n, "line");
    std::string &s = v[(std::size_t)i];
    const int at = c.choose((int)s.size() - 1, "length");
    s = s.substr(0, (std::size_t)at) + "\n";
    /* a shorter last number or type is one, too */
    const std::size_t last = data(f)[(std::size_t)i].rfind(' ');
    if ((std::size_t)at > last + 1)
      bad = i % (n / 2) == 0;
  } else if (kind == 2) { /* impossible degree and order */
    static const char *lm[] = {"-1 0", "1 -1", "0 1", "-1 -1", "-9999 -9999", "1 2", "x 0", "0 x", "", "99999999999 0"};
    const int i = c.choose(n, "line");
    if (i % (n / 2) == 0)
      c.prune();
    v[(std::size_t)i] = std::string(lm[c.choose(10, "pair")]) + " 1 1\n";
  } else if (kind == 3) { /* the data set lines */
    static const char *s[] = {"DATA SET 01: COEFFICIENTS OF TYPE cos\n", "DATA SET 01: 3 COEFFICIENTS OF TYPE xxx\n",
                              "DATA SET 03: 3 COEFFICIENTS OF TYPE cos\n", "\n", "DATA", "DATA SET 01: -3 COEFFICIENTS OF TYPE cos\n",
                              "DATA SET 01: 4 COEFFICIENTS OF TYPE cos\n", "DATA SET 01: 2 COEFFICIENTS OF TYPE cos\n",
                              "DATA SET 02: 4 COEFFICIENTS OF TYPE sin\n", "DATA SET 02: 2 COEFFICIENTS OF TYPE sin\n"};
    v[c.flag("second") ? (std::size_t)n / 2 : 0] = s[c.choose(10, "line")];
  } else if (kind == 4) { /* a longer line than supported */
    const int i = c.choose(n, "line");
    v[(std::size_t)i].insert(v[(std::size_t)i].size() - 1, std::string((std::size_t)(124 + 100 * c.choose(2, "length")), ' '));
  } else { /* any byte */
    const int i = c.choose(n, "line");
    std::string &s = v[(std::size_t)i];
    s[(std::size_t)c.choose((int)s.size(), "place")] = "\n x-9\0.e\xff"[c.choose(9, "with")];
    bad = false;
  }
  std::string t = header(f);
  for (auto &l : v)
    t += l;
  StokesCoeffs cc(2, 2, 1., 1.), ss(2, 2, 1., 1.);
  dso::Aod1bIn a(write_file(c, t).c_str());
  const int e = a.get_tidal_wave_coeffs(cc, ss);
  if (bad && !e)
    c.fail("accepted", "a damaged product was accepted (damage %d): %s", kind, t.substr(t.find("END OF")).c_str());
  c.checked();
  c.state((std::uint64_t)kind);
}
/* the file is cut at any place */
static void cut(mc::Ctx &c) {
  Tide f;
  f.degree = 1;
  const std::string t = text(f);
  const std::size_t from = t.find("END OF HEADER") + 14;
  const std::size_t at = from + (std::size_t)c.choose((int)(t.size() - from), "length");
  dso::Aod1bIn a(write_file(c, t.substr(0, at)).c_str());
  StokesCoeffs cc(1, 1, 1., 1.), ss(1, 1, 1., 1.);
  const int e = a.get_tidal_wave_coeffs(cc, ss);
  /* up to the beginning of the last number */
  if (!e && at <= t.rfind(' ') + 1)
    c.fail("accepted", "a product cut after %zu of %zu bytes was accepted", at, t.size());
  c.checked();
  c.state(at);
}
/* the file vanishes */
static void vanished(mc::Ctx &c) {
  Tide f;
  const std::string fn = write_file(c, text(f));
  dso::Aod1bIn a(fn.c_str());
  if (c.flag("empty"))
    write_file(c, "");
  else
    std::remove(fn.c_str());
  StokesCoeffs cc(2, 2, 1., 1.), ss(2, 2, 1., 1.);
  if (!a.get_tidal_wave_coeffs(cc, ss))
    c.fail("accepted", "coefficients of a file that vanished");
  c.checked();
  c.state(1);
}
/* several requests, of two products, into the same containers */
static void history(mc::Ctx &c) {
  std::string fn[2];
  for (int k = 0; k < 2; k++) {
    Tide f;
    f.degree = 3 + k;
    f.wave = k ? "S2" : "M2";
    f.order = k;
    fn[k] = write_file(c, text(f), k ? "S2.asc" : "M2.asc");
  }
  dso::Aod1bIn a(fn[0].c_str()), b(fn[1].c_str());
  StokesCoeffs cc(4, 4, 1., 1.), ss(4, 4, 1., 1.);
  dirty(cc);
  dirty(ss);
  for (int k = 0; k < 3; k++) {
    const int who = c.choose(2, "product"), r = c.choose(4, "request"), L = 3 + who;
    static const int REQ[][2] = {{-1, -1}, {2, 1}, {5, 5}, {3, 3}};
    const int l = r ? REQ[r][0] : L, m = r ? REQ[r][1] : L;
    const int e = (who ? b : a).get_tidal_wave_coeffs(cc, ss, REQ[r][0], REQ[r][1]);
    if ((e != 0) != (r == 2))
      c.fail("request", "request (%d,%d) of a file of degree %d returned %d", REQ[r][0], REQ[r][1], L, e);
    if (!e) {
      same(c, cc, 0, l, m, "cosine");
      same(c, ss, 1, l, m, "sine");
    }
    c.checked();
    c.state(mc::mix((std::uint64_t)(who * 4 + r), (std::uint64_t)k));
  }
}
/* in full size */
static void published(mc::Ctx &c) {
  Tide f;
  f.degree = c.flag("release 6") ? 180 : 100;
  f.order = c.choose(3, "order of lines");
  static const int REQ[][2] = {{-1, -1}, {90, 90}, {99, 7}, {5, 0}};
  const int r = c.choose(4, "request");
  const int l = r ? REQ[r][0] : f.degree, m = r ? REQ[r][1] : f.degree;
  StokesCoeffs cc(f.degree, f.degree, 1., 1.), ss(f.degree, f.degree, 1., 1.);
  dirty(cc);
  dirty(ss);
  dso::Aod1bIn a(write_file(c, text(f)).c_str());
  const int e = a.get_tidal_wave_coeffs(cc, ss, REQ[r][0], REQ[r][1]);
  if (e)
    c.fail("request", "(%d,%d) of a file of degree %d returned %d", REQ[r][0], REQ[r][1], f.degree, e);
  same(c, cc, 0, l, m, "cosine");
  same(c, ss, 1, l, m, "sine");
  c.state((std::uint64_t)(f.degree * 16 + r * 3 + f.order));
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, {{"requests", requests, 4}, {"damage", damage, 2}, {"cut", cut, 1}, {"vanished", vanished, 1}, {"history", history, 3}, {"published", published, 2}});
}
