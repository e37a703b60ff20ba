/* Damaged ICGEM data, and requests that cannot be met. */
#include "icgem_ref.hpp"

static std::vector<Term> good_terms(bool v2) {
  std::vector<Term> t;
  t.push_back({GFC, 0, 0, 1., 0., T0[0], T1[1], 1.});
  t.push_back({GFCT, 2, 1, 1.5e-7, -2.5e-9, T0[0], T1[1], 1.});
  t.push_back({TRND, 2, 1, 1.5e-9, -2.5e-10, T0[0], T1[1], 1.});
  t.push_back({ASIN, 2, 1, 1.5e-9, -2.5e-10, T0[0], T1[1], .5});
  t.push_back({ACOS, 2, 1, 1.5e-9, -2.5e-10, T0[0], T1[1], 1.});
  if (!v2)
    for (Term &x : t)
      x.t0.hh = x.t0.mm = 0;
  return t;
}
static int parse(mc::Ctx &c, const std::string &text, bool used) {
  const std::string fn = write_file(c, text);
  dso::Icgem g(fn.c_str());
  dso::StokesCoeffs s = used ? dso::StokesCoeffs(7, 7, 0., 0.)
                             : dso::StokesCoeffs(0, 0, 0., 0.);
  return g.parse_data(EPOCH[1].when(), s);
}
/* one line is damaged, the others are not */
static void lines(mc::Ctx &c) {
  const bool v2 = c.flag("version 2");
  const int err = c.choose(2, "errors") * 3;
  const auto terms = good_terms(v2);
  const int at = c.choose((int)terms.size(), "line");
  Style s;
  s.errcols = ERRCOLS[err];
  std::vector<std::size_t> f;
  std::string bad = line_of(terms[(std::size_t)at], v2, s, &f);
  int expect = 1; /* an error; -1: no matter */
  const int kind = c.choose(7, "damage");
  if (kind == 0) { /* cut */
    const int cut = c.choose((int)bad.size(), "length");
    bad.resize((std::size_t)cut);
    if ((std::size_t)cut > f.back())
      expect = -1;
    /* with columns missing, one of the error columns may be taken instead */
    if (err && (terms[(std::size_t)at].key == ASIN ||
                terms[(std::size_t)at].key == ACOS) && !v2)
      expect = -1;
    if ((std::size_t)cut > f[3] && terms[(std::size_t)at].key == TRND && !v2)
      expect = -1;
    if (!cut) { /* an empty line is unknown, too */
      ;
    }
  } else if (kind == 1) { /* a field without any digit */
    const std::size_t k = (std::size_t)c.choose((int)f.size(), "field");
    std::size_t end = bad.find(' ', f[k]);
    if (end == std::string::npos)
      end = bad.size();
    static const char *junk[] = {"x", "-", "*****", "."};
    bad.replace(f[k], end - f[k], junk[c.choose(4, "junk")]);
  } else if (kind == 2) { /* another keyword */
    static const char *k[] = {"gfcx", "GFC ", "xxxx", "    ", " gfc", "#gfc"};
    bad.replace(0, 4, k[c.choose(6, "keyword")]);
  } else if (kind == 3) { /* no such term */
    static const char *nm[] = {"-1 0", "2 -1", "1 2", "0 5", "-3 -3"};
    bad.replace(f[0], f[2] - 1 - f[0], nm[c.choose(5, "term")]);
  } else if (kind == 4) { /* a longer line than supported */
    static const int n[] = {256, 257, 300, 1000};
    bad += std::string((std::size_t)n[c.choose(4, "length")] - bad.size(), ' ');
  } else if (kind == 5) { /* a character replaced: no harm */
    static const char with[] = {'\0', ' ', '9', '-', '.', 'e', '\t', '\xff'};
    bad[(std::size_t)c.choose((int)bad.size(), "place")] =
        with[c.choose(8, "character")];
    expect = -1;
  } else { /* as long as supported is fine */
    bad += std::string((std::size_t)(253 + c.choose(3, "length")) - bad.size(),
                       ' ');
    expect = 0;
  }
  std::string text = header(v2, err, 5);
  for (std::size_t i = 0; i < terms.size(); i++)
    text += (i == (std::size_t)at ? bad : line_of(terms[i], v2, s)) + "\n";
  const int e = parse(c, text, c.flag("used coefficients"));
  if (expect >= 0 && (e != 0) != expect)
    c.fail(expect ? "accepted" : "refused", "line [%.200s] (damage %d): parsing "
           "returned %d", bad.c_str(), kind, e);
  c.checked();
  c.state(mc::mix((std::uint64_t)(kind * 8 + at), v2));
}
/* dates are complete, or wrong */
static void dates(mc::Ctx &c) {
  const bool v2 = c.flag("version 2");
  std::string good = T0[1].str(v2);
  const int k = c.choose(2, "damage");
  if (k == 0)
    good.resize((std::size_t)c.choose((int)good.size(), "length"));
  else
    good[(std::size_t)c.choose((int)good.size(), "place")] =
        "x- +/:\t"[c.choose(7, "character")];
  std::unique_ptr<char[]> p(new char[good.size() + 1]);
  std::memcpy(p.get(), good.c_str(), good.size() + 1);
  When t;
  const char *end;
  const int e = v2 ? dso::resolve_icgem_data_date_v2(p.get(), t, end)
                   : dso::resolve_icgem_data_date_v1(p.get(), t, end);
  if (!e)
    c.fail("date", "date [%s] was accepted", good.c_str());
  c.checked();
  c.state(mc::mix((std::uint64_t)k, good.size()));
}
static void good_dates(mc::Ctx &c) {
  const bool v2 = c.flag("version 2");
  Date d{c.pick(std::vector<int>{1900, 1997, 2000, 2004, 2050, 9999}, "year"),
         1 + c.choose(12, "month"),
         c.pick(std::vector<int>{1, 9, 10, 28}, "day"), 0, 0};
  if (v2) {
    d.hh = c.pick(std::vector<int>{0, 9, 23}, "hour");
    d.mm = c.pick(std::vector<int>{0, 9, 59}, "minute");
  }
  static const char *rest[] = {"", " 5", " ", ".0000", "  20110101"};
  const std::string s = d.str(v2) + rest[c.choose(5, "rest")];
  std::unique_ptr<char[]> p(new char[s.size() + 1]);
  std::memcpy(p.get(), s.c_str(), s.size() + 1);
  When t;
  const char *end = nullptr;
  const int e = v2 ? dso::resolve_icgem_data_date_v2(p.get(), t, end)
                   : dso::resolve_icgem_data_date_v1(p.get(), t, end);
  if (e || !(t == d.when()))
    c.fail("date", "date [%s] was read wrong", s.c_str());
  if (end != p.get() + (v2 ? 13 : 8))
    c.fail("rest", "the rest of [%s] starts at %d", s.c_str(),
           (int)(end - p.get()));
  c.checked(2);
  c.state(mc::mix((std::uint64_t)d.y, (std::uint64_t)d.m));
}
/* version 1 terms without a reference epoch */
static void reference(mc::Ctx &c) {
  static const int nm[][2] = {{0, 0}, {1, 0}, {1, 1}, {2, 1}, {4, 4}};
  std::vector<Term> t;
  const int len = 3;
  std::string text = header(false, 0, 5);
  for (int i = 0; i < len; i++) {
    const int k = c.choose(5, "term"), key = c.choose(6, "kind");
    t.push_back({(Key)key, nm[k][0], nm[k][1], 1e-7 * (i + 1), 1e-8, T0[0],
                 T1[1], .75});
    text += line_of(t.back(), false, Style()) + "\n";
  }
  const std::string fn = write_file(c, text);
  dso::Icgem g(fn.c_str());
  dso::StokesCoeffs s(0, 0, 0., 0.);
  const int N = c.choose(2, "request") ? 5 : 1;
  const Field f = sum(t, false, EPOCH[1], N, N);
  const int e = g.parse_data(N, N, EPOCH[1].when(), s);
  if ((e != 0) != f.error)
    c.fail("reference", "a term %s reference epoch: parsing returned %d",
           f.error ? "without" : "with", e);
  if (!e)
    same_field(c, s, f);
  c.checked();
  c.state(mc::mix(f.error, (std::uint64_t)(f.deg * 8 + f.ord)));
}
/* all requests */
static void requests(mc::Ctx &c) {
  const bool v2 = c.flag("version 2");
  const int maxdeg = c.choose(7, "degree of the file");
  std::vector<Term> t;
  std::string text = header(v2, 0, maxdeg);
  for (int n = 0; n <= maxdeg; n++)
    for (int m = 0; m <= n; m++) {
      t.push_back({GFC, n, m, 1 + .1 * n + .01 * m, 2 + .1 * n, T0[0], T1[1], 1});
      text += line_of(t.back(), v2, Style()) + "\n";
    }
  const std::string fn = write_file(c, text);
  dso::Icgem g(fn.c_str());
  const int hd = c.choose(8, "degree held");
  dso::StokesCoeffs s(hd, c.choose(hd + 1, "order held"), 0., 0.);
  const int N = c.choose(10, "degree") - 1, M = c.choose(10, "order") - 1;
  const bool gone = c.flag("file removed");
  if (gone)
    std::remove(fn.c_str());
  const int rn = N < 0 ? maxdeg : N, rm = M < 0 ? rn : M;
  const int e = g.parse_data(N, M, EPOCH[0].when(), s);
  const bool bad = gone || rn > maxdeg || rm > rn;
  if ((e != 0) != bad)
    c.fail("request", "degree %d and order %d of a file of degree %d%s: %d", N,
           M, maxdeg, gone ? " that is gone" : "", e);
  if (!bad)
    same_field(c, s, sum(t, v2, EPOCH[0], rn, rm));
  c.checked();
  c.state(mc::mix((std::uint64_t)(rn * 10 + rm), (std::uint64_t)maxdeg));
}
int main(int argc, char **argv) {
  return mc::run(argc, argv,
                 {{"lines", lines, 3},
                  {"dates", dates, 1},
                  {"good_dates", good_dates, 2},
                  {"reference", reference, 2},
                  {"requests", requests, 2}});
}
