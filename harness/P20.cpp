/* Doodson numbers: text, arguments, comparisons and the tables of waves. */
#include "doodson.hpp"
#include "farg_ref.hpp"
#include "mc.hpp"
#include <memory>
#include <stdexcept>
using dso::DoodsonConstituent;

static const char CODE[] = "nopqrstuvwxyz0123456789abcdefghijklm"; /* -13.. */

/* ---- text ------------------------------------------------------------- */
static void text(mc::Ctx &c) {
  /* all values of two of the six places, the others from a few backgrounds */
  static const int bg[3][6] = {
      {2, 0, 0, 0, 0, 0}, {0, -9, 12, -5, 4, 17}, {1, 5, -18, 2, -1, 9}};
  const bool five = c.flag("convention of +5");
  const int b = c.choose(3, "background");
  const int p = c.choose(6, "place"), q = c.choose(6, "other place");
  if (q <= p && !(p == 0 && q == 0))
    c.prune();
  int n[6];
  for (int i = 0; i < 6; i++)
    n[i] = bg[b][i] + (five || !i ? 0 : 1);
  for (int i : {p, q}) {
    const int shift = i && five ? 5 : 0;
    if (i == q && p == q)
      break;
    n[i] = c.choose(36, "value") - 13 - shift;
  }
  const DoodsonConstituent d(n);
  char *buf = new char[8];
  std::unique_ptr<char[]> own(buf);
  std::memset(buf, '#', 8);
  if (d.str(buf, five) != buf)
    c.fail("pointer", "not the buffer given");
  char want[8];
  for (int i = 0, k = 0; i < 7; i++) {
    if (i == 3) {
      want[i] = '.';
      continue;
    }
    const int v = n[k] + (k && five ? 5 : 0) + 13;
    if (v < 0 || v > 35)
      c.prune();
    want[i] = CODE[v];
    ++k;
  }
  want[7] = 0;
  if (std::memcmp(buf, want, 8))
    c.fail("text", "{%d %d %d %d %d %d} is written as %.8s and not %s", n[0],
           n[1], n[2], n[3], n[4], n[5], buf, want);
  c.checked();
  c.state(mc::mix(five, p * 6 + q));
  if (!five)
    return;
  /* and back, in both cases, from a string of exactly seven characters */
  for (int up = 0; up < 2; up++) {
    std::unique_ptr<char[]> s(new char[7]);
    for (int i = 0; i < 7; i++)
      s[i] = up ? std::toupper(want[i]) : want[i];
    const DoodsonConstituent e = DoodsonConstituent::from_chars(s.get());
    for (int i = 0; i < 6; i++)
      if (e(i) != n[i] || e.int_array()[i] != n[i])
        c.fail("value", "%.7s is read with %d at place %d", s.get(), e(i), i);
    if (!(e == d) || e != d || e.pifactor() != 0)
      c.fail("equal", "%.7s read back is not equal to what was written",
             s.get());
    c.checked(8);
  }
  /* IERS strings are made of digits */
  bool digits = true;
  for (int i = 0; i < 7; i++)
    digits = digits && (i == 3 || std::isdigit(want[i]));
  if (digits)
    for (int blank = 0; blank < 3; blank++) {
      std::unique_ptr<char[]> s(new char[7 + blank]);
      std::memset(s.get(), ' ', 7 + blank);
      std::memcpy(s.get() + blank, want, 7);
      const DoodsonConstituent e = dso::resolve_iers10_doodson_string(s.get());
      if (e != d)
        c.fail("iers", "IERS number %.7s is {%d %d %d %d %d %d}", want, e(0),
               e(1), e(2), e(3), e(4), e(5));
      c.checked();
    }
}
/* ---- damaged text ------------------------------------------------------ */
static void damage(mc::Ctx &c) {
  static const char *good[] = {"255.555", "056.554", "2a5.z45"};
  const int w = c.choose(3, "text");
  const int iers = c.flag("IERS");
  if (iers && w == 2)
    c.prune();
  std::string s(good[w]);
  const int kind = c.choose(3, "damage");
  int bad = 1;
  if (kind == 0) { /* cut, terminated */
    s.resize((std::size_t)c.choose(7, "length"));
    s.push_back('\0');
  } else { /* one character replaced */
    const int at = c.choose(7, "place");
    const int ch = c.choose(256, "character");
    s[(std::size_t)at] = (char)ch;
    if (at == 3)
      bad = ch != '.';
    else if (iers)
      bad = !(ch >= '0' && ch <= '9');
    else
      bad = !((ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'z') ||
              (ch >= 'A' && ch <= 'Z'));
    if (kind == 2) /* blanks before */
      s = iers ? "  " + s : s;
    if (ch == 0) { /* nothing behind the terminator is ours */
      s.resize(s.find('\0') + 1);
      bad = 1;
    } else if (iers && at == 0 && ch == ' ') {
      s.push_back('\0'); /* then the number starts later, and is too short */
    }
  }
  std::unique_ptr<char[]> p(new char[s.size()]);
  std::memcpy(p.get(), s.data(), s.size());
  int threw = 0;
  DoodsonConstituent d;
  try {
    d = iers ? dso::resolve_iers10_doodson_string(p.get())
             : DoodsonConstituent::from_chars(p.get());
  } catch (std::runtime_error &) {
    threw = 1;
  }
  if (threw != bad)
    c.fail(bad ? "accepted" : "refused", "%s string [%.*s] %s", iers ? "IERS" :
           "GROOPS", (int)s.size(), s.c_str(),
           bad ? "was accepted" : "was refused");
  if (!bad) {
    const std::size_t o = s.find_first_not_of(' ');
    for (int i = 0; i < 6; i++) {
      const char ch = s[o + i + (i > 2)];
      const int v = (int)(std::strchr(CODE, std::tolower(ch)) - CODE) - 13;
      if (d(i) != v - (i ? 5 : 0))
        c.fail("value", "[%.*s] has %d at place %d", (int)s.size(), s.c_str(),
               d(i), i);
    }
  }
  c.checked();
  c.state(mc::mix(w * 2 + iers, kind * 2 + bad));
}
/* ---- arguments -------------------------------------------------------- */
static const double ANG[] = {0,    .3,         1.7,       M_PI,
                             4.71, 6.28318530, 2 * M_PI + .25, -2.1};
static void argument(mc::Ctx &c) {
  static const int mult[] = {-5, -2, -1, 0, 1, 2, 3, 8};
  const int p = c.choose(6, "place"), q = c.choose(6, "other place");
  if (q < p)
    c.prune();
  int n[6] = {1, 0, -1, 0, 2, 0};
  double a[6] = {.11, .52, 1.93, 2.64, 3.85, 5.16};
  for (int i : {p, q}) {
    n[i] = mult[c.choose(8, "multiplier")];
    a[i] = ANG[c.choose(8, "angle")];
    if (p == q)
      break;
  }
  const double pif = c.choose(3, "phase") - 1;
  const DoodsonConstituent d(n[0], n[1], n[2], n[3], n[4], n[5], pif);
  ld w = 0;
  for (int i = 0; i < 6; i++)
    w += (ld)n[i] * a[i];
  const double got = d.argument(a);
  if (!(got >= 0 && got <= 2 * M_PI) || !(fabsl(wrap(got - w)) < 1e-14L * 64))
    c.fail("argument", "argument is %.17g and not %.17Lg", got, w);
  if (d.pifactor() != pif)
    c.fail("phase", "factor of the phase is %g", d.pifactor());
  c.checked(2);
  c.state(mc::mix(p * 6 + q, mc::bits(got)));
}
static void delaunay(mc::Ctx &c) {
  /* a linear map modulo a turn: determined by these points */
  double f[5], g;
  for (int i = 0; i < 5; i++)
    f[i] = ANG[c.choose(c.thorough() ? 8 : 4, "argument") +
               (c.thorough() ? 0 : i % 5)];
  g = ANG[c.choose(8, "sidereal time")];
  double d[8];
  for (double &x : d)
    x = -77;
  if (dso::delaunay2doodson(f, g, d + 1) != d + 1)
    c.fail("pointer", "not the array given");
  if (d[0] != -77 || d[7] != -77)
    c.fail("overrun", "an element around the array was written");
  const ld s = (ld)f[2] + f[4], h = s - f[3], p = s - f[0], N = -(ld)f[4],
           ps = h - f[1], tau = g + LPI - s;
  const ld w[6] = {tau, s, h, p, N, ps};
  for (int i = 0; i < 6; i++)
    if (!(d[1 + i] >= 0 && d[1 + i] <= 2 * M_PI) ||
        !(fabsl(wrap(d[1 + i] - w[i])) < 1e-14L))
      c.fail("delaunay", "variable %d is %.17g and not %.17Lg", i, d[1 + i],
             w[i]);
  c.checked(6);
  c.state(mc::mix(mc::bits(d[1]), mc::bits(d[3])));
}
/* ---- comparisons ------------------------------------------------------- */
static void comparisons(mc::Ctx &c) {
  int a[6], b[6];
  for (int i = 0; i < 6; i++) {
    a[i] = (i * 7 + 3) % 5 - 2;
    b[i] = a[i];
  }
  for (int i = 0; i < 6; i++)
    b[i] += c.choose(3, "difference") - 1;
  const int pa = c.choose(3, "phase"), pb = c.choose(3, "phase");
  const int how = c.choose(3, "constructor");
  const DoodsonConstituent x(a[0], a[1], a[2], a[3], a[4], a[5],
                             how ? 0. : pa - 1.);
  DoodsonConstituent y =
      how == 0 ? DoodsonConstituent(b[0], b[1], b[2], b[3], b[4], b[5], pb - 1.)
      : how == 1 ? DoodsonConstituent(b)
                 : DoodsonConstituent{std::initializer_list<int>{
                       b[0], b[1], b[2], b[3], b[4], b[5]}};
  const bool same = !std::memcmp(a, b, sizeof a) && (how || pa == pb);
  const bool k1 = a[0] == b[0], k2 = k1 && a[1] == b[1],
             k3 = k2 && a[2] == b[2];
  if ((x == y) != same || (x != y) == same || (y == x) != same)
    c.fail("equality", "wrong");
  if (x.same_species(y) != k1 || x.same_group(y) != k2 ||
      x.same_constituent(y) != k3 || y.same_species(x) != k1 ||
      y.same_group(x) != k2 || y.same_constituent(x) != k3)
    c.fail("family", "species, group or constituent");
  /* multipliers are writable one by one */
  for (int i = 0; i < 6; i++)
    y(i) = a[i];
  for (int i = 0; i < 6; i++)
    if (y(i) != a[i])
      c.fail("write", "multiplier %d", i);
  c.checked(10);
  c.state(mc::mix(same, k1 + 2 * k2 + 4 * k3));
}
/* ---- tables ------------------------------------------------------------ */
struct Ref {
  const char *name, *number;
  int pi;
};
/* names and numbers as in Balidakis et al. (2022) / AOD1B RL06 */
static const Ref ATM[] = {
    {"π1", "162.556", -1}, {"P1", "163.555", 1},  {"S1", "164.555", 2},
    {"K1", "165.555", -1}, {"ψ1", "166.554", 1},  {"M2", "255.555", 0},
    {"T2", "272.556", 0},  {"S2", "273.555", 0},  {"R2", "274.554", 2},
    {"K2", "275.555", 0},  {"N2", "245.655", 0},  {"L2", "265.455", 2},
    {"T3", "381.555", 0},  {"S3", "382.555", 0},  {"R3", "383.555", 0},
    {"S4", "491.555", 0},  {"S5", "5a0.555", 0},  {"S6", "6bz.555", 0}};
/* EOT11a and the COST-G benchmark */
static const Ref OCN[] = {
    {"Omega1", "055.565", 2}, {"Omega2", "055.575", 0},
    {"Sa", "056.554", 0},     {"Ssa", "057.555", 0},
    {"Mm", "065.455", 0},     {"Mf", "075.555", 0},
    {"Mtm", "085.455", 0},    {"Msqm", "093.555", 0},
    {"Q1", "135.655", -1},    {"O1", "145.555", -1},
    {"P1", "163.555", -1},    {"K1", "165.555", 1},
    {"S1", "164.555", 2},     {"J1", "175.455", 1},
    {"2N2", "235.755", 0},    {"N2", "245.655", 0},
    {"M2", "255.555", 0},     {"S2", "273.555", 0},
    {"K2", "275.555", 0},     {"T2", "272.556", 0},
    {"Epsilon2", "227.655", 0}, {"Mu2", "237.555", 0},
    {"Nu2", "247.455", 0},    {"La2", "263.655", 2},
    {"L2", "265.455", 2},     {"R2", "274.554", 2},
    {"M3", "355.555", 2},     {"M4", "455.555", 0},
    {"N4", "435.755", 0},     {"Mn4", "445.655", 0},
    {"Ms4", "473.555", 0},    {"S4", "491.555", 0},
    {"M6", "655.555", 0},     {"M8", "855.555", 0}};
static void decode(const char *s, int *n) {
  for (int i = 0; i < 6; i++)
    n[i] = (int)(std::strchr(CODE, s[i + (i > 2)]) - CODE) - 13 - (i ? 5 : 0);
}
/** speed in degrees per hour, from the rates of IERS 2010 */
static ld speed(const int *n) {
  const ld cy = 36525 * 24, R = 180 / LPI;
  ld f[5];
  for (int i = 0; i < 5; i++)
    f[i] = dfarg(i, 0) * R / cy;
  const ld s = f[2] + f[4], h = s - f[3], p = s - f[0], N = -f[4],
           ps = h - f[1];
  const ld tau = 15.04106864L - s; /* sidereal time less the Moon */
  return n[0] * tau + n[1] * s + n[2] * h + n[3] * p + n[4] * N + n[5] * ps;
}
static bool is(const dso::DoodsonConstituent &d, const Ref &r) {
  int n[6];
  decode(r.number, n);
  return !std::memcmp(n, d.int_array(), sizeof n) && d.pifactor() == r.pi;
}
static std::string variant(mc::Ctx &c, const std::string &s) {
  switch (c.choose(8, "variant")) {
  case 0:
    return s;
  case 1: {
    std::string t(s);
    for (char &x : t)
      x = (char)std::toupper((unsigned char)x);
    return t;
  }
  case 2: {
    std::string t(s);
    for (char &x : t)
      x = (char)std::tolower((unsigned char)x);
    return t;
  }
  case 3:
    return s.substr(0, s.size() - 1);
  case 4:
    return s + "1";
  case 5:
    return s + " ";
  case 6:
    return " " + s;
  default:
    return std::string(c.choose(40, "length"), 'x');
  }
}
static std::string low(std::string s) {
  for (char &x : s)
    x = (char)std::tolower((unsigned char)x);
  return s;
}
static void atmospheric(mc::Ctx &c) {
  const int i = c.choose(18, "wave");
  const std::string name = variant(c, ATM[i].name);
  const Ref *want = nullptr;
  for (const Ref &r : ATM)
    if (name == r.name)
      want = &r;
  std::unique_ptr<char[]> s(new char[name.size() + 1]);
  std::memcpy(s.get(), name.c_str(), name.size() + 1);
  const auto *e = dso::find_wave_entry(s.get());
  bool threw = false;
  dso::TidalWave w;
  try {
    w = dso::get_wave(s.get());
  } catch (std::runtime_error &) {
    threw = true;
  }
  if (!e != !want || threw != !want)
    c.fail("found", "wave [%s] %s", name.c_str(),
           want ? "is not found" : "is found");
  c.checked();
  c.state(mc::mix(i, want != nullptr));
  if (!want)
    return;
  int n[6];
  decode(want->number, n);
  if (!is(e->doodson(), *want) || !is(w.doodson(), *want))
    c.fail("number", "wave %s has a wrong Doodson number or phase", want->name);
  if (std::strcmp(e->name(), want->name) || std::strcmp(w.name(), want->name))
    c.fail("name", "wave %s has another name", want->name);
  if (!(fabsl(e->period() - speed(n)) < 2e-5L) || e->period() != w.period() ||
      e->height() != 0 || w.height() != 0)
    c.fail("speed", "wave %s moves at %.12g degrees per hour and not %.12Lg",
           want->name, e->period(), speed(n));
  c.checked(6);
}
static void ocean(mc::Ctx &c) {
  const int i = c.choose(34, "wave");
  const std::string name = variant(c, OCN[i].name);
  const Ref *want = nullptr;
  for (const Ref &r : OCN)
    if (low(name) == low(r.name))
      want = &r;
  const auto *e = dso::detail::match_ocean_tide_wave(name.c_str());
  if (!e != !want)
    c.fail("found", "wave [%s] %s", name.c_str(),
           want ? "is not found" : "is found");
  if (e && (!is(e->doodson(), *want) || std::strcmp(e->name(), want->name)))
    c.fail("number", "wave [%s] has a wrong name, number or phase",
           name.c_str());
  /* and by number */
  int n[6];
  decode(OCN[i].number, n);
  const int at = c.choose(7, "place");
  if (at < 6)
    n[at] += c.choose(5, "change") - 2;
  const int pi = OCN[i].pi + c.choose(2, "phase");
  want = nullptr;
  int m[6];
  for (const Ref &r : OCN) {
    decode(r.number, m);
    if (!std::memcmp(m, n, sizeof m) && r.pi == pi)
      want = &r;
  }
  const DoodsonConstituent d(n[0], n[1], n[2], n[3], n[4], n[5], pi);
  const auto *g = dso::detail::match_ocean_tide_wave(d);
  if (!g != !want || (g && std::strcmp(g->name(), want->name)))
    c.fail("matched", "constituent {%d %d %d %d %d %d} matches %s and not %s",
           n[0], n[1], n[2], n[3], n[4], n[5], g ? g->name() : "nothing",
           want ? want->name : "nothing");
  c.checked(3);
  c.state(mc::mix(i, want ? 1 : 0));
}
static void waves(mc::Ctx &c) {
  /* names of any length are kept, or cut to fit */
  const int len = c.choose(48, "length");
  const std::string name((std::size_t)len, 'N');
  const int n[6] = {1, -2, 3, -4, 5, -6};
  const bool none = c.flag("no name");
  const dso::TidalWave w(DoodsonConstituent(n), 12.5, .25,
                         none ? nullptr : name.c_str());
  const dso::TidalWave v(w);
  for (const dso::TidalWave *x : {&w, &v}) {
    const char *end = (const char *)std::memchr(
        x->name(), 0, dso::detail::MAX_CHARS_TIDAL_WAVE);
    if (!end)
      c.fail("name", "name of %d characters is not terminated", len);
    const std::string got(x->name());
    if (none ? !got.empty()
             : got != name.substr(0, got.size()) ||
                   got.size() < std::min<std::size_t>(
                                    name.size(),
                                    dso::detail::MAX_CHARS_TIDAL_WAVE - 1))
      c.fail("name", "name of %d characters became [%s]", len, x->name());
    if (x->period() != 12.5 || x->height() != .25 ||
        std::memcmp(x->doodson().int_array(), n, sizeof n))
      c.fail("members", "wrong number, speed or height");
  }
  c.checked(4);
  c.state((std::uint64_t)len);
}
int main(int argc, char **argv) {
  return mc::run(argc, argv,
                 {{"text", text, 4},
                  {"damage", damage, 3},
                  {"argument", argument, 3},
                  {"delaunay", delaunay, 2},
                  {"comparisons", comparisons, 3},
                  {"atmospheric", atmospheric, 1},
                  {"ocean", ocean, 1},
                  {"waves", waves, 1}});
}
