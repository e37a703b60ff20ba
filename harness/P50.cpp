/* Parsing of C04 series of Earth orientation parameters. */
#include "eop_ref.hpp"
#include <cstdio>
#include <fstream>

static const char *H20[] = {
    "# EARTH ORIENTATION PARAMETER (EOP) PRODUCT CENTER CENTER (PARIS "
    "OBSERVATORY) - INTERNATIONAL EARTH ROTATION AND REFERENCE SYSTEMS SERVICE",
    "# EOP (IERS) 20 C04 TIME SERIES  consistent with ITRF 2020 - sampled at 0h "
    "UTC     ",
    "# Description: https://hpiers.obspm.fr/eoppc/eop/eopc04/eopc04.txt",
    "# Reference Precession-Nutation Model: IAU 2000",
    "# YR  MM  DD  HH       MJD        x(\")        y(\")  UT1-UTC(s)"};
static const char *H14[] = {
    "               EARTH ORIENTATION PARAMETER (EOP) PRODUCT CENTER CENTER "
    "(PARIS OBSERVATORY)",
    "                      INTERNATIONAL EARTH ROTATION AND REFERENCE SYSTEMS "
    "SERVICE",
    "                                    EOP (IERS) 14 C04 TIME SERIES         ",
    "               Description: "
    "https://hpiers.obspm.fr/eoppc/eop/eopc04/C04.guide.pdf",
    "", "  ",
    "             FORMAT(3(I4),I7,2(F11.6),2(F12.7),2(F11.6),2(F11.6))",
    "##############################################################",
    "      Date      MJD      x          y        UT1-UTC       LOD",
    "     (0h UTC)", ""};

static Rec round_rec(long mjd, double frac, bool f20, bool decades = false) {
  Rec r = decades ? decades_rec(mjd) : make_rec(mjd, frac);
  char b[64];
  for (int i = 0; i < 8; i++) {
    std::snprintf(b, sizeof b, (i == 2 || i == 7) ? "%.7f" : "%.6f", r.v[i]);
    r.v[i] = std::strtod(b, nullptr);
  }
  if (!f20)
    r.v[5] = r.v[6] = 0e0;
  return r;
}
static std::vector<std::string> columns(const Rec &r, bool f20) {
  static const int o20[] = {0, 1, 2, 3, 4, 5, 6, 7};
  static const int o14[] = {0, 1, 2, 7, 3, 4};
  std::vector<std::string> s;
  for (int k = 0; k < (f20 ? 8 : 6); k++) {
    const int i = f20 ? o20[k] : o14[k];
    char b[64];
    std::snprintf(b, sizeof b, (i == 2 || i == 7) ? "%12.7f" : "%12.6f",
                  r.v[i]);
    s.push_back(b);
  }
  return s;
}
static std::string date_cols(const Rec &r, bool f20) {
  int y, m, d;
  dso::shim::mjd_to_civil(r.mjd, y, m, d);
  char b[96];
  if (f20)
    std::snprintf(b, sizeof b, "%4d%4d%4d%4d%10.2f", y, m, d,
                  (int)(r.frac * 24), r.mjd + r.frac);
  else
    std::snprintf(b, sizeof b, "%4d%4d%4d%7ld", y, m, d, r.mjd);
  return b;
}
static std::string data_line(const Rec &r, bool f20) {
  std::string s = date_cols(r, f20);
  for (const auto &t : columns(r, f20))
    s += t;
  for (int i = 0; i < (f20 ? 8 : 6); i++)
    s += "    0.000069";
  return s;
}
enum { GOOD, COMMENT, SPACES, EMPTY, TRUNC, LETTER, BADMJD, LONGLINE, BADHOUR,
       GLUED, NKIND };

/* every file of a few lines, every window */
static void file(mc::Ctx &c) {
  const bool f20 = c.flag("format C04/20");
  const bool direct = c.flag("format specific reader");
  const bool half = f20 && c.flag("12h sampling");
  const int n = c.thorough() ? 3 + c.choose(2, "one line more") : 3;
  std::vector<int> ws = {0, 1, 3, 4}, we = {1, 3, 4, 7};
  if (c.thorough() && n == 3)
    ws = we = {0, 1, 2, 3, 4, 5, 6, 7};
  const int start = c.pick(ws, "start of window");
  const int end = c.pick(we, "end of window");
  /* 0: long before; else: record k/2, exactly or half a second later */
  auto epoch = [&](int k) {
    if (k == 0)
      return dso::MjdEpoch(57000);
    const int i = (k - 1) / 2;
    const Rec r = half ? make_rec(57753 + i / 2, (i % 2) * .5)
                       : make_rec(57753 + i);
    dso::MjdEpoch t = rec_tt(r);
    return (k - 1) % 2 ? t.add_seconds(dso::FractionalSeconds{.5}) : t;
  };
  /* all there ever can be */
  const bool ever = start == 0 && end == 7;
  const dso::MjdEpoch t0 = ever ? dso::MjdEpoch(-1000000000) : epoch(start),
                      t1 = ever ? dso::MjdEpoch(1000000000) : epoch(end);
  std::vector<Rec> want;
  bool error = false, stop = false;
  std::string txt;
  for (const char *h : H20)
    if (f20)
      txt += std::string(h) + "\n";
  for (const char *h : H14)
    if (!f20)
      txt += std::string(h) + "\n";
  int damaged = 0;
  for (int i = 0; i < n; i++) {
    const Rec r = half ? round_rec(57753 + i / 2, (i % 2) * .5, f20)
                       : round_rec(57753 + i, 0e0, f20);
    const int kind = c.choose(damaged ? TRUNC : NKIND, "line");
    if (!f20 && kind == BADHOUR)
      c.prune();
    const dso::MjdEpoch t = rec_tt(r);
    const bool in = t >= t0 && t < t1;
    std::string line;
    auto cols = columns(r, f20);
    bool bad = false, baddate = false;
    switch (kind) {
    case GOOD:
      line = data_line(r, f20);
      break;
    case COMMENT:
      line = "#" + data_line(r, f20);
      break;
    case SPACES:
      line = "   " + data_line(r, f20);
      break;
    case EMPTY:
      break;
    case TRUNC: {
      ++damaged;
      const int k = c.choose((int)cols.size(), "columns left");
      line = date_cols(r, f20);
      for (int j = 0; j < k; j++)
        line += cols[(std::size_t)j];
      bad = true;
      break;
    }
    case LETTER:
    case GLUED: {
      ++damaged;
      const int k = c.choose((int)cols.size() - (kind == GLUED), "column");
      line = date_cols(r, f20);
      for (int j = 0; j < (int)cols.size(); j++)
        line += j == k ? (kind == GLUED ? cols[(std::size_t)j] + "x" : "     x.123")
                       : cols[(std::size_t)j];
      bad = true;
      break;
    }
    case BADMJD:
      ++damaged;
      line = data_line(r, f20);
      line.replace(12, 4, "  ab");
      baddate = true;
      break;
    case LONGLINE:
      ++damaged;
      line = data_line(r, f20) + std::string(300, ' ');
      baddate = true; /* cannot be read at all */
      break;
    case BADHOUR:
      ++damaged;
      line = data_line(r, f20);
      {
        static const char *const H[] = {"   6", "   h", "   1", "  13"};
        line.replace(12, 4, H[c.choose(4, "hour")]);
      }
      baddate = true;
      break;
    }
    txt += line + ((i == n - 1 && c.flag("no newline at the end")) ? "" : "\n");
    if (stop || error)
      continue;
    if (baddate)
      error = true;
    else if (kind == GOOD || bad) {
      if (!(t < t1))
        stop = true;
      else if (in && bad)
        error = true;
      else if (in)
        want.push_back(r);
    }
  }
  const bool used = !damaged && c.flag("reused series");
  const bool badwin = !(t0 < t1);
  const std::string fn = c.tmpdir + "/eop.txt";
  {
    std::ofstream f(fn);
    f << txt;
  }
  dso::EopSeries s;
  if (used) {
    for (int i = 0; i < 5; i++)
      s.push_back(lib_rec(make_rec(57700 + i)));
    s.reset_vec_iterator();
    dso::EopRecord e;
    s.interpolate(rec_tt(make_rec(57702)), e, 3);
  }
  const int rc =
      direct ? (f20 ? dso::details::parse_iers_C0420(fn.c_str(), t0, t1, s)
                    : dso::details::parse_iers_C0414(fn.c_str(), t0, t1, s))
             : dso::parse_iers_C04(fn.c_str(), t0, t1, s);
  c.log("status %d, %d records", rc, s.num_entries());
  if (badwin) {
    if (!rc)
      c.fail("empty-window", "a window without extent is accepted");
    return;
  }
  if (error) {
    if (!rc)
      c.fail("damaged-accepted", "a damaged file is read without an error:\n%s",
             txt.substr(txt.find("2016")).c_str());
    return;
  }
  if (rc)
    c.fail("good-rejected", "status %d for an undamaged file", rc);
  if (s.num_entries() != (int)want.size())
    c.fail("count", "%d records and not %zu", s.num_entries(), want.size());
  for (std::size_t i = 0; i < want.size(); i++) {
    same_record(c, s.give_me_the_vector()[i], want[i], "parsed");
    if (s.give_me_the_vector()[i].dat() != tai_utc(want[i].mjd))
      c.fail("dat", "wrong TAI-UTC at MJD %ld", want[i].mjd);
  }
  if (!want.empty()) { /* the result is fit for use */
    if (s.first_epoch() != s.give_me_the_vector()[0].t() ||
        s.last_epoch() != s.give_me_the_vector()[want.size() - 1].t())
      c.fail("span", "first or last epoch");
    if (direct)
      s.reset_vec_iterator();
    dso::EopRecord e;
    s.interpolate(rec_tt(want[0]), e, 1);
    if (std::fabs(e.xp() - want[0].v[0]) > 1e-12)
      c.fail("unusable", "interpolation after parsing");
  }
  c.state(mc::mix(want.size(), (unsigned)(start * 100 + end + f20 * 1000)));
}

/* which format is a file? */
static void header(mc::Ctx &c) {
  const bool f20 = c.flag("format C04/20");
  const int nh = f20 ? 2 : 3;
  /* 0: as published; 1..: damage */
  const int which = c.choose(nh + 1, "damaged header line");
  const int how = which ? c.choose(4, "damage") : 0;
  std::vector<std::string> h;
  for (const char *p : H20)
    if (f20)
      h.push_back(p);
  for (const char *p : H14)
    if (!f20)
      h.push_back(p);
  if (which) {
    std::string &l = h[(std::size_t)which - 1];
    if (how == 0)
      l[l.find("EOP")  != std::string::npos ? l.find("EOP") : l.find("EARTH")] = '?';
    else if (how == 1)
      l = "";
    else if (how == 2)
      l = l.substr(0, l.find_first_not_of(' ') + 20);
    else
      h.resize((std::size_t)which - 1); /* file ends before this line */
  }
  const std::string fn = c.tmpdir + "/eop.txt";
  {
    std::ofstream f(fn);
    for (const auto &l : h)
      f << l << "\n";
    if (!(which && how == 3))
      for (int i = 0; i < 3; i++)
        f << data_line(round_rec(57750 + i, 0e0, f20), f20) << "\n";
  }
  dso::details::IersEopFormat type;
  const int rc = dso::details::choose_c04_series(fn.c_str(), type);
  dso::EopSeries s;
  const int rp = dso::parse_iers_C04(fn.c_str(), dso::MjdEpoch(57749),
                                     dso::MjdEpoch(57760), s);
  if (which) {
    if (!rc || !rp)
      c.fail("bad-header", "header line %d damaged: accepted", which);
  } else {
    if (rc || rp)
      c.fail("good-header", "a published header is rejected");
    if ((type == dso::details::IersEopFormat::C0420) != f20)
      c.fail("format", "taken for the other format");
    if (s.num_entries() != 3)
      c.fail("count", "%d records and not 3", s.num_entries());
    for (int i = 0; i < 3; i++)
      same_record(c, s.give_me_the_vector()[(std::size_t)i],
                  round_rec(57750 + i, 0e0, f20), "parsed");
  }
  if (!dso::parse_iers_C04((c.tmpdir + "/none").c_str(),
                           dso::MjdEpoch(57749), dso::MjdEpoch(57760), s))
    c.fail("missing", "a missing file is accepted");
  c.state((unsigned)(which * 10 + how + 100 * f20));
}
/* files as long as the published ones */
static void published(mc::Ctx &c) {
  const bool f20 = c.flag("format C04/20"), direct = c.flag("format specific reader");
  static const long FROM[] = {41317, 45000, 51544, 56100, 60000}, START[] = {41000, 41498, 45700, 51179, 53735, 57753, 60600},
                    DAYS[] = {30, 1, 365, 3700, 20000};
  const long first = FROM[c.thorough() ? c.choose(5, "first record") : 3 * c.choose(2, "first record")], last = 60675;
  const long a = START[c.choose(7, "start of window")], b = a + DAYS[c.choose(c.thorough() ? 5 : 4, "days of window")];
  const int half = c.thorough() ? c.choose(2, "half a day later") : direct;
  std::vector<Rec> want;
  const dso::MjdEpoch t0(a, dso::FractionalSeconds(half * 43200e0)), t1(b, dso::FractionalSeconds(half * 43200e0));
  const std::string fn = c.tmpdir + "/eop.txt";
  {
    std::ofstream f(fn);
    for (const char *h : H20)
      if (f20)
        f << h << "\n";
    for (const char *h : H14)
      if (!f20)
        f << h << "\n";
    for (long m = first; m <= last; m++) {
      const Rec r = round_rec(m, 0e0, f20, true);
      f << data_line(r, f20) << "\n";
      const dso::MjdEpoch t = rec_tt(r);
      if (t >= t0 && t < t1)
        want.push_back(r);
    }
  }
  dso::EopSeries s;
  const int rc = direct ? (f20 ? dso::details::parse_iers_C0420(fn.c_str(), t0, t1, s)
                               : dso::details::parse_iers_C0414(fn.c_str(), t0, t1, s))
                        : dso::parse_iers_C04(fn.c_str(), t0, t1, s);
  if (rc)
    c.fail("good-rejected", "status %d for an undamaged file", rc);
  if (s.num_entries() != (int)want.size())
    c.fail("count", "%d records and not %zu", s.num_entries(), want.size());
  for (std::size_t i = 0; i < want.size(); i++) {
    same_record(c, s.give_me_the_vector()[i], want[i], "parsed");
    if (s.give_me_the_vector()[i].dat() != tai_utc(want[i].mjd))
      c.fail("dat", "wrong TAI-UTC at MJD %ld", want[i].mjd);
  }
  c.state(mc::mix((std::uint64_t)want.size(), (std::uint64_t)(first * 4 + f20 * 2 + half)));
}
int main(int argc, char **argv) {
  std::freopen("/dev/null", "w", stderr);
  return mc::run(argc, argv, {{"file", file, 5}, {"header", header, 2}, {"published", published, 3}});
}
