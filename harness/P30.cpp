/* The header of an AOD1B file, and the names of AOD1B products. */
#include "aod_ref.hpp"

struct Field {
  const char *key;
  std::vector<const char *> val; /* alternatives; the first is the usual one */
};
/* TIME EPOCH, FIRST and LAST are handled apart */
static const std::vector<Field> FIELDS = {
    {"PRODUCER AGENCY", {"GFZ", "X", "Deutsches GFZ: Potsd", "0123456789012345678",
                         "01234567890123456789012345678901234567890123456789012345678901234567890123456789"}},
    {"PRODUCER INSTITUTION", {"GFZ"}},
    {"FILE TYPE ipAOD1BF", {"999", "1"}},
    {"FILE FORMAT 0=BINARY 1=ASCII", {"1", "0"}},
    {"NUMBER OF HEADER RECORDS", {"30", "7"}},
    {"SOFTWARE VERSION", {"atm_ocean_dealise.06"}},
    {"SOFTWARE LINK TIME", {"Not Applicable"}},
    {"REFERENCE DOCUMENTATION", {"GRACE De-aliasing ADD"}},
    {"SATELLITE NAME", {"GRACE X", "A", "0123456789012345678", "01234567890123456789X"}},
    {"SENSOR NAME", {"Not Applicable", "B", "0123456789012345678", "01234567890123456789Y"}},
    {"TIME EPOCH (GPS TIME)", {"2000-01-01 12:00:00"}},
    {"TIME FIRST OBS(SEC PAST EPOCH)", {""}},
    {"TIME LAST OBS(SEC PAST EPOCH)", {""}},
    {"NUMBER OF DATA RECORDS", {"527072", "0", "2000000000"}},
    {"PRODUCT START CREATE TIME(UTC)", {"2016-10-06 08:20:51.000"}},
    {"PRODUCT END CREATE TIME(UTC)", {"2016-10-06 08:20:53.000"}},
    {"FILESIZE (BYTES)", {"123456"}},
    {"FILENAME", {"AOD1B_2008-07-03_X_06.asc"}},
    {"PROCESS LEVEL (1A OR 1B)", {"1B", "1A", "ABCD"}},
    {"PRESSURE TYPE (SP OR VI)", {"VI", "SP", "VIII"}},
    {"MAXIMUM DEGREE", {"180", "0", "9", "100"}},
    {"COEFFICIENTS ERRORS (YES/NO)", {"NO", "YES"}},
    {"COEFF. NORMALIZED (YES/NO)", {"YES", "NO"}},
    {"CONSTANT GM [M^3/S^2]", {"0.39860044180000E+15", "398600441500000", "3.986004415e14"}},
    {"CONSTANT A [M]", {"6378136.60", "6.3781363e6", "1"}},
    {"CONSTANT FLAT [-]", {"298.25642", "0", "-1.5"}},
    {"CONSTANT OMEGA [RAD/S]", {"7.292115E-05", "7.3e-5"}},
    {"NUMBER OF DATA SETS", {"32", "1", "56"}},
    {"DATA FORMAT (N,M,C,S)", {"(2(I3,X),2(E15.9,X))"}},
};
static const int NF = (int)FIELDS.size();
enum { AGENCY = 0, FTYPE = 2, FFMT = 3, NHDR = 4, SAT = 8, SENSOR = 9,
       TEPOCH = 10, TFIRST = 11, TLAST = 12, NREC = 13, LEVEL = 18, PTYPE = 19,
       DEG = 20, ERRS = 21, NORM = 22, GM = 23, RE = 24, FLAT = 25, OMEGA = 26,
       NSETS = 27 };

struct Hdr {
  std::vector<int> v = std::vector<int>((std::size_t)NF, 0);
  int style = 0;  /* 1: no padding, 2: much, 3: trailing blanks, 4: \r\n */
  Gps first{0}, last{75600}, epoch{-EPOCH0}; /* in time of the reference */
  bool tidal = false;
  const char *frac0 = ""; /* of a second, of the first observation */
  const char *frac = "";  /* of a second, of the last observation */
  int year0 = 1976, year1 = 2015;
  int extra = 0; /* lines of no interest */
  const char *wave = "M2";
  std::vector<int> perm;
};
static std::string line_of(const Hdr &h, int i) {
  std::string key = FIELDS[(std::size_t)i].key,
              val = FIELDS[(std::size_t)i].val[(std::size_t)h.v[(std::size_t)i]];
  if (i == TFIRST)
    val = std::to_string(h.first.sec - h.epoch.sec) + (*h.frac0 ? h.frac0 : ".000000") + " (" + h.first.str() + h.frac0 + ")";
  if (i == TLAST)
    val = std::to_string(h.last.sec - h.epoch.sec) + (*h.frac ? h.frac : ".000000") + " (" + h.last.str() + h.frac + ")";
  if (key.compare(0, 10, "TIME EPOCH") == 0)
    val = h.epoch.str();
  if (h.tidal && i == TFIRST)
    key = "TIME FIRST OBS (YEAR START)", val = std::to_string(h.year0);
  if (h.tidal && i == TLAST)
    key = "TIME LAST OBS (YEAR END)", val = std::to_string(h.year1);
  if (h.tidal && i == PTYPE) {
    key = "PRESSURE TYPE (ATM OR OCN)";
    static const char *alt[] = {"ATM", "OCN", "VIII"};
    val = alt[h.v[PTYPE]];
  }
  switch (h.style) {
  case 1: return key + ":" + val + "\n";
  case 2: return key + std::string(38 - key.size(), ' ') + ":    " + val + "\n";
  case 3: return head(key.c_str(), val + "   ");
  case 4: { std::string s = head(key.c_str(), val); s.insert(s.size() - 1, "\r"); return s; }
  }
  return head(key.c_str(), val);
}
static std::string text_of(const Hdr &h) {
  std::string t;
  for (int i = 0; i < NF; i++)
    t += line_of(h, h.perm.empty() ? i : h.perm[(std::size_t)i]);
  for (int i = 0; i < h.extra; i++)
    t.insert(i % 2 ? 0 : t.size(), "SOFTWARE VERSION              : part " + std::to_string(i) + "\n");
  if (h.tidal)
    t += head("PARTIAL TIDE", h.wave);
  return t + "END OF HEADER\nDATA SET 01: 0 COEFFICIENTS FOR 2008-07-03 00:00:00 OF TYPE atm\n";
}
/* 0h of the first of January */
static When new_year(int y) {
  int d = 51544; /* 2000 */
  for (int i = 2000; i < y; i++)
    d += (i % 4 == 0 && (i % 100 || i % 400 == 0)) ? 366 : 365;
  for (int i = y; i < 2000; i++)
    d -= (i % 4 == 0 && (i % 100 || i % 400 == 0)) ? 366 : 365;
  return When(dso::modified_julian_day(d), dso::nanoseconds(0));
}
static void verify(mc::Ctx &c, const Hdr &h, const dso::Aod1bIn &a,
                   const std::string &fn) {
  auto val = [&](int i) {
    return std::string(FIELDS[(std::size_t)i].val[(std::size_t)h.v[(std::size_t)i]]);
  };
  auto str = [&](const char *what, const char *got, std::string want, int cap) {
    want = want.substr(0, (std::size_t)cap);
    if (want != got)
      c.fail(what, "%s is [%.100s], the file has [%s]", what, got, want.c_str());
    c.checked();
  };
  auto integer = [&](const char *what, int got, int want) {
    if (want != got)
      c.fail(what, "%s is %d, the file has %d", what, got, want);
    c.checked();
  };
  auto real = [&](const char *what, double got, double want) {
    if (want != got)
      c.fail(what, "%s is %.17g, the file has %.17g", what, got, want);
    c.checked();
  };
  auto when = [&](const char *what, const When &got, const When &want) {
    if (want != got)
      c.fail(what, "%s is MJD %.9f, the file has %.9f", what, got.fmjd(), want.fmjd());
    c.checked();
  };
  str("agency", a.agency(), val(AGENCY), 19);
  str("satellite", a.satellite(), val(SAT), 19);
  str("sensor", a.sensor(), val(SENSOR), 19);
  str("process level", a.process_level(), val(LEVEL), 3);
  static const char *alt[] = {"ATM", "OCN", "VIII"};
  str("pressure type", a.pressure_type(), h.tidal ? alt[h.v[PTYPE]] : val(PTYPE), 3);
  integer("file type", a.file_type(), std::atoi(val(FTYPE).c_str()));
  integer("file format", a.file_format(), std::atoi(val(FFMT).c_str()));
  integer("header records", a.num_header_records(), std::atoi(val(NHDR).c_str()));
  integer("data records", a.num_data_records(), std::atoi(val(NREC).c_str()));
  integer("degree", a.max_degree(), std::atoi(val(DEG).c_str()));
  integer("errors", a.coeff_errors(), val(ERRS) == "YES");
  integer("normalised", a.coeff_normalized(), val(NORM) == "YES");
  integer("data sets", a.num_data_sets(), std::atoi(val(NSETS).c_str()));
  real("GM", a.GM(), std::atof(val(GM).c_str()));
  real("radius", a.Re(), std::atof(val(RE).c_str()));
  real("flattening", a.flat(), std::atof(val(FLAT).c_str()));
  real("omega", a.omega(), std::atof(val(OMEGA).c_str()));
  when("reference epoch", a.time_epoch(), h.epoch.tt());
  if (!h.tidal) {
    When b = h.first.tt(), l = h.last.tt();
    if (*h.frac0)
      b = b.add_seconds(dso::nanoseconds((long)std::lround(std::atof(h.frac0) * 1e9)));
    when("first epoch", a.first_epoch(), b);
    if (*h.frac)
      l = l.add_seconds(dso::nanoseconds((long)std::lround(std::atof(h.frac) * 1e9)));
    when("last epoch", a.last_epoch(), l);
  } else {
    when("first epoch", a.first_epoch(), new_year(h.year0));
    when("last epoch", a.last_epoch(), new_year(h.year1));
    const auto *w = dso::find_wave_entry(h.wave);
    if (!w)
      std::_Exit(96);
    if (!(a.tidal_wave().doodson() == w->_d) || std::strcmp(a.tidal_wave().name(), h.wave))
      c.fail("wave", "the wave is %s, the file has %s", a.tidal_wave().name(), h.wave);
    c.checked();
  }
  if (a.fn() != fn)
    c.fail("name", "the file is called %s instead of %s", a.fn().c_str(), fn.c_str());
}
static std::unique_ptr<dso::Aod1bIn> open_file(const std::string &fn) {
  try {
    return std::unique_ptr<dso::Aod1bIn>(new dso::Aod1bIn(fn.c_str()));
  } catch (std::runtime_error &) {
    return nullptr;
  }
}
static void values(mc::Ctx &c) {
  Hdr h;
  h.tidal = c.flag("tidal");
  h.style = c.choose(5, "style");
  /* any two fields differ from the usual */
  const int i = c.choose(NF, "field"), j = c.choose(i + 1, "field");
  h.v[(std::size_t)i] = c.choose((int)FIELDS[(std::size_t)i].val.size(), "value");
  if (j != i)
    h.v[(std::size_t)j] = c.choose((int)FIELDS[(std::size_t)j].val.size(), "value");
  const std::string fn = write_file(c, text_of(h));
  auto a = open_file(fn);
  if (!a)
    c.fail("refused", "a header was refused:\n%.1800s", text_of(h).c_str());
  verify(c, h, *a, fn);
  c.state(mc::mix((std::uint64_t)(i * 64 + j), (std::uint64_t)(h.v[(std::size_t)i] * 8 + h.v[(std::size_t)j])));
}
static void epochs(mc::Ctx &c) {
  Hdr h;
  static const long days[] = {0, 1, -1, 365, 2738, 6209, -3105};
  const long d = days[c.choose(7, "day")] * 86400L;
  h.first.sec = d + c.choose(8, "first") * 10800L;
  h.last.sec = d + c.choose(8, "days") * 86400L + 75600L + c.choose(3, "last") * 5400L + c.choose(2, "second");
  static const long EPOCH[] = {-EPOCH0, 0, (44244 - 54650) * 86400L, (51544 - 54650) * 86400L, -86400L * 365 + 1};
  h.epoch.sec = EPOCH[c.choose(5, "reference epoch")];
  const std::string fn = write_file(c, text_of(h));
  auto a = open_file(fn);
  if (!a)
    c.fail("refused", "a header from %s to %s was refused", h.first.str().c_str(), h.last.str().c_str());
  verify(c, h, *a, fn);
  c.state(mc::mix((std::uint64_t)h.first.sec, (std::uint64_t)h.last.sec));
}
/* lines in any order (the epochs after their reference) */
static void orders(mc::Ctx &c) {
  Hdr h;
  h.tidal = c.flag("tidal");
  for (int i = 0; i < NF; i++)
    h.perm.push_back(i);
  const int a = c.choose(NF, "line"), b = c.choose(NF, "moved to");
  h.perm.erase(h.perm.begin() + a);
  h.perm.insert(h.perm.begin() + b, a);
  auto pos = [&](int x) { return std::find(h.perm.begin(), h.perm.end(), x) - h.perm.begin(); };
  if (pos(TEPOCH) > pos(TFIRST) || pos(TEPOCH) > pos(TLAST))
    c.prune();
  const std::string fn = write_file(c, text_of(h));
  auto f = open_file(fn);
  if (!f)
    c.fail("refused", "a header was refused:\n%.1800s", text_of(h).c_str());
  verify(c, h, *f, fn);
  c.state((std::uint64_t)(a * 64 + b));
}
/* every wave of the library can be the partial tide */
static void waves(mc::Ctx &c) {
  static const char *W[] = {"OM1", "OM2", "SA", "SSA", "MM", "MF", "MTM", "MSQM",
                            "Q1", "O1", "P1", "S1", "K1", "J1", "2N2", "N2", "M2",
                            "L2", "T2", "S2", "R2", "K2", "M3", "M4", "S3"};
  Hdr h;
  h.tidal = true;
  h.wave = W[c.choose(sizeof W / sizeof *W, "wave")];
  h.style = c.choose(5, "style");
  if (!dso::find_wave_entry(h.wave))
    c.prune();
  const std::string fn = write_file(c, text_of(h));
  auto f = open_file(fn);
  if (!f)
    c.fail("refused", "the header of wave %s was refused", h.wave);
  verify(c, h, *f, fn);
  c.state(mc::bits(std::atof(h.wave + 1)) + (std::uint64_t)h.wave[0]);
}
/* copies, assignments and re-reading: histories of two headers */
static void histories(mc::Ctx &c) {
  Hdr h[2];
  for (int i = 0; i < NF; i++)
    h[1].v[(std::size_t)i] = (int)FIELDS[(std::size_t)i].val.size() - 1;
  h[1].epoch.sec = -86400L * 365 + 1;
  h[1].first.sec = 86400;
  h[1].last.sec = 2 * 86400 - 10800;
  h[0].tidal = c.flag("tidal");
  h[1].tidal = !h[0].tidal;
  h[1].wave = h[0].wave = "S2";
  std::string fn[2] = {write_file(c, text_of(h[0]), "a_very_long_file_name_0.asc"),
                       write_file(c, text_of(h[1]), "1")};
  std::unique_ptr<dso::Aod1bIn> x[2];
  int is[2] = {0, 1};
  for (int i = 0; i < 2; i++) {
    x[i] = open_file(fn[i]);
    if (!x[i])
      c.fail("refused", "a header was refused:\n%.1800s", text_of(h[i]).c_str());
  }
  const int n = c.thorough() ? 4 : 3;
  for (int k = 0; k < n; k++) {
    const int op = c.choose(9, "operation");
    const int i = op & 1;
    if (op < 2) { /* copy assignment */
      *x[i] = *x[1 - i];
      is[i] = is[1 - i];
    } else if (op < 4) { /* copy */
      x[i].reset(new dso::Aod1bIn(*x[1 - i]));
      is[i] = is[1 - i];
    } else if (op == 4) { /* move there and back */
      dso::Aod1bIn t(std::move(*x[0]));
      *x[0] = std::move(t);
    } else if (op == 5) {
      if (x[0]->read_header())
        c.fail("re-read", "a header cannot be read again");
    } else if (op > 6) { /* move of a copy, over the other */
      dso::Aod1bIn t(*x[1 - i]);
      *x[i] = std::move(t);
      is[i] = is[1 - i];
    } else { /* to itself */
      const dso::Aod1bIn &t = *x[0];
      *x[0] = t;
    }
    for (int j = 0; j < 2; j++)
      verify(c, h[is[j]], *x[j], fn[is[j]]);
    c.state((std::uint64_t)(is[0] * 2 + is[1]));
  }
}
/* of any years; many lines; parts of seconds */
static void unusual(mc::Ctx &c) {
  static const int Y[] = {1950, 1976, 1999, 2000, 2001, 2004, 2015, 2100};
  static const char *F[] = {"", ".500000", ".250000", ".001000", ".999000", ".100000", ".300000", ".123456"};
  static const int N[] = {0, 1, 20, 30, 60, 66};
  Hdr h;
  h.tidal = c.flag("tidal");
  h.extra = N[c.choose(6, "lines")];
  if (h.tidal) {
    h.year0 = Y[c.choose(8, "first")];
    h.year1 = Y[c.choose(8, "last")];
  } else {
    h.frac0 = F[c.choose(8, "fraction of the first")];
    h.frac = F[c.choose(8, "fraction")];
    h.last.sec = c.choose(3, "last") * 43200;
  }
  const std::string fn = write_file(c, text_of(h));
  auto f = open_file(fn);
  if (!f)
    c.fail("refused", "a header was refused:\n%.4800s", text_of(h).c_str());
  verify(c, h, *f, fn);
  c.state(mc::mix((std::uint64_t)(h.year0 * 4096 + h.year1), (std::uint64_t)h.last.sec));
}
/* the file itself changed before the header is read again */
static void reread(mc::Ctx &c) {
  Hdr a, b;
  const int i = c.choose(NF, "field");
  const int va = c.choose((int)FIELDS[(std::size_t)i].val.size(), "before");
  const int vb = c.choose((int)FIELDS[(std::size_t)i].val.size(), "after");
  a.v[(std::size_t)i] = va;
  b.v[(std::size_t)i] = vb;
  const std::string fn = write_file(c, text_of(a));
  auto f = open_file(fn);
  if (!f)
    c.fail("refused", "a header was refused:\n%.1800s", text_of(a).c_str());
  static const int NEEDED[] = {-1, DEG, GM, RE};
  const int gone = NEEDED[c.choose(4, "line gone")];
  std::string t = text_of(b);
  if (gone >= 0) {
    const std::string l = line_of(b, gone);
    t.erase(t.find(l), l.size());
  }
  write_file(c, t);
  if (gone >= 0) {
    if (!f->read_header())
      c.fail("re-read", "the new header has no %s", FIELDS[(std::size_t)gone].key);
    c.checked();
    return;
  }
  if (f->read_header())
    c.fail("re-read", "a header cannot be read again");
  verify(c, b, *f, fn);
  c.state((std::uint64_t)(i * 64 + va * 8 + vb));
}
/* what must be refused */
static void refused(mc::Ctx &c) {
  Hdr h;
  h.tidal = c.flag("tidal");
  h.style = c.choose(2, "style") * 3;
  std::vector<std::string> lines;
  for (int i = 0; i < NF; i++)
    lines.push_back(line_of(h, i));
  if (h.tidal)
    lines.push_back(head("PARTIAL TIDE", "M2"));
  lines.push_back("END OF HEADER\n");
  auto set = [&](int i, const std::string &val) {
    lines[(std::size_t)i].resize(lines[(std::size_t)i].find(':') + 1);
    lines[(std::size_t)i] += val + "\n";
  };
  const int kind = c.choose(10, "damage");
  static const int nums[] = {FTYPE, FFMT, NHDR, NREC, DEG, GM, RE, FLAT, OMEGA, NSETS, TFIRST, TLAST, TEPOCH, ERRS, NORM};
  if (kind == 0) { /* a value that is not one */
    static const char *junk[] = {"", "   ", " x", " -", "NOT YES", "*****"};
    set(nums[c.choose(15, "field")], junk[c.choose(6, "junk")]);
  } else if (kind == 1) { /* lines that the library cannot do without */
    static const int need[] = {DEG, GM, RE};
    lines.erase(lines.begin() + need[c.choose(3, "line")]);
  } else if (kind == 2) { /* no end */
    lines.pop_back();
    if (c.flag("data"))
      lines.push_back("DATA SET 01: 1 COEFFICIENTS FOR 2008-07-03 00:00:00 OF TYPE atm\n");
  } else if (kind == 3) { /* an unknown line, anywhere */
    static const char *u[] = {"\n", "UNKNOWN : 1\n", " MAXIMUM DEGREE : 1\n", "maximum degree : 1\n"};
    lines.insert(lines.begin() + c.choose((int)lines.size(), "place"), u[c.choose(4, "line")]);
  } else if (kind == 4) { /* too long a line, anywhere */
    const int at = c.choose((int)lines.size(), "place");
    lines[(std::size_t)at].insert(lines[(std::size_t)at].size() - 1, std::string((std::size_t)(124 + c.choose(3, "length") * 200), 'x'));
  } else if (kind == 5) { /* epochs that contradict */
    if (h.tidal)
      c.prune();
    const int w = c.choose(2, "line") ? TFIRST : TLAST;
    static const char *v[] = {" 268315200.0 (2008-07-03 00:00:01)", " 268315201.0 (2008-07-03 00:00:00)",
                              " 268315200.0 (2008-07-03)", " 268315200.0", " 268315200.0 (", " 268315200.0 (2008-13-03 00:00:00)",
                              " 268315200.0 (2008-02-30 00:00:00)", " 1e300 (2008-07-03 00:00:00)", " inf (2008-07-03 00:00:00)", " nan (2008-07-03 00:00:00)"};
    set(w, v[c.choose(10, "epoch")]);
  } else if (kind == 6) {
    static const char *v[] = {" 2000-13-01 12:00:00", " 2000-02-30 12:00:00", " 2000-01-01", " 2000", " 0000-00-00 00:00:00"};
    set(TEPOCH, v[c.choose(5, "epoch")]);
  } else if (kind == 7) {
    if (!h.tidal)
      c.prune();
    static const char *v[] = {"", " X9", " ABCDEFGHIJKLMNOPQRSTUVWXYZ", " M"};
    set(NF, v[c.choose(4, "wave")]);
  } else if (kind == 8) { /* no file, an empty one, a directory */
    const int k = c.choose(3, "file");
    const std::string fn = write_file(c, "", "none");
    if (k == 0)
      std::remove(fn.c_str());
    if (open_file(k == 2 ? c.tmpdir : fn))
      c.fail("accepted", "a file without a header was accepted");
    return;
  } else {
    static const char *v[] = {" -1", " -180"};
    static const int w[] = {DEG, GM, RE};
    set(w[c.choose(3, "field")], v[c.choose(2, "value")]);
  }
  std::string t;
  for (const auto &l : lines)
    t += l;
  if (open_file(write_file(c, t)))
    c.fail("accepted", "a damaged header was accepted (damage %d):\n%.1800s", kind, t.c_str());
  c.checked();
  c.state(mc::mix((std::uint64_t)kind, h.tidal));
}
/* any byte replaced, or the file cut: no harm */
static void bytes(mc::Ctx &c) {
  Hdr h;
  h.tidal = c.flag("tidal");
  h.style = c.choose(2, "style");
  std::string t = text_of(h);
  const int at = c.choose((int)t.size(), "place");
  const int k = c.choose(c.thorough() ? 11 : 7, "with");
  if (k == 0)
    t.resize((std::size_t)at);
  else
    t[(std::size_t)at] = "\n :9(-\0x\tA\xff."[k - 1];
  auto f = open_file(write_file(c, t));
  if (f) {
    /* all strings end where they should */
    if (std::strlen(f->agency()) > 19 || std::strlen(f->satellite()) > 19 ||
        std::strlen(f->sensor()) > 19 || std::strlen(f->process_level()) > 3 ||
        std::strlen(f->pressure_type()) > 3)
      c.fail("strings", "a string of the header has no end");
    if (k == 0 && (std::size_t)at < text_of(h).find("END OF HEADER") + 13)
      c.fail("accepted", "a header cut after %d bytes was accepted", at);
  }
  c.checked();
  c.state((std::uint64_t)at);
}
/* names of products */
static void names(mc::Ctx &c) {
  static const int ys[] = {1976, 1999, 2000, 2008, 2024, 2100};
  const int y = ys[c.choose(6, "year")], m = 1 + c.choose(12, "month");
  static const int ds[] = {1, 9, 10, 28};
  const int d = ds[c.choose(4, "day")];
  static const int rls[] = {0, 1, 5, 6, 7, 10, 42, 99};
  const int rl = rls[c.choose(8, "release")];
  const char sat = "XAG"[c.choose(3, "satellite")];
  const bool gz = c.flag("compressed");
  char want[64];
  std::snprintf(want, sizeof want, "AOD1B_%04d-%02d-%02d_%c_%02d.asc%s", y, m, d, sat, rl, gz ? ".gz" : "");
  const dso::ymd_date t{dso::year(y), dso::month(m), dso::day_of_month(d)};
  /* the documented size of the buffer */
  std::unique_ptr<char[]> buf(new char[gz ? 29 : 26]);
  const char *r = dso::Aod1bNonTidalProductNaming::filename(t, rl, buf.get(), sat, gz);
  if (r != buf.get() || std::strcmp(r, want))
    c.fail("filename", "the product is called [%s] instead of [%s]", buf.get(), want);
  const std::string s = dso::Aod1bNonTidalProductNaming::filename(t, rl, sat, gz);
  if (s != want)
    c.fail("filename", "the product is called [%s] instead of [%s]", s.c_str(), want);
  static const char *dir[] = {"", "/", "./", "/data/AOD1B_2001-01-01_X_05.asc/", "a/b/"};
  const std::string full = dir[c.choose(5, "folder")] + s;
  std::unique_ptr<char[]> p(new char[full.size() + 1]);
  std::memcpy(p.get(), full.c_str(), full.size() + 1);
  const int got = dso::Aod1bNonTidalProductNaming::resolve_rl(p.get());
  if (got != rl)
    c.fail("release", "release %d of %s was resolved as %d", rl, full.c_str(), got);
  c.checked(3);
  c.state(mc::mix((std::uint64_t)(y * 16 + m), (std::uint64_t)(d * 256 + rl)));
}
static void bad_names(mc::Ctx &c) {
  std::string s = "AOD1B_2008-07-03_X_06.asc";
  const int k = c.choose(3, "damage");
  if (k == 0)
    s.resize((std::size_t)c.choose(20, "length"));
  else if (k == 1)
    s.replace(19, 2, c.flag("junk") ? "xx" : "  ");
  else
    s = c.flag("folder") ? "/tmp/" : "";
  if (c.flag("folder"))
    s = "/data/" + s;
  std::unique_ptr<char[]> p(new char[s.size() + 1]);
  std::memcpy(p.get(), s.c_str(), s.size() + 1);
  const int got = dso::Aod1bNonTidalProductNaming::resolve_rl(p.get());
  if (got >= 0)
    c.fail("release", "release %d was found in [%s]", got, s.c_str());
  c.checked();
  c.state((std::uint64_t)s.size());
}
int main(int argc, char **argv) {
  return mc::run(argc, argv,
                 {{"values", values, 3}, {"epochs", epochs, 2},
                  {"orders", orders, 2}, {"waves", waves, 2},
                  {"histories", histories, 3}, {"reread", reread, 1}, {"unusual", unusual, 2},
                  {"refused", refused, 3}, {"bytes", bytes, 3},
                  {"names", names, 2}, {"bad names", bad_names, 2}});
}
