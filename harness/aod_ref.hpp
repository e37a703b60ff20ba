/* AOD1B files: what they are made from, and how they are written. */
#pragma once
#include "aod1b.hpp"
#include "aod1b_data_stream.hpp"
#include "mc.hpp"
#include <algorithm>
#include <memory>
#include <string>

using dso::AOD1BCoefficientType;
using dso::StokesCoeffs;
typedef dso::Datetime<dso::nanoseconds> When;

static const char *TYPE_NAME[] = {"atm", "ocn", "glo", "oba"};

/* an instant in GPS time, by seconds from 2008-07-03 00:00:00 */
struct Gps {
  long sec;
  long mjd() const { return 54650 + (sec >= 0 ? sec / 86400 : -((86399 - sec) / 86400)); }
  long sod() const { return sec - (mjd() - 54650) * 86400; }
  /* TT = GPS + 51.184 s */
  When tt() const {
    return When(dso::modified_julian_day(mjd()),
                dso::nanoseconds(sod() * 1000000000LL + 51184000000LL));
  }
  std::string str() const {
    int y, m, d;
    dso::shim::mjd_to_civil(mjd(), y, m, d);
    char b[64];
    std::snprintf(b, sizeof b, "%04d-%02d-%02d %02ld:%02ld:%02ld", y, m, d,
                  sod() / 3600, sod() % 3600 / 60, sod() % 60);
    return b;
  }
};
/* seconds from 2000-01-01 12:00:00 to 2008-07-03 00:00:00 */
static const long EPOCH0 = (54650L - 51544L) * 86400L - 43200L;

/* a coefficient, unique to its block, degree and order; exact in binary */
static double coef(int id, int l, int m, bool s) {
  if (s && !m)
    return 0.;
  const int k = ((id * 11 + l) * 11 + m) * 2 + s + 1;
  return (((l + m + id + s) % 2) ? -1. : 1.) * std::ldexp((double)k, -40);
}
struct Block {
  int type;   /* index in TYPE_NAME */
  Gps epoch;
  int id;     /* selects the coefficients */
};
struct File {
  int degree = 2;
  std::vector<Block> blocks;
  int style = 0;       /* of the data lines: 1 plus signs, 2 tight, 3 \r\n */
  int order = 0;       /* of the data lines: 1 by order, 2 backwards */
  bool eol = true;     /* the last line is terminated */
  int nsets = -1;      /* as announced */
  double GM = 0.39860044180000E+15, Re = 6378136.60;
};
static std::string head(const char *key, const std::string &val) {
  char b[256];
  std::snprintf(b, sizeof b, "%-30s: %s\n", key, val.c_str());
  return b;
}
static std::string num(double v, const char *f = "%.17g") {
  char b[64];
  std::snprintf(b, sizeof b, f, v);
  return b;
}
static std::vector<std::pair<int, int>> lm_of(int degree, int order) {
  std::vector<std::pair<int, int>> r;
  for (int l = 0; l <= degree; l++)
    for (int m = 0; m <= l; m++)
      r.emplace_back(l, m);
  if (order == 1)
    std::stable_sort(r.begin(), r.end(), [](auto &a, auto &b) {
      return a.second < b.second;
    });
  if (order == 2)
    std::reverse(r.begin(), r.end());
  return r;
}
static std::string data_line(int l, int m, double C, double S, int style) {
  char b[160];
  static const char *F[] = {"%3d %3d  %.16e  %.16e\n", "%d %d %+.16e %+.16e\n",
                            "%d %d %.17g %.17g\n", " %3d %3d %24.16E %24.16E \r\n"};
  std::snprintf(b, sizeof b, F[style], l, m, C, S);
  return b;
}
static std::string file_header(const File &f) {
  std::string t;
  const Gps a = f.blocks.empty() ? Gps{0} : f.blocks.front().epoch;
  const Gps z = f.blocks.empty() ? Gps{0} : f.blocks.back().epoch;
  t += head("PRODUCER AGENCY", "GFZ");
  t += head("PRODUCER INSTITUTION", "GFZ");
  t += head("FILE TYPE ipAOD1BF", "999");
  t += head("FILE FORMAT 0=BINARY 1=ASCII", "1");
  t += head("NUMBER OF HEADER RECORDS", "30");
  t += head("SOFTWARE VERSION", "atm_ocean_dealise.06");
  t += head("SOFTWARE LINK TIME", "Not Applicable");
  t += head("REFERENCE DOCUMENTATION", "GRACE De-aliasing ADD");
  t += head("SATELLITE NAME", "GRACE X");
  t += head("SENSOR NAME", "Not Applicable");
  t += head("TIME EPOCH (GPS TIME)", "2000-01-01 12:00:00");
  t += head("TIME FIRST OBS(SEC PAST EPOCH)",
            std::to_string(EPOCH0 + a.sec) + ".000000 (" + a.str() + ")");
  t += head("TIME LAST OBS(SEC PAST EPOCH)",
            std::to_string(EPOCH0 + z.sec) + ".000000 (" + z.str() + ")");
  t += head("NUMBER OF DATA RECORDS", "527072");
  t += head("PRODUCT START CREATE TIME(UTC)", "2016-10-06 08:20:51.000");
  t += head("PRODUCT END CREATE TIME(UTC)", "2016-10-06 08:20:53.000");
  t += head("FILESIZE (BYTES)", "123456");
  t += head("FILENAME", "AOD1B_2008-07-03_X_06.asc");
  t += head("PROCESS LEVEL (1A OR 1B)", "1B");
  t += head("PRESSURE TYPE (SP OR VI)", "VI");
  t += head("MAXIMUM DEGREE", std::to_string(f.degree));
  t += head("COEFFICIENTS ERRORS (YES/NO)", "NO");
  t += head("COEFF. NORMALIZED (YES/NO)", "YES");
  t += head("CONSTANT GM [M^3/S^2]", num(f.GM, "%.14E"));
  t += head("CONSTANT A [M]", num(f.Re, "%.2f"));
  t += head("CONSTANT FLAT [-]", "298.25642");
  t += head("CONSTANT OMEGA [RAD/S]", "7.292115E-05");
  t += head("NUMBER OF DATA SETS",
            std::to_string(f.nsets < 0 ? (int)f.blocks.size() : f.nsets));
  t += head("DATA FORMAT (N,M,C,S)", "(2(I3,X),2(E15.9,X))");
  t += "END OF HEADER\n";
  return t;
}
static std::string block_header(int nr, const Block &b, int lines) {
  char s[160];
  std::snprintf(s, sizeof s,
                "DATA SET %02d: %7d COEFFICIENTS FOR %s OF TYPE %s\n", nr,
                lines, b.epoch.str().c_str(), TYPE_NAME[b.type]);
  return s;
}
static std::string block_text(const File &f, std::size_t i) {
  const auto lm = lm_of(f.degree, f.order);
  std::string t = block_header((int)i + 1, f.blocks[i], (int)lm.size());
  for (const auto &p : lm)
    t += data_line(p.first, p.second,
                   coef(f.blocks[i].id, p.first, p.second, false),
                   coef(f.blocks[i].id, p.first, p.second, true), f.style);
  return t;
}
static std::string file_text(const File &f) {
  std::string t = file_header(f);
  for (std::size_t i = 0; i < f.blocks.size(); i++)
    t += block_text(f, i);
  if (!f.eol)
    t.pop_back();
  return t;
}
static std::string write_file(mc::Ctx &c, const std::string &text,
                              const std::string &name = "AOD1B_2008-07-03_X_06.asc") {
  const std::string fn = c.tmpdir + "/" + name;
  FILE *f = std::fopen(fn.c_str(), "wb");
  if (!f) {
    std::perror("write");
    std::_Exit(96);
  }
  std::fwrite(text.data(), 1, text.size(), f);
  std::fclose(f);
  return fn;
}
/* 1 for every coefficient up to (degree, order) of a block, 0 beyond */
static void same(mc::Ctx &c, const StokesCoeffs &cs, int id, int degree,
                 int order, const char *what) {
  for (int m = 0; m <= cs.max_order(); m++)
    for (int l = m; l <= cs.max_degree(); l++) {
      const bool in = l <= degree && m <= order;
      const double C = in ? coef(id, l, m, false) : 0.;
      const double S = in ? coef(id, l, m, true) : 0.;
      if (!(cs.C(l, m) == C) || !(cs.S(l, m) == S))
        c.fail("coefficients", "%s: degree %d order %d is (%.17g, %.17g), the "
               "file has (%.17g, %.17g)", what, l, m, cs.C(l, m), cs.S(l, m), C,
               S);
      c.checked(2);
    }
}
static void dirty(StokesCoeffs &cs) {
  for (int m = 0; m <= cs.max_order(); m++)
    for (int l = m; l <= cs.max_degree(); l++)
      cs.C(l, m) = cs.S(l, m) = 777.;
}
