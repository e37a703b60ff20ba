/* Regularising and de-regularising series of Earth orientation parameters. */
#include "eop_ref.hpp"
#include "eop_tables.hpp"
#include "farg_ref.hpp"
#include <map>

/** zonal tide variation of UT1 and LOD [s] at the epoch of a record */
static void zonal(const Rec &r, ld &ut1, ld &lod) {
  static std::map<std::pair<long, double>, std::pair<ld, ld>> known;
  const auto k = known.find({r.mjd, r.frac});
  if (k != known.end()) {
    ut1 = k->second.first;
    lod = k->second.second;
    return;
  }
  const ld tt =
      (ld)(r.mjd - 51544) - .5L + r.frac + (tai_utc(r.mjd) + 32.184L) / 86400;
  const ld t = tt / 36525;
  ut1 = lod = 0;
  for (const auto &z : ZONAL) {
    ld x = 0;
    for (int i = 0; i < 5; i++)
      x += z[i] * farg(i, t);
    ut1 += 1e-4L * (z[6] * sinl(x) + z[7] * cosl(x));
    lod += 1e-5L * (z[8] * cosl(x) + z[9] * sinl(x));
  }
  known[{r.mjd, r.frac}] = {ut1, lod};
}
struct Model {
  std::vector<Rec> r;
  int net = 0; /* corrections added */
};
static void check(mc::Ctx &c, const dso::EopSeries &s, const Model &m,
                  const char *who) {
  if (s.num_entries() != (int)m.r.size())
    c.fail("size", "%s has %d records and not %zu", who, (int)s.num_entries(),
           m.r.size());
  for (std::size_t i = 0; i < m.r.size(); i++) {
    const Rec &r = m.r[i];
    const dso::EopRecord &e = s.give_me_the_vector()[i];
    ld u, l;
    zonal(r, u, l);
    const ld wu = r.v[2] + m.net * u, wl = r.v[7] + m.net * l;
    if (!(fabsl(e.dut() - wu) < 1e-12L))
      c.fail("ut1", "%s: UT1-UTC of record %zu (MJD %ld) is %.17g and not "
             "%.17Lg after a net of %+d corrections", who, i, r.mjd, e.dut(),
             wu, m.net);
    if (!(fabsl(e.lod() - wl) < 1e-13L))
      c.fail("lod", "%s: LOD of record %zu (MJD %ld) is %.17g and not %.17Lg "
             "after a net of %+d corrections", who, i, r.mjd, e.lod(), wl,
             m.net);
    const double got[6] = {e.xp(), e.yp(), e.dX(), e.dY(), e.xp_rate(),
                           e.yp_rate()};
    static const int at[6] = {0, 1, 3, 4, 5, 6};
    for (int k = 0; k < 6; k++)
      if (!(got[k] == r.v[at[k]]))
        c.fail("other", "%s: a value other than UT1 and LOD changed", who);
    if (e.dat() != tai_utc(r.mjd) || e.t() != rec_tt(r))
      c.fail("other", "%s: TAI-UTC or epoch changed", who);
    c.checked(4);
  }
}
/* the spacing is in half days */
static void fill(dso::EopSeries &s, Model &m, long first, long step, int n) {
  s.clear();
  m.r.clear();
  for (int i = 0; i < n; i++) {
    m.r.push_back(make_rec(first + i * step / 2, (i * step % 2) * .5));
    if (i == 1) /* zero is a value, too */
      m.r.back().v[2] = m.r.back().v[7] = 0;
    s.push_back(lib_rec(m.r.back()));
  }
  s.reset_vec_iterator(); /* as documented for push_back */
  m.net = 0;
}
static void histories(mc::Ctx &c) {
  const int depth = c.thorough() ? 5 : 4;
  dso::EopSeries s[2];
  Model m[2];
  static const long steps[] = {1, 2, 9, 58};
  const long st = steps[c.choose(4, "spacing")];
  fill(s[0], m[0], 57746, st, 6);
  fill(s[1], m[1], 56100, st, 4);
  for (int k = 0; k < depth; k++) {
    const int op = c.choose(10, "operation");
    const int x = op & 1;
    switch (op / 2) {
    case 0:
      s[x].regularize();
      --m[x].net;
      break;
    case 1:
      s[x].deregularize();
      ++m[x].net;
      break;
    case 2:
      s[x] = s[1 - x];
      m[x] = m[1 - x];
      break;
    case 3: { /* a query leaves the series as it is, and uses what is there */
      if (m[x].r.empty())
        c.prune();
      dso::EopRecord e;
      const std::size_t i = m[x].r.size() / 2;
      if (dso::EopSeries::out_of_bounds(s[x].interpolate(rec_tt(m[x].r[i]), e, 3)))
        c.fail("status", "interpolation within the series failed");
      ld u, l;
      zonal(m[x].r[i], u, l);
      if (!(fabsl(e.dut() - (m[x].r[i].v[2] + m[x].net * u)) < 1e-11L) ||
          !(fabsl(e.lod() - (m[x].r[i].v[7] + m[x].net * l)) < 1e-11L))
        c.fail("query", "the interpolated value at a record is not the "
               "corrected one");
      c.checked();
      break;
    }
    case 4:
      fill(s[x], m[x], 57750 + 100 * x, st, c.choose(2, "empty") ? 0 : 3);
      break;
    }
    check(c, s[0], m[0], "first series");
    check(c, s[1], m[1], "second series");
    c.state(mc::mix(mc::mix(m[0].net + 50, m[1].net + 50),
                    m[0].r.size() * 10 + m[1].r.size()));
  }
}
static void epochs(mc::Ctx &c) {
  /* daily records over the span of the C04 series */
  const long first = 41400 + 100 * c.choose(190, "hundred days");
  dso::EopSeries s;
  Model m;
  for (int i = 0; i < 100; i++) {
    m.r.push_back(first < 56000 ? decades_rec(first + i) : make_rec(first + i));
    s.push_back(lib_rec(m.r.back()));
  }
  s.reset_vec_iterator();
  const int reg = c.flag("regularize");
  reg ? s.regularize() : s.deregularize();
  m.net = reg ? -1 : 1;
  check(c, s, m, "series");
  c.state(first);
}
/* a series of decades, corrected several times */
static void decades(mc::Ctx &c) {
  dso::EopSeries s;
  Model m;
  const int n = c.choose(2, "records") ? 19000 : 4500;
  for (int i = 0; i < n; i++) {
    m.r.push_back(decades_rec(60400 - n + i));
    s.push_back(lib_rec(m.r.back()));
  }
  s.reset_vec_iterator();
  for (int k = 0; k < 2; k++) {
    if (c.flag("regularize")) {
      s.regularize();
      --m.net;
    } else {
      s.deregularize();
      ++m.net;
    }
    check(c, s, m, "series");
    c.state((std::uint64_t)(n * 10 + m.net + 2));
  }
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, {{"histories", histories, 2},
                              {"epochs", epochs, 1},
                              {"decades", decades, 2}});
}
