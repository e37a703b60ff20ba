/* Interpolation of Earth orientation parameters, for any history. */
#include "eop_ref.hpp"
#include <map>
#include <memory>

struct Model {
  std::vector<Rec> r;
};
static const char *NM[] = {"xp", "yp", "UT1-UTC", "dX", "dY", "", "", "LOD"};

struct Want {
  bool strict; /* status is determined */
  Res res;
  ld v[8], tol[8];
  double exact[8];
  bool copy;
  int step;
};
static long utc_day(const dso::MjdEpoch &t, ld shift) {
  /* TT -> UTC day, from scratch */
  ld s = (ld)t.seconds().seconds() - 32.184L + shift;
  long m = t.imjd();
  if (s < 0) {
    s += 86400;
    --m;
  }
  s -= tai_utc(m);
  if (s < 0)
    --m;
  return m;
}
static Want reference(const Model &M, const dso::MjdEpoch &t, int degree) {
  Want w{};
  const int N = (int)M.r.size();
  int idx = 0;
  while (idx < N && !(t < rec_tt(M.r[(std::size_t)idx])))
    ++idx;
  w.strict = true;
  if (idx == 0 || idx == N) {
    w.copy = true;
    w.res = idx ? Res::OutOfBoundsLater : Res::OutOfBoundsPrior;
    for (int i = 0; i < 8; i++)
      w.exact[i] = M.r[(std::size_t)(idx ? N - 1 : 0)].v[i];
    return w;
  }
  if (t == rec_tt(M.r[0]))
    w.strict = false; /* documented as a limit case; its value is not */
  const int want = (degree + 1) / 2;
  const int side = std::min(want, std::min(idx, N - idx));
  w.res = side == 1                 ? Res::Linear
          : 2 * side == degree + 1 ? Res::PolyDegreeRequested
                                    : Res::PolyDegreeDescreased;
  const ld x = days_since(t);
  for (int j = idx - side; j < idx + side; j++) {
    const Rec &r = M.r[(std::size_t)j];
    const ld xj = days_since(rec_tt(r));
    ld L = 1;
    for (int k = idx - side; k < idx + side; k++)
      if (k != j) {
        const ld xk = days_since(rec_tt(M.r[(std::size_t)k]));
        L *= (x - xk) / (xj - xk);
      }
    for (int i = 0; i < 8; i++) {
      const ld v = (ld)r.v[i] - (i == 2 ? tai_utc(r.mjd) : 0);
      w.v[i] += L * v;
      w.tol[i] += 1e-13L * (fabsl(L) + 1) * (fabsl(v) + (i == 2 ? 40 : 0));
    }
  }
  /* within a microsecond of a leap second both sides of the step are right */
  w.step = tai_utc(utc_day(t, 1e-6L)) - tai_utc(utc_day(t, -1e-6L));
  w.v[2] += tai_utc(utc_day(t, -1e-6L));
  return w;
}
static void ask(mc::Ctx &c, const dso::EopSeries &s, const Model &M,
                const dso::MjdEpoch &t, int degree, const char *who) {
  dso::EopRecord e;
  const Res res = s.interpolate(t, e, degree);
  const Want w = reference(M, t, degree);
  c.log("%s at %.6f, degree %d of %zu: status %d", who, t.as_mjd(), degree,
        M.r.size(), (int)res);
  if (w.strict && res != w.res)
    c.fail("status", "%s: %.6f, degree %d of %zu records: status %d, not %d",
           who, t.as_mjd(), degree, M.r.size(), (int)res, (int)w.res);
  if (dso::EopSeries::out_of_bounds(res) !=
      (res == Res::OutOfBoundsLater || res == Res::OutOfBoundsPrior))
    c.fail("out-of-bounds", "predicate of status %d", (int)res);
  if (e.t() != t)
    c.fail("epoch", "%s: result is not for the epoch asked for", who);
  const double got[8] = {e.xp(), e.yp(), e.dut(), e.dX(), e.dY(), 0, 0,
                         e.lod()};
  for (int i = 0; i < 8; i++) {
    if (i == 5 || i == 6)
      continue;
    const bool ok = w.copy ? got[i] == w.exact[i]
                           : fabsl(got[i] - w.v[i]) <= w.tol[i] ||
                                 (i == 2 && fabsl(got[i] - w.v[i] - w.step) <=
                                                w.tol[i]);
    if (!ok)
      c.fail("value",
             "%s: %s at %.9f, degree %d of %zu records is %.17g and not %.17Lg",
             who, NM[i], t.as_mjd(), degree, M.r.size(), got[i],
             w.copy ? (ld)w.exact[i] : w.v[i]);
    c.checked();
  }
}
static void ask_dut1(mc::Ctx &c, const dso::EopSeries &s, const Model &M,
                     const dso::MjdEpoch &t, const char *who) {
  double d;
  const Res res = s.approx_dut1(t, d);
  const Want w = reference(M, t, 1);
  if (w.strict && res != w.res)
    c.fail("status", "%s: approximate UT1-UTC: status %d, not %d", who,
           (int)res, (int)w.res);
  if (w.copy ? d != w.exact[2] : !(fabsl(d - w.v[2]) <= w.tol[2] ||
                                    fabsl(d - w.v[2] - w.step) <= w.tol[2]))
    c.fail("value", "%s: approximate UT1-UTC at %.9f is %.17g, not %.17Lg", who,
           t.as_mjd(), d, w.copy ? (ld)w.exact[2] : w.v[2]);
  c.checked();
}
static std::vector<Rec> records(int n, int shape) {
  std::vector<Rec> v;
  long m = 57754 - n / 2;
  for (int i = 0; i < n; i++) {
    if (shape == 2) /* twice a day */
      v.push_back(make_rec(57754 - (n + 3) / 4 + i / 2, (i % 2) * .5));
    else
      v.push_back(make_rec(m));
    m += shape == 1 && i % 3 == 1 ? 3 : 1; /* with gaps */
  }
  return v;
}
static void fill(dso::EopSeries &s, const std::vector<Rec> &v) {
  s.clear();
  s.reserve((int)v.size());
  for (const auto &r : v)
    s.push_back(lib_rec(r));
  s.reset_vec_iterator();
}
/* every length, spacing, degree, and position between the records */
static void single(mc::Ctx &c) {
  const int n = 1 + c.choose(c.thorough() ? 24 : 14, "records");
  const int shape = c.choose(3, "spacing");
  const int degree = 1 + c.choose(9, "degree");
  Model M;
  M.r = records(n, shape);
  dso::EopSeries s;
  fill(s, M.r);
  if (s.num_entries() != n)
    c.fail("count", "%d entries and not %d", s.num_entries(), n);
  static const double off[] = {0,     1e-6, 32.184, 37.,  68.184, 68.9,
                               69.184, 70,  1e3,    43200, 64800,  86340};
  const double o = off[c.choose(12, "seconds")];
  const dso::MjdEpoch a = rec_tt(M.r[0]), b = rec_tt(M.r[M.r.size() - 1]);
  const int days = b.imjd() - a.imjd() + 4;
  const int d = c.choose(days, "day");
  const bool exact = c.flag("relative to records");
  /* from the (day, second) grid of TT, or from the grid of the records */
  const dso::MjdEpoch t =
      exact ? dso::MjdEpoch(a.imjd() - 2 + d, a.seconds())
                  .add_seconds(dso::FractionalSeconds{o})
            : dso::MjdEpoch(a.imjd() - 2 + d, dso::FractionalSeconds{o});
  ask(c, s, M, t, degree, "single");
  if (degree == 1)
    ask_dut1(c, s, M, t, "single");
  c.state(mc::mix((unsigned)(n * 100 + shape * 10 + degree),
                  mc::bits(t.as_mjd())));
}
/* queries between copies, moves, refills */
static void history(mc::Ctx &c) {
  const int depth = c.thorough() ? 5 : 4;
  std::unique_ptr<dso::EopSeries> s[2];
  Model M[2];
  s[0].reset(new dso::EopSeries);
  M[0].r = records(7, 0);
  fill(*s[0], M[0].r);
  s[1].reset(new dso::EopSeries);
  static const double day[] = {57740, 57751.5, 57753.9999, 57754.3, 57757.2,
                               57770};
  for (int i = 0; i < depth; i++) {
    const int op = c.choose(8, "operation");
    const int w = op == 7 ? 0 : c.choose(2, "series");
    if (op <= 1) {
      if (M[w].r.empty())
        c.prune();
      const double d = day[c.choose(6, "epoch")];
      const dso::MjdEpoch t((long)d, dso::FractionalSeconds{
                                         (d - std::floor(d)) * 86400e0});
      if (op)
        ask_dut1(c, *s[w], M[w], t, "history");
      else {
        static const int deg[] = {1, 5, 9};
        ask(c, *s[w], M[w], t, deg[c.choose(3, "degree")], "history");
      }
    } else if (op == 2) { /* copy construct, the source goes away */
      s[w].reset(new dso::EopSeries(*s[1 - w]));
      M[w] = M[1 - w];
      if (c.flag("source is destroyed")) {
        s[1 - w].reset(new dso::EopSeries);
        M[1 - w].r.clear();
      }
    } else if (op == 3) {
      *s[w] = *s[1 - w];
      M[w] = M[1 - w];
    } else if (op == 4) {
      *s[w] = std::move(*s[1 - w]);
      M[w] = M[1 - w];
      s[1 - w].reset(new dso::EopSeries);
      M[1 - w].r.clear();
    } else if (op == 5) {
      dso::EopSeries tmp(std::move(*s[1 - w]));
      M[w] = M[1 - w];
      s[1 - w].reset(new dso::EopSeries);
      M[1 - w].r.clear();
      *s[w] = tmp;
    } else if (op == 6) { /* other contents */
      M[w].r = records(c.flag("long") ? 13 : 4, w);
      fill(*s[w], M[w].r);
    } else { /* appended to; documented to need a reset */
      const Rec r = M[w].r.empty() ? make_rec(57754)
                                   : make_rec(M[w].r.back().mjd + 1);
      M[w].r.push_back(r);
      s[w]->push_back(lib_rec(r));
      s[w]->reset_vec_iterator(c.flag("start of series") ? 0 : -1);
    }
    for (int k = 0; k < 2; k++) {
      if (s[k]->num_entries() != (int)M[k].r.size())
        c.fail("count", "%d entries and not %zu", s[k]->num_entries(),
               M[k].r.size());
      for (std::size_t j = 0; j < M[k].r.size(); j++)
        same_record(c, s[k]->give_me_the_vector()[j], M[k].r[j], "stored");
      c.state(mc::mix(M[0].r.size() * 100 + M[1].r.size(), (unsigned)op));
    }
  }
  for (int k = 0; k < 2; k++)
    if (!M[k].r.empty())
      ask(c, *s[k], M[k],
          dso::MjdEpoch(57753, dso::FractionalSeconds{50000e0}), 5, "finally");
}
/* on, just before, just after and between records, after one such query */
static void after(mc::Ctx &c) {
  const int n = 2 + c.choose(6, "records"), shape = c.choose(3, "spacing");
  const int degree = 1 + 2 * c.choose(5, "degree");
  Model M;
  M.r = records(n, shape);
  dso::EopSeries s;
  fill(s, M.r);
  static const double off[] = {0, -1e-6, 1e-6, 43200.};
  for (int k = 0; k < (c.thorough() && degree == 5 ? 3 : 2); k++) {
    const int at = c.choose(4 * n + 1, "position");
    const dso::MjdEpoch a = rec_tt(M.r[(std::size_t)std::max(0, at - 1) / 4]);
    /* the last position: a day before the first */
    const dso::MjdEpoch t = at ? a.add_seconds(dso::FractionalSeconds{off[(at - 1) % 4]})
                               : a.add_seconds(dso::FractionalSeconds{-86400.});
    ask(c, s, M, t, degree, "after");
    if (degree == 1 && c.flag("approximate"))
      ask_dut1(c, s, M, t, "after");
    c.state(mc::mix((unsigned)(n * 10 + shape), (unsigned)(at * 10 + degree)));
  }
}
/* each of the inputs changes, or does not, from one request to the next */
static void inputs(mc::Ctx &c) {
  dso::EopSeries s[2];
  const int two = c.choose(2, "series");
  int n = 0;
  mc::inputs(c, 7, [&](int b) {
    Model M;
    M.r = records(9, 0);
    /* the same dates, other values */
    for (auto &r : M.r)
      for (int k = 0; k < 8; k++)
        r.v[k] *= b & 1 ? 1 : .5;
    if (b & 2)
      M.r[5].v[1] += .125;
    if (b & 4) /* other dates, same values */
      for (auto &r : M.r)
        r.mjd += 2;
    auto &x = s[two ? n++ % 2 : 0];
    fill(x, M.r);
    const dso::MjdEpoch t(b & 8 ? 57753 : 57754, dso::FractionalSeconds(b & 16 ? 43200 : 100));
    ask(c, x, M, t, b & 32 ? 5 : 3, "changed inputs");
    if (b & 64)
      ask_dut1(c, x, M, t, "changed inputs");
  });
}
/* series of decades; each query follows another one, near it or far away */
static void decades(mc::Ctx &c) {
  static const int N[] = {4000, 19000, 400};
  static const int AT[] = {0, 1, 2, 3, 100, 1000, 1001, 2000, 3000, 3995, 3998, 3999, 4001};
  const int n = N[c.choose(c.thorough() ? 3 : 1, "records")], cut = c.choose(2, "reset to");
  static std::map<int, std::pair<dso::EopSeries, Model>> made;
  if (!made.count(n)) {
    std::vector<Rec> v;
    for (int i = 0; i < n; i++)
      v.push_back(decades_rec(60400 - n + i));
    made[n].second.r = v;
    fill(made[n].first, v);
  }
  auto &s = made[n].first;
  const Model &M = made[n].second;
  s.reset_vec_iterator(cut ? 0 : -1);
  for (int k = 0; k < (c.thorough() ? 3 : 2); k++) {
    const int at = AT[c.choose(13, "record")], deg = c.thorough() ? 5 : 1 + 2 * c.choose(5, "degree");
    const double o = c.choose(2, "seconds") ? 43200 : 70;
    const dso::MjdEpoch t((long)(60400 - n + (long)at * n / 4000), dso::FractionalSeconds(o));
    ask(c, s, M, t, deg, "decades");
    if (deg == 1)
      ask_dut1(c, s, M, t, "decades");
    c.state(mc::mix((std::uint64_t)at, (std::uint64_t)(n * 10 + deg)));
  }
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, {{"single", single, 3}, {"history", history, 3}, {"after", after, 3}, {"inputs", inputs, 2}, {"decades", decades, 2}});
}
