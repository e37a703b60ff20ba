/* Atmospheric tides: waves from AOD1B files, and their sum. */
#include "aod_ref.hpp"
#define VERIF_HAVE_DIRTY


#include "tide_ref.hpp"



/* the waves of AOD1B; multipliers and phase (in quarter turns) */
static const struct {
  const char *name;
  int n[6];
  double phase;
} TABLE[] = {{"π1", {1, 1, -3, 0, 0, 1}, -1}, {"P1", {1, 1, -2, 0, 0, 0}, 1},  {"S1", {1, 1, -1, 0, 0, 0}, 2},
             {"K1", {1, 1, 0, 0, 0, 0}, -1},  {"ψ1", {1, 1, 1, 0, 0, -1}, 1},  {"M2", {2, 0, 0, 0, 0, 0}, 0},
             {"T2", {2, 2, -3, 0, 0, 1}, 0},  {"S2", {2, 2, -2, 0, 0, 0}, 0},  {"R2", {2, 2, -1, 0, 0, -1}, 2},
             {"K2", {2, 2, 0, 0, 0, 0}, 0},   {"N2", {2, -1, 0, 1, 0, 0}, 0},  {"L2", {2, 1, 0, -1, 0, 0}, 2},
             {"T3", {3, 3, -4, 0, 0, 0}, 0},  {"S3", {3, 3, -3, 0, 0, 0}, 0},  {"R3", {3, 3, -2, 0, 0, 0}, 0},
             {"S4", {4, 4, -4, 0, 0, 0}, 0},  {"S5", {5, 5, -5, 0, 0, 0}, 0},  {"S6", {6, 6, -6, 0, 0, 0}, 0}};
static std::string tidal(int wave, int degree, int id) {
  File f;
  f.degree = degree;
  std::string t = file_header(f);
  auto rep = [&](const char *key, const std::string &with) {
    const std::size_t a = t.find(key), b = t.find('\n', a) + 1;
    t.replace(a, b - a, with);
  };
  rep("TIME FIRST", head("TIME FIRST OBS (YEAR START)", "1976"));
  rep("TIME LAST", head("TIME LAST OBS (YEAR END)", "2015"));
  rep("PRESSURE TYPE", head("PRESSURE TYPE (ATM OR OCN)", "ATM"));
  rep("NUMBER OF DATA SETS", head("NUMBER OF DATA SETS", "2"));
  rep("END OF HEADER", head("PARTIAL TIDE", TABLE[wave].name) + "END OF HEADER\n");
  const auto lm = lm_of(degree, 0);
  for (int k = 0; k < 2; k++) {
    char b[128];
    std::snprintf(b, sizeof b, "DATA SET %02d: %7d COEFFICIENTS OF TYPE %s\n", k + 1, (int)lm.size(), k ? "sin" : "cos");
    t += b;
    for (const auto &p : lm)
      t += data_line(p.first, p.second, tcoef(2 * id + k, p.first, p.second, false),
                     tcoef(2 * id + k, p.first, p.second, true), 0);
  }
  return t;
}
static Wave wave_of(int table, int id, int degree, int order) {
  Wave w;
  std::copy(TABLE[table].n, TABLE[table].n + 6, w.n);
  w.phase = TABLE[table].phase;
  w.cs = {2 * id, degree, order};
  w.sn = {2 * id + 1, degree, order};
  return w;
}
static const int MJD[] = {54650, 51544, 60310, 41317};
static const double SEC[] = {51.184, 43200., 86399.999, 0.};
static dso::MjdEpoch tt_of(int e) { return dso::MjdEpoch(MJD[e], dso::FractionalSeconds(SEC[e])); }
static dso::MjdEpoch ut_of(int e) { return dso::MjdEpoch(MJD[e], dso::FractionalSeconds(SEC[e] - 64.)); }
static void compute_at(mc::Ctx &c, dso::AtmosphericTide &a, const std::vector<Wave> &w, const dso::MjdEpoch &tt, const dso::MjdEpoch &ut,
                       const double *d) {
  if (a.stokes_coeffs().Cnm().rows())
    ::dirty(a.stokes_coeffs());
  if (a.stokes_coeffs(tt, ut, d))
    c.fail("refused", "no coefficients");
  ld b[6];
  ref_doodson(d, ref_gmst(tt, ut), b);
  std::vector<ld> fc, fs;
  for (auto &x : w) {
    const ld t = ref_argument(x.n, b) + x.phase * LPI / 2;
    fc.push_back(cosl(t));
    fs.push_back(sinl(t));
  }
  const StokesCoeffs &got = static_cast<const dso::AtmosphericTide &>(a).stokes_coeffs();
  expect_sum(c, got, w, fc, fs);
  if (a.max_degree() != got.max_degree() || a.max_order() != got.max_order())
    c.fail("size", "the model has another size than its coefficients");
}
static void compute(mc::Ctx &c, dso::AtmosphericTide &a, const std::vector<Wave> &w, int e, const double *d) {
  compute_at(c, a, w, tt_of(e), ut_of(e), d);
}
static void expect(mc::Ctx &c, const dso::AtmosphericTide &a, const std::vector<Wave> &w) {
  const auto &v = a.atlas().waves();
  if (v.size() != w.size())
    c.fail("waves", "%zu waves instead of %zu", v.size(), w.size());
  for (std::size_t i = 0; i < w.size(); i++) {
    for (int j = 0; j < 6; j++)
      if (v[i].doodson()(j) != w[i].n[j])
        c.fail("doodson", "multiplier %d of wave %zu is %d instead of %d", j, i, v[i].doodson()(j), w[i].n[j]);
    if (!(v[i].doodson().pifactor() == (double)w[i].phase))
      c.fail("phase", "wave %zu has a phase of %.1f instead of %.1f quarter turns", i, v[i].doodson().pifactor(),
             (double)w[i].phase);
    expect_set(c, v[i].stokes_cos(), w[i].cs, "cosine");
    expect_set(c, v[i].stokes_sin(), w[i].sn, "sine");
    c.checked(2);
  }
}
static const double DEL[] = {0.1, 2.3, 4.7, 6.2};
/* each wave on a lattice of arguments */
static void waves(mc::Ctx &c) {
  const int t = c.choose(18, "wave"), e = c.choose(4, "epoch");
  double d[5];
  const int n = c.thorough() ? 4 : 2;
  for (double &x : d)
    x = DEL[c.choose(n, "argument") * (n == 2 ? 3 : 1)];
  dso::AtmosphericTide a("TIDE");
  if (a.append_wave(write_file(c, tidal(t, 1, t), "w").c_str(), -1, -1))
    c.fail("append", "wave %s was refused", TABLE[t].name);
  std::vector<Wave> w{wave_of(t, t, 1, 1)};
  expect(c, a, w);
  compute(c, a, w, e, d);
  if (std::strcmp(a.atlas().name(), "TIDE"))
    c.fail("name", "the model is called %s", a.atlas().name());
  c.state(mc::mix((std::uint64_t)t, (std::uint64_t)e));
}
/* histories of waves added, some of which cannot be */
static void histories(mc::Ctx &c) {
  dso::AtmosphericTide a;
  std::vector<Wave> w;
  std::vector<int> have;
  const double d[5] = {0.1, 5.3, 2.2, 3.7, 6.1};
  static const int REQ[][2] = {{-1, -1}, {2, -1}, {2, 1}, {1, 1}, {-1, 1}, {3, 3}, {1, 2}, {0, 0}};
  const int depth = 3;
  for (int k = 0; k < depth; k++) {
    const int what = c.choose(6, "file"); /* S1, M2 of degree 2; M2, K1 of degree 3; damaged; missing */
    const int r = c.choose(c.thorough() || what < 4 ? 8 : 1, "request");
    static const int WAVE[] = {2, 5, 5, 3, 7, 8}, DEG[] = {2, 2, 3, 3, 2, 2};
    const int t = WAVE[what], L = DEG[what];
    std::string text = tidal(t, L, what);
    if (what == 4)
      text.erase(text.find('\n', text.find("DATA SET 02")) + 30); /* whatever is asked for is missing */
    const std::string fn = write_file(c, text, "w");
    if (what == 5)
      std::remove(fn.c_str());
    const int N = REQ[r][0], M = REQ[r][1], l = N < 0 ? L : N, m = M < 0 ? l : M;
    const bool known = std::find(have.begin(), have.end(), t) != have.end();
    const bool ok = what < 4 && !known && l <= L && m <= l;
    const int e = a.append_wave(fn.c_str(), N, M);
    if ((e == 0) != ok)
      c.fail(known ? "twice" : "append", "adding file %d with degree %d and order %d returned %d", what, N, M, e);
    if (ok) {
      have.push_back(t);
      w.push_back(wave_of(t, what, l, m));
    }
    expect(c, a, w);
    if (c.thorough() || k == depth - 1 || r == 1)
      compute(c, a, w, k, d);
    c.state(mc::mix((std::uint64_t)(what * 8 + r), w.size()));
  }
  compute(c, a, w, 3, d);
}
/* all waves together */
static void all(mc::Ctx &c) {
  dso::AtmosphericTide a("ALL");
  std::vector<Wave> w;
  const int step = std::vector<int>{1, 5, 7, 17}[(std::size_t)c.choose(4, "order")];
  const double d[5] = {0.1, 5.3, 2.2, 3.7, 6.1};
  const int n = 1 + c.choose(18, "waves");
  for (int i = 0; i < n; i++) {
    const int t = i * step % 18, deg = 1 + i % 3;
    if (a.append_wave(write_file(c, tidal(t, deg, t), "w").c_str(), -1, -1))
      c.fail("append", "wave %s was refused", TABLE[t].name);
    w.push_back(wave_of(t, t, deg, deg));
  }
  expect(c, a, w);
  const int e = c.choose(4, "epoch");
  compute(c, a, w, e, d);
  /* a copy is independent */
  dso::AtmosphericTide b(a);
  if (a.stokes_coeffs().Cnm().rows())
    ::dirty(a.stokes_coeffs());
  compute(c, b, w, e, d);
  expect(c, b, w);
  c.state(mc::mix((std::uint64_t)(n * 4 + e), (std::uint64_t)step));
}
/* products as large as the published ones */
static void published(mc::Ctx &c) {
  static const int DEG[] = {100, 180, 60}, REQ[][2] = {{-1, -1}, {60, -1}, {90, 45}, {100, 0}, {1, 1}};
  const int L = DEG[c.choose(c.thorough() ? 3 : 2, "degree")], first = c.choose(c.thorough() ? 18 : 3, "first wave"),
            n = 1 + c.choose(c.thorough() ? 3 : 2, "waves");
  const double d[5] = {0.1, 5.3, 2.2, 3.7, 6.1};
  dso::AtmosphericTide a("PUBLISHED");
  std::vector<Wave> w;
  for (int i = 0; i < n; i++) {
    const int *q = REQ[c.choose(5, "request")], t = (first * 5 + i * 7) % 18;
    const int l = q[0] < 0 ? L : q[0], m = q[1] < 0 ? l : q[1];
    const int e = a.append_wave(write_file(c, tidal(t, L, t), "w").c_str(), q[0], q[1]);
    if ((e == 0) != (l <= L))
      c.fail("append", "degree %d of a product of degree %d returned %d", l, L, e);
    if (!e)
      w.push_back(wave_of(t, t, l, m));
    c.state(mc::mix((std::uint64_t)(L * 200 + l), (std::uint64_t)(t * 200 + m)));
  }
  expect(c, a, w);
  compute(c, a, w, first % 4, d);
}
/* non-tidal products hold no wave */
static void nontidal(mc::Ctx &c) {
  File f;
  const int n = 1 + c.choose(4, "blocks");
  f.degree = c.choose(3, "degree");
  for (int i = 0; i < n; i++)
    f.blocks.push_back({i % 4, Gps{0}, i});
  dso::AtmosphericTide a;
  std::vector<Wave> w;
  if (!a.append_wave(write_file(c, file_text(f)).c_str(), -1, -1))
    c.fail("accepted", "a wave from a product that is not tidal");
  expect(c, a, w);
  c.checked();
  c.state((std::uint64_t)(n * 4 + f.degree));
}
/* from an atlas, as GROOPS gives it; then more from AOD1B */
static void atlas(mc::Ctx &c) {
  static const int DO[][2] = {{0, 0}, {1, 0}, {1, 1}, {3, 1}, {3, 3}};
  dso::TideAtlas t;
  std::vector<Wave> w;
  const int n = c.choose(3, "waves");
  for (int i = 0; i < n; i++) {
    Wave x = wave_of(5 + i, i, 1, 1);
    x.phase = 0;
    const int p = c.choose(5, "cosine"), q = c.choose(5, "sine");
    x.cs = {2 * i, DO[p][0], DO[p][1]};
    x.sn = {2 * i + 1, DO[q][0], DO[q][1]};
    dso::TidalConstituent k(dso::TidalWave(dso::DoodsonConstituent(x.n), 0., 0., "w"), x.cs.degree, x.cs.order);
    k.stokes_sin().resize(x.sn.degree, x.sn.order);
    fill(k.stokes_cos(), x.cs.id);
    fill(k.stokes_sin(), x.sn.id);
    t.append_wave(k);
    w.push_back(x);
  }
  dso::AtmosphericTide a(t, "ATLAS");
  const double d[5] = {0.1, 5.3, 2.2, 3.7, 6.1};
  const int when = c.choose(3, "then");
  if (when) {
    if (when == 2)
      compute(c, a, w, 1, d);
    if (a.append_wave(write_file(c, tidal(2, 2, 4), "w").c_str(), -1, -1))
      c.fail("append", "wave S1 was refused");
    w.push_back(wave_of(2, 4, 2, 2));
  }
  expect(c, a, w);
  compute(c, a, w, 0, d);
  c.state(mc::mix((std::uint64_t)n, (std::uint64_t)when));
}
/* each of the inputs changes, or does not, from one request to the next */
static void inputs(mc::Ctx &c) {
  dso::TideAtlas t;
  Wave w;
  const int n[6] = {13, -13, 12, -9, 7, -5};
  std::copy(n, n + 6, w.n);
  w.phase = 0;
  w.cs = {0, 1, 1};
  w.sn = {1, 1, 1};
  dso::TidalConstituent k(dso::TidalWave(dso::DoodsonConstituent(w.n), 0., 0., "w"), 1, 1);
  fill(k.stokes_cos(), 0);
  fill(k.stokes_sin(), 1);
  t.append_wave(k);
  dso::AtmosphericTide a[2] = {dso::AtmosphericTide(t, "A"), dso::AtmosphericTide(t, "B")};
  const int two = c.choose(2, "models");
  int i = 0;
  mc::inputs(c, 7, [&](int b) {
    double d[5];
    for (int j = 0; j < 5; j++)
      d[j] = b >> j & 1 ? 2.1 + j : 0.3 + 0.2 * j;
    const dso::MjdEpoch tt(54650, dso::FractionalSeconds(b & 32 ? 3000. : 51.184)),
        ut(54650, dso::FractionalSeconds(b & 64 ? 2900.5 : 0.5));
    compute_at(c, a[two ? i++ % 2 : 0], {w}, tt, ut, d);
  });
}
/* requests that differ by little, or in one input */
static void near(mc::Ctx &c) {
  dso::TideAtlas t;
  Wave w;
  const int n[6] = {13, -13, 12, -9, 7, -5};
  std::copy(n, n + 6, w.n);
  w.phase = 0;
  w.cs = {0, 1, 1};
  w.sn = {1, 1, 1};
  dso::TidalConstituent k(dso::TidalWave(dso::DoodsonConstituent(w.n), 0., 0., "w"), 1, 1);
  fill(k.stokes_cos(), 0);
  fill(k.stokes_sin(), 1);
  t.append_wave(k);
  dso::AtmosphericTide a[2] = {dso::AtmosphericTide(t, "A"), dso::AtmosphericTide(t, "B")};
  const int two = c.choose(2, "models");
  int i = 0;
  mc::neighbours(c, {0.3, 1.7, 2.9, 4.1, 5.3, 3000.184, 2900.5}, [&](const std::vector<double> &x) {
    if (x[5] < 0 || x[6] < 0)
      c.prune();
    const double *d = x.data();
    const dso::MjdEpoch tt(54650, dso::FractionalSeconds(x[5])),
        ut(54650, dso::FractionalSeconds(x[6]));
    compute_at(c, a[two ? i++ % 2 : 0], {w}, tt, ut, d);
  });
}
int main(int argc, char **argv) {
  return mc::run(argc, argv,
                 {{"waves", waves, 2}, {"histories", histories, 3}, {"all", all, 2}, {"published", published, 3}, {"nontidal", nontidal, 1},
                  {"atlas", atlas, 3}, {"inputs", inputs, 2}, {"near", near, 2}});
}
