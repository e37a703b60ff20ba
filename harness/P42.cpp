/* Ocean tides: sums over waves, with and without admittance. */
#include "tide_ref.hpp"

static const int MULT[10][6] = {{2, 0, 0, 0, 0, 0},  {1, 1, 0, 0, 0, 0},   {1, 1, -2, 0, 0, 0}, {0, 0, 0, 1, 0, 0},
                                {0, 0, 0, 0, 1, 0},  {0, 0, 0, 0, 0, 1},   {2, -3, 2, 1, 0, 0}, {2, 2, -1, 0, 0, -1},
                                {0, 2, 0, 0, 0, 0},  {13, -13, 12, -9, 7, -5}};
struct Epoch {
  int tt;
  double tts;
  int ut;
  double uts;
};
static const Epoch EPOCH[] = {{54650, 51.184, 54650, 0.5},     {51544, 43200., 51544, 43136.}, {60310, 86399.999, 60310, 86330.25},
                              {41317, 0., 41316, 86358.},      {54649, 86399.75, 54650, 12.}};
static dso::MjdEpoch tt_of(int e) { return dso::MjdEpoch(EPOCH[e].tt, dso::FractionalSeconds(EPOCH[e].tts)); }
static dso::MjdEpoch ut_of(int e) { return dso::MjdEpoch(EPOCH[e].ut, dso::FractionalSeconds(EPOCH[e].uts)); }

static Wave wave_of(int mult, int id, int cd, int co, int sd, int so) {
  Wave w;
  std::copy(MULT[mult], MULT[mult] + 6, w.n);
  w.phase = 0;
  w.cs = {2 * id, cd, co};
  w.sn = {2 * id + 1, sd, so};
  return w;
}
static dso::TidalConstituent constituent(const Wave &w) {
  dso::TidalConstituent t(dso::TidalWave(dso::DoodsonConstituent(w.n), 0., 0., "w"), w.cs.degree, w.cs.order);
  t.stokes_sin().resize(w.sn.degree, w.sn.order);
  fill(t.stokes_cos(), w.cs.id);
  fill(t.stokes_sin(), w.sn.id);
  return t;
}
static dso::TideAtlas atlas_of(const std::vector<Wave> &w) {
  dso::TideAtlas a;
  for (auto &x : w)
    a.append_wave(constituent(x));
  return a;
}
/** as the library stores it */
#ifdef SPARSE_ADMITTANCE_MATRIX
static Eigen::SparseMatrix<double> stored(const Eigen::MatrixXd &a) { return a.sparseView(); }
#else
static const Eigen::MatrixXd &stored(const Eigen::MatrixXd &a) { return a; }
#endif
struct Adm {
  std::vector<std::vector<int>> d;
  std::vector<std::vector<double>> a;
  dso::GroopsTideModel model() const {
    Eigen::Matrix<int, Eigen::Dynamic, 6> D((long)d.size(), 6);
    for (std::size_t i = 0; i < d.size(); i++)
      for (int j = 0; j < 6; j++)
        D((long)i, j) = d[i][(std::size_t)j];
    Eigen::MatrixXd A((long)a.size(), (long)d.size());
    for (std::size_t i = 0; i < a.size(); i++)
      for (std::size_t j = 0; j < d.size(); j++)
        A((long)i, (long)j) = a[i][j];
    return dso::GroopsTideModel(D, stored(A));
  }
};
static void expect_at(mc::Ctx &c, const dso::OceanTide &o, const std::vector<Wave> &w, const Adm *a, const dso::MjdEpoch &tt,
                      const dso::MjdEpoch &ut, const double *del) {
  ld b[6];
  ref_doodson(del, ref_gmst(tt, ut), b);
  std::vector<ld> fc(w.size(), 0.L), fs(w.size(), 0.L);
  for (std::size_t i = 0; i < w.size(); i++) {
    if (!a) {
      const ld t = ref_argument(w[i].n, b);
      fc[i] = cosl(t);
      fs[i] = sinl(t);
    } else
      for (std::size_t j = 0; j < a->d.size(); j++) {
        const ld t = ref_argument(a->d[j].data(), b);
        fc[i] += a->a[i][j] * cosl(t);
        fs[i] += a->a[i][j] * sinl(t);
      }
  }
  expect_sum(c, o.stokes_coeffs(), w, fc, fs);
}
static void expect(mc::Ctx &c, const dso::OceanTide &o, const std::vector<Wave> &w, const Adm *a, int e, const double *del) {
  expect_at(c, o, w, a, tt_of(e), ut_of(e), del);
}
static Adm admittance(int k, int f, int kind) {
  Adm a;
  static const double V[] = {0., 1., -0.5, 0.25, 2., 0.125, 0., -1.};
  for (int j = 0; j < f; j++)
    a.d.push_back(std::vector<int>(MULT[(j + kind) % 10], MULT[(j + kind) % 10] + 6));
  a.a.resize((std::size_t)k);
  for (int i = 0; i < k; i++)
    for (int j = 0; j < f; j++)
      a.a[(std::size_t)i].push_back(kind == 0 ? (double)(i == j) : V[(i * 5 + j * 3 + kind) % 8]);
  return a;
}
static const double DEL[] = {0.1, 2.3, 4.7, 6.2};
/* one wave, all arguments of a lattice */
static void arguments(mc::Ctx &c) {
  const int mult = c.choose(10, "wave"), e = c.choose(5, "epoch");
  double d[5];
  const int n = c.thorough() ? 4 : 2;
  for (double &x : d)
    x = DEL[c.choose(n, "argument") * (n == 2 ? 3 : 1)];
  const bool adm = c.flag("admittance");
  std::vector<Wave> w{wave_of(mult, 0, 1, 1, 1, 1)};
  Adm a;
  if (adm) {
    a.d.push_back(std::vector<int>(MULT[mult], MULT[mult] + 6));
    a.a = {{0.75}};
  }
  const auto at = atlas_of(w);
  dso::OceanTide o = adm ? dso::OceanTide(at, a.model()) : dso::OceanTide(at);
  if (o.stokes_coeffs(tt_of(e), ut_of(e), d))
    c.fail("refused", "no coefficients");
  expect(c, o, w, adm ? &a : nullptr, e, d);
  c.state(mc::mix((std::uint64_t)(mult * 8 + e), (std::uint64_t)adm));
}
/* any sizes of the sets of two or three waves, and histories of requests */
static void sizes(mc::Ctx &c) {
  static const int DO[][2] = {{0, 0}, {1, 0}, {1, 1}, {3, 1}, {3, 3}};
  std::vector<Wave> w;
  const int n = 2;
  const int admit = c.choose(3, "admittance");
  for (int i = 0; i < n; i++) {
    const int a = c.choose(5, "cosine"), b = c.choose(5, "sine");
    w.push_back(wave_of(i * 3 + 1, i, DO[a][0], DO[a][1], DO[b][0], DO[b][1]));
  }
  const Adm a = admittance(n, admit == 1 ? 2 : 5, admit == 1 ? 0 : 3);
  const auto at = atlas_of(w);
  dso::OceanTide o = admit ? dso::OceanTide(at, a.model(), "NAME") : dso::OceanTide(at, "NAME");
  const double d[5] = {0.1, 5.3, 2.2, 3.7, 6.1};
  for (int k = 0; k < 2; k++) {
    const int e = k ? c.choose(2, "epoch") : 2;
    dirty(o.stokes_coeffs());
    if (o.stokes_coeffs(tt_of(e), ut_of(e), d))
      c.fail("refused", "no coefficients");
    expect(c, o, w, admit ? &a : nullptr, e, d);
  }
  if (o.max_degree() != o.stokes_coeffs().max_degree() || o.max_order() != o.stokes_coeffs().max_order())
    c.fail("size", "the model has another size than its coefficients");
  if (std::strcmp(o.atlas().name(), "NAME"))
    c.fail("name", "the model is called %s", o.atlas().name());
  c.state(mc::mix((std::uint64_t)(w[0].degree() * 64 + w[1].degree() * 8 + w[0].order()), (std::uint64_t)admit));
}
/* many waves, and every shape of the admittance matrix */
static void many(mc::Ctx &c) {
  const int k = c.choose(c.thorough() ? 11 : 6, "major waves"), f = c.choose(c.thorough() ? 13 : 8, "waves"), kind = c.choose(4, "factors");
  std::vector<Wave> w;
  for (int i = 0; i < k; i++)
    w.push_back(wave_of((i + kind) % 10, i, 2, 2, 2, 1));
  const Adm a = admittance(k, f, kind);
  const bool later = c.flag("set later");
  const auto at = atlas_of(w);
  dso::OceanTide o = later ? dso::OceanTide(at) : dso::OceanTide(at, a.model());
  const double d[5] = {0.1, 5.3, 2.2, 3.7, 6.1};
  if (later) {
    if (o.stokes_coeffs(tt_of(0), ut_of(0), d))
      c.fail("refused", "no coefficients");
    expect(c, o, w, nullptr, 0, d);
    if (c.flag("replaced")) {
      o.set_groops_admittance(admittance(k, f + 1, kind + 1).model());
      o.stokes_coeffs(tt_of(1), ut_of(1), d);
    }
    o.set_groops_admittance(a.model());
  }
  if (o.stokes_coeffs(tt_of(3), ut_of(3), d))
    c.fail("refused", "no coefficients");
  expect(c, o, w, &a, 3, d);
  c.state(mc::mix((std::uint64_t)(k * 16 + f), (std::uint64_t)kind));
}
/* as published: 18 major waves, 361 in all, in full size */
static void published(mc::Ctx &c) {
  const int k = c.flag("less") ? 11 : 18, f = c.choose(3, "waves");
  static const int F[] = {256, 361, 40};
  const int size = c.choose(3, "degree");
  static const int N[] = {8, 30, 60};
  std::vector<Wave> w;
  for (int i = 0; i < k; i++) {
    Wave x = wave_of(i % 10, i, N[size] - i % 2, N[size] - i % 2, N[size], N[size] - i % 3);
    x.n[1] += i / 10;
    w.push_back(x);
  }
  Adm a;
  for (int j = 0; j < F[f]; j++) {
    std::vector<int> n(6);
    n[0] = j % 4;
    for (int i = 1; i < 6; i++)
      n[(std::size_t)i] = (j / (i * 3) + i) % 7 - 3;
    a.d.push_back(n);
  }
  a.a.resize((std::size_t)k);
  for (int i = 0; i < k; i++)
    for (int j = 0; j < F[f]; j++)
      a.a[(std::size_t)i].push_back((i * 7 + j * 3) % 11 ? 0. : ((i + j) % 5 - 1.5) / 8);
  const bool adm = c.flag("admittance");
  const auto at = atlas_of(w);
  dso::OceanTide o = adm ? dso::OceanTide(at, a.model()) : dso::OceanTide(at);
  const double d[5] = {0.1, 5.3, 2.2, 3.7, 6.1};
  for (int r = 0; r < 2; r++) {
    const int e = c.choose(2, "epoch") * 2 + r;
    if (o.stokes_coeffs(tt_of(e), ut_of(e), d))
      c.fail("refused", "no coefficients");
    expect(c, o, w, adm ? &a : nullptr, e, d);
  }
  c.state(mc::mix((std::uint64_t)(k * 4 + f), (std::uint64_t)(size * 2 + adm)));
}
/* admittances for another number of waves are refused */
static void mismatch(mc::Ctx &c) {
  const int k = c.choose(4, "waves of atlas"), r = c.choose(5, "rows"), f = c.choose(4, "Doodson numbers"),
            cols = c.choose(4, "columns");
  std::vector<Wave> w;
  for (int i = 0; i < k; i++)
    w.push_back(wave_of(i, i, 1, 1, 1, 1));
  Adm a = admittance(r, std::max(f, cols), 1);
  Eigen::MatrixXd A((long)r, (long)cols);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < cols; j++)
      A(i, j) = a.a[(std::size_t)i][(std::size_t)j];
  a.d.resize((std::size_t)f);
  for (auto &x : a.a)
    x.resize((std::size_t)f);
  const dso::GroopsTideModel g(a.model().doodson_matrix(), stored(A));
  const auto at = atlas_of(w);
  dso::OceanTide o(at, g);
  const double d[5] = {0.1, 5.3, 2.2, 3.7, 6.1};
  const int e = o.stokes_coeffs(tt_of(0), ut_of(0), d);
  const bool ok = r == k && cols == f;
  if ((e == 0) != ok)
    c.fail("mismatch", "%d by %d admittances for %d of %d waves: %d", r, cols, k, f, e);
  if (ok)
    expect(c, o, w, &a, 0, d);
  c.checked();
  c.state(mc::mix((std::uint64_t)(k * 8 + r), (std::uint64_t)(f * 8 + cols)));
}
/* waves that are added to the atlas of a model */
static void growing(mc::Ctx &c) {
  std::vector<Wave> w;
  const bool some = c.flag("not empty");
  if (some)
    w.push_back(wave_of(8, 7, 1, 1, 1, 1));
  dso::OceanTide o(atlas_of(w));
  const double d[5] = {0.1, 5.3, 2.2, 3.7, 6.1};
  static const int DO[][2] = {{0, 0}, {1, 1}, {2, 0}, {3, 3}};
  for (int k = 0; k < 3; k++) {
    if (c.flag("compute")) {
      if (o.stokes_coeffs(tt_of(k), ut_of(k), d))
        c.fail("refused", "no coefficients");
      expect(c, o, w, nullptr, k, d);
    }
    const int s = c.choose(4, "size");
    w.push_back(wave_of(k, k, DO[s][0], DO[s][1], DO[s][0], DO[s][1]));
    o.atlas().append_wave(constituent(w.back()));
  }
  if (o.stokes_coeffs(tt_of(4), ut_of(4), d))
    c.fail("refused", "no coefficients");
  expect(c, o, w, nullptr, 4, d);
  c.state(mc::mix(w.size(), (std::uint64_t)o.stokes_coeffs().max_degree()));
}
/* copies and moves */
static void lifecycle(mc::Ctx &c) {
  struct Slot {
    std::unique_ptr<dso::OceanTide> o;
    int atlas, adm; /* <0: none; atlas<0: moved from */
  };
  std::vector<Wave> W[2];
  for (int i = 0; i < 2; i++)
    W[i].push_back(wave_of(i, i, 1 + i, 1, 1, 1));
  W[0].push_back(wave_of(3, 4, 2, 2, 2, 2));
  const Adm A[2] = {admittance(2, 3, 1), admittance(1, 2, 2)};
  Slot s[3];
  for (int i = 0; i < 3; i++) {
    s[i].atlas = i % 2;
    s[i].adm = c.flag("admittance") ? i % 2 : -1;
    const auto at = atlas_of(W[i % 2]);
    s[i].o.reset(s[i].adm < 0 ? new dso::OceanTide(at) : new dso::OceanTide(at, A[i % 2].model()));
  }
  const double d[5] = {0.1, 5.3, 2.2, 3.7, 6.1};
  const int depth = 3;
  for (int k = 0; k < depth; k++) {
    const int op = c.choose(6, "operation"), i = c.choose(c.thorough() ? 3 : 2, "from"), j = c.choose(3, "to");
    if (op < 4 && s[i].atlas < 0)
      throw mc::Prune{};
    switch (op) {
    case 0: /* assign */
      *s[j].o = *s[i].o;
      s[j].atlas = s[i].atlas;
      s[j].adm = s[i].adm;
      break;
    case 1: { /* move; onto itself changes nothing */
      dso::OceanTide &from = *s[i].o;
      *s[j].o = std::move(from);
      if (i != j) {
        s[j].atlas = s[i].atlas;
        s[j].adm = s[i].adm;
        s[i].atlas = -1;
      }
      break;
    }
    case 2: { /* a copy */
      s[j].o.reset(new dso::OceanTide(*s[i].o));
      s[j].atlas = s[i].atlas;
      s[j].adm = s[i].adm;
      break;
    }
    case 3: { /* a move to a new one */
      std::unique_ptr<dso::OceanTide> n(new dso::OceanTide(std::move(*s[i].o)));
      const int at = s[i].atlas, ad = s[i].adm;
      s[i].atlas = -1;
      s[j].o = std::move(n);
      s[j].atlas = at;
      s[j].adm = ad;
      break;
    }
    case 4: /* another admittance */
      if (s[j].atlas < 0 || i)
        throw mc::Prune{};
      s[j].o->set_groops_admittance(A[s[j].atlas].model());
      s[j].adm = s[j].atlas;
      break;
    case 5: /* changes to one are not seen by others */
      if (s[j].atlas < 0 || i)
        throw mc::Prune{};
      dirty(s[j].o->stokes_coeffs());
      break;
    }
    for (int x = 0; x < 3; x++)
      if (s[x].o && s[x].atlas >= 0) {
        if (s[x].o->stokes_coeffs(tt_of(0), ut_of(0), d))
          c.fail("refused", "no coefficients");
        expect(c, *s[x].o, W[s[x].atlas], s[x].adm < 0 ? nullptr : &A[s[x].adm], 0, d);
      }
    c.state(mc::mix((std::uint64_t)(s[0].atlas * 9 + s[1].atlas * 3 + s[2].atlas + 13),
                    (std::uint64_t)(s[0].adm * 9 + s[1].adm * 3 + s[2].adm + 13)));
  }
}
/* long names are cut */
static void names(mc::Ctx &c) {
  const int n = c.choose(200, "length");
  const std::string name((std::size_t)n, 'n');
  std::vector<Wave> w{wave_of(0, 0, 1, 1, 1, 1)};
  const auto at = atlas_of(w);
  const bool adm = c.flag("admittance");
  const Adm a = admittance(1, 1, 1);
  const dso::OceanTide o = adm ? dso::OceanTide(at, a.model(), name.c_str()) : dso::OceanTide(at, name.c_str());
  const dso::AtmosphericTide p(at, name.c_str()), q(name.c_str());
  for (const dso::TideAtlas *t : {&o.atlas(), &p.atlas(), &q.atlas()}) {
    const std::string g = t->name();
    if (g != name.substr(0, g.size()) || g.size() < std::min<std::size_t>(63, name.size()))
      c.fail("name", "a name of %d characters became %s", n, g.c_str());
    c.checked();
  }
  c.state((std::uint64_t)n);
}
/* each of the inputs changes, or does not, from one request to the next */
static void inputs(mc::Ctx &c) {
  const std::vector<Wave> w{wave_of(9, 0, 1, 1, 1, 1)};
  const auto at = atlas_of(w);
  const int adm = c.choose(3, "admittance"), two = c.choose(2, "models");
  const Adm a = admittance(1, 2, 8);
  const bool ad[2] = {adm > 0, adm == 1};
  dso::OceanTide o[2] = {ad[0] ? dso::OceanTide(at, a.model()) : dso::OceanTide(at),
                         ad[1] ? dso::OceanTide(at, a.model()) : dso::OceanTide(at)};
  int n = 0;
  mc::inputs(c, 7, [&](int b) {
    double d[5];
    for (int i = 0; i < 5; i++)
      d[i] = b >> i & 1 ? 2.1 + i : 0.3 + 0.2 * i;
    const dso::MjdEpoch tt(54650, dso::FractionalSeconds(b & 32 ? 3000. : 51.184)),
        ut(54650, dso::FractionalSeconds(b & 64 ? 2900.5 : 0.5));
    const int k = two ? n++ % 2 : 0;
    if (o[k].stokes_coeffs(tt, ut, d))
      c.fail("refused", "no coefficients");
    expect_at(c, o[k], w, ad[k] ? &a : nullptr, tt, ut, d);
  });
}
/* requests that differ by little, or in one input */
static void near(mc::Ctx &c) {
  const std::vector<Wave> w{wave_of(9, 0, 1, 1, 1, 1)};
  const auto at = atlas_of(w);
  const int adm = c.choose(3, "admittance"), two = c.choose(2, "models");
  const Adm a = admittance(1, 2, 8);
  const bool ad[2] = {adm > 0, adm == 1};
  dso::OceanTide o[2] = {ad[0] ? dso::OceanTide(at, a.model()) : dso::OceanTide(at),
                         ad[1] ? dso::OceanTide(at, a.model()) : dso::OceanTide(at)};
  int n = 0;
  mc::neighbours(c, {0.3, 1.7, 2.9, 4.1, 5.3, 3000.184, 2900.5}, [&](const std::vector<double> &x) {
    if (x[5] < 0 || x[6] < 0)
      c.prune();
    const double *d = x.data();
    const dso::MjdEpoch tt(54650, dso::FractionalSeconds(x[5])),
        ut(54650, dso::FractionalSeconds(x[6]));
    const int k = two ? n++ % 2 : 0;
    if (o[k].stokes_coeffs(tt, ut, d))
      c.fail("refused", "no coefficients");
    expect_at(c, o[k], w, ad[k] ? &a : nullptr, tt, ut, d);
  });
}
int main(int argc, char **argv) {
  return mc::run(argc, argv,
                 {{"arguments", arguments, 3}, {"sizes", sizes, 3}, {"many", many, 3}, {"published", published, 3}, {"mismatch", mismatch, 2},
                  {"growing", growing, 3}, {"lifecycle", lifecycle, 4}, {"names", names, 1}, {"inputs", inputs, 2}, {"near", near, 2}});
}
