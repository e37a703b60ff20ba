/* Doodson and admittance matrices of GROOPS tide models. */
#include "tide_ref.hpp"

static const int K = 3;
struct Model {
  int k, f; /* major and all waves */
  std::vector<std::vector<std::string>> dood, adm;
  std::vector<std::vector<int>> d;
  std::vector<std::vector<double>> a;
};
static std::string dirname_of(mc::Ctx &c) {
  const std::string d = c.tmpdir + "/g";
  mkdir(d.c_str(), 0700);
  return d;
}
static std::string list(mc::Ctx &c, int k) {
  const std::string d = dirname_of(c);
  std::string t;
  for (int i = 0; i < k; i++) {
    std::string n[2];
    for (int s = 0; s < 2; s++) {
      n[s] = std::string("M_") + WAVES[i].digits + "_" + WAVES[i].name + (s ? "_sin.gfc" : "_cos.gfc");
      put(d + "/" + n[s], gfc({2 * i + s, 1, 1}));
    }
    t += n[0] + " " + n[1] + "\n";
  }
  return put(c.tmpdir + "/001", t);
}
static Model make(int k, int f, int numbers) {
  Model m;
  m.k = k;
  m.f = f;
  static const double V[] = {0., 1., -0.5, 0.123456789012345678, 1e-18, -2.5e3, 7., 1. / 3.};
  static const char *F[] = {"%.18e", "%.17g", "%+.17g", "%25.17e"};
  m.d.resize((std::size_t)f);
  m.dood.resize((std::size_t)f);
  for (int i = 0; i < f; i++)
    for (int j = 0; j < 6; j++) {
      const int v = (i * 7 + j * 5) % 27 - 13;
      m.d[(std::size_t)i].push_back(v);
      m.dood[(std::size_t)i].push_back(std::to_string(v));
    }
  m.a.resize((std::size_t)k);
  m.adm.resize((std::size_t)k);
  for (int i = 0; i < k; i++)
    for (int j = 0; j < f; j++) {
      const double v = V[(i * 3 + j * 5 + i * j) % 8];
      char b[64];
      std::snprintf(b, sizeof b, F[numbers], v);
      std::string t = b;
      while (t[0] == ' ' || t[0] == '+')
        t.erase(0, 1);
      m.a[(std::size_t)i].push_back(v);
      m.adm[(std::size_t)i].push_back(t);
    }
  return m;
}
static std::string text(const std::vector<std::vector<std::string>> &v, int style) {
  static const char *SEP[] = {" ", "                                        ", "\t", " ", " ", "  "};
  static const char *PRE[] = {"", "        ", "\t", "", " ", ""};
  static const char *END[] = {"\n", "  \n", "\t\n", "\r\n", "\n\n", "\n"};
  std::string t;
  for (const auto &r : v) {
    t += PRE[style];
    for (std::size_t i = 0; i < r.size(); i++)
      t += (i ? SEP[style] : "") + r[i];
    t += END[style];
  }
  if (style == 5 && !t.empty())
    t.pop_back();
  return t;
}
static void expect(mc::Ctx &c, const dso::GroopsTideModel &g, const Model &m) {
  if (g.num_waves() != m.f || g.num_major_waves() != m.k || g.doodson_matrix().rows() != m.f ||
      g.admittance_matrix().rows() != m.k || g.admittance_matrix().cols() != m.f)
    c.fail("size", "%d by %d waves instead of %d by %d", g.num_major_waves(), g.num_waves(), m.k, m.f);
  for (int i = 0; i < m.f; i++)
    for (int j = 0; j < 6; j++)
      if (g.doodson_matrix()(i, j) != m.d[(std::size_t)i][(std::size_t)j])
        c.fail("doodson", "multiplier (%d,%d) is %d instead of %d", i, j, g.doodson_matrix()(i, j),
               m.d[(std::size_t)i][(std::size_t)j]);
  for (int i = 0; i < m.k; i++)
    for (int j = 0; j < m.f; j++)
      if (!(g.admittance_matrix().coeff(i, j) == m.a[(std::size_t)i][(std::size_t)j]))
        c.fail("admittance", "factor (%d,%d) is %.17g instead of %.17g", i, j, g.admittance_matrix().coeff(i, j),
               m.a[(std::size_t)i][(std::size_t)j]);
  c.checked((std::uint64_t)(m.f * 6 + m.k * m.f));
}
static void reading(mc::Ctx &c) {
  const int k = 1 + c.choose(K, "major waves"), f = 1 + c.choose(c.thorough() ? 12 : 6, "waves");
  const Model m = make(k, f, c.choose(4, "numbers"));
  const int s2 = c.choose(6, "style of Doodson numbers"), s3 = c.choose(6, "style of admittances");
  const std::string f1 = list(c, k), d = dirname_of(c);
  const std::string f2 = put(c.tmpdir + "/002", text(m.dood, s2)), f3 = put(c.tmpdir + "/003", text(m.adm, s3));
  dso::GroopsTideModel g;
  const auto t = dso::groops_atlas(f1.c_str(), f2.c_str(), f3.c_str(), d.c_str(), g);
  if ((int)t.waves().size() != k)
    c.fail("waves", "%zu waves instead of %d", t.waves().size(), k);
  expect(c, g, m);
  /* and through the ocean tide */
  const auto o = dso::groops_ocean_atlas(f1.c_str(), f2.c_str(), f3.c_str(), d.c_str());
  if (o.num_waves() != f || o.num_major_waves() != k || o.doodson_matrix() != g.doodson_matrix() ||
      Eigen::MatrixXd(o.admittance_matrix()) != Eigen::MatrixXd(g.admittance_matrix()))
    c.fail("ocean", "the ocean tide has other matrices");
  c.state(mc::mix((std::uint64_t)(k * 16 + f), (std::uint64_t)(s2 * 8 + s3)));
}
/* many waves, as published */
static void published(mc::Ctx &c) {
  const int f = std::vector<int>{256, 361, 20}[(std::size_t)c.choose(3, "waves")];
  const Model m = make(K, f, c.choose(4, "numbers"));
  const std::string f1 = list(c, K), d = dirname_of(c);
  const std::string f2 = put(c.tmpdir + "/002", text(m.dood, 0)), f3 = put(c.tmpdir + "/003", text(m.adm, c.choose(6, "style")));
  dso::GroopsTideModel g;
  dso::groops_atlas(f1.c_str(), f2.c_str(), f3.c_str(), d.c_str(), g);
  expect(c, g, m);
  c.state((std::uint64_t)f);
}
static void damaged(mc::Ctx &c) {
  const int k = 1 + c.choose(K, "major waves"), f = 1 + c.choose(3, "waves");
  Model m = make(k, f, 0);
  const bool which = c.flag("admittance");
  auto &v = which ? m.adm : m.dood;
  const int kind = c.choose(8, "damage");
  const int rows = which ? k : f, cols = which ? f : 6;
  std::string whole;
  bool missing = false, replaced = false;
  const std::size_t i = kind < 6 ? (std::size_t)c.choose(rows, "row") : 0;
  const std::size_t j = kind < 4 ? (std::size_t)c.choose(cols, "column") : 0;
  switch (kind) {
  case 0: /* a number is missing */
    v[i].erase(v[i].begin() + (long)j);
    break;
  case 1: /* one too many */
    v[i].insert(v[i].begin() + (long)j, "1");
    break;
  case 2: { /* not a number */
    static const char *X[] = {"x", "-", "1x", "--1", "1-1", "1,", "1e", "."};
    const int how = c.choose(8, "how");
    v[i][j] = X[how];
    break;
  }
  case 3: { /* a letter inside */
    std::string &s = v[i][j];
    s[(std::size_t)c.choose((int)s.size(), "place")] = 'x';
    break;
  }
  case 4: /* a row is missing */
    v.erase(v.begin() + (long)i);
    break;
  case 5: /* one too many */
    v.insert(v.begin() + (long)i, v[i]);
    break;
  case 6:
    missing = true;
    break;
  case 7:
    replaced = true;
    whole = c.flag("blank") ? "\n \n" : "";
    break;
  }
  const std::string f1 = list(c, k), d = dirname_of(c);
  const std::string f2 = put(c.tmpdir + "/002", replaced && !which ? whole : text(m.dood, 0));
  const std::string f3 = put(c.tmpdir + "/003", replaced && which ? whole : text(m.adm, 0));
  if (missing)
    std::remove((which ? f3 : f2).c_str());
  bool threw = false;
  dso::GroopsTideModel g;
  try {
    dso::groops_atlas(f1.c_str(), f2.c_str(), f3.c_str(), d.c_str(), g);
  } catch (std::exception &) {
    threw = true;
  }
  if (!threw)
    c.fail("accepted", "damaged or mismatched matrices were accepted");
  c.checked();
  c.state(mc::mix((std::uint64_t)(kind * 2 + which), i * 16 + j));
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, {{"read", reading, 3}, {"published", published, 2}, {"damaged", damaged, 4}});
}
