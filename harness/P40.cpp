/* Tide atlases from GROOPS file lists. */
#include "tide_ref.hpp"

struct Entry {
  int wave; /* in WAVES */
  bool sine;
};
static std::string name_of(const std::string &model, const char *digits, const std::string &wave, bool sine) {
  return model + "_" + digits + "_" + wave + (sine ? "_sin.gfc" : "_cos.gfc");
}
struct Atlas {
  std::string dir, model = "MODEL", title = "EXAMPLE", tail;
  std::vector<int> waves;      /* in WAVES */
  std::vector<Set> cs, sn;     /* per wave */
  std::vector<std::pair<int, bool>> order; /* of files: index in waves, sine */
  int style = 0;
  std::string wave_name(int i) const { return std::string(WAVES[waves[(std::size_t)i]].name) + tail; }
  std::string file(std::size_t k) const {
    const int i = order[k].first;
    return name_of(model, WAVES[waves[(std::size_t)i]].digits, wave_name(i), order[k].second);
  }
  std::vector<std::string> files() const {
    std::vector<std::string> v;
    for (std::size_t k = 0; k < order.size(); k++)
      v.push_back(file(k));
    return v;
  }
  void write_gfc() const {
    for (std::size_t k = 0; k < order.size(); k++) {
      const std::size_t i = (std::size_t)order[k].first;
      put(dir + "/" + file(k), gfc(order[k].second ? sn[i] : cs[i], title.c_str()));
    }
  }
};
static std::string list_text(const std::vector<std::string> &f, int style) {
  static const char *SEP[] = {" ", "     ", "\t", " ", " ", " ", " ", "\t \t", " "};
  static const char *PRE[] = {"", "  ", "\t", "", "", "", "", "", ""};
  static const char *END[] = {"\n", "   \n", "\t\n", "\r\n", "\n\n", "\n  \n", "\n", " \r\n", "  1 other column(s)\n"};
  std::string t = style == 4 ? "\n" : "";
  for (std::size_t k = 0; k + 1 < f.size(); k += 2)
    t += std::string(PRE[style]) + f[k] + SEP[style] + f[k + 1] + END[style];
  if (style == 6)
    t.pop_back();
  return t;
}
static Atlas make(mc::Ctx &c, int n) {
  Atlas a;
  a.dir = c.tmpdir + "/g";
  mkdir(a.dir.c_str(), 0700);
  for (int i = 0; i < n; i++) {
    a.waves.push_back(i);
    a.cs.push_back({2 * i, 2, 2});
    a.sn.push_back({2 * i + 1, 2, 2});
    a.order.push_back({i, false});
    a.order.push_back({i, true});
  }
  return a;
}
static void expect(mc::Ctx &c, const dso::TideAtlas &t, const Atlas &a, int N, int M) {
  /* waves are in the order in which they first appear */
  std::vector<int> seen;
  for (auto &o : a.order)
    if (std::find(seen.begin(), seen.end(), o.first) == seen.end())
      seen.push_back(o.first);
  if (t.waves().size() != seen.size())
    c.fail("waves", "%zu waves instead of %zu", t.waves().size(), seen.size());
  for (std::size_t k = 0; k < seen.size(); k++) {
    const std::size_t i = (std::size_t)seen[k];
    const auto &w = t.waves()[k];
    const Named &nm = WAVES[a.waves[i]];
    for (int j = 0; j < 6; j++)
      if (w.doodson()(j) != nm.n[j])
        c.fail("doodson", "multiplier %d of wave %zu (%s) is %d instead of %d", j, k, nm.digits, w.doodson()(j),
               nm.n[j]);
    const std::string full = a.wave_name((int)i).substr(a.wave_name((int)i).rfind('_') + 1);
    const std::string got = w.name();
    if (got != full.substr(0, got.size()) || got.size() < std::min<std::size_t>(15, full.size()))
      c.fail("name", "wave %zu is called %s instead of %s", k, got.c_str(), full.c_str());
    Set s;
    limited(a.cs[i], a.cs[i].degree, N, M, s);
    expect_set(c, w.stokes_cos(), s, "cosine");
    limited(a.sn[i], a.sn[i].degree, N, M, s);
    expect_set(c, w.stokes_sin(), s, "sine");
    const auto it = t.find_tidal_wave(w.doodson());
    if (it != t.waves().begin() + (long)k)
      c.fail("lookup", "wave %zu is not found where it is", k);
    c.checked(3);
  }
  int degree = 0, order = 0, o = -1;
  for (const auto &w : t.waves())
    for (const StokesCoeffs *s : {&w.stokes_cos(), &w.stokes_sin()}) {
      degree = std::max(degree, s->max_degree());
      order = std::max(order, s->max_order());
    }
  if (t.max_atlas_degree(o) != degree || o != order || t.max_atlas_degree() != degree)
    c.fail("degree", "degree and order of the atlas: %d, %d instead of %d, %d", t.max_atlas_degree(), o, degree, order);
  const std::string title = t.name();
  if (title != a.title.substr(0, title.size()) || title.size() < std::min<std::size_t>(63, a.title.size()))
    c.fail("title", "the model is called %s instead of %s", title.c_str(), a.title.c_str());
}
/* any arrangement of the files in the list */
static void arrangement(mc::Ctx &c) {
  const int n = 1 + c.choose(3, "waves");
  Atlas a = make(c, n);
  for (int i = 0; i < n; i++)
    a.waves[(std::size_t)i] = (i * 2 + n) % 7;
  /* any permutation of the 2n files */
  auto pool = a.order;
  a.order.clear();
  while (!pool.empty()) {
    const int k = c.choose((int)pool.size(), "file");
    a.order.push_back(pool[(std::size_t)k]);
    pool.erase(pool.begin() + k);
  }
  a.write_gfc();
  const std::string fn = put(c.tmpdir + "/list", list_text(a.files(), 0));
  const auto t = dso::groops_atlas(fn.c_str(), a.dir.c_str());
  expect(c, t, a, -1, -1);
  c.state(mc::mix((std::uint64_t)n, t.waves().size() * 8 + (std::size_t)a.order[0].first));
}
/* as many waves as models have, in several arrangements, of higher degrees */
static void many(mc::Ctx &c) {
  static const int COUNT[] = {8, 9, 16, 17, 33, 35};
  const int n = COUNT[c.choose(6, "waves")], how = c.choose(5, "arrangement");
  Atlas a = make(c, n);
  a.order.clear();
  for (int k = 0; k < 2 * n; k++)
    switch (how) {
    case 0: a.order.push_back({k / 2, k % 2 == 1}); break;       /* side by side */
    case 1: a.order.push_back({k % n, k >= n}); break;           /* all cosines, all sines */
    case 2: a.order.push_back({n - 1 - k / 2, k % 2 == 0}); break;
    case 3: a.order.push_back({k < n ? k : 2 * n - 1 - k, k < n}); break;
    default: a.order.push_back({k * 2 % (2 * n) / 2 , k >= n}); /* as the first, by stride */
    }
  static const int DEG[] = {30, 11, 24};
  for (int i = 0; i < n; i++) {
    a.waves[(std::size_t)i] = how % 2 ? n - 1 - i : i;
    const int d = DEG[i % (how == 4 ? 1 : 3)];
    a.cs[(std::size_t)i].degree = a.cs[(std::size_t)i].order = d;
    a.sn[(std::size_t)i].degree = d;
    a.sn[(std::size_t)i].order = i % 4 ? d : d - 1;
  }
  a.write_gfc();
  static const int REQ[][2] = {{-1, -1}, {11, 11}, {10, 4}};
  const int r = c.choose(3, "request");
  const std::string fn = put(c.tmpdir + "/list", list_text(a.files(), 0));
  const auto t = dso::groops_atlas(fn.c_str(), a.dir.c_str(), REQ[r][0], REQ[r][1]);
  expect(c, t, a, REQ[r][0], REQ[r][1]);
  c.state(mc::mix((std::uint64_t)n, (std::uint64_t)(how * 4 + r)));
}
/* how it is written, names, and what is asked for */
static void form(mc::Ctx &c) {
  const int n = 1 + c.choose(3, "waves"), first = c.choose(7, "first wave");
  Atlas a = make(c, n);
  for (int i = 0; i < n; i++)
    a.waves[(std::size_t)i] = (first + i) % 7;
  const int style = c.choose(9, "style");
  switch (c.choose(4, "names")) {
  case 1:
    a.model = "A_B.C_2x_" + std::string(40, 'm');
    break;
  case 2:
    a.tail = std::string(20, 'w');
    a.title = std::string(100, 't');
    break;
  case 3:
    a.model = std::string(150, 'm');
    a.tail = std::string(30, 'w');
    for (int i = 0; i < 3; i++) {
      a.dir += "/" + std::string(100, (char)('a' + i));
      mkdir(a.dir.c_str(), 0700);
    }
    break;
  }
  a.write_gfc();
  const std::string fn = put(c.tmpdir + "/list", list_text(a.files(), style));
  const std::string dir = a.dir + (c.flag("slash") ? "/" : "");
  const auto t = dso::groops_atlas(fn.c_str(), dir.c_str());
  expect(c, t, a, -1, -1);
  c.state(mc::mix((std::uint64_t)(n * 8 + first), (std::uint64_t)style));
}
static void request(mc::Ctx &c) {
  Atlas a = make(c, 2);
  const int N = c.choose(5, "degree") - 1, M = c.choose(5, "order") - 1;
  bool ok = true;
  for (int k = 0; k < 4; k++) {
    const int d = c.choose(3, "degree of file") + 1;
    const int o = c.choose(2, "order of file") ? d - 1 : d;
    Set &s = (k % 2 ? a.sn : a.cs)[(std::size_t)(k / 2)], r;
    s.degree = d;
    s.order = o;
    ok = limited(s, d, N, M, r) && ok;
    if (k == 3 && !c.thorough())
      break;
  }
  a.write_gfc();
  const std::string fn = put(c.tmpdir + "/list", list_text(a.files(), 0));
  bool threw = false;
  try {
    const auto t = dso::groops_atlas(fn.c_str(), a.dir.c_str(), N, M);
    if (ok)
      expect(c, t, a, N, M);
  } catch (std::exception &) {
    threw = true;
  }
  if (threw == ok)
    c.fail("request", "degree %d and order %d: %s", N, M, threw ? "refused" : "accepted");
  c.checked();
  c.state(mc::mix((std::uint64_t)(N * 8 + M), (std::uint64_t)ok));
}
/* lists that are not complete, or contradict themselves */
static void damaged(mc::Ctx &c) {
  const int n = 1 + c.choose(3, "waves");
  Atlas a = make(c, n);
  a.write_gfc();
  auto f = a.files();
  std::string text;
  const int kind = c.choose(10, "damage");
  const std::size_t k = kind < 7 ? (std::size_t)c.choose(2 * n, "file") : 0;
  static const char *BAD[] = {"x",
                              "gfc",
                              ".gfc",
                              "_cos.gfc",
                              "cos.gfc",
                              "m_cos.gfc",
                              "255.555_cos.gfc",
                              "255.555_m2_cos.gfc",
                              "MODEL_255.55_m2_cos.gfc",
                              "MODEL_255.5555_m2_cos.gfc",
                              "MODEL_255555_m2_cos.gfc",
                              "MODEL_25.5555_m2_cos.gfc",
                              "MODEL_25!.555_m2_cos.gfc",
                              "MODEL_255.555_m2_tan.gfc",
                              "MODEL_255.555_m2_COS.gfc",
                              "MODEL_255.555_m2_cos.txt",
                              "MODEL_255.555_m2_cos.gfc2",
                              "MODEL_255.555_m2_cosine.gfc",
                              "MODEL_255.555_m2cos.gfc",
                              "MODEL_m2_255.555_cos.gfc",
                              "______",
                              "________________",
                              "MODEL_255.555_m2"};
  switch (kind) {
  case 0: /* a name is missing */
    for (std::size_t i = 0; i < f.size(); i += 2)
      text += (i == k ? "" : f[i]) + " " + (i + 1 == k ? "" : f[i + 1]) + "\n";
    break;
  case 1: { /* a line, or file, twice */
    const int how = c.choose(2, "how");
    if (how) {
      f.push_back(f[k]);
      f.push_back(f[k ^ 1]);
    } else
      f[k ^ 1] = f[k];
    break;
  }
  case 2: { /* a counterpart of another wave, name, or model */
    const int how = c.choose(3, "how");
    const int i = a.order[k].first;
    f[k] = name_of(how == 2 ? "MODEL2" : "MODEL", how == 0 ? "235.755" : WAVES[i].digits, how == 1 ? "x" : WAVES[i].name,
                   a.order[k].second);
    put(a.dir + "/" + f[k], gfc({7, 2, 2}));
    break;
  }
  case 3: { /* a wave under two names */
    const int i = a.order[k].first;
    for (int s = 0; s < 2; s++) {
      f.push_back(name_of("MODEL", WAVES[i].digits, "other", s));
      put(a.dir + "/" + f.back(), gfc({7 + s, 2, 2}));
    }
    break;
  }
  case 4: /* not a name */
    f[k] = BAD[c.choose((int)(sizeof BAD / sizeof *BAD), "name")];
    put(a.dir + "/" + f[k], gfc({7, 2, 2}));
    break;
  case 5: /* no such file */
    std::remove((a.dir + "/" + f[k]).c_str());
    break;
  case 6: { /* a damaged one */
    std::string t = gfc({3, 2, 2});
    const int how = c.choose(3, "how");
    if (how == 0)
      t = "";
    else if (how == 1)
      t.replace(t.find("max_degree"), 3, "xxx");
    else
      t[t.rfind("gfc") + 6] = 'x';
    put(a.dir + "/" + f[k], t);
    break;
  }
  case 7: /* no list */
    break;
  case 8: /* an empty one */
    f.clear();
    text = c.flag("lines") ? "\n\n" : "";
    break;
  case 9: /* no folder */
    a.dir += "/nowhere";
    break;
  }
  if (text.empty())
    text = list_text(f, 0);
  const std::string fn = put(c.tmpdir + "/list", text);
  if (kind == 7)
    std::remove(fn.c_str());
  bool threw = false;
  try {
    dso::groops_atlas(fn.c_str(), a.dir.c_str());
  } catch (std::exception &) {
    threw = true;
  }
  if (!threw)
    c.fail("accepted", "an incomplete or contradictory list was accepted");
  c.checked();
  c.state(mc::mix((std::uint64_t)kind, k));
}
/* atlases built by hand: waves are unique, and found again */
static void by_hand(mc::Ctx &c) {
  dso::TideAtlas t;
  std::vector<Wave> w;
  static const int N[5][6] = {{2, 0, 0, 0, 0, 0}, {2, 0, 0, 0, 0, 1}, {1, 0, 0, 0, 0, 0}, {2, 0, 0, -1, 0, 0}, {2, 0, 0, 0, 0, 0}};
  static const double PI4[5] = {0, 0, 0, 0, 1};
  const int depth = c.thorough() ? 4 : 3;
  for (int k = 0; k < depth; k++) {
    const int i = c.choose(5, "wave"), d = c.choose(2, "degree") + 1, o = c.choose(2, "order") ? d : 1;
    const dso::DoodsonConstituent dc(N[i][0], N[i][1], N[i][2], N[i][3], N[i][4], N[i][5], PI4[i]);
    auto same = [&](const Wave &x) { return std::equal(x.n, x.n + 6, N[i]) && x.phase == PI4[i]; };
    const bool known = std::find_if(w.begin(), w.end(), same) != w.end();
    const auto f = t.find_tidal_wave(dc);
    if ((f == t.waves().end()) == known)
      c.fail("lookup", "wave %d is %sfound", i, known ? "not " : "");
    bool threw = false;
    try {
      std::vector<dso::TidalConstituent>::iterator it;
      if (c.flag("constituent")) {
        const dso::TidalConstituent x(dso::TidalWave(dc, 1., 2., "w"), d, o);
        it = t.append_wave(x);
      } else
        it = t.append_wave(dso::TidalWave(dc, 1., 2., "w"), d, o);
      if (it != t.waves().end() - 1 || !(it->doodson() == dc))
        c.fail("append", "the new wave is not the one returned");
    } catch (std::runtime_error &) {
      threw = true;
    }
    if (threw != known)
      c.fail(known ? "twice" : "append", "wave %d was %s", i, threw ? "refused" : "added again");
    if (!known) {
      Wave x{};
      std::copy(N[i], N[i] + 6, x.n);
      x.phase = PI4[i];
      x.cs = x.sn = Set{0, d, o};
      w.push_back(x);
    }
    if (t.waves().size() != w.size())
      c.fail("waves", "%zu waves instead of %zu", t.waves().size(), w.size());
    int dd = 0, oo = 0, go;
    for (std::size_t j = 0; j < w.size(); j++) {
      const auto &x = t.waves()[j];
      if (!std::equal(w[j].n, w[j].n + 6, x.doodson().int_array()) || x.doodson().pifactor() != (double)w[j].phase)
        c.fail("order", "wave %zu is not the one appended", j);
      if (x.stokes_cos().max_degree() != w[j].cs.degree || x.stokes_sin().max_degree() != w[j].cs.degree ||
          x.stokes_cos().max_order() != w[j].cs.order || x.stokes_sin().max_order() != w[j].cs.order)
        c.fail("size", "coefficients of wave %zu have not the size asked for", j);
      dd = std::max(dd, w[j].cs.degree);
      oo = std::max(oo, w[j].cs.order);
      c.checked(2);
    }
    if (t.max_atlas_degree() != dd || t.max_atlas_degree(go) != dd || go != oo)
      c.fail("degree", "degree and order of the atlas: %d, %d instead of %d, %d", t.max_atlas_degree(), go, dd, oo);
    c.state(mc::mix(w.size(), (std::uint64_t)(i * 8 + d)));
  }
}
/* far more waves than any model has; none is found twice, or lost */
static void crowd(mc::Ctx &c) {
  static const int COUNT[] = {63, 64, 65, 129, 260};
  const int n = COUNT[c.choose(5, "waves")];
  auto wave = [](int i) {
    return dso::DoodsonConstituent(i % 7, i / 7 % 9 - 4, i / 63 - 2, 0, 0, 0, 0);
  };
  dso::TideAtlas t;
  for (int i = 0; i < n; i++)
    t.append_wave(dso::TidalWave(wave(i), 1., 2., "w"), 1, 1);
  const dso::TideAtlas copy(t);
  for (const dso::TideAtlas *a : {(const dso::TideAtlas *)&t, &copy}) {
    if ((int)a->waves().size() != n)
      c.fail("waves", "%zu waves instead of %d", a->waves().size(), n);
    for (int i = 0; i < 300; i++) {
      const auto it = a->find_tidal_wave(wave(i));
      if (i < n ? it != a->waves().begin() + i : it != a->waves().end())
        c.fail("lookup", "wave %d of %d is not found where it is", i, n);
      c.checked();
    }
  }
  for (int i = 0; i < n; i++) {
    if (t.find_tidal_wave(wave(i)) != t.waves().begin() + i)
      c.fail("lookup", "wave %d of %d is not found where it is", i, n);
    for (int how = 0; how < 2; how++) {
      bool threw = false;
      try {
        const dso::TidalWave w(wave(i), 1., 2., "w");
        if (how)
          t.append_wave(w, 1, 1);
        else
          t.append_wave(dso::TidalConstituent(w, 1, 1));
      } catch (std::runtime_error &) {
        threw = true;
      }
      if (!threw || (int)t.waves().size() != n)
        c.fail("twice", "wave %d of %d was added again", i, n);
      c.checked();
    }
  }
  c.state((std::uint64_t)n);
}
/* long lists in which a file, or wave, comes twice, near or far */
static void repeated(mc::Ctx &c) {
  const int n = (int)(sizeof WAVES / sizeof *WAVES);
  Atlas a = make(c, n);
  for (int i = 0; i < n; i++)
    a.cs[(std::size_t)i].degree = a.sn[(std::size_t)i].degree = a.cs[(std::size_t)i].order = a.sn[(std::size_t)i].order = 0;
  a.write_gfc();
  auto f = a.files();
  const int i = c.choose(n, "wave"), at = c.choose(2 * n / 5 + 1, "place") * 5;
  const bool other = c.flag("other name");
  std::vector<std::string> again{f[(std::size_t)(2 * i)], f[(std::size_t)(2 * i + 1)]};
  if (other)
    for (int s = 0; s < 2; s++) {
      again[(std::size_t)s] = name_of("MODEL", WAVES[i].digits, "other", s);
      put(a.dir + "/" + again[(std::size_t)s], gfc({7 + s, 0, 0}));
    }
  f.insert(f.begin() + at, again.begin(), again.end());
  const std::string fn = put(c.tmpdir + "/list", list_text(f, 0));
  bool threw = false;
  try {
    dso::groops_atlas(fn.c_str(), a.dir.c_str());
  } catch (std::exception &) {
    threw = true;
  }
  if (!threw)
    c.fail("accepted", "a list with wave %d twice was accepted", i);
  c.checked();
  c.state(mc::mix((std::uint64_t)i, (std::uint64_t)at));
}
int main(int argc, char **argv) {
  return mc::run(argc, argv,
                 {{"arrangement", arrangement, 3}, {"many", many, 2}, {"form", form, 3}, {"request", request, 4}, {"damaged", damaged, 3},
                  {"by hand", by_hand, 4}, {"crowd", crowd, 1}, {"repeated", repeated, 2}});
}
