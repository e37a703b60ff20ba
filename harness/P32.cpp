/* Interpolation of AOD1B coefficients along histories of requests. */
#include "aod_ref.hpp"
#include <sys/stat.h>

typedef dso::Aod1bDataStream<AOD1BCoefficientType::GLO> Stream;
static const int GLO = 2;

/* the block epochs of GLO coefficients, per file */
struct World {
  int type = GLO;
  std::vector<std::vector<Block>> files; /* blocks of the type only */
  std::vector<bool> exists;
  int degree = 1;
};
static File file_of(const World &w, std::size_t k, bool interleave) {
  File f;
  f.degree = w.degree;
  for (const Block &b : w.files[k]) {
    if (interleave)
      f.blocks.push_back({(w.type + 2) % 4, b.epoch, b.id + 20});
    f.blocks.push_back(b);
    if (interleave)
      f.blocks.push_back({(w.type + 1) % 4, b.epoch, b.id + 30});
  }
  return f;
}
static const double TOL = 1e-13;
static void expect_value(mc::Ctx &c, const World &w, const When &t, const StokesCoeffs &cs) {
  /* blocks of all files are in chronological order */
  const Block *a = nullptr, *b = nullptr;
  for (std::size_t k = 0; k < w.files.size(); k++)
    for (const Block &x : w.files[k]) {
      if (!w.exists[k])
        continue;
      if (x.epoch.tt() <= t)
        a = &x;
      else if (!b)
        b = &x;
    }
  if (!a || !b)
    c.fail("extrapolated", "coefficients at MJD %.9f, which is not between two blocks", t.fmjd());
  const long double dt = (b->epoch.sec - a->epoch.sec);
  const When ta = a->epoch.tt();
  const long double d = (t.imjd().as_underlying_type() - ta.imjd().as_underlying_type()) * 86400.L +
                        (t.sec().as_underlying_type() - ta.sec().as_underlying_type()) / 1e9L;
  const long double f = d / dt;
  for (int m = 0; m <= cs.max_order(); m++)
    for (int l = m; l <= cs.max_degree(); l++)
      for (int s = 0; s < 2; s++) {
        const long double x = coef(a->id, l, m, s), y = coef(b->id, l, m, s);
        const double want = (double)(x + (y - x) * f);
        const double got = s ? cs.S(l, m) : cs.C(l, m);
        if (!(std::fabs(got - want) <= TOL * (std::fabs((double)x) + std::fabs((double)y)) + 0.))
          c.fail("interpolated", "at MJD %.9f (%.4f between blocks %d and %d) %c(%d,%d) is %.17g instead of %.17g",
                 t.fmjd(), (double)f, a->id, b->id, s ? 'S' : 'C', l, m, got, want);
        c.checked();
      }
}
struct Model {
  int cur = 0, hi = 0; /* the file in use is one of these */
  long prev_lo = -1;  /* no earlier than this block: must still be there */
};
/* may the request fail? 0: it must not, 1: it must, 2: it may */
static int verdict(const World &w, Model &m, long tsec, bool dir) {
  /* k: the last existing file of the chain whose first block is not after t */
  std::size_t last = 0;
  while (dir && last + 1 < w.files.size() && w.exists[last + 1])
    ++last;
  if (tsec < w.files[0].front().epoch.sec || tsec >= w.files[last].back().epoch.sec)
    return 1;
  std::size_t k = 0;
  while (k + 1 <= last && w.files[k + 1].front().epoch.sec <= tsec)
    ++k;
  if (m.cur != m.hi)
    return 2;
  /* the gap after a file needs the next one */
  const bool gap = tsec >= w.files[k].back().epoch.sec;
  if (m.prev_lo >= 0 && tsec >= m.prev_lo && (int)k <= m.cur)
    return 0;
  if ((int)k == m.cur)
    return 0;
  if ((int)k == m.cur + 1 && !gap)
    return 0;
  return 2;
}
static void note(const World &w, Model &m, long tsec, bool ok, bool dir) {
  if (ok) {
    std::size_t k = 0;
    while (k + 1 < w.files.size() && w.exists[k + 1] && dir && w.files[k + 1].front().epoch.sec <= tsec)
      ++k;
    const bool gap = tsec >= w.files[k].back().epoch.sec;
    const int now = (int)k + gap;
    /* all blocks before it, in time */
    std::vector<long> e;
    for (std::size_t i = 0; i < w.files.size(); i++)
      for (const Block &b : w.files[i])
        e.push_back(b.epoch.sec);
    std::size_t i = 0;
    while (i + 1 < e.size() && e[i + 1] <= tsec)
      ++i;
    m.cur = std::max(m.cur, now);
    m.hi = std::max(m.hi, m.cur);
    /* the bracketing interval is there, for certain */
    m.prev_lo = e[i];
  }
}
template <class Stream>
static int ask(mc::Ctx &c, Stream &s, const World &w, Model &m, long tsec, long nano, StokesCoeffs &cs, bool dir) {
  const When t = Gps{tsec}.tt().add_seconds(dso::nanoseconds(nano));
  dirty(cs);
  const int v = verdict(w, m, tsec, dir);
  const int e = s.coefficients_at(t, cs);
  c.log("t=%ld: %d (expected %d)", tsec, e, v);
  if (v < 2 && (e != 0) != v)
    c.fail(v ? "accepted" : "refused", "the request at second %ld returned %d (file in use %d)", tsec, e, m.cur);
  if (!e)
    expect_value(c, w, t, cs);
  else {
    /* the stream may have gone on to the next file */
    std::size_t last = 0;
    while (dir && last + 1 < w.files.size() && w.exists[last + 1])
      ++last;
    if (v == 2 || (tsec >= 0 && m.cur < (int)last))
      m.hi = std::max(m.hi, (int)last);
    if (tsec >= 0)
      m.prev_lo = -1;
  }
  note(w, m, tsec, !e, dir);
  c.checked();
  return e;
}
/* one file, any history of requests */
static void single(mc::Ctx &c) {
  World w;
  const int n = 3 + c.choose(c.thorough() ? 4 : 3, "blocks");
  static const long STEP[] = {10800, 3600, 21600};
  const long step = STEP[c.choose(n == 3 ? 3 : 1, "spacing")];
  w.files.resize(1);
  w.exists = {true};
  for (int i = 0; i < n; i++)
    w.files[0].push_back({GLO, Gps{i * step}, i});
  const int form = c.choose(2, "form");
  File f = file_of(w, 0, form);
  f.eol = !form;
  const std::string fn = write_file(c, file_text(f));
  Stream s(fn.c_str());
  StokesCoeffs cs(1, form ? 0 : 1, 1., 1.);
  if (c.flag("initialised")) {
    if (s.initialize())
      c.fail("initialise", "a file with %d blocks cannot be used", n);
  }
  Model m;
  const int depth = 3;
  for (int k = 0; k < depth; k++) {
    /* before, at each block, within each interval, at the end, and after */
    const int g = c.choose(2 * n + 1, "epoch");
    const long tsec = g == 0 ? -1 : g == 2 * n ? (n - 1) * step + 1 : (g - 1) / 2 * step + (g - 1) % 2 * (step / 4);
    ask(c, s, w, m, tsec, g == 4 ? 500000001L : 0, cs, false);
    c.state(mc::mix((std::uint64_t)(n * 64 + g), (std::uint64_t)k));
  }
}
/* blocks at any distance, among others of other types, before and after too */
static void irregular(mc::Ctx &c) {
  static const long GAP[] = {600, 10800, 86400, 864000, 1};
  World w;
  w.files.resize(1);
  w.exists = {true};
  const int shape = c.choose(7, "spacing"), n = shape == 6 ? 1000 : 3 + c.choose(3, "blocks");
  long at = 0;
  for (int i = 0; i < n; i++) {
    w.files[0].push_back({GLO, Gps{at}, i % 90});
    at += shape == 6 ? 600 : shape < 5 ? GAP[shape] : GAP[(i * 3 + n) % 4];
  }
  File f = file_of(w, 0, shape < 6 && c.flag("other types"));
  const int around = c.choose(4, "others around");
  if (around & 1)
    f.blocks.insert(f.blocks.begin(), {0, Gps{-7200}, 50});
  if (around & 2)
    f.blocks.push_back({1, Gps{at + 86400}, 51});
  Stream s(write_file(c, file_text(f)).c_str());
  StokesCoeffs cs(1, 1, 1., 1.);
  Model m;
  for (int k = 0; k < (shape == 6 ? 3 : 2); k++) {
    /* within the intervals, on blocks, just before one, and outside */
    const auto &b = w.files[0];
    long t, nano = 0;
    if (shape == 6) {
      static const int AT[] = {0, 1, 2, 50, 500, 501, 900, 998, 999};
      t = b[(std::size_t)AT[c.choose(9, "block")]].epoch.sec + 300;
    } else {
      const int g = c.choose(4 * n + 1, "epoch");
      if (g == 4 * n)
        t = -3600;
      else {
        const std::size_t i = (std::size_t)g / 4;
        t = b[i].epoch.sec;
        const long gap = i + 1 < b.size() ? b[i + 1].epoch.sec - t : 100;
        if (g % 4 == 1)
          t += gap / 3, nano = 250000000;
        if (g % 4 == 2)
          t += gap - 1, nano = 999999999;
        if (g % 4 == 3)
          nano = 1;
      }
    }
    ask(c, s, w, m, t, nano, cs, false);
    c.state(mc::mix((std::uint64_t)(shape * 8 + around), (std::uint64_t)(t + 7200)));
  }
}
/* the interval is divided finely, back and forth */
static void fine(mc::Ctx &c) {
  World w;
  const int n = 4;
  w.files.resize(1);
  w.exists = {true};
  w.degree = 3;
  for (int i = 0; i < n; i++)
    w.files[0].push_back({GLO, Gps{i * 10800L}, i});
  const std::string fn = write_file(c, file_text(file_of(w, 0, true)));
  Stream s(fn.c_str());
  if (s.initialize())
    c.fail("initialise", "a file with %d blocks cannot be used", n);
  const int cl = c.choose(4, "degree"), cm = c.choose(cl + 1, "order");
  StokesCoeffs cs(cl, cm, 1., 1.);
  const int div[] = {1, 60, 180, 999, 3600, 5400};
  const long d = div[c.choose(6, "step")];
  const int dir = c.choose(3, "direction");
  Model m;
  const long end = (n - 1) * 10800L;
  for (long t = 0; t < (d == 1 ? 400 : end); t += d) {
    long x = d == 1 ? t + 10600 : t;
    if (dir == 1)
      x = end - 1 - x;
    if (dir == 2 && (t / d) % 2)
      x = std::max(0L, x - 7200);
    ask(c, s, w, m, x, 123456789L * (t % 3 == 1), cs, false);
  }
  c.state(mc::mix((std::uint64_t)d, (std::uint64_t)(cl * 16 + cm * 4 + dir)));
}
/* requests for more than the file has, and files without enough blocks */
static void limits(mc::Ctx &c) {
  World w;
  const int n = c.choose(5, "blocks");
  w.files.resize(1);
  w.exists = {true};
  for (int i = 0; i < n; i++)
    w.files[0].push_back({GLO, Gps{i * 10800L}, i});
  w.degree = c.choose(3, "degree");
  File f = file_of(w, 0, false);
  if (n == 0)
    f.blocks.push_back({0, Gps{0}, 1});
  const std::string fn = write_file(c, file_text(f));
  Stream s(fn.c_str());
  const int e = s.initialize();
  if ((e != 0) != (n < 3))
    c.fail("initialise", "with %d blocks, initialisation returned %d", n, e);
  const int cl = c.choose(5, "degree asked"), cm = c.choose(cl + 1, "order asked");
  StokesCoeffs cs(cl, cm, 1., 1.);
  if (n < 3) {
    if (!s.coefficients_at(Gps{1}.tt(), cs))
      c.fail("accepted", "coefficients from a file with %d blocks", n);
    return;
  }
  const int r = s.coefficients_at(Gps{1}.tt(), cs);
  if ((r != 0) != (cl > w.degree))
    c.fail("size", "coefficients up to (%d,%d) of a file of degree %d: %d", cl, cm, w.degree, r);
  if (!r)
    expect_value(c, w, Gps{1}.tt(), cs);
  c.checked();
  c.state(mc::mix((std::uint64_t)(n * 8 + cl), (std::uint64_t)(cm * 4 + w.degree)));
}
/* daily files in a folder */
static void daily(mc::Ctx &c) {
  World w;
  const int nf = 3;
  const int have = c.choose(4, "files present"); /* of the 2nd and 3rd */
  w.files.resize((std::size_t)nf);
  w.exists = {true, (have & 1) != 0, (have & 2) != 0};
  const int where = have == 3 ? c.choose(3, "folders") : 0;
  const bool longnames = where == 1;
  std::string dir = c.tmpdir + "/aod";
  mkdir(dir.c_str(), 0700);
  if (longnames) {
    for (int i = 0; i < 3; i++) {
      dir += "/" + std::string(120, (char)('a' + i));
      mkdir(dir.c_str(), 0700);
    }
  }
  const std::string other = c.tmpdir + "/first";
  mkdir(other.c_str(), 0700);
  const int per = 3;
  for (int k = 0; k < nf; k++)
    for (int i = 0; i < per; i++)
      w.files[(std::size_t)k].push_back({GLO, Gps{k * 86400L + i * 28800L}, k * per + i});
  static const char *NAME[] = {"AOD1B_2008-07-03_X_06.asc", "AOD1B_2008-07-04_X_06.asc", "AOD1B_2008-07-05_X_06.asc"};
  std::string fn[3];
  const bool apart = where == 2;
  for (int k = 0; k < nf; k++) {
    fn[k] = (k == 0 && apart ? other : dir) + "/" + NAME[k];
    std::remove((dir + "/" + NAME[k]).c_str());
    if (!w.exists[(std::size_t)k])
      continue;
    File f = file_of(w, (std::size_t)k, false);
    FILE *o = std::fopen(fn[k].c_str(), "wb");
    const std::string t = file_text(f);
    std::fwrite(t.data(), 1, t.size(), o);
    std::fclose(o);
  }
  Stream s(fn[0].c_str(), dir.c_str());
  if (s.initialize())
    c.fail("initialise", "a file with %d blocks cannot be used", per);
  StokesCoeffs cs(1, 1, 1., 1.);
  Model m;
  /* epochs: the blocks, and one within each interval; before, and after */
  std::vector<long> e{-1};
  for (auto &f : w.files)
    for (auto &b : f) {
      e.push_back(b.epoch.sec);
      e.push_back(b.epoch.sec + 7200);
    }
  const int depth = c.thorough() && !longnames && !apart ? 4 : 3;
  long prev = 0;
  for (int k = 0; k < depth; k++) {
    const int g = c.choose((int)e.size(), "epoch");
    ask(c, s, w, m, e[(std::size_t)g], 0, cs, true);
    prev = e[(std::size_t)g];
    c.state(mc::mix((std::uint64_t)(g * 4 + have), (std::uint64_t)m.cur));
  }
  (void)prev;
}
/* stepping through several files, with steps back as a propagator makes */
static void propagate(mc::Ctx &c) {
  World w;
  const int nf = 4;
  w.files.resize((std::size_t)nf);
  w.exists.assign((std::size_t)nf, true);
  const std::string dir = c.tmpdir + "/prop";
  mkdir(dir.c_str(), 0700);
  const int per = 3 + c.choose(3, "blocks per file");
  const bool single_last = c.flag("one block in the last file");
  static const char *NAME[] = {"AOD1B_2008-07-03_X_06.asc", "AOD1B_2008-07-04_X_06.asc", "AOD1B_2008-07-05_X_06.asc",
                               "AOD1B_2008-07-06_X_06.asc"};
  for (int k = 0; k < nf; k++) {
    for (int i = 0; i < ((single_last && k == nf - 1) ? 1 : per); i++)
      w.files[(std::size_t)k].push_back({GLO, Gps{k * 86400L + i * (86400L / per)}, (k * per + i)});
    FILE *o = std::fopen((dir + "/" + NAME[k]).c_str(), "wb");
    File f = file_of(w, (std::size_t)k, true);
    f.eol = k % 2;
    const std::string t = file_text(f);
    std::fwrite(t.data(), 1, t.size(), o);
    std::fclose(o);
  }
  Stream s((dir + "/" + NAME[0]).c_str(), dir.c_str());
  if (s.initialize())
    c.fail("initialise", "a file with %d blocks cannot be used", per);
  StokesCoeffs cs(1, 1, 1., 1.);
  static const long steps[] = {600, 1800, 3600, 5000, 10800, 20000};
  const long step = steps[c.choose(6, "step")];
  const long back = c.choose(4, "step back") * (86400L / per / 4);
  const long from = c.choose(4, "start") * 3600L;
  const long end = w.files.back().back().epoch.sec;
  Model m;
  int n = 0;
  for (long t = from; t < end; t += step) {
    if (ask(c, s, w, m, t, 0, cs, true))
      c.fail("refused", "stepping by %ld s failed at second %ld", step, t);
    if (back && n++ % 3 == 2) {
      const long b = std::max(from, t - back);
      if (ask(c, s, w, m, b, 0, cs, true))
        c.fail("refused", "stepping back from second %ld to %ld failed", t, b);
    }
  }
  c.state(mc::mix((std::uint64_t)step, (std::uint64_t)(back * 64 + from)));
}
/* files of successive days at ends of months and years, of any release and
   type of coefficients, among others that must not be used */
template <AOD1BCoefficientType T> static void calendar_of(mc::Ctx &c) {
  static const long START[] = {54523, 54889, 54830, 57752, 51543, 58848, 54678, 54494};
  const long start = START[c.choose(8, "first day")];
  const int rl = 5 + c.choose(3, "release");
  const int how = c.choose(4, "size: degree 1 or 6, 3 or 8 blocks a day");
  const int present = 1 + c.choose(3, "days present");
  const int decoy = c.choose(3, "other files: none, other releases, other satellite and compressed");
  World w;
  w.type = (int)T;
  w.degree = how & 1 ? 6 : 1;
  const int per = how & 2 ? 8 : 3;
  const std::string dir = c.tmpdir + "/cal";
  mkdir(dir.c_str(), 0700);
  std::vector<std::string> made;
  auto name = [&](const Gps &g, const char *tail) { return dir + "/AOD1B_" + g.str().substr(0, 10) + tail; };
  auto write = [&](const std::string &fn, const File &f) {
    FILE *o = std::fopen(fn.c_str(), "wb");
    const std::string t = file_text(f);
    std::fwrite(t.data(), 1, t.size(), o);
    std::fclose(o);
    made.push_back(fn);
  };
  char tail[32];
  std::snprintf(tail, sizeof tail, "_X_%02d.asc", rl);
  const long day0 = (start - 54650) * 86400L;
  for (int k = 0; k < 4; k++) {
    w.files.emplace_back();
    w.exists.push_back(k < present);
    for (int i = 0; i < per; i++)
      w.files.back().push_back({(int)T, Gps{day0 + k * 86400L + i * (86400L / per)}, k * per + i});
    File f = file_of(w, (std::size_t)k, true);
    const Gps g{day0 + k * 86400L};
    if (k < present)
      write(name(g, tail), f);
    for (Block &b : f.blocks)
      b.id += 100;
    if (decoy == 1)
      for (int r = 4; r <= 8; r++) {
        char o[32];
        std::snprintf(o, sizeof o, "_X_%02d.asc", r);
        if (r != rl)
          write(name(g, o), f);
      }
    if (decoy == 2) {
      std::string o = tail;
      write(name(g, (o + ".gz").c_str()), f);
      o[1] = 'A';
      write(name(g, o.c_str()), f);
    }
  }
  dso::Aod1bDataStream<T> s(made[0].c_str(), dir.c_str());
  if (s.initialize())
    c.fail("initialise", "%s cannot be used", made[0].c_str());
  StokesCoeffs cs(w.degree, w.degree, 1., 1.);
  const long end = w.files[(std::size_t)present - 1].back().epoch.sec;
  World v = w;
  v.files.resize((std::size_t)present);
  v.exists.resize((std::size_t)present);
  Model m;
  for (long t = day0; t < end; t += 86400L / per / 2) {
    if (ask(c, s, v, m, t, 0, cs, true))
      c.fail("refused", "stepping failed at %s", Gps{t}.str().c_str());
  }
  dirty(cs);
  for (long t : {end + 3600, day0 + present * 86400L, day0 + present * 86400L + 3600})
    if (!s.coefficients_at(Gps{t}.tt(), cs))
      c.fail("extrapolated", "coefficients at %s, after the last block", Gps{t}.str().c_str());
  for (const auto &f : made)
    std::remove(f.c_str());
  c.state(mc::mix((std::uint64_t)start, (std::uint64_t)(rl * 64 + how * 16 + present * 4 + decoy)));
}
static void calendar(mc::Ctx &c) {
  switch (c.choose(4, "type")) {
  case 0: return calendar_of<AOD1BCoefficientType::ATM>(c);
  case 1: return calendar_of<AOD1BCoefficientType::OCN>(c);
  case 2: return calendar_of<AOD1BCoefficientType::GLO>(c);
  default: return calendar_of<AOD1BCoefficientType::OBA>(c);
  }
}
/* streams that are moved around between requests */
static void moved(mc::Ctx &c) {
  World w[2];
  std::string fn[2];
  for (int k = 0; k < 2; k++) {
    w[k].files.resize(1);
    w[k].exists = {true};
    w[k].degree = 1 + k;
    for (int i = 0; i < 5; i++)
      w[k].files[0].push_back({GLO, Gps{i * 10800L}, i + k * 8});
    fn[k] = write_file(c, file_text(file_of(w[k], 0, k)), k ? "AOD1B_2008-07-03_X_05.asc" : "AOD1B_2008-07-03_X_06.asc");
  }
  std::unique_ptr<Stream> s[2];
  int is[2] = {0, 1};
  const bool init = c.flag("initialised");
  for (int k = 0; k < 2; k++) {
    s[k].reset(new Stream(fn[k].c_str()));
    if (init && s[k]->initialize())
      c.fail("initialise", "a file cannot be used");
  }
  const int depth = 3;
  for (int k = 0; k < depth; k++) {
    const int op = c.choose(4, "operation");
    if (op == 0) { /* swap by moves */
      std::swap(*s[0], *s[1]);
      std::swap(is[0], is[1]);
    } else if (op == 1) { /* to a new one */
      s[0].reset(new Stream(std::move(*s[0])));
    } else if (op == 2) { /* by assignment, over another */
      Stream t(fn[1 - is[1]].c_str());
      if (c.flag("used"))
        t.initialize();
      t = std::move(*s[1]);
      s[1].reset(new Stream(std::move(t)));
    }
    const int who = c.choose(2, "which"), g = c.choose(c.thorough() ? 4 : 2, "epoch") * (c.thorough() ? 1 : 3);
    StokesCoeffs cs(1, 1, 1., 1.);
    Model m;
    ask(c, *s[who], w[is[who]], m, g * 10800L + 2700, 0, cs, false);
    if (s[who]->stream().fn() != fn[is[who]])
      c.fail("file", "the stream reads %s instead of %s", s[who]->stream().fn().c_str(), fn[is[who]].c_str());
    c.state(mc::mix((std::uint64_t)(is[0] * 16 + op), (std::uint64_t)(who * 4 + g)));
  }
}
/* a damaged block: whatever needs it fails, time and again, and nothing else
 * is ever taken for it */
static void damaged(mc::Ctx &c) {
  World w;
  const int n = 6;
  w.files.resize(1);
  w.exists = {true};
  for (int i = 0; i < n; i++)
    w.files[0].push_back({GLO, Gps{i * 10800L}, i});
  File f = file_of(w, 0, c.flag("other types"));
  std::string t = file_text(f);
  const int bad = c.choose(n, "block");
  std::size_t at = t.find("END OF HEADER");
  for (int i = 0, k = -1; k < bad; i++) {
    at = t.find("DATA SET", at + 1);
    if (f.blocks[(std::size_t)i].type == GLO)
      ++k;
  }
  const int line = c.choose(4, "line");
  for (int i = 0; i < line; i++)
    at = t.find('\n', at) + 1;
  t[at + (line ? 2 : 0)] = 'x';
  const std::string fn = write_file(c, t);
  Stream s(fn.c_str());
  s.initialize();
  StokesCoeffs cs(1, 1, 1., 1.);
  for (int k = 0; k < (c.thorough() ? 4 : 3); k++) {
    const int g = c.choose(n - 1, "interval");
    const When when = Gps{g * 10800L + 2700}.tt();
    const int e = s.coefficients_at(when, cs);
    if (!e)
      expect_value(c, w, when, cs);
    if (!e && (g == bad || g + 1 == bad))
      c.fail("accepted", "coefficients from a damaged block");
    /* three blocks are needed to begin with */
    if (e && g + 1 < bad && bad > 3 && g + 2 < bad)
      c.fail("refused", "coefficients of interval %d refused, for a damaged block %d", g, bad);
    c.checked();
    c.state(mc::mix((std::uint64_t)(bad * 8 + g), (std::uint64_t)line));
  }
}
int main(int argc, char **argv) {
  return mc::run(argc, argv,
                 {{"single", single, 4}, {"irregular", irregular, 4}, {"fine", fine, 3}, {"limits", limits, 2}, {"daily", daily, 3},
                  {"propagate", propagate, 3}, {"moved", moved, 3}, {"calendar", calendar, 2}, {"damaged", damaged, 3}});
}
