/* mergeAod1b.py: files in, one product out. */
#include "aod_ref.hpp"
#include "pyhost.hpp"

namespace fs = std::filesystem;

struct Input {
  File file;
  std::string name, text;
};
static std::string file_name(const Gps &g, const char *ext = ".asc") {
  return "AOD1B_" + g.str().substr(0, 10) + "_X_06" + ext;
}
/* the name of the product the earliest file leads to */
static std::string merged_name(std::string n) {
  n = fs::path(n).filename().string();
  if (n.size() > 4 && n.substr(n.size() - 4) == ".asc")
    n.resize(n.size() - 4);
  return n + ".merged.asc";
}
template <AOD1BCoefficientType T>
static void blocks_as(mc::Ctx &c, const dso::Aod1bIn &aod, const std::vector<Block> &all, int L) {
  dso::Aod1bDataBlockIterator<T> it(aod);
  std::vector<Block> mine;
  for (const Block &b : all)
    if (b.type == (int)T)
      mine.push_back(b);
  if (mine.empty()) {
    try {
      it.set_begin();
    } catch (std::runtime_error &) {
      return;
    }
    c.fail("blocks", "%s: blocks of type %s that no input has", aod.fn().c_str(), TYPE_NAME[(int)T]);
  }
  it.set_begin();
  for (std::size_t k = 0; k < mine.size(); k++) {
    if (!(it.header().mepoch == mine[k].epoch.tt()))
      c.fail("order", "%s: block %zu of %zu of type %s is of MJD %.6f, expected %s", aod.fn().c_str(), k, mine.size(),
             TYPE_NAME[(int)T], it.header().mepoch.fmjd(), mine[k].epoch.str().c_str());
    StokesCoeffs cs(L, L, 1., 1.);
    dirty(cs);
    if (it.collect(cs))
      c.fail("blocks", "%s: block %zu cannot be collected", aod.fn().c_str(), k);
    same(c, cs, mine[k].id, L, L, "merged");
    const int e = it.advance();
    if (k + 1 < mine.size() ? e != 0 : e >= 0)
      c.fail("blocks", "%s: after block %zu of %zu advancing returned %d", aod.fn().c_str(), k, mine.size(), e);
  }
  c.checked();
}
/* in: the inputs, by time */
static void product(mc::Ctx &c, const std::string &fn, const std::vector<Input> &in) {
  std::vector<Block> all;
  for (const Input &i : in)
    all.insert(all.end(), i.file.blocks.begin(), i.file.blocks.end());
  if (!fs::exists(fn))
    c.fail("product", "there is no %s", fn.c_str());
  const File &f = in.front().file;
  try {
    dso::Aod1bIn aod(fn.c_str());
    if (!(aod.first_epoch() == all.front().epoch.tt()) || !(aod.last_epoch() == all.back().epoch.tt()))
      c.fail("span", "observations from MJD %.6f to %.6f; expected %s to %s", aod.first_epoch().fmjd(),
             aod.last_epoch().fmjd(), all.front().epoch.str().c_str(), all.back().epoch.str().c_str());
    if (aod.num_data_sets() != (int)all.size() || aod.num_data_records() != 527072 * (int)in.size())
      c.fail("counts", "%d data sets and %d records; expected %zu and %d", aod.num_data_sets(),
             aod.num_data_records(), all.size(), 527072 * (int)in.size());
    if (aod.max_degree() != f.degree || aod.GM() != f.GM || aod.Re() != f.Re || aod.flat() != 298.25642 ||
        aod.omega() != 7.292115E-05 || std::strcmp(aod.agency(), "GFZ") || std::strcmp(aod.process_level(), "1B") ||
        aod.coeff_normalized() != 1 || aod.file_type() != 999)
      c.fail("header", "the header of the merged file differs from those of its parts");
    c.checked(8);
    blocks_as<AOD1BCoefficientType::ATM>(c, aod, all, f.degree);
    blocks_as<AOD1BCoefficientType::OCN>(c, aod, all, f.degree);
    blocks_as<AOD1BCoefficientType::GLO>(c, aod, all, f.degree);
    blocks_as<AOD1BCoefficientType::OBA>(c, aod, all, f.degree);
  } catch (std::runtime_error &e) {
    c.fail("product", "%s cannot be read: %s", fn.c_str(), e.what());
  }
}
/* the inputs as they were; nothing else but the product (if there is one) in
   the directories */
static void untouched(mc::Ctx &c, const std::vector<Input> &in, const std::string &dir) {
  for (const Input &i : in)
    if (slurp(dir + "/" + i.name) != i.text)
      c.fail("input", "%s is not what it was", i.name.c_str());
  c.checked((int)in.size());
}
static std::vector<std::string> products_in(const std::string &dir) {
  std::vector<std::string> r;
  for (const auto &e : fs::recursive_directory_iterator(dir))
    if (e.is_regular_file() && e.path().filename().string().find(".merged.asc") != std::string::npos &&
        e.path().extension() == ".asc")
      r.push_back(e.path().string());
  return r;
}
static const long DAY = 86400;
/* midnights, in seconds from 2008-07-03 */
static const long START[] = {
    0,                       /* 2008-07-03 */
    (54465 - 54650) * DAY,   /* 2007-12-31 */
    (51542 - 54650) * DAY,   /* 1999-12-30: around the time epoch */
    (42776 - 54650) * DAY,   /* 1975-12-31: the first days of the series */
    (57753 - 54650) * DAY,   /* 2016-12-31: leap second */
    (54524 - 54650) * DAY,   /* 2008-02-28: leap day */
};
static Input day(int k, long start, const std::vector<int> &types, int epochs, long step, int degree, const char *ext = ".asc") {
  Input i;
  i.file.degree = degree;
  for (int e = 0; e < epochs; e++)
    for (int t : types) {
      const int id = 1 + k * 16 + e * 4 + t;
      i.file.blocks.push_back({t, Gps{start + k * DAY + e * step}, id});
    }
  i.name = file_name(Gps{start + k * DAY}, ext);
  return i;
}
static std::string replace_line(const std::string &t, const char *key, const std::string &line) {
  const auto a = t.find(key);
  return t.substr(0, a) + line + t.substr(t.find('\n', a) + 1);
}
static void put(const std::string &fn, const std::string &text) {
  fs::create_directories(fs::path(fn).parent_path());
  std::ofstream(fn, std::ios::binary) << text;
}
/* the k-th permutation of n */
static std::vector<int> permutation(int n, int k) {
  std::vector<int> p(n), r;
  for (int i = 0; i < n; i++)
    p[i] = i;
  for (int i = n; i; i--) {
    r.push_back(p[k % i]);
    p.erase(p.begin() + k % i);
    k /= i;
  }
  return r;
}
static const int FACT[] = {1, 1, 2, 6, 24, 120};

/* any number of days, gaps between them, given in any order */
static void merge(mc::Ctx &c) {
  const long start = START[c.choose(6, "first day")];
  const int n = 1 + c.choose(c.thorough() ? 5 : 4, "files");
  static const std::vector<std::vector<int>> TYPES = {{0, 1, 2, 3}, {2}, {3, 0}};
  const auto &types = TYPES[n > 3 ? 0 : c.choose(3, "types")];
  const int epochs = n > 3 ? 2 : 1 + c.choose(3, "epochs per file");
  const int gap = n > 1 && n < 4 ? c.choose(n, "missing day after file") : 0;
  std::vector<Input> in;
  std::string dir = c.tmpdir + "/m";
  fresh(dir);
  for (int i = 0; i < n; i++) {
    Input x = day(i + (gap && i >= gap), start, types, epochs, 10800, 2);
    x.text = file_text(x.file);
    in.push_back(x);
    put(dir + "/" + x.name, x.text);
  }
  std::vector<std::string> args = {"-f"};
  for (int i : permutation(n, c.choose(FACT[n], "order")))
    args.push_back(in[i].name);
  const Run r = run_tool("mergeAod1b.py", dir, args);
  if (r.status != "0")
    c.fail("status", "merging %d files of successive days ends with status %s", n, r.status.c_str());
  untouched(c, in, dir);
  product(c, dir + "/" + merged_name(in[0].name), in);
  if (products_in(dir).size() != 1)
    c.fail("product", "%zu products", products_in(dir).size());
  c.state(mc::mix((std::uint64_t)(start / DAY), (std::uint64_t)(n * 64 + epochs * 16 + gap)));
}
/* where the files are, how they are named, where the product goes */
static void places(mc::Ctx &c) {
  static const char *EXT[] = {".asc", "", ".txt", ".asc.asc", ".asc.1"};
  const char *ext = EXT[c.choose(5, "extension")];
  static const char *SUB[] = {"", "in/", "in.asc/sub/", "../x/"};
  const std::string sub = SUB[c.choose(4, "directory of the inputs")];
  const bool absolute = c.flag("absolute paths");
  const int where = c.choose(5, "output: default, ., other, absolute other, that of the inputs");
  const int n = 1 + c.choose(2, "files");
  const bool before = c.flag("a product is there already");
  const std::string cwd = c.tmpdir + "/m/cwd";
  fresh(c.tmpdir + "/m");
  fs::create_directories(cwd);
  fs::create_directories(cwd + "/out.asc");
  std::vector<Input> in;
  for (int i = 0; i < n; i++) {
    Input x = day(i, 0, {0, 2}, 2, 21600, 1, ext);
    x.name = sub + x.name;
    x.text = file_text(x.file);
    put(cwd + "/" + x.name, x.text);
    in.push_back(x);
  }
  std::vector<std::string> args = {"-f"};
  for (int i = n; i--;)
    args.push_back((absolute ? cwd + "/" : "") + in[i].name);
  const std::string own = sub.empty() ? "." : sub;
  const std::string out[] = {cwd, cwd, cwd + "/out.asc", cwd + "/out.asc", cwd + "/" + own};
  if (where) {
    args.push_back("-o");
    args.push_back(where == 1 ? "." : where == 2 ? "out.asc" : where == 3 ? out[3] : own);
  }
  const std::string fn = out[where] + "/" + merged_name(in[0].name);
  if (before)
    put(fn, "something of old\n");
  const Run r = run_tool("mergeAod1b.py", cwd, args);
  if (r.status != "0")
    c.fail("status", "merging %s.. into %s ends with status %s", args[1].c_str(), out[where].c_str(), r.status.c_str());
  untouched(c, in, cwd);
  product(c, fn, in);
  if (products_in(c.tmpdir + "/m").size() != 1)
    c.fail("product", "%zu products", products_in(c.tmpdir + "/m").size());
  c.state(mc::mix((std::uint64_t)where, (std::uint64_t)(sub.size() * 8 + std::strlen(ext))));
}
/* how the files are written */
static void styles(mc::Ctx &c) {
  const int n = 1 + c.choose(3, "files");
  std::vector<Input> in;
  const std::string dir = c.tmpdir + "/m";
  fresh(dir);
  const int degree = c.choose(n == 3 ? 2 : 4, "degree");
  const bool late = c.flag("days that begin later");
  const int create = c.choose(2, "headers that differ in what is particular to the file");
  for (int i = 0; i < n; i++) {
    Input x = day(i, late ? 3600 : 0, {3, 1}, 2, 10800, degree);
    x.file.eol = !c.flag("last line not terminated");
    x.file.style = i == 0 ? c.choose(3, "style") : 0;
    x.text = file_text(x.file);
    if (create) {
      const std::string k = std::to_string(i);
      x.text = replace_line(x.text, "FILENAME", head("FILENAME", x.name));
      x.text = replace_line(x.text, "FILESIZE", head("FILESIZE (BYTES)", std::to_string(1000 + i)));
      x.text = replace_line(x.text, "PRODUCT START", head("PRODUCT START CREATE TIME(UTC)", "2016-10-06 08:2" + k + ":51.000"));
      x.text = replace_line(x.text, "PRODUCT END", head("PRODUCT END CREATE TIME(UTC)", "2016-10-06 09:2" + k + ":51.000"));
    }
    in.push_back(x);
    put(dir + "/" + x.name, x.text);
  }
  std::vector<std::string> args = {"-f"};
  for (int i : permutation(n, c.choose(FACT[n], "order")))
    args.push_back(in[i].name);
  const Run r = run_tool("mergeAod1b.py", dir, args);
  if (r.status != "0")
    c.fail("status", "merging %d files ends with status %s", n, r.status.c_str());
  untouched(c, in, dir);
  product(c, dir + "/" + merged_name(in[0].name), in);
  c.state((std::uint64_t)(n * 16 + degree));
}
/* files that do not go together */
static void refused(mc::Ctx &c) {
  static const char *KEY[] = {"PRODUCER AGENCY", "FILE TYPE ipAOD1BF", "SOFTWARE VERSION", "SATELLITE NAME",
                              "TIME EPOCH (GPS TIME)", "PROCESS LEVEL (1A OR 1B)", "PRESSURE TYPE (SP OR VI)",
                              "MAXIMUM DEGREE", "COEFFICIENTS ERRORS (YES/NO)", "COEFF. NORMALIZED (YES/NO)",
                              "CONSTANT GM [M^3/S^2]", "CONSTANT A [M]", "CONSTANT FLAT [-]", "CONSTANT OMEGA [RAD/S]",
                              "DATA FORMAT (N,M,C,S)"};
  const int n = 2 + c.choose(2, "files"), odd = c.choose(n, "the file it is about");
  const int what = c.choose(24, "what is wrong");
  const std::string dir = c.tmpdir + "/m";
  fresh(dir);
  std::vector<Input> in;
  for (int i = 0; i < n; i++) {
    int d = i;
    if (i == odd && what == 15)
      d = (i + 1) % n;                      /* the same day twice */
    Input x = day(d, 0, {0, 2}, 3, i == odd && what == 16 ? DAY : 10800, 1);
    if (i == odd && what == 15)
      x.name = "again.asc";
    x.text = file_text(x.file);
    if (i == odd) {
      if (what < 15)
        x.text = replace_line(x.text, KEY[what], head(KEY[what], what == 4 ? "2000-01-02 12:00:00" : "17"));
      else if (what == 17)
        x.text = replace_line(x.text, "END OF HEADER", "");
      else if (what == 18)
        x.text.clear();
      else if (what == 19)
        x.text = replace_line(x.text, "TIME FIRST OBS", head("TIME FIRST OBS(SEC PAST EPOCH)", "unknown"));
      else if (what == 20)
        x.text = replace_line(x.text, "TIME LAST OBS", "");
      else if (what == 21)
        x.text = replace_line(x.text, "NUMBER OF DATA SETS", head("NUMBER OF DATA SETS", "many"));
      else if (what == 22)
        x.text = replace_line(x.text, "CONSTANT GM", "");
    }
    in.push_back(x);
    if (!(what == 23 && i == odd))
      put(dir + "/" + x.name, x.text);
  }
  /* a span of three days overlaps with what follows, if something does */
  if (what == 16 && odd == n - 1)
    c.prune();
  const bool before = c.flag("a product is there already");
  if (before)
    for (const Input &i : in)
      put(dir + "/" + merged_name(i.name), "something of old\n");
  std::vector<std::string> args = {"-f"};
  for (int i : permutation(n, c.choose(FACT[n], "order")))
    args.push_back(in[i].name);
  const Run r = run_tool("mergeAod1b.py", dir, args);
  if (r.status == "0" || r.status == "HANG" || r.status[0] == 'S')
    c.fail("status", "files that do not go together (%d): status %s", what, r.status.c_str());
  for (const auto &fn : products_in(dir))
    if (!before || slurp(fn) != "something of old\n")
      c.fail("product", "files that do not go together (%d), yet there is %s", what, fn.c_str());
  if (what == 23)
    in.erase(in.begin() + odd);
  untouched(c, in, dir);
  c.state((std::uint64_t)(what * 4 + odd));
}
/* a fault at any operation on a file; then a run without */
static void faults(mc::Ctx &c) {
  const int n = 1 + c.choose(3, "files");
  const std::string dir = c.tmpdir + "/m";
  const bool before = c.flag("a product is there already");
  std::vector<Input> in;
  auto make = [&] {
    fresh(dir);
    in.clear();
    for (int i = 0; i < n; i++) {
      Input x = day(i, 0, {0, 2}, 2, 10800, 1);
      x.text = file_text(x.file);
      in.push_back(x);
      put(dir + "/" + x.name, x.text);
    }
  };
  make();
  std::vector<std::string> args = {"-f"};
  for (int i : permutation(n, FACT[n] - 1))
    args.push_back(in[i].name);
  const std::string fn = dir + "/" + merged_name(in[0].name);
  const Run dry = run_tool("mergeAod1b.py", dir, args);
  if (dry.status != "0")
    c.fail("status", "merging ends with status %s", dry.status.c_str());
  const std::string good = slurp(fn);
  make();
  if (before)
    put(fn, "something of old\n");
  const bool crash = c.flag("crash");
  const int at = 1 + c.choose(dry.ops, "operation");
  const Run r = run_tool("mergeAod1b.py", dir, args, "", crash ? "crash" : "error", at);
  if (r.status == "HANG" || r.status[0] == 'S' || (r.status == "0" && slurp(fn) != good))
    c.fail("status", "fault at operation %d of %d: status %s", at, dry.ops, r.status.c_str());
  for (const auto &p : products_in(dir)) {
    const std::string t = slurp(p);
    if (p != fn || (t != good && !(before && t == "something of old\n")))
      c.fail("product", "fault at operation %d of %d: %s is incomplete", at, dry.ops, p.c_str());
  }
  untouched(c, in, dir);
  const Run again = run_tool("mergeAod1b.py", dir, args);
  if (again.status != "0" || slurp(fn) != good)
    c.fail("again", "a run after one with a fault at operation %d of %d ends with status %s or another product", at,
           dry.ops, again.status.c_str());
  untouched(c, in, dir);
  c.state((std::uint64_t)(n * 1000 + at * 2 + crash));
}
/* two runs at the same time, in one directory */
static void together(mc::Ctx &c) {
  const std::string dir = c.tmpdir + "/m";
  fresh(dir);
  std::vector<Input> in;
  for (int i = 0; i < 4; i++) {
    Input x = day(i, 0, {2}, 1, 10800, 1);
    x.text = file_text(x.file);
    in.push_back(x);
    put(dir + "/" + x.name, x.text);
  }
  const std::string tool = Host::tool("mergeAod1b.py");
  const int second = c.choose(3, "the second run: other files, one file in common, the same files");
  const int a = second == 0 ? 2 : second == 1 ? 1 : 0;
  const auto r = run_both(c, dir, {tool, "-f", in[0].name, in[1].name}, {tool, "-f", in[a].name, in[a + 1].name},
                          c.thorough() ? 3 : 2);
  if (r.first != "0" || r.second != "0")
    c.fail("status", "two runs at the same time end with status %s and %s", r.first.c_str(), r.second.c_str());
  untouched(c, in, dir);
  product(c, dir + "/" + merged_name(in[0].name), {in[0], in[1]});
  product(c, dir + "/" + merged_name(in[a].name), {in[a], in[a + 1]});
  c.state((std::uint64_t)second);
}

int main(int argc, char **argv) {
  return mc::run(argc, argv, {{"merge", merge, 2}, {"places", places, 3}, {"styles", styles, 2},
                              {"refused", refused, 3}, {"faults", faults, 4}, {"together", together, 5}});
}
