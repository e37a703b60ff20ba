/* getAod1b.py: an interrupted download is never taken for a product. */
#include "datetime/calendar.hpp"
#include "pyhost.hpp"

static std::string date_of(long mjd) {
  int y, m, d;
  dso::shim::mjd_to_civil(mjd, y, m, d);
  char b[32];
  std::snprintf(b, sizeof b, "%04d-%02d-%02d", y, m, d);
  return b;
}
static std::string name_of(long mjd, int rl, bool gz) {
  return "AOD1B_" + date_of(mjd) + "_X_0" + std::to_string(rl) + ".asc" + (gz ? ".gz" : "");
}
/* first days of ranges */
static const long START[] = {
    54523, /* 2008-02-27: leap day */
    54830, /* 2008-12-30: end of a year */
    57811, /* 2017-02-27: no leap day */
    51543, /* 1999-12-31 */
    57751, /* 2016-12-29 */
};
struct Range {
  long from;
  int days;
  int rl = 6;
  std::string dir;     /* where the products go */
  std::vector<std::string> args(bool decompress) const {
    std::vector<std::string> a = {"-f", date_of(from)};
    if (days != 1) {
      a.push_back("-t");
      a.push_back(date_of(from + days));
    }
    if (rl != 6) {
      a.push_back("-n");
      a.push_back(std::to_string(rl));
    }
    if (decompress)
      a.push_back("--decompress");
    return a;
  }
};
typedef std::map<std::string, std::string> Files;
/* whatever has the name of a product is one */
static Files intact(mc::Ctx &c, const std::string &dir, const char *when) {
  Files f = look(dir);
  for (const auto &e : f) {
    c.log("%s: %s %s", when, e.first.c_str(), e.second.c_str());
    if (e.second == "bad")
      c.fail("incomplete", "%s: %s is not the product", when, e.first.c_str());
    c.checked();
  }
  return f;
}
/* the state after a run without faults, started in the state before */
static void finished(mc::Ctx &c, const Range &r, const Files &before, const Run &run, bool decompress,
                     const char *when) {
  if (run.status != "0")
    c.fail("status", "%s ends with status %s", when, run.status.c_str());
  const Files after = intact(c, r.dir, when);
  std::vector<std::string> needed;
  for (int d = 0; d < r.days; d++) {
    const std::string gz = name_of(r.from + d, r.rl, true), asc = name_of(r.from + d, r.rl, false);
    if (!before.count(gz) && !before.count(asc))
      needed.push_back(gz);
    if (!after.count(gz) && !after.count(asc))
      c.fail("missing", "%s: no product of %s", when, date_of(r.from + d).c_str());
    if (decompress && !after.count(asc))
      c.fail("missing", "%s: no decompressed product of %s", when, date_of(r.from + d).c_str());
  }
  std::vector<std::string> got = run.fetched;
  std::sort(got.begin(), got.end());
  std::sort(needed.begin(), needed.end());
  if (got != needed)
    c.fail("fetched", "%s fetched %zu files; %zu were missing", when, got.size(), needed.size());
  for (const auto &e : before)
    if (!after.count(e.first) && e.second != "other")
      c.fail("lost", "%s: %s is gone", when, e.first.c_str());
  for (const auto &e : after) {
    bool own = before.count(e.first);
    for (int d = 0; d < r.days; d++)
      own = own || e.first == name_of(r.from + d, r.rl, true) ||
            (decompress && e.first == name_of(r.from + d, r.rl, false));
    if (!own)
      c.fail("stray", "%s left %s", when, e.first.c_str());
  }
  c.checked(3);
}
/* what is there before: of each day, and of the day after */
static void populate(mc::Ctx &c, const Range &r, int kinds) {
  static const char *WHAT[] = {"", "g", "a", "ga", "p", "q"};
  for (int d = 0; d <= r.days; d++) {
    const char *w = WHAT[c.choose(kinds, "of a day: nothing, compressed, plain, both, remains")];
    for (; *w; w++) {
      const std::string n = name_of(r.from + d, r.rl, *w == 'g' || *w == 'p');
      host.ask({"put", r.dir, *w == 'p' || *w == 'q' ? n + ".part" : n});
    }
  }
}
/* one run, all kinds of ranges and directories */
static void one(mc::Ctx &c) {
  Range r;
  r.from = START[c.choose(5, "first day")] + c.choose(3, "plus");
  r.days = c.choose(c.thorough() ? 5 : 4, "days");
  r.rl = 6 - c.choose(2, "release");
  const bool decompress = c.flag("decompress");
  const int where = c.choose(3, "directory: current, relative, absolute");
  const std::string cwd = c.tmpdir + "/g";
  fresh(cwd);
  r.dir = where ? cwd + "/sub" : cwd;
  std::filesystem::create_directories(r.dir);
  const int there = c.choose(4, "all there: nothing, compressed, plain, other release");
  for (int d = 0; d < r.days && there; d++)
    host.ask({"put", r.dir, name_of(r.from + d, there == 3 ? 11 - r.rl : r.rl, there == 1)});
  const Files before = look(r.dir);
  auto args = r.args(decompress);
  if (where) {
    args.push_back("-o");
    args.push_back(where == 1 ? "sub" : r.dir);
  }
  const Run run = run_tool("getAod1b.py", cwd, args);
  finished(c, r, before, run, decompress, "the run");
  if (where && look(cwd).size() != 1)
    c.fail("stray", "files in the current directory");
  c.state(mc::mix((std::uint64_t)r.from, (std::uint64_t)(r.days * 8 + there * 2 + decompress)));
}
/* a directory with some of the products, then two runs */
static void two(mc::Ctx &c) {
  Range r;
  r.from = START[1];
  r.days = 1 + c.choose(2, "days");
  r.dir = c.tmpdir + "/g";
  fresh(r.dir);
  populate(c, r, 6);
  Files before = look(r.dir);
  for (int k = 0; k < 2; k++) {
    const bool decompress = c.flag("decompress");
    const Run run = run_tool("getAod1b.py", r.dir, r.args(decompress));
    finished(c, r, before, run, decompress, k ? "the second run" : "the run");
    before = look(r.dir);
  }
  c.state((std::uint64_t)before.size());
}
/* products the server does not have, at first */
static void missing(mc::Ctx &c) {
  Range r;
  r.from = START[c.choose(2, "first day")];
  r.days = 1 + c.choose(3, "days");
  r.dir = c.tmpdir + "/g";
  fresh(r.dir);
  const bool decompress = c.flag("decompress");
  const int set = 1 + c.choose((1 << r.days) - 1, "missing");
  std::string m;
  for (int d = 0; d < r.days; d++)
    if (set >> d & 1)
      m += name_of(r.from + d, 6, true) + " ";
  const Run run = run_tool("getAod1b.py", r.dir, r.args(decompress), m);
  if (run.status == "0")
    c.fail("status", "a product that the server does not have, yet the status is 0");
  if (run.status == "HANG" || run.status[0] == 'S')
    c.fail("status", "a product that the server does not have: status %s", run.status.c_str());
  intact(c, r.dir, "the run with products missing");
  for (int d = 0; d < r.days; d++)
    if (set >> d & 1)
      for (const auto &e : look(r.dir))
        if (e.first == name_of(r.from + d, 6, true) || e.first == name_of(r.from + d, 6, false))
          c.fail("incomplete", "%s, which the server does not have, is there", e.first.c_str());
  const bool later = c.flag("decompress");
  const Files before = look(r.dir);
  const Run again = run_tool("getAod1b.py", r.dir, r.args(later));
  finished(c, r, before, again, later, "the run after");
  c.state((std::uint64_t)(set * 4 + r.days));
}
/* faults: a run each, then one without */
static void faults(mc::Ctx &c) {
  Range r;
  r.from = START[1] + 1;
  r.days = 1 + c.choose(c.thorough() ? 3 : 2, "days");
  r.dir = c.tmpdir + "/g";
  fresh(r.dir);
  populate(c, r, r.days == 1 ? 6 : 2);
  const int n = c.thorough() && r.days < 3 ? 2 : 1;
  for (int k = 0; k < n; k++) {
    const bool decompress = c.flag("decompress");
    const auto args = r.args(decompress);
    /* the number of operations, from a run elsewhere */
    static std::map<std::string, int> known;
    std::string key = std::to_string(r.days) + (decompress ? "d" : "");
    for (const auto &e : look(r.dir))
      key += " " + e.first + " " + e.second;
    if (!known.count(key)) {
      const std::string dry = c.tmpdir + "/dry";
      std::filesystem::remove_all(dry);
      std::filesystem::copy(r.dir, dry);
      known[key] = run_tool("getAod1b.py", dry, args).ops;
    }
    const int ops = known[key];
    if (!ops)
      break;
    const bool crash = c.flag("crash");
    const int at = 1 + c.choose(ops, "operation");
    const Run run = run_tool("getAod1b.py", r.dir, args, "", crash ? "crash" : "error", at);
    c.log("fault at operation %d of %d, status %s", at, ops, run.status.c_str());
    if (run.status == "HANG" || run.status[0] == 'S')
      c.fail("status", "fault at operation %d of %d: status %s", at, ops, run.status.c_str());
    const Files after = intact(c, r.dir, "the interrupted run");
    if (run.status == "0")
      for (int d = 0; d < r.days; d++)
        if (!after.count(name_of(r.from + d, 6, false)) &&
            (decompress || !after.count(name_of(r.from + d, 6, true))))
          c.fail("status", "fault at operation %d of %d: status 0, yet no product of %s", at, ops,
                 date_of(r.from + d).c_str());
    c.state(mc::mix((std::uint64_t)(at * 64 + ops), (std::uint64_t)(k * 2 + crash)));
  }
  const Files before = look(r.dir);
  const bool decompress = c.flag("decompress");
  const Run again = run_tool("getAod1b.py", r.dir, r.args(decompress));
  finished(c, r, before, again, decompress, "the run after");
}
/* two runs at the same time */
static void together(mc::Ctx &c) {
  Range a, b;
  a.dir = b.dir = c.tmpdir + "/g";
  fresh(a.dir);
  a.from = START[1] + 1;
  const int how = c.choose(3, "the same day, a day in common, days in sequence");
  a.days = how == 1 ? 2 : 1;
  b.from = a.from + (how != 0);
  b.days = 1;
  const bool da = c.flag("decompress"), db = how ? da : c.flag("decompress");
  const std::string tool = Host::tool("getAod1b.py");
  std::vector<std::string> one = {tool}, two = {tool};
  for (const auto &x : a.args(da))
    one.push_back(x);
  for (const auto &x : b.args(db))
    two.push_back(x);
  const auto st = run_both(c, a.dir, one, two, c.thorough() ? 3 : 2);
  if (st.first != "0" || st.second != "0")
    c.fail("status", "runs at the same time end with status %s and %s", st.first.c_str(), st.second.c_str());
  const Files f = intact(c, a.dir, "runs at the same time");
  for (const Range *r : {&a, &b})
    for (int d = 0; d < r->days; d++)
      if (!f.count(name_of(r->from + d, 6, false)) &&
          ((r == &a ? da : db) || !f.count(name_of(r->from + d, 6, true))))
        c.fail("missing", "no product of %s", date_of(r->from + d).c_str());
  c.state((std::uint64_t)(how * 4 + da * 2 + db));
}

int main(int argc, char **argv) {
  return mc::run(argc, argv, {{"one", one, 2}, {"two", two, 2}, {"missing", missing, 3},
                              {"faults", faults, 3}, {"together", together, 4}});
}
