/** @file
 * A small stateless model checker.
 *
 * A scenario is a function that drives the real library and a reference model
 * side by side and takes every decision (which operation next, with which
 * operands, which file line, which fault) through Ctx::choose(). The explorer
 * re-executes the scenario for every sequence of decisions, depth first, until
 * the tree is exhausted. One root-to-leaf sequence is a trace; an edge of the
 * tree is a transition; Ctx::state() records reference-model states.
 *
 * A trace in progress is kept in a memory-mapped file, so that when the code
 * under test crashes, trips a sanitizer or never returns, the driver
 * (check.py) still knows the exact trace and replays it.
 */
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP

#include <cfenv>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <deque>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
#define MC_HAVE_ASAN 1
#else
#define MC_HAVE_ASAN 0
#endif

namespace mc {

struct Violation {
  std::string key, msg;
};
struct SkipShard {};
/** this branch is outside of the property's premise */
struct Prune {};

/* what the crash handler sees (memory mapped) */
struct Shared {
  std::uint64_t serial;
  std::int32_t scenario;
  std::int32_t n;
  std::int32_t choice[1000];
};

inline std::uint64_t mix(std::uint64_t h, std::uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 33;
  return h;
}
inline std::uint64_t bits(double d) {
  std::uint64_t u;
  std::memcpy(&u, &d, 8);
  return u;
}

class Ctx {
public:
  /** take a decision among n alternatives, 0 <= result < n */
  int choose(int n, const char *label = "") {
    if (n <= 0)
      throw Prune{};
    int c;
    if (pos < path.size()) {
      c = path[pos];
      if (replaying) {
        if (c >= n)
          throw Prune{};
      } else if (arity[pos] != n) {
        std::fprintf(stderr, "mc: scenario is not deterministic (%s)\n", label);
        std::_Exit(98);
      }
    } else {
      c = 0;
      path.push_back(0);
      arity.push_back(n);
    }
    if (pos >= fresh_from)
      ++transitions; /* an edge of the decision tree not walked before */
    ++pos;
    if (shared) {
      if (pos <= 1000)
        shared->choice[pos - 1] = c;
      shared->n = (std::int32_t)pos;
    }
    if (verbose)
      log("  choose %-24s %d of %d", label, c, n);
    if (shards > 1 && !replaying && pos == shard_depth) {
      std::uint64_t h = 1;
      for (std::size_t i = 0; i < pos; i++)
        h = mix(h, (std::uint64_t)path[i] + 1);
      if ((int)(h % (std::uint64_t)shards) != shard)
        throw SkipShard{};
    }
    return c;
  }
  bool flag(const char *label = "") { return choose(2, label) != 0; }
  template <typename T> T pick(const std::vector<T> &v, const char *label = "") {
    return v[(std::size_t)choose((int)v.size(), label)];
  }

  /** record a (reference-model) state */
  void state(std::uint64_t h) {
    if (npending < 512) /* no allocation while a trace runs */
      pending[npending++] = mix(h, (std::uint64_t)scen);
  }
  void flush_states() {
    for (std::size_t i = 0; i < npending; i++)
      states.insert(pending[i]);
    npending = 0;
  }
  /** an elementary comparison of implementation and reference was made */
  void checked(std::uint64_t n = 1) { comparisons += n; }
  void prune() { throw Prune{}; }

  [[noreturn]] void fail(const std::string &key, const char *fmt, ...)
      __attribute__((format(printf, 3, 4))) {
    char buf[2048];
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    throw Violation{key, buf};
  }
  void log(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
    if (!verbose && !sampling)
      return;
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (verbose) {
      std::printf("%s\n", buf);
      std::fflush(stdout);
    } else if (sample.size() < 1500) {
      sample += buf;
      sample += "; ";
    }
  }
  bool logging() const { return verbose || sampling; }
  /** progress mark inside of a long trace (for the hang watch) */
  void tick() {
    if (shared)
      ++shared->serial;
  }

  const char *tier = "quick";
  bool thorough() const { return !std::strcmp(tier, "thorough"); }
  std::string tmpdir;

  /* explorer */
  std::vector<int> path, arity;
  std::size_t pos = 0, fresh_from = 0;
  std::uint64_t transitions = 0, traces = 0, comparisons = 0, pruned = 0;
  std::unordered_set<std::uint64_t> states;
  std::uint64_t pending[512];
  std::size_t npending = 0;
  bool replaying = false, verbose = false, sampling = false;
  std::string sample;
  int shard = 0, shards = 1, scen = 0;
  std::size_t shard_depth = 1;
  Shared *shared = nullptr;
};

inline std::size_t live_bytes() {
#if MC_HAVE_ASAN
  return __sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}

struct Scenario {
  std::string name;
  std::function<void(Ctx &)> body;
  /* number of leading decisions used to split the work */
  std::size_t shard_depth = 1;
};

namespace detail {
inline volatile std::uint64_t last_serial = 0;
inline volatile int stuck = 0;
inline int limit_s = 60;
inline Shared *sh = nullptr;
inline void on_alarm(int) {
  if (!sh)
    return;
  if (sh->serial == last_serial) {
    if (++stuck >= limit_s) {
      const char m[] = "mc: HANG: no progress within the time limit\n";
      if (write(2, m, sizeof(m) - 1)) {
      }
      _exit(97);
    }
  } else {
    last_serial = sh->serial;
    stuck = 0;
  }
}
inline std::string jesc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += (char)c;
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += (char)c;
  }
  return r;
}
} /* namespace detail */

/** every sequence of evaluations in which each of the inputs has one of two
 *  values: what is kept of an input must not serve for another one */
template <class F> inline void inputs(Ctx &c, int n, F &&call, bool few = false) {
  const int depth = c.thorough() && n <= 5 ? 3 : 2;
  std::uint64_t h = 0;
  for (int k = 0; k < depth; k++) {
    /* few: the first has all values of one kind; any inputs change then */
    const int b = few && !k ? c.choose(2, "inputs") * ((1 << n) - 1) : c.choose(1 << n, "inputs");
    call(b);
    h = mix(h, (std::uint64_t)b + 1);
  }
  c.state(h);
}

/** an evaluation, one for which a single input is another one (by little or
 *  much), and the first one again: nearly the same is not the same */
template <class F> inline void neighbours(Ctx &c, const std::vector<double> &base, F &&call) {
  static const double D[] = {1e-13, 1e-10, 1e-8, 1e-6, 1e-4, 1e-2, -1e-5};
  std::vector<double> x = base;
  const int i = c.choose((int)base.size(), "input"), k = c.choose(9, "change");
  double &y = x[(std::size_t)i];
  if (k < 7)
    y = y ? y * (1 + D[k]) : D[k];
  else if (k == 7)
    y = -y;
  else
    y = 0;
  call(base);
  call(x);
  call(base);
  c.state(mix((std::uint64_t)i, (std::uint64_t)k + 77));
}

/** harness entry point; see check.py for the protocol */
inline int run(int argc, char **argv, const std::vector<Scenario> &scs) {
  std::string out, shared_fn, replay_fn, states_fn;
  std::set<std::string> known;
  Ctx c;
  c.path.reserve(4096);
  c.arity.reserve(4096);
  c.sample.reserve(8192);
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(argv[++i]); };
    if (a == "--tier")
      c.tier = argv[++i];
    else if (a == "--out")
      out = next();
    else if (a == "--shared")
      shared_fn = next();
    else if (a == "--states")
      states_fn = next();
    else if (a == "--replay")
      replay_fn = next();
    else if (a == "--tmp")
      c.tmpdir = next();
    else if (a == "--known")
      known.insert(next());
    else if (a == "--shard")
      std::sscanf(argv[++i], "%d/%d", &c.shard, &c.shards);
    else if (a == "--list") {
      for (const auto &sc : scs)
        std::printf("%s\n", sc.name.c_str());
      return 0;
    } else if (a == "--hang")
      detail::limit_s = std::atoi(argv[++i]);
  }
  static Shared local;
  c.shared = &local;
  if (!shared_fn.empty()) {
    int fd = open(shared_fn.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd >= 0 && !ftruncate(fd, sizeof(Shared))) {
      void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                     MAP_SHARED, fd, 0);
      if (p != MAP_FAILED)
        c.shared = (Shared *)p;
    }
  }
  detail::sh = c.shared;
  struct rlimit nocore = {0, 0};
  setrlimit(RLIMIT_CORE, &nocore);
  signal(SIGALRM, detail::on_alarm);
  struct itimerval it = {{1, 0}, {1, 0}};
  setitimer(ITIMER_REAL, &it, nullptr);

  if (!replay_fn.empty()) {
    FILE *f = std::fopen(replay_fn.c_str(), "r");
    if (!f)
      return 96;
    char line[65536], name[512];
    std::string want;
    /* the last line of choices is the trace that failed; those before, if
     * any, are the traces it needs before it in the same process */
    std::vector<std::vector<int>> history;
    while (std::fgets(line, sizeof line, f)) {
      if (std::sscanf(line, "scenario %511[^\n]", name) == 1)
        want = name;
      if (!std::strncmp(line, "choices", 7)) {
        char *p = line + 7;
        c.path.clear();
        for (char *tok = std::strtok(p, " \n"); tok;
             tok = std::strtok(nullptr, " \n"))
          c.path.push_back(std::atoi(tok));
        history.push_back(std::vector<int>(c.path.begin(), c.path.end()));
      } else if (!std::strncmp(line, "---", 3))
        break;
    }
    std::fclose(f);
    for (std::size_t s = 0; s < scs.size(); s++)
      if (scs[s].name == want) {
        c.replaying = true;
        c.scen = (int)s;
        std::printf("scenario %s\n", want.c_str());
        for (std::size_t h = 0; h + 1 < history.size(); h++) {
          c.path.assign(history[h].begin(), history[h].end());
          c.pos = 0;
          try {
            scs[s].body(c);
          } catch (Violation &) {
          } catch (Prune &) {
          }
        }
        if (history.size() > 1)
          std::printf("(after %zu traces)\n", history.size() - 1);
        if (!history.empty())
          c.path.assign(history.back().begin(), history.back().end());
        c.pos = 0;
        c.verbose = true;
        try {
          scs[s].body(c);
        } catch (Violation &v) {
          std::printf("VIOLATED key=%s: %s\n", v.key.c_str(), v.msg.c_str());
          return 1;
        } catch (Prune &) {
          std::printf("(pruned)\n");
        }
        std::printf("trace holds\n");
        return 0;
      }
    std::printf("no scenario '%s'\n", want.c_str());
    return 96;
  }

  /* the library reports errors on stderr; sanitizers use their log_path */
  if (!std::getenv("MC_VERBOSE")) {
    int fd = open("/dev/null", O_WRONLY);
    if (fd >= 0)
      dup2(fd, 2);
  }
  std::map<std::string, std::pair<std::uint64_t, std::string>> known_seen;
  std::string vjson, per;
  std::vector<std::string> samples;
  bool violated = false;
  for (std::size_t s = 0; s < scs.size() && !violated; s++) {
    c.scen = (int)s;
    c.shard_depth = scs[s].shard_depth;
    c.path.clear();
    c.arity.clear();
    c.fresh_from = 0;
    c.shared->scenario = (std::int32_t)s;
    const auto tr0 = c.traces, tn0 = c.transitions;
    std::uint64_t nth = 0;
    std::deque<std::vector<int>> before_it;
    for (;;) {
      c.pos = 0;
      ++c.shared->serial;
      c.shared->n = 0;
      c.sampling = (nth == 0 || nth == 1000) && samples.size() < 12;
      c.sample.clear();
      bool skipped = false;
      try {
        const auto before = c.transitions;
        try {
          scs[s].body(c);
          ++c.traces;
          ++nth;
          if (c.sampling) {
            std::string t = scs[s].name + ":";
            for (std::size_t i = 0; i < c.pos && i < 40; i++)
              t += " " + std::to_string(c.path[i]);
            if (!c.sample.empty())
              t += " | " + c.sample;
            samples.push_back(t);
          }
        } catch (Prune &) {
          ++c.pruned;
        } catch (SkipShard &) {
          skipped = true;
          c.transitions = before;
        }
      } catch (Violation &v) {
        if (known.count(v.key)) {
          auto &k = known_seen[v.key];
          ++k.first;
          if (k.second.empty())
            k.second = v.msg;
        } else {
          violated = true;
          vjson = "{\"scenario\":\"" + detail::jesc(scs[s].name) +
                  "\",\"key\":\"" + detail::jesc(v.key) + "\",\"msg\":\"" +
                  detail::jesc(v.msg) + "\",\"choices\":[";
          for (std::size_t i = 0; i < c.pos && i < c.path.size(); i++)
            vjson += (i ? "," : "") + std::to_string(c.path[i]);
          vjson += "],\"before\":[";
          for (std::size_t h = 0; h < before_it.size(); h++) {
            vjson += h ? ",[" : "[";
            for (std::size_t i = 0; i < before_it[h].size(); i++)
              vjson += (i ? "," : "") + std::to_string(before_it[h][i]);
            vjson += "]";
          }
          vjson += "]}";
          break;
        }
      }
      if (skipped)
        c.npending = 0;
      else { /* remember the last traces */
        before_it.emplace_back(c.path.begin(), c.path.begin() + c.pos);
        if (before_it.size() > 64)
          before_it.pop_front();
      }
      c.flush_states();
      /* next path */
      c.path.resize(c.pos);
      c.arity.resize(c.pos);
      while (!c.path.empty() && c.path.back() + 1 >= c.arity.back()) {
        c.path.pop_back();
        c.arity.pop_back();
      }
      if (c.path.empty())
        break;
      ++c.path.back();
      c.fresh_from = c.path.size() - 1;
    }
    per += (per.empty() ? "" : ",") + ("{\"name\":\"" + detail::jesc(scs[s].name)) +
           "\",\"traces\":" + std::to_string(c.traces - tr0) +
           ",\"transitions\":" + std::to_string(c.transitions - tn0) + "}";
  }
  if (!states_fn.empty()) {
    FILE *f = std::fopen(states_fn.c_str(), "wb");
    if (f) {
      for (auto h : c.states)
        std::fwrite(&h, 8, 1, f);
      std::fclose(f);
    }
  }
  FILE *f = out.empty() ? stdout : std::fopen(out.c_str(), "w");
  if (!f)
    return 96;
  std::fprintf(f,
               "{\"traces\":%llu,\"transitions\":%llu,\"comparisons\":%llu,"
               "\"pruned\":%llu,\"scenarios\":[%s],\"samples\":[",
               (unsigned long long)c.traces, (unsigned long long)c.transitions,
               (unsigned long long)c.comparisons, (unsigned long long)c.pruned,
               per.c_str());
  for (std::size_t i = 0; i < samples.size(); i++)
    std::fprintf(f, "%s\"%s\"", i ? "," : "", detail::jesc(samples[i]).c_str());
  std::fprintf(f, "],\"known\":{");
  bool first = true;
  for (auto &k : known_seen) {
    std::fprintf(f, "%s\"%s\":[%llu,\"%s\"]", first ? "" : ",",
                 detail::jesc(k.first).c_str(),
                 (unsigned long long)k.second.first,
                 detail::jesc(k.second.second).c_str());
    first = false;
  }
  std::fprintf(f, "},\"violation\":%s}\n", violated ? vjson.c_str() : "null");
  if (f != stdout)
    std::fclose(f);
  return violated ? 1 : 0;
}

/* ---- helpers for oracles ------------------------------------------------ */
inline bool same_bits_or_nan(double a, double b) {
  return (std::isnan(a) && std::isnan(b)) || a == b;
}
/** |a-b| <= abs + rel*max(|a|,|b|), false when any is not finite */
inline bool close(double a, double b, double rel, double abs = 0e0) {
  if (!std::isfinite(a) || !std::isfinite(b))
    return false;
  return std::fabs(a - b) <= abs + rel * std::fmax(std::fabs(a), std::fabs(b));
}

} /* namespace mc */
#endif
