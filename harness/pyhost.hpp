/* Runs the Python tools of the repository, through pyhost.py. */
#pragma once
#include "mc.hpp"
#include <algorithm>
#include <cstdlib>
#include <filesystem>
#include <map>
#include <fstream>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

struct Host {
  FILE *to = nullptr, *from = nullptr;
  pid_t owner = 0;
  static std::string env(const char *n, const char *d) {
    const char *e = std::getenv(n);
    return e && *e ? e : d;
  }
  static std::string tool(const char *name) {
    return env("VERIF_REPO", "/repo") + "/bin/" + name;
  }
  void start() {
    if (owner == getpid())
      return;
    int a[2], b[2];
    if (pipe(a) || pipe(b))
      std::_Exit(96);
    const pid_t pid = fork();
    if (!pid) {
      dup2(a[0], 0);
      dup2(b[1], 1);
      for (int fd = 3; fd < 64; fd++)
        close(fd);
      const std::string py = env("VERIF_DIR", "/verif") + "/harness/pyhost.py";
      execlp("python3", "python3", "-I", py.c_str(), (char *)nullptr);
      std::_Exit(96);
    }
    close(a[0]);
    close(b[1]);
    to = fdopen(a[1], "w");
    from = fdopen(b[0], "r");
    owner = getpid();
  }
  std::string line() {
    std::string r;
    for (int ch; (ch = std::fgetc(from)) != '\n';) {
      if (ch == EOF) {
        std::fprintf(stderr, "pyhost.py ended\n");
        std::_Exit(96);
      }
      r += (char)ch;
    }
    return r;
  }
  std::string ask(const std::vector<std::string> &f) {
    start();
    std::string t;
    for (std::size_t i = 0; i < f.size(); i++)
      t += (i ? "\x1f" : "") + f[i];
    t += "\n";
    std::fputs(t.c_str(), to);
    std::fflush(to);
    return line();
  }
};
static Host host;

struct Run {
  std::string status;
  int ops = 0;
  std::vector<std::string> fetched;
};
static std::vector<std::string> words(const std::string &s) {
  std::istringstream in(s);
  std::vector<std::string> r;
  for (std::string w; in >> w;)
    r.push_back(w);
  return r;
}
static Run run_tool(const char *tool, const std::string &cwd, const std::vector<std::string> &args,
                    const std::string &missing = "", const char *kind = "", int at = -1) {
  std::vector<std::string> f = {"run", Host::tool(tool), cwd, kind, std::to_string(at), missing};
  f.insert(f.end(), args.begin(), args.end());
  const std::string r = host.ask(f);
  const auto a = r.find('\x1f'), b = r.find('\x1f', a + 1);
  Run x;
  x.status = r.substr(0, a);
  x.ops = std::atoi(r.c_str() + a + 1);
  x.fetched = words(r.substr(b + 1));
  return x;
}
/* two runs, the order of their operations chosen by the explorer; no more
   than so many switches away from a run that could go on */
static std::pair<std::string, std::string> run_both(mc::Ctx &c, const std::string &cwd,
                                                    const std::vector<std::string> &one,
                                                    const std::vector<std::string> &two, int switches,
                                                    const std::string &missing = "") {
  std::vector<std::string> f = {"both", cwd, missing, std::to_string(one.size() - 1)};
  f.insert(f.end(), one.begin(), one.end());
  f.insert(f.end(), two.begin(), two.end());
  std::string r = host.ask(f);
  /* the path may be given up midway */
  struct Guard {
    std::string &r;
    ~Guard() {
      if (r[0] == '?') {
        std::fputs("-1\n", host.to);
        std::fflush(host.to);
        host.line();
      }
    }
  } guard{r};
  int last = -1;
  while (r[0] == '?') {
    const auto can = words(r.substr(1));
    int next;
    if (can.size() == 1)
      next = std::atoi(can[0].c_str());
    else if (last < 0)
      next = c.choose(2, "which run starts");
    else if (switches > 0 && c.flag("switch to the other run")) {
      next = 1 - last;
      switches--;
    } else
      next = last;
    last = next;
    std::fprintf(host.to, "%d\n", next);
    std::fflush(host.to);
    c.tick();
    r = host.line();
  }
  const auto w = words(r);
  return {w.at(0), w.at(1)};
}
static std::map<std::string, std::string> look(const std::string &dir) {
  std::map<std::string, std::string> m;
  const auto w = words(host.ask({"look", dir}));
  for (std::size_t i = 0; i + 1 < w.size(); i += 2)
    m[w[i]] = w[i + 1];
  return m;
}
static void fresh(const std::string &dir) {
  std::filesystem::remove_all(dir);
  std::filesystem::create_directories(dir);
}
static std::string slurp(const std::string &fn) {
  std::ifstream in(fn, std::ios::binary);
  std::stringstream s;
  s << in.rdbuf();
  return s.str();
}
