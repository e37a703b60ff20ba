#include "spice_mock.hpp"
/* names that are prefixes and suffixes of each other; two that differ only far into a long path */
static const std::vector<std::string> &names() {
  static std::vector<std::string> v;
  if (v.empty()) {
    const std::string d(180, 'd');
    v = {"de440.bsp", "de440.bs", "de440.bsp.old", "/" + d + "/de440.bsp", "/" + d + "/de421.bsp", "x/de440.bsp"};
  }
  return v;
}
static void check(mc::Ctx &c, const std::vector<std::string> &want, std::size_t calls) {
  if (!SP.wrong.empty())
    c.fail("misuse", "%s", SP.wrong.c_str());
  if (SP.furnished.size() != calls)
    c.fail("loads", "%zu kernels loaded instead of %zu", SP.furnished.size(), calls);
  if (SP.pool != want)
    c.fail("pool", "the pool of kernels is not as it should be after %zu loads", calls);
  c.checked(3);
}
static void history(mc::Ctx &c) {
  SP = Spice();
  std::vector<std::string> want;
  std::size_t calls = 0;
  const int n = c.thorough() ? 6 : 5;
  for (int i = 0; i < n; i++) {
    const int op = c.choose(15, "operation");
    if (op == 14)
      return;
    if (op >= 12) { /* someone else unloads the first or the last */
      if (want.empty())
        return;
      const auto at = op == 12 ? 0 : want.size() - 1;
      want.erase(want.begin() + at);
      SP.pool.erase(SP.pool.begin() + at);
      continue;
    }
    const std::string &k = names()[op % 6];
    c.log("%s", k.c_str());
    const bool there = std::find(want.begin(), want.end(), k) != want.end();
    if (!there) {
      want.push_back(k);
      ++calls;
    }
    double s = 0, m = 0;
    int rc;
    if (op < 6)
      rc = dso::load_spice_kernel(k.c_str());
    else {
      const int si = std::vector<int>{0, 1, 0, 2, 0, -1}[(std::size_t)i % 6];
      rc = dso::sun_moon_gm(s, m, si, k.c_str());
      const double z = want.back().size(), f = si ? 1e9 : 1;
      if (!(std::fabs(s - f * (132712440041.93938 + z)) <= 1e-15 * s && std::fabs(m - f * (4902.800066 + z)) <= 1e-15 * m))
        c.fail("constants", "GM %.15g and %.15g", s, m);
    }
    if (rc)
      c.fail("refused", "%d", rc);
    check(c, want, calls);
    std::uint64_t h = 7;
    for (auto &w : want)
      h = mc::mix(h, std::hash<std::string>()(w));
    c.state(h);
  }
}
/* many kernels; each asked for again; paths of every length */
static void many(mc::Ctx &c) {
  SP = Spice();
  const int n = c.choose(c.thorough() ? 200 : 60, "kernels");
  std::vector<std::string> want;
  for (int i = 0; i < n; i++) {
    want.push_back("/" + std::string(i, 'p') + std::to_string(i));
    dso::load_spice_kernel(want.back().c_str());
  }
  for (int i = n; i--;)
    dso::load_spice_kernel(want[i].c_str());
  check(c, want, n);
  if (n) {
    double s, m;
    dso::sun_moon_gm(s, m, c.flag("SI"));
    check(c, want, n);
  }
  c.state((std::uint64_t)n);
}
static void length(mc::Ctx &c) {
  SP = Spice();
  const int n = 1 + c.choose(255, "length");
  const std::string a = std::string(n - 1, 'a') + "1", b = std::string(n - 1, 'a') + "2";
  std::vector<std::string> want = {a, b};
  for (auto &k : {a, b, a, b})
    dso::cspice::load_if_unloaded(k.c_str());
  check(c, want, 2);
  c.state((std::uint64_t)n);
}
int main(int a, char **b) { return mc::run(a, b, {{"history", history, 2}, {"many", many, 1}, {"length", length, 1}}); }
