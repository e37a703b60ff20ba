/* Stopwatch: every sequence of operations under a controlled system clock. */
#include "clock.hpp"
#include "mc.hpp"

static long long now_ns = 0;
/* the time the code under test sees */
namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  return system_clock::time_point(system_clock::duration(now_ns));
}
steady_clock::time_point steady_clock::now() noexcept {
  return steady_clock::time_point(steady_clock::duration(now_ns));
}
} // namespace _V2
} // namespace chrono
} // namespace std

struct Ref {
  long long start = 0, total = 0;
  int n = 0;
  std::string name;
  bool started = false;
};
static void judge(mc::Ctx &c, const Clock &k, const Ref &r, const char *who) {
  using namespace std::chrono;
  if (k.get_total_duration<nanoseconds>().count() != r.total)
    c.fail("total", "%s: total is %lld ns and not %lld", who,
           (long long)k.get_total_duration<nanoseconds>().count(), r.total);
  if (k.get_total_duration().count() != r.total / 1000)
    c.fail("total", "%s: total is %lld us and not %lld", who,
           (long long)k.get_total_duration().count(), r.total / 1000);
  if (k.get_total_duration<seconds>().count() != r.total / 1000000000)
    c.fail("total", "%s: total is %lld s", who,
           (long long)k.get_total_duration<seconds>().count());
  if (r.name != k.name())
    c.fail("name", "%s: name is '%s' and not '%s'", who, k.name(),
           r.name.c_str());
  if (r.n) {
    const double us = r.total * 1e-3 / r.n;
    if (!(std::fabs(k.average_running_time() - us) <= 1e-12 * us))
      c.fail("average", "%s: average of %lld ns over %d samples is %.15g us",
             who, r.total, r.n, k.average_running_time());
    if (!(std::fabs(k.average_running_time<seconds>() - us * 1e-6) <=
          1e-12 * us))
      c.fail("average", "%s: average of %lld ns over %d samples is %.15g s",
             who, r.total, r.n, k.average_running_time<seconds>());
  } else {
    (void)k.average_running_time(); /* must not fail */
  }
  if (r.started && k.get_elapsed_time() != nanoseconds(now_ns - r.start))
    c.fail("elapsed", "%s: elapsed time is %lld ns", who,
           (long long)nanoseconds(k.get_elapsed_time()).count());
  c.checked(7);
}
static void clocks(mc::Ctx &c) {
  const int depth = c.thorough() ? 7 : 5;
  now_ns = 1700000000000000000LL;
  Clock k[2] = {Clock("alpha"), Clock("beta")};
  Ref r[2];
  r[0].name = "alpha";
  r[1].name = "beta";
  /* the longest one overflows 32 bits of microseconds */
  static const long long steps[] = {1, 1500, 2500000, 7200000000003LL};
  for (int i = 0; i < depth; i++) {
    const int op = c.choose(13, "operation");
    const int w = op & 1;
    if (op == 12)
      break;
    if (op < 2) {
      k[w].start();
      r[w].start = now_ns;
      r[w].started = true;
    } else if (op < 4) {
      if (!r[w].started)
        c.prune(); /* stopping a watch that never ran */
      k[w].stop();
      r[w].total += now_ns - r[w].start;
      ++r[w].n;
    } else if (op < 8) {
      now_ns += steps[op - 4];
    } else if (op < 10) {
      k[w] = k[1 - w];
      r[w] = r[1 - w];
    } else if (op == 10) {
      Clock x(k[0]); /* copy, then move back */
      judge(c, x, r[0], "copy");
      x.start_time = x.start_time;
      k[1] = Clock(std::move(x));
      r[1] = r[0];
    } else {
      k[0] = k[0];
    }
    judge(c, k[0], r[0], "first");
    judge(c, k[1], r[1], "second");
    if (r[0].n && r[1].n) {
      /* exact comparison of averages by cross multiplication */
      const __int128 a = (__int128)r[0].total * r[1].n,
                     b = (__int128)r[1].total * r[0].n;
      if (k[0].is_faster(k[1]) && !(a < b))
        c.fail("faster", "%lld/%d ns is faster than %lld/%d ns", r[0].total,
               r[0].n, r[1].total, r[1].n);
      if (!k[0].is_faster(k[1]) && a < b &&
          (double)(b - a) > 1e-12 * (double)b)
        c.fail("faster", "%lld/%d ns is not faster than %lld/%d ns", r[0].total,
               r[0].n, r[1].total, r[1].n);
      c.checked(2);
    } else
      (void)k[0].is_faster(k[1]);
    c.state(mc::mix(mc::mix((std::uint64_t)r[0].total, (unsigned)r[0].n),
                    mc::mix((std::uint64_t)r[1].total, (unsigned)r[1].n)));
  }
}
/* names of every length, kept up to the room there is */
static void names(mc::Ctx &c) {
  const int len = c.choose(64, "length");
  const std::string s = std::string("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQ"
                                    "RSTUVWXYZ0123456789abcdef").substr(0, len);
  Clock *k = new Clock(s.c_str());
  Clock *d = c.flag("copied") ? new Clock(*k) : new Clock(std::move(*k));
  Clock e("x");
  e = *d;
  const std::string got = e.name();
  if (s.compare(0, got.size(), got) || got.size() < std::min<std::size_t>(len, 23))
    c.fail("name", "'%s' is reported as '%s'", s.c_str(), got.c_str());
  if (len <= 23 && (d->name() != s))
    c.fail("name", "'%s' is reported as '%s'", s.c_str(), d->name());
  if (d->msamples != 0 || d->total_duration.count() != 0)
    c.fail("name", "the name overwrote the counters");
  c.checked(3);
  delete k;
  delete d;
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, {{"clocks", clocks, 2}, {"names", names, 1}});
}
