/* Compensated summation against exact sums. */
#include "kahan.hpp"
#include "mc.hpp"
#include <cfloat>
typedef __int128 i128;

/* every value is a multiple of 2^-60 below 2^61 in magnitude: the sum of a
 * short sequence is exact in 128 bits */
static i128 exact(double v) {
  int e;
  const double f = std::frexp(v, &e); /* v = f 2^e */
  const i128 m = (i128)std::ldexp(f, 53);
  const int sh = e - 53 + 60;
  return sh >= 0 ? m * ((i128)1 << sh) : m / ((i128)1 << -sh);
}
static long double to_ld(i128 v) { return ldexpl((long double)v, -60); }

static const std::vector<double> VALUES = {
    1e0,
    -1e0,
    0x1p-53,
    -0x1p-53,
    0x1p53,
    -0x1p53,
    0x1p60,
    -0x1p60,
    0x1p-60,
    1e0 + 0x1p-52,
    0e0,
    0x1.8p-54,
    -0x1.fffffffffffffp59,
    0x1.3333333333333p-3,
    -0x1.3333333333333p20,
    -0e0};

struct Track {
  i128 sum = 0;
  long double abs = 0;
  int n = 0;
  void add(double v) {
    sum += exact(v);
    abs += fabsl((long double)v);
    ++n;
  }
};
static void judge(mc::Ctx &c, const dso::KahanSum &s, const Track &t,
                  const char *who) {
  const double got = static_cast<double>(s);
  const long double want = to_ld(t.sum);
  const long double eps = 0x1p-53L;
  const long double tol = 2 * eps * fabsl(want) +
                          4.L * (t.n + 1) * (t.n + 1) * eps * eps * t.abs;
  c.checked();
  if (!(fabsl(got - want) <= tol))
    c.fail("sum", "%s: %d terms sum to %.17g and not %.20Lg (tolerance %.2Lg)",
           who, t.n, got, want, tol);
}
/* every sequence up to the depth, every prefix read off */
static void sums(mc::Ctx &c) {
  const int depth = c.thorough() ? 6 : 4;
  Track t;
  const int start = c.choose((int)VALUES.size() + 1, "start");
  dso::KahanSum s = start ? dso::KahanSum(VALUES[start - 1]) : dso::KahanSum();
  if (start)
    t.add(VALUES[start - 1]);
  const bool reads = c.flag("read every prefix");
  for (int i = 0; i < depth; i++) {
    const int k = c.choose((int)VALUES.size() + 1, "term");
    if (k == 0)
      break;
    dso::KahanSum &r = (s += VALUES[k - 1]);
    t.add(VALUES[k - 1]);
    if (&r != &s)
      c.fail("ret", "+= does not return the sum");
    if (reads)
      judge(c, s, t, "prefix");
    c.state(mc::mix((std::uint64_t)t.sum, (std::uint64_t)(t.sum >> 64)));
  }
  judge(c, s, t, "sum");
}
/* copies carry the compensation, and are independent */
static void copies(mc::Ctx &c) {
  const int depth = c.thorough() ? 6 : 5;
  static const std::vector<double> few = {1e0, 0x1p60, -0x1p60, 0x1p-53,
                                          0x1.3333333333333p-3};
  dso::KahanSum s[2];
  Track t[2];
  for (int i = 0; i < depth; i++) {
    const int op = c.choose(2 * (int)few.size() + 5, "operation");
    if (op == 0)
      break;
    if (op <= 2 * (int)few.size()) {
      const int w = (op - 1) % 2;
      s[w] += few[(op - 1) / 2];
      t[w].add(few[(op - 1) / 2]);
    } else {
      switch (op - 2 * (int)few.size()) {
      case 1:
        s[0] = s[1];
        t[0] = t[1];
        break;
      case 2:
        s[1] = dso::KahanSum(s[0]);
        t[1] = t[0];
        break;
      case 3: { /* a finished sum is the start of another */
        s[1] = dso::KahanSum(0x1p53);
        t[1] = Track();
        t[1].add(0x1p53);
        break;
      }
      case 4: /* adding an intermediate result */
        s[0] += 0x1p53;
        t[0].add(0x1p53);
        break;
      }
    }
    judge(c, s[0], t[0], "first");
    judge(c, s[1], t[1], "second");
  }
}
/* long histories of two alternating magnitudes */
static void lengthy(mc::Ctx &c) {
  const double a = c.pick(VALUES, "a"), b = c.pick(VALUES, "b"),
               d = c.pick(VALUES, "c");
  static const int len[] = {10, 100, 1000, 3333};
  const int n = len[c.choose(c.thorough() ? 4 : 3, "length")];
  if (std::fabs(a) > 0x1p53 || std::fabs(b) > 0x1p53 || std::fabs(d) > 0x1p53)
    c.prune(); /* keep the exact sum within 128 bits */
  dso::KahanSum s;
  Track t;
  for (int i = 0; i < n; i++) {
    const double v = i % 3 == 0 ? a : i % 3 == 1 ? b : d;
    s += v;
    t.add(v);
  }
  judge(c, s, t, "long sum");
}
int main(int argc, char **argv) {
  return mc::run(argc, argv,
                 {{"sums", sums, 3}, {"copies", copies, 2}, {"long", lengthy, 2}});
}
