/* Damaged data of AOD1B files, read by the iterator. */
#include "aod_ref.hpp"

typedef dso::Aod1bDataBlockIterator<AOD1BCoefficientType::OCN> It;
static File good() {
  File f;
  f.degree = 1;
  for (int i = 0; i < 3; i++) {
    f.blocks.push_back({0, Gps{i * 10800L}, i + 10});
    f.blocks.push_back({1, Gps{i * 10800L}, i});
  }
  return f;
}
/* walk; blocks before the damage are right. Returns the number of blocks read
 * without an error, and how the walk ended */
static int walk(mc::Ctx &c, const std::string &fn, int sound, int &end, bool skip) {
  dso::Aod1bIn a(fn.c_str());
  It it(a);
  int n = 0;
  try {
    it.set_begin();
  } catch (std::runtime_error &) {
    end = 1;
    if (sound)
      c.fail("begin", "the first block is sound, but there is no begin");
    return 0;
  }
  for (;;) {
    StokesCoeffs cs(1, 1, 1., 1.);
    const When ep = it.header().mepoch;
    if (skip)
      it.skip();
    else if (it.collect(cs)) {
      end = 2;
      break;
    }
    if (n < sound) {
      if (!(ep == Gps{n * 10800L}.tt()))
        c.fail("epoch", "block %d is sound, its epoch is MJD %.9f", n, ep.fmjd());
      if (!skip)
        same(c, cs, n, 1, 1, "sound block");
    }
    ++n;
    const int e = it.advance();
    if (e) {
      end = e < 0 ? -1 : 3;
      break;
    }
    if (n > 50)
      c.fail("endless", "more blocks than the file can have");
  }
  if (n < sound)
    c.fail("lost", "%d blocks of %d sound ones were read", n, sound);
  c.checked();
  return n;
}
static void lines(mc::Ctx &c) {
  const File f = good();
  std::string t = file_header(f);
  std::vector<std::string> v;
  std::vector<int> owner; /* the block a line belongs to */
  for (std::size_t i = 0; i < f.blocks.size(); i++) {
    std::string b = block_text(f, i);
    for (std::size_t p = 0; p < b.size();) {
      const std::size_t q = b.find('\n', p) + 1;
      v.push_back(b.substr(p, q - p));
      owner.push_back((int)i);
      p = q;
    }
  }
  const int at = c.choose((int)v.size(), "line");
  std::string &s = v[(std::size_t)at];
  const bool hdr = at % 4 == 0;
  const std::string orig = s;
  const int kind = c.choose(6, "damage");
  bool sure = true; /* that it is noticed when all is collected */
  if (kind == 0) { /* cut short */
    const int k = c.choose((int)s.size() - 1, "length");
    s = s.substr(0, (std::size_t)k) + "\n";
    if (!hdr && (std::size_t)k > orig.rfind(' ') + 1)
      sure = false;
  } else if (kind == 1) {
    static const char *h[] = {"DATA SET xx: 3 COEFFICIENTS FOR 2008-07-03 00:00:00 OF TYPE ocn\n",
                              "DATA SET 01: x COEFFICIENTS FOR 2008-07-03 00:00:00 OF TYPE ocn\n",
                              "DATA SET 01: -3 COEFFICIENTS FOR 2008-07-03 00:00:00 OF TYPE ocn\n",
                              "DATA SET 01: 3 COEFFICIENTS OF TYPE ocn\n",
                              "DATA SET 01: 3 COEFFICIENTS FOR 2008-13-03 00:00:00 OF TYPE ocn\n",
                              "DATA SET 01: 3 COEFFICIENTS FOR 2008-02-30 00:00:00 OF TYPE ocn\n",
                              "DATA SET 01: 3 COEFFICIENTS FOR 2008-07-03 OF TYPE ocn\n",
                              "DATA SET 01: 3 COEFFICIENTS FOR 2008-07-03 00:00:00 OF TYPE xyz\n",
                              "DATA SET 01: 3 COEFFICIENTS FOR 2008-07-03 00:00:00 OF\n",
                              "DATA SET 01: 3 COEFFICIENTS FOR 2008-07-03 00:00:00\n",
                              "DATA SET 01:\n", "DATA SET\n", "\n", "data set 01: 3 COEFFICIENTS FOR 2008-07-03 00:00:00 OF TYPE ocn\n",
                              "DATA SET 99999999999: 3 COEFFICIENTS FOR 2008-07-03 00:00:00 OF TYPE ocn\n",
                              "DATA SET 01: 99999999999 COEFFICIENTS FOR 2008-07-03 00:00:00 OF TYPE ocn\n"};
    static const char *d[] = {"-1 0 1 1\n", "1 -1 1 1\n", "0 1 1 1\n", "-9999 -9999 1 1\n", "1 2 1 1\n", "x 0 1 1\n", "0 x 1 1\n",
                              "0 0 x 1\n", "0 0 1 x\n", "0 0 1\n", "0 0\n", "0\n", "\n", "99999999999 0 1 1\n", "1 99999999999 1 1\n", "0 0 - -\n"};
    const int k = c.choose(16, "line");
    s = hdr ? h[k] : d[k];
  } else if (kind == 2) { /* longer than supported */
    s.insert(s.size() - 1, std::string((std::size_t)(124 + 100 * c.choose(2, "length")), ' '));
  } else if (kind == 3) { /* missing */
    s.clear();
  } else if (kind == 4) { /* twice */
    s += s;
  } else { /* any byte */
    s[(std::size_t)c.choose((int)s.size(), "place")] = "\n x-9\0.e\xff"[c.choose(9, "with")];
    sure = false;
  }
  for (auto &x : v)
    t += x;
  const std::string fn = write_file(c, t);
  const int b = owner[(std::size_t)at];
  /* sound: the blocks of type ocn wholly before the damaged one */
  const int sound = b / 2;
  int end = 0;
  walk(c, fn, sound, end, false);
  const bool mine = b % 2 == 1;
  /* in blocks of the other type, only the structure counts */
  if (sure && (mine || hdr || kind == 2 || kind == 3 || kind == 4) && end == -1)
    c.fail("unnoticed", "damage %d of line %d [%.150s] was not noticed", kind, at, s.c_str());
  walk(c, fn, 0, end, true);
  c.state(mc::mix((std::uint64_t)(kind * 64 + at), (std::uint64_t)end));
}
static void cut(mc::Ctx &c) {
  const File f = good();
  const std::string t = file_text(f);
  const std::size_t from = t.find("END OF HEADER") + 14;
  const std::size_t at = from + (std::size_t)c.choose((int)(t.size() - from), "length");
  const std::string fn = write_file(c, t.substr(0, at));
  int whole = 0;
  bool lacking = false; /* a block that has begun misses its last line */
  std::size_t p = from;
  for (std::size_t i = 0; i < f.blocks.size(); i++) {
    const std::string b = block_text(f, i);
    if (at > p && at <= p + b.rfind('\n', b.size() - 2) + 1)
      lacking = true;
    p += b.size();
    if (at >= p - 1 && f.blocks[i].type == 1)
      ++whole;
  }
  int end = 0;
  const int n = walk(c, fn, whole, end, false);
  if (lacking && end == -1)
    c.fail("unnoticed", "cut after %zu bytes of %zu, which was not noticed", at, t.size());
  /* a block may only be taken for complete when its last number has begun */
  if (n > whole + 1)
    c.fail("invented", "%d blocks read of %d", n, whole);
  c.state(at);
}
/* the file vanishes before, or while, it is read */
static void vanished(mc::Ctx &c) {
  const File f = good();
  const std::string fn = write_file(c, file_text(f));
  dso::Aod1bIn a(fn.c_str());
  const int how = c.choose(3, "how");
  if (how == 0)
    std::remove(fn.c_str());
  else
    write_file(c, how == 1 ? "" : file_header(f));
  It it(a);
  bool thrown = false;
  try {
    it.set_begin();
  } catch (std::runtime_error &) {
    thrown = true;
  }
  if (!thrown)
    c.fail("accepted", "blocks of a file that vanished");
  StokesCoeffs cs(1, 1, 1., 1.);
  c.checked();
  c.state((std::uint64_t)how);
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, {{"lines", lines, 2}, {"cut", cut, 1}, {"vanished", vanished, 1}});
}
