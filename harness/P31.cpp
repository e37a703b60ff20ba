/* Walking through the data blocks of an AOD1B file. */
#include "aod_ref.hpp"
#include <map>

template <AOD1BCoefficientType T>
static void walk_as(mc::Ctx &c, const File &f, const dso::Aod1bIn &aod, int rounds) {
  std::vector<std::size_t> mine;
  for (std::size_t i = 0; i < f.blocks.size(); i++)
    if (f.blocks[i].type == (int)T)
      mine.push_back(i);
  const int L = f.degree, N = (L + 1) * (L + 2) / 2;
  dso::Aod1bDataBlockIterator<T> it(aod);
  if (std::strcmp(it.fn(), aod.fn().c_str()) || &it.aod1b() != &aod)
    c.fail("file", "the iterator belongs to another file");
  for (int round = 0; round < rounds; round++) {
    bool thrown = false;
    try {
      it.set_begin();
    } catch (std::runtime_error &) {
      thrown = true;
    }
    if (thrown != mine.empty())
      c.fail("begin", "%s: %zu blocks of the type, yet the iterator %s", aod.fn().c_str(), mine.size(),
             thrown ? "has no begin" : "has one");
    if (thrown)
      return;
    for (std::size_t k = 0; k < mine.size(); k++) {
      const Block &b = f.blocks[mine[k]];
      const auto &h = it.header();
      if (h.mset_nr != (int)mine[k] + 1 || h.mnum_lines != N || !(h.mepoch == b.epoch.tt()) || (int)h.mtype != b.type)
        c.fail("header", "block %zu of the type: the header says set %d, %d lines, MJD %.9f, type %d; expected %d, %d, %.9f, %d",
               k, h.mset_nr, h.mnum_lines, h.mepoch.fmjd(), (int)h.mtype, (int)mine[k] + 1, N, b.epoch.tt().fmjd(), b.type);
      if (it.is_eof())
        c.fail("eof", "end of file at block %zu of %zu", k, mine.size());
      const int op = c.choose(round ? 1 : (L ? 3 : 2), "skip, collect, collect less");
      if (op == 1) {
        StokesCoeffs cs(L, L, 1., 1.);
        dirty(cs);
        if (it.collect(cs))
          c.fail("collect", "block %zu of %zu cannot be collected", k, mine.size());
        same(c, cs, b.id, L, L, "collected");
      } else if (op == 2) {
        StokesCoeffs cs(L + 1, L, 1., 1.);
        dirty(cs);
        if (it.collect(cs, L, L - 1))
          c.fail("collect", "block %zu of %zu cannot be collected", k, mine.size());
        same(c, cs, b.id, L, L - 1, "collected");
      } else
        it.skip();
      if (it.is_eof())
        c.fail("eof", "end of file within block %zu of %zu", k, mine.size());
      const int e = it.advance();
      if (k + 1 < mine.size() ? e != 0 : e >= 0)
        c.fail("advance", "after block %zu of %zu of the type, advancing returned %d", k, mine.size(), e);
      c.state(mc::mix((std::uint64_t)(k * 16 + mine.size()), (std::uint64_t)(op * 4 + (int)T)));
    }
    if (!it.is_eof())
      c.fail("eof", "the end of the file was not noticed");
    c.checked();
  }
}
static void walk_type(mc::Ctx &c, int type, const File &f, const dso::Aod1bIn &a, int rounds) {
  switch (type) {
  case 0: return walk_as<AOD1BCoefficientType::ATM>(c, f, a, rounds);
  case 1: return walk_as<AOD1BCoefficientType::OCN>(c, f, a, rounds);
  case 2: return walk_as<AOD1BCoefficientType::GLO>(c, f, a, rounds);
  default: return walk_as<AOD1BCoefficientType::OBA>(c, f, a, rounds);
  }
}
/* any sequence of blocks */
static void walk(mc::Ctx &c) {
  File f;
  const int type = c.choose(4, "type");
  const int n = c.choose(c.thorough() ? 6 : 5, "blocks");
  f.degree = n > 3 ? 1 : c.choose(3, "degree");
  for (int i = 0; i < n; i++)
    f.blocks.push_back({c.choose(4, "type of block"), Gps{i / 4 * 10800L + (i % 3) * 3600L}, i});
  const int k = c.choose(2, "writing");
  f.eol = !k || !n;
  f.style = k ? 3 : 0;
  f.nsets = k ? 2 : -1;
  const std::string fn = write_file(c, file_text(f));
  dso::Aod1bIn a(fn.c_str());
  walk_type(c, type, f, a, 2);
}
struct Fix {
  static void run(mc::Ctx &c, int type, const File &f, const dso::Aod1bIn &a, int how) {
    switch (type) {
    case 0: return as<AOD1BCoefficientType::ATM>(c, f, a, how);
    case 1: return as<AOD1BCoefficientType::OCN>(c, f, a, how);
    case 2: return as<AOD1BCoefficientType::GLO>(c, f, a, how);
    default: return as<AOD1BCoefficientType::OBA>(c, f, a, how);
    }
  }
  template <AOD1BCoefficientType T>
  static void as(mc::Ctx &c, const File &f, const dso::Aod1bIn &a, int how) {
    dso::Aod1bDataBlockIterator<T> it(a);
    it.set_begin();
    StokesCoeffs cs(f.degree, f.degree, 1., 1.);
    int k = 0, e = 0;
    for (const Block &b : f.blocks) {
      if (b.type != (int)T)
        continue;
      if (e)
        c.fail("advance", "before block %d advancing returned %d", k, e);
      if (!(it.header().mepoch == b.epoch.tt()) || it.header().mset_nr != (int)(&b - &f.blocks[0]) + 1)
        c.fail("header", "block %d is set %d of MJD %.9f instead of %d of %.9f", k, it.header().mset_nr,
               it.header().mepoch.fmjd(), (int)(&b - &f.blocks[0]) + 1, b.epoch.tt().fmjd());
      if ((k + how) % 3) {
        if (it.collect(cs))
          c.fail("collect", "block %d cannot be collected", k);
        same(c, cs, b.id, f.degree, f.degree, "collected");
      } else
        it.skip();
      e = it.advance();
      ++k;
    }
    if (e >= 0 || !it.is_eof())
      c.fail("eof", "after the last block, advancing returned %d", e);
    c.checked();
  }
};
/* a product as published: all types at each of the epochs of a day, or days */
static void product(mc::Ctx &c) {
  File f;
  const int days = 1 + c.choose(2, "days");
  f.degree = c.choose(3, "degree");
  f.style = c.choose(4, "style");
  f.order = c.choose(3, "order");
  f.eol = !c.flag("last line without end");
  const bool bytype = c.flag("by type");
  const int N = 8 * days;
  for (int i = 0; i < 4 * N; i++) {
    const int e = bytype ? i % N : i / 4, t = bytype ? i / N : i % 4;
    f.blocks.push_back({t, Gps{e * 10800L}, e * 4 + t});
  }
  const std::string fn = write_file(c, file_text(f));
  dso::Aod1bIn a(fn.c_str());
  const int type = c.choose(4, "type");
  /* what is skipped: none, all, every other; the walk decides per block only
   * in the scenario above */
  Fix::run(c, type, f, a, c.choose(3, "skipping"));
  c.state(mc::mix((std::uint64_t)(type * 4 + f.degree), (std::uint64_t)(f.style * 8 + f.order * 2 + bytype)));
}
/* what is asked for, and where to put it */
static void requests(mc::Ctx &c) {
  File f;
  f.degree = c.choose(5, "degree of file");
  f.order = c.choose(3, "order of lines");
  for (int i = 0; i < 2; i++)
    f.blocks.push_back({2, Gps{i * 10800L}, i});
  const std::string fn = write_file(c, file_text(f));
  dso::Aod1bIn a(fn.c_str());
  const int L = f.degree;
  const int wantl = c.choose(L + 3, "degree") - 1;
  const int wantm = c.choose(wantl < 0 ? L + 2 : wantl + 3, "order") - 1;
  const bool resize = c.flag("resizing");
  const int csl = c.choose(L + 2, "container's degree"), csm = c.choose(csl + 1, "container's order");
  StokesCoeffs cs(csl, csm, 3., 4.);
  dirty(cs);
  dso::Aod1bDataBlockIterator<AOD1BCoefficientType::GLO> it(a);
  it.set_begin();
  const int l = wantl < 0 ? L : wantl, m = wantm < 0 ? l : wantm;
  const bool ok = l <= L && m <= l && (resize || (l <= csl && m <= csm));
  const int e = it.collect(cs, wantl, wantm, resize);
  if ((e == 0) != ok)
    c.fail("request", "(%d,%d) of a file of degree %d into (%d,%d)%s returned %d", wantl, wantm, L, csl, csm,
           resize ? " with resizing" : "", e);
  if (ok) {
    if (cs.max_degree() != (resize ? l : csl) || cs.max_order() != (resize ? m : csm))
      c.fail("size", "(%d,%d) into (%d,%d)%s gave (%d,%d)", l, m, csl, csm, resize ? " with resizing" : "",
             cs.max_degree(), cs.max_order());
    same(c, cs, 0, l, m, "first block");
    /* and the next block is found */
    if (it.advance())
      c.fail("advance", "the second block was not found");
    StokesCoeffs c2(L, L, 1., 1.);
    if (it.collect(c2))
      c.fail("collect", "the second block cannot be collected");
    same(c, c2, 1, L, L, "second block");
  }
  c.checked();
  c.state(mc::mix((std::uint64_t)(wantl * 64 + wantm * 8 + resize), (std::uint64_t)(csl * 8 + csm)));
}
/* blocks with fewer coefficients than announced by the degree */
static void sparse(mc::Ctx &c) {
  File f;
  f.degree = 3;
  f.blocks.push_back({0, Gps{0}, 1});
  f.blocks.push_back({0, Gps{10800}, 2});
  std::string t = file_header(f);
  const auto lm = lm_of(3, 0);
  /* keep a subset of the coefficients of degree 2 and 3, in the first */
  std::vector<std::pair<int, int>> kept;
  for (std::size_t i = 0; i < lm.size(); i++)
    if (i < 4 || c.flag("keep"))
      kept.push_back(lm[i]);
  t += block_header(1, f.blocks[0], (int)kept.size());
  int ml = 0, mm = 0;
  for (auto &p : kept) {
    t += data_line(p.first, p.second, coef(1, p.first, p.second, false), coef(1, p.first, p.second, true), 0);
    ml = std::max(ml, p.first);
    mm = std::max(mm, p.second);
  }
  t += block_text(f, 1);
  const std::string fn = write_file(c, t);
  dso::Aod1bIn a(fn.c_str());
  const bool resize = c.flag("resizing");
  StokesCoeffs cs(3, 3, 1., 1.);
  dirty(cs);
  dso::Aod1bDataBlockIterator<AOD1BCoefficientType::ATM> it(a);
  it.set_begin();
  const int e = it.collect(cs, -1, -1, resize);
  const bool ok = resize || (ml == 3 && mm == 3);
  if ((e == 0) != ok)
    c.fail("request", "a block with coefficients up to (%d,%d) of (3,3) returned %d", ml, mm, e);
  if (ok) {
    if (cs.max_degree() != (resize ? ml : 3) || cs.max_order() != (resize ? mm : 3))
      c.fail("size", "coefficients up to (%d,%d) gave (%d,%d)", ml, mm, cs.max_degree(), cs.max_order());
    for (int m = 0; m <= cs.max_order(); m++)
      for (int l = m; l <= cs.max_degree(); l++) {
        const bool in = std::count(kept.begin(), kept.end(), std::make_pair(l, m));
        if (cs.C(l, m) != (in ? coef(1, l, m, false) : 0.) || cs.S(l, m) != (in ? coef(1, l, m, true) : 0.))
          c.fail("coefficients", "degree %d order %d is (%g,%g)", l, m, cs.C(l, m), cs.S(l, m));
        c.checked(2);
      }
  }
  c.state(mc::mix((std::uint64_t)kept.size(), (std::uint64_t)(ml * 8 + mm)));
}
/* a day as it is published, in full size */
template <AOD1BCoefficientType T>
static void published_as(mc::Ctx &c, const File &f, const dso::Aod1bIn &a, int l, int m, int keep) {
  dso::Aod1bDataBlockIterator<T> it(a);
  it.set_begin();
  int k = 0, e = 0;
  for (const Block &b : f.blocks) {
    if (b.type != (int)T)
      continue;
    if (e || !(it.header().mepoch == b.epoch.tt()) || it.header().mset_nr != (int)(&b - &f.blocks[0]) + 1)
      c.fail("block", "block %d of the type is not where it should be (%d)", k, e);
    if (k % keep == 0) {
      StokesCoeffs cs(f.degree, f.degree, 1., 1.);
      dirty(cs);
      if (it.collect(cs, l, m))
        c.fail("collect", "block %d cannot be collected", k);
      same(c, cs, b.id, l, m, "collected");
    } else
      it.skip();
    e = it.advance();
    ++k;
  }
  if (e >= 0 || k != 8)
    c.fail("eof", "%d blocks, and %d after the last one", k, e);
}
static void published(mc::Ctx &c) {
  static std::map<int, std::string> text;
  File f;
  f.degree = c.flag("release 6") ? 180 : 100;
  for (int i = 0; i < 32; i++)
    f.blocks.push_back({i % 4, Gps{i / 4 * 10800L}, i});
  std::string &t = text[f.degree];
  if (t.empty())
    t = file_text(f);
  const int type = c.choose(4, "type");
  static const int REQ[][2] = {{180, 180}, {90, 90}, {99, 7}, {5, 0}};
  const int r = c.choose(4, "request");
  const int l = std::min(REQ[r][0], f.degree), m = std::min(REQ[r][1], l), keep = 1 + c.choose(2, "skip");
  const std::string fn = write_file(c, t);
  dso::Aod1bIn a(fn.c_str());
  switch (type) {
  case 0: published_as<AOD1BCoefficientType::ATM>(c, f, a, l, m, keep); break;
  case 1: published_as<AOD1BCoefficientType::OCN>(c, f, a, l, m, keep); break;
  case 2: published_as<AOD1BCoefficientType::GLO>(c, f, a, l, m, keep); break;
  default: published_as<AOD1BCoefficientType::OBA>(c, f, a, l, m, keep);
  }
  c.state((std::uint64_t)(f.degree * 64 + type * 16 + r * 2 + keep));
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, {{"walk", walk, 4}, {"product", product, 4}, {"requests", requests, 3}, {"sparse", sparse, 3}, {"published", published, 4}});
}
