/* Element addressing of every matrix storage layout. */
#include "coeff_matrix_2d.hpp"
#include "mc.hpp"
#include <memory>
using dso::CoeffMatrix2D;
using S = dso::MatrixStorageType;

template <S st> struct Kind;
template <> struct Kind<S::RowWise> {
  static constexpr bool square = false, tri = false, rowmajor = true;
};
template <> struct Kind<S::ColumnWise> {
  static constexpr bool square = false, tri = false, rowmajor = false;
};
template <> struct Kind<S::Trapezoid> {
  static constexpr bool square = false, tri = true, rowmajor = true;
};
template <> struct Kind<S::LwTriangularRowWise> {
  static constexpr bool square = true, tri = true, rowmajor = true;
};
template <> struct Kind<S::LwTriangularColWise> {
  static constexpr bool square = true, tri = true, rowmajor = false;
};

template <S st> void addressing(mc::Ctx &c) {
  using K = Kind<st>;
  const int N = c.thorough() ? 40 : 14;
  /* a few sizes well beyond the dense range too */
  static const int big[] = {61, 128, 201, 361};
  const int k = c.choose(N + 1 + 4, "rows");
  const int r = k <= N ? k : big[k - N - 1];
  int q = r;
  if (!K::square) {
    const int l = c.choose(N + 1 + 4, "cols");
    q = l <= N ? l : big[l - N - 1];
  }
  const int way = c.choose(3, "how the size came to be");
  c.log("%d x %d by %s", r, q, way == 0 ? "ctor" : way == 1 ? "resize" : "cresize");
  std::unique_ptr<CoeffMatrix2D<st>> p;
  if (way == 0)
    p.reset(new CoeffMatrix2D<st>(r, q));
  else {
    p.reset(new CoeffMatrix2D<st>(K::square ? 2 : 3, 2));
    if (way == 1)
      p->resize(r, q);
    else
      p->cresize(r, q);
  }
  CoeffMatrix2D<st> &m = *p;
  const CoeffMatrix2D<st> &cm = m;
  if (m.rows() != r || m.cols() != q)
    c.fail("dims", "asked %dx%d, got %dx%d", r, q, m.rows(), m.cols());

  long count = 0;
  double v = 1e0;
  for (int i = 0; i < r; i++)
    for (int j = 0; j < q; j++)
      if (!K::tri || j <= i)
        ++count;
  if ((long)m.num_elements() != count)
    c.fail("count", "%dx%d holds %ld elements, reported %zu", r, q, count,
           m.num_elements());
  std::vector<char> used((std::size_t)count, 0);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < q; j++) {
      if (K::tri && j > i)
        continue;
      double *e = &m(i, j);
      const long off = e - m.data();
      if (off < 0 || off >= count)
        c.fail("range", "(%d,%d) of %dx%d at offset %ld of %ld", i, j, r, q,
               off, count);
      if (used[(std::size_t)off])
        c.fail("alias", "(%d,%d) of %dx%d shares offset %ld", i, j, r, q, off);
      used[(std::size_t)off] = 1;
      if (&cm(i, j) != e)
        c.fail("const", "const and non-const (%d,%d) differ", i, j);
      *e = v;
      v += 1e0;
      c.checked(3);
    }
  v = 1e0;
  for (int i = 0; i < r; i++)
    for (int j = 0; j < q; j++) {
      if (K::tri && j > i)
        continue;
      if (cm(i, j) != v)
        c.fail("value", "(%d,%d) of %dx%d reads %g, was set to %g", i, j, r, q,
               cm(i, j), v);
      v += 1e0;
      c.checked();
    }
  /* rows/columns as contiguous pieces */
  if constexpr (K::rowmajor) {
    for (int i = 0; i < r; i++)
      for (int j = 0; j < q; j++) {
        if (K::tri && j > i)
          continue;
        if (m.row(i) + j != &m(i, j) || cm.row(i) + j != &cm(i, j) ||
            m.slice(i) + j != &m(i, j) || cm.slice(i) + j != &cm(i, j))
          c.fail("row", "row %d, element %d of %dx%d", i, j, r, q);
        c.checked();
      }
  } else {
    for (int j = 0; j < q; j++)
      for (int i = K::tri ? j : 0; i < r; i++) {
        const int k0 = K::tri ? j : 0;
        if (m.column(j) + (i - k0) != &m(i, j) ||
            cm.column(j) + (i - k0) != &cm(i, j) ||
            m.slice(j) + (i - k0) != &m(i, j) ||
            cm.slice(j) + (i - k0) != &cm(i, j))
          c.fail("column", "column %d, row %d of %dx%d", j, i, r, q);
        c.checked();
      }
  }
  /* a size one more, and one less, with what is there already */
  if (r && q)
    for (int d = 1; d >= -1; d -= 2) {
      const int r1 = r + d, q1 = q + d;
      if (r1 < 1 || q1 < 1)
        continue;
      p->cresize(r1, q1);
      double v1 = 1e0;
      for (int i = 0; i < r; i++)
        for (int j = 0; j < q; j++) {
          if (K::tri && j > i)
            continue;
          if (i < r1 && j < q1 && cm(i, j) != v1)
            c.fail("cresize", "(%d,%d) of %dx%d is %g after a resize to %dx%d, was %g", i, j, r, q, cm(i, j), r1, q1,
                   v1);
          v1 += 1e0;
          c.checked();
        }
    }
  c.state(mc::mix(mc::mix(1, (unsigned)r), (unsigned)q));
}

int main(int argc, char **argv) {
  return mc::run(argc, argv,
                 {{"RowWise", addressing<S::RowWise>},
                  {"ColumnWise", addressing<S::ColumnWise>},
                  {"Trapezoid", addressing<S::Trapezoid>},
                  {"LwTriangularRowWise", addressing<S::LwTriangularRowWise>},
                  {"LwTriangularColWise", addressing<S::LwTriangularColWise>}});
}
