/* Matrices as values: every history of construct, copy, move, assign, swap,
 * resize, fill and scale operations against a reference model. */
#include "coeff_matrix_2d.hpp"
#include "mc.hpp"
#include <memory>
#include <optional>
using dso::CoeffMatrix2D;
using S = dso::MatrixStorageType;

template <S st> constexpr bool is_square =
    st == S::LwTriangularRowWise || st == S::LwTriangularColWise;
template <S st> constexpr bool is_tri = is_square<st> || st == S::Trapezoid;

constexpr int MX = 5;
struct Ref {
  int r = 0, q = 0;
  double v[MX][MX];
};

template <S st> struct World {
  using M = CoeffMatrix2D<st>;
  mc::Ctx &c;
  std::vector<std::unique_ptr<M>> obj;
  std::vector<Ref> ref;
  double next = 1e0;
  explicit World(mc::Ctx &x) : c(x) {}

  static bool stored(int i, int j) { return !is_tri<st> || j <= i; }
  /* write every element (i.e. give unspecified elements a known value) */
  void fill_fresh(int k) {
    for (int i = 0; i < ref[k].r; i++)
      for (int j = 0; j < ref[k].q; j++)
        if (stored(i, j)) {
          ref[k].v[i][j] = next;
          (*obj[k])(i, j) = next;
          next += 1e0;
        }
  }
  void verify(const char *op) {
    std::uint64_t h = 7;
    for (std::size_t k = 0; k < obj.size(); k++) {
      const M &m = *obj[k];
      const Ref &f = ref[k];
      if (m.rows() != f.r || m.cols() != f.q)
        c.fail("dims", "after %s: object %zu is %dx%d, should be %dx%d", op, k,
               m.rows(), m.cols(), f.r, f.q);
      long n = 0;
      h = mc::mix(h, (unsigned)(f.r * 16 + f.q));
      for (int i = 0; i < f.r; i++)
        for (int j = 0; j < f.q; j++)
          if (stored(i, j)) {
            ++n;
            if (m(i, j) != f.v[i][j])
              c.fail("value", "after %s: object %zu (%dx%d) holds %g at (%d,%d)"
                     ", should be %g", op, k, f.r, f.q, m(i, j), i, j,
                     f.v[i][j]);
            h = mc::mix(h, mc::bits(f.v[i][j]));
            c.checked();
          }
      if ((long)m.num_elements() != n)
        c.fail("count", "after %s: object %zu reports %zu elements of %ld", op,
               k, m.num_elements(), n);
    }
    if (ref[0].r && ref[1].r && ref[0].q && ref[1].q &&
        obj[0]->data() == obj[1]->data())
      c.fail("share", "after %s: two objects share their data", op);
    c.state(h);
  }
  void dims(int &r, int &q, const char *l) {
    if (is_square<st>) {
      static const int d[] = {0, 1, 2, 3, 4};
      r = q = d[c.choose(c.thorough() ? 5 : 4, l)];
    } else {
      static const int d[][2] = {{0, 0}, {1, 3}, {2, 2}, {3, 2},
                                 {3, 4}, {2, 1}, {4, 4}};
      const int k = c.choose(c.thorough() ? 7 : 5, l);
      r = d[k][0];
      q = d[k][1];
    }
  }
  /* state of a moved-from object: valid but unspecified */
  void moved_from(int k) {
    ref[k].r = obj[k]->rows();
    ref[k].q = obj[k]->cols();
    if (ref[k].r > MX - 1 || ref[k].q > MX - 1 || ref[k].r < 0 || ref[k].q < 0)
      c.fail("movedfrom", "moved-from object is %dx%d", ref[k].r, ref[k].q);
    fill_fresh(k);
  }
  void step() {
    const int op = c.choose(14, "op");
    switch (op) {
    case 0:
    case 1: { /* copy assignment */
      const int a = op, b = 1 - op;
      c.log("%c=%c", "AB"[a], "AB"[b]);
      M &ret = (*obj[a] = static_cast<const M &>(*obj[b]));
      if (&ret != obj[a].get())
        c.fail("ret", "assignment returns another object");
      ref[a] = ref[b];
      verify("copy assignment");
      fill_fresh(b); /* a change of the source must not show in the copy */
      verify("copy assignment and write to the source");
    } break;
    case 2:
    case 3: { /* move assignment */
      const int a = op - 2, b = 1 - a;
      c.log("%c=move(%c)", "AB"[a], "AB"[b]);
      *obj[a] = std::move(*obj[b]);
      ref[a] = ref[b];
      moved_from(b);
      verify("move assignment");
    } break;
    case 4: { /* self copy */
      c.log("A=A");
      M &alias = *obj[0];
      *obj[0] = alias;
      verify("self assignment");
    } break;
    case 5: { /* self move leaves a valid object */
      c.log("A=move(A)");
      M &alias = *obj[0];
      *obj[0] = std::move(alias);
      moved_from(0);
      verify("self move");
    } break;
    case 6: {
      const int how = c.choose(3, "swap");
      c.log("swap %d", how);
      if (how == 0)
        obj[0]->swap(*obj[1]);
      else if (how == 1)
        dso::swap(*obj[0], *obj[1]);
      else {
        using std::swap;
        swap(*obj[0], *obj[1]);
      }
      std::swap(ref[0], ref[1]);
      verify("swap");
    } break;
    case 7: {
      int r, q;
      dims(r, q, "resize A to");
      c.log("A.resize(%d,%d)", r, q);
      obj[0]->resize(r, q);
      ref[0].r = r;
      ref[0].q = q;
      fill_fresh(0);
      verify("resize");
    } break;
    case 8: {
      int r, q;
      dims(r, q, "cresize A to");
      c.log("A.cresize(%d,%d)", r, q);
      const Ref old = ref[0];
      obj[0]->cresize(r, q);
      ref[0].r = r;
      ref[0].q = q;
      /* elements that existed before keep their value; give new ones one */
      if (obj[0]->rows() == r && obj[0]->cols() == q)
        for (int i = 0; i < r; i++)
          for (int j = 0; j < q; j++)
            if (stored(i, j) && !(i < old.r && j < old.q)) {
              ref[0].v[i][j] = next;
              (*obj[0])(i, j) = next;
              next += 1e0;
            }
      verify("cresize");
    } break;
    case 9: {
      const double v = c.choose(2, "value") ? -2.5e0 : 0e0;
      c.log("A.fill_with(%g)", v);
      obj[0]->fill_with(v);
      for (auto &row : ref[0].v)
        for (double &x : row)
          x = v;
      verify("fill_with");
    } break;
    case 10: {
      const double v = c.choose(2, "factor") ? -0.5e0 : 3e0;
      c.log("A.multiply(%g)", v);
      obj[0]->multiply(v);
      for (auto &row : ref[0].v)
        for (double &x : row)
          x *= v;
      verify("multiply");
    } break;
    case 11: { /* A replaced by a copy constructed from it */
      c.log("A=copy-construct(A)");
      std::unique_ptr<M> p(new M(static_cast<const M &>(*obj[0])));
      const Ref keep = ref[0];
      fill_fresh(0);
      obj[0] = std::move(p);
      ref[0] = keep;
      verify("copy construction");
    } break;
    case 12: { /* A replaced by an object move constructed from it */
      c.log("A=move-construct(A)");
      std::unique_ptr<M> p(new M(std::move(*obj[0])));
      const Ref keep = ref[0];
      moved_from(0);
      obj[0] = std::move(p);
      ref[0] = keep;
      verify("move construction");
    } break;
    case 13: {
      int r, q;
      dims(r, q, "new A");
      c.log("A=M(%d,%d)", r, q);
      obj[0].reset(new M(r, q));
      ref[0].r = r;
      ref[0].q = q;
      fill_fresh(0);
      verify("construction");
    } break;
    }
  }
};

template <S st> void check(mc::Ctx &c) {
  const int depth = c.thorough() ? 5 : 4;
  const std::size_t before = mc::live_bytes();
  {
    World<st> w(c);
    w.ref.resize(2);
    for (int k = 0; k < 2; k++) {
      Ref &f = w.ref[k];
      f.r = f.q = k ? 3 : 2;
      if (!is_square<st> && k)
        f.q = 4;
      w.obj.emplace_back(new CoeffMatrix2D<st>(f.r, f.q));
      w.fill_fresh(k);
    }
    w.verify("start");
    for (int d = 0; d < depth; d++)
      w.step();
  }
  const long lost = (long)mc::live_bytes() - (long)before;
  if (lost)
    c.fail("leak", "%ld bytes not freed at the end of the history", lost);
}

/* the same, shorter histories, of matrices as large as those of gravity models */
struct Large {
  int r = 0, q = 0;
  std::vector<double> v;
  double &at(int i, int j) { return v[(std::size_t)i * (std::size_t)q + (std::size_t)j]; }
};
template <S st> void large(mc::Ctx &c) {
  using M = CoeffMatrix2D<st>;
  static const int D[][2] = {{361, 361}, {37, 37}, {181, 181}, {64, 65}, {130, 33}, {33, 290}, {721, 721}};
  const std::size_t before = mc::live_bytes();
  {
    std::unique_ptr<M> obj[2];
    Large ref[2];
    double next = 1e0;
    auto fresh = [&](int k) {
      for (int i = 0; i < ref[k].r; i++)
        for (int j = 0; j < ref[k].q; j++)
          if (World<st>::stored(i, j))
            (*obj[k])(i, j) = ref[k].at(i, j) = next++;
    };
    auto size = [&](int k, int r, int q) {
      ref[k].r = r;
      ref[k].q = q;
      ref[k].v.assign((std::size_t)r * (std::size_t)q, 0e0);
      fresh(k);
    };
    auto dims = [&](int &r, int &q) {
      const int k = c.choose(is_square<st> ? (c.thorough() ? 3 : 2) : (c.thorough() ? 7 : 5), "size");
      r = D[k][0];
      q = D[k][1];
    };
    auto verify = [&](const char *op) {
      for (int k = 0; k < 2; k++) {
        const M &m = *obj[k];
        Large &f = ref[k];
        if (m.rows() != f.r || m.cols() != f.q)
          c.fail("dims", "after %s: object %d is %dx%d, should be %dx%d", op, k, m.rows(), m.cols(), f.r, f.q);
        for (int i = 0; i < f.r; i++)
          for (int j = 0; j < f.q; j++)
            if (World<st>::stored(i, j)) {
              if (m(i, j) != f.at(i, j))
                c.fail("value", "after %s: object %d (%dx%d) holds %g at (%d,%d), should be %g", op, k, f.r, f.q,
                       m(i, j), i, j, f.at(i, j));
              c.checked();
            }
      }
    };
    for (int k = 0; k < 2; k++) {
      obj[k].reset(k ? new M(73, 73) : new M(121, 121));
      size(k, k ? 73 : 121, k ? 73 : 121);
    }
    for (int d = 0; d < (c.thorough() ? 3 : 2); d++) {
      const int op = c.choose(11, "op"), a = op & 1, b = 1 - a;
      int r, q;
      c.log("op %d", op);
      if (op < 2) {
        *obj[a] = static_cast<const M &>(*obj[b]);
        ref[a] = ref[b];
        verify("copy assignment");
        fresh(b);
      } else if (op < 4) {
        *obj[a] = std::move(*obj[b]);
        ref[a] = ref[b];
        size(b, obj[b]->rows(), obj[b]->cols());
      } else if (op < 6) {
        dims(r, q);
        obj[a]->cresize(r, q);
        Large f;
        f.r = r;
        f.q = q;
        f.v.assign((std::size_t)r * (std::size_t)q, 0e0);
        if (obj[a]->rows() == r && obj[a]->cols() == q)
          for (int i = 0; i < r; i++)
            for (int j = 0; j < q; j++)
              if (World<st>::stored(i, j)) {
                if (i < ref[a].r && j < ref[a].q)
                  f.at(i, j) = ref[a].at(i, j);
                else
                  (*obj[a])(i, j) = f.at(i, j) = next++;
              }
        ref[a] = f;
      } else if (op == 6) {
        obj[0]->swap(*obj[1]);
        std::swap(ref[0], ref[1]);
      } else if (op == 7) {
        dims(r, q);
        obj[0]->resize(r, q);
        size(0, r, q);
      } else if (op == 8) {
        obj[0]->fill_with(-2.5e0);
        for (double &x : ref[0].v)
          x = -2.5e0;
      } else if (op == 9) {
        obj[0]->multiply(-0.5e0);
        for (double &x : ref[0].v)
          x *= -0.5e0;
      } else {
        std::unique_ptr<M> p(new M(static_cast<const M &>(*obj[0])));
        const Large keep = ref[0];
        fresh(0);
        obj[0] = std::move(p);
        ref[0] = keep;
      }
      verify("a step");
      c.state(mc::mix((std::uint64_t)op, (std::uint64_t)(ref[0].r * 400 + ref[1].q)));
    }
  }
  const long lost = (long)mc::live_bytes() - (long)before;
  if (lost)
    c.fail("leak", "%ld bytes not freed at the end of the history", lost);
}

int main(int argc, char **argv) {
  return mc::run(argc, argv,
                 {{"RowWise", check<S::RowWise>, 2},
                  {"ColumnWise", check<S::ColumnWise>, 2},
                  {"Trapezoid", check<S::Trapezoid>, 2},
                  {"LwTriangularRowWise", check<S::LwTriangularRowWise>, 2},
                  {"LwTriangularColWise", check<S::LwTriangularColWise>, 2},
                  {"large RowWise", large<S::RowWise>, 1},
                  {"large ColumnWise", large<S::ColumnWise>, 1},
                  {"large Trapezoid", large<S::Trapezoid>, 1},
                  {"large LwTriangularRowWise", large<S::LwTriangularRowWise>, 1},
                  {"large LwTriangularColWise", large<S::LwTriangularColWise>, 1}});
}
