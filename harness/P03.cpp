/* Lazy matrix expressions against plain element-wise arithmetic. */
#include "coeff_matrix_2d.hpp"
#include "mc.hpp"
using dso::CoeffMatrix2D;
using S = dso::MatrixStorageType;

template <S st> constexpr bool is_square =
    st == S::LwTriangularRowWise || st == S::LwTriangularColWise;
template <S st> constexpr bool is_tri = is_square<st> || st == S::Trapezoid;
template <S st> bool stored(int i, int j) { return !is_tri<st> || j <= i; }

constexpr int MX = 6;
typedef double Arr[MX][MX];

template <S st> void put(CoeffMatrix2D<st> &m, Arr &a, double base) {
  for (int i = 0; i < MX; i++)
    for (int j = 0; j < MX; j++)
      a[i][j] = base + 8 * i + j;
  for (int i = 0; i < m.rows(); i++)
    for (int j = 0; j < m.cols(); j++)
      if (stored<st>(i, j))
        m(i, j) = a[i][j];
}
/* want: values of elements inside of [0,r)x[0,q), old: outside of it */
template <S st>
void same(mc::Ctx &c, const char *what, const CoeffMatrix2D<st> &m, int rows,
          int cols, const Arr &want) {
  if (m.rows() != rows || m.cols() != cols)
    c.fail("dims", "%s: result is %dx%d, should be %dx%d", what, m.rows(),
           m.cols(), rows, cols);
  for (int i = 0; i < rows; i++)
    for (int j = 0; j < cols; j++)
      if (stored<st>(i, j)) {
        if (m(i, j) != want[i][j])
          c.fail("value", "%s (%dx%d): element (%d,%d) is %g, should be %g",
                 what, rows, cols, i, j, m(i, j), want[i][j]);
        c.checked();
      }
}

template <S st> void expressions(mc::Ctx &c) {
  using M = CoeffMatrix2D<st>;
  const int N = 5;
  int r = 1 + c.choose(N, "rows"), q = r;
  if (!is_square<st>)
    q = 1 + c.choose(N, "cols");
  static const double facs[] = {2e0, -0.5e0, 0e0};
  const double k1 = facs[c.choose(3, "k1")], k2 = -facs[c.choose(2, "k2")];
  const int how = c.choose(16, "expression");
  M A(r, q), B(r, q), C(r, q);
  Arr a, b, d, w;
  put<st>(A, a, 1000);
  put<st>(B, b, 2000);
  put<st>(C, d, -4096);
  auto set = [&](auto f) {
    for (int i = 0; i < MX; i++)
      for (int j = 0; j < MX; j++)
        w[i][j] = f(a[i][j], b[i][j], d[i][j]);
  };
  c.log("%dx%d, k1=%g k2=%g, expression %d", r, q, k1, k2, how);
  switch (how) {
  case 0: {
    M R(A + B);
    set([](double x, double y, double) { return x + y; });
    same<st>(c, "A+B", R, r, q, w);
  } break;
  case 1: {
    M R(A + k1 * B);
    set([=](double x, double y, double) { return x + k1 * y; });
    same<st>(c, "A+k*B", R, r, q, w);
  } break;
  case 2: {
    M R(k1 * A + k2 * B);
    set([=](double x, double y, double) { return k1 * x + k2 * y; });
    same<st>(c, "k*A+l*B", R, r, q, w);
  } break;
  case 3: {
    M R(A + B + C);
    set([](double x, double y, double z) { return x + y + z; });
    same<st>(c, "A+B+C", R, r, q, w);
  } break;
  case 4: {
    M R(A + k1 * B + C * k2);
    set([=](double x, double y, double z) { return x + k1 * y + k2 * z; });
    same<st>(c, "A+k*B+l*C", R, r, q, w);
  } break;
  case 5: {
    M R(A * k1);
    set([=](double x, double, double) { return k1 * x; });
    same<st>(c, "A*k", R, r, q, w);
  } break;
  case 6: {
    M R(k1 * A);
    set([=](double x, double, double) { return k1 * x; });
    same<st>(c, "k*A", R, r, q, w);
  } break;
  case 7: {
    M &ret = (C += A);
    if (&ret != &C)
      c.fail("ret", "+= returns another object");
    set([](double x, double, double z) { return z + x; });
    same<st>(c, "C+=A", C, r, q, w);
  } break;
  case 8: {
    C += k1 * A;
    set([=](double x, double, double z) { return z + k1 * x; });
    same<st>(c, "C+=k*A", C, r, q, w);
  } break;
  case 9: {
    C += A + k2 * B;
    set([=](double x, double y, double z) { return z + (x + k2 * y); });
    same<st>(c, "C+=A+k*B", C, r, q, w);
  } break;
  case 10: {
    C += C;
    set([](double, double, double z) { return 2 * z; });
    same<st>(c, "C+=C", C, r, q, w);
  } break;
  case 11: {
    C += k1 * C;
    set([=](double, double, double z) { return z + k1 * z; });
    same<st>(c, "C+=k*C", C, r, q, w);
  } break;
  case 12: {
    C += A + C;
    set([=](double x, double, double z) { return z + (x + z); });
    same<st>(c, "C+=A+C", C, r, q, w);
  } break;
  case 13: { /* assignment from an expression */
    C = M(k1 * A + k2 * C);
    set([=](double x, double, double z) { return k1 * x + k2 * z; });
    same<st>(c, "C=k*A+l*C", C, r, q, w);
  } break;
  case 14: { /* an expression kept in a variable reads its operands late */
    auto e = A + B;
    for (int i = 0; i < r; i++)
      for (int j = 0; j < q; j++)
        if (e.rows() != r || e.cols() != q ||
            (stored<st>(i, j) && e(i, j) != a[i][j] + b[i][j]))
          c.fail("value", "element (%d,%d) of A+B", i, j);
    M R(std::move(e));
    set([](double x, double y, double) { return x + y; });
    same<st>(c, "A+B in a variable", R, r, q, w);
  } break;
  case 15: {
    M R(k1 * A + k2 * B + C);
    set([=](double x, double y, double z) { return k1 * x + k2 * y + z; });
    same<st>(c, "k*A+l*B+C", R, r, q, w);
  } break;
  }
  /* operands are not changed */
  if (how != 7 && (how < 8 || how > 13))
    same<st>(c, "operand C", C, r, q, d);
  same<st>(c, "operand A", A, r, q, a);
  same<st>(c, "operand B", B, r, q, b);
  c.state(mc::mix(mc::mix(3, (unsigned)(r * 8 + q)), (unsigned)how));
}

/* the target may be larger than what is added to it: only the leading part
 * changes */
template <S st> void reduced(mc::Ctx &c) {
  using M = CoeffMatrix2D<st>;
  const int N = 5;
  int tr = 1 + c.choose(N, "target rows"), tq = tr;
  if (!is_square<st>)
    tq = 1 + c.choose(N, "target cols");
  /* operands at least as large as the view */
  const int vr = 1 + c.choose(tr, "view rows");
  const int vq = 1 + c.choose(tq, "view cols");
  const int extra = c.choose(3, "operand larger by");
  int ar = vr + extra, aq = vq + (extra ? extra - 1 : 0);
  if (is_square<st>)
    ar = aq = std::max(ar, aq);
  if (ar > MX || aq > MX)
    c.prune();
  const int how = c.choose(9, "expression");
  const double k1 = c.choose(2, "k") ? -0.5e0 : 4e0;
  M T(tr, tq), A(ar, aq), B(ar, aq);
  Arr t, a, b, w;
  put<st>(T, t, 10);
  put<st>(A, a, 1000);
  put<st>(B, b, 2000);
  std::memcpy(w, t, sizeof w);
  auto set = [&](auto f) {
    for (int i = 0; i < vr; i++)
      for (int j = 0; j < vq; j++)
        w[i][j] = f(t[i][j], a[i][j], b[i][j]);
  };
  c.log("target %dx%d, view %dx%d of %dx%d, expression %d", tr, tq, vr, vq, ar,
        aq, how);
  switch (how) {
  case 0:
    T += A.reduced_view(vr, vq);
    set([](double x, double y, double) { return x + y; });
    break;
  case 1:
    T += k1 * A.reduced_view(vr, vq);
    set([=](double x, double y, double) { return x + k1 * y; });
    break;
  case 2:
    T += A.reduced_view(vr, vq) * k1;
    set([=](double x, double y, double) { return x + k1 * y; });
    break;
  case 3:
    T += A.reduced_view(vr, vq) + B.reduced_view(vr, vq);
    set([](double x, double y, double z) { return x + (y + z); });
    break;
  case 4:
    T += A.reduced_view(vr, vq) + k1 * B.reduced_view(vr, vq);
    set([=](double x, double y, double z) { return x + (y + k1 * z); });
    break;
  case 5:
    T += k1 * A.reduced_view(vr, vq) + 2e0 * B.reduced_view(vr, vq);
    set([=](double x, double y, double z) { return x + (k1 * y + 2 * z); });
    break;
  case 6:
    T += (A.reduced_view(vr, vq) + B.reduced_view(vr, vq)) +
         A.reduced_view(vr, vq);
    set([](double x, double y, double z) { return x + (y + z + y); });
    break;
  case 7: /* into a new object */
    if (is_square<st> && vr != vq)
      c.prune();
    {
      M R(A.reduced_view(vr, vq) + B.reduced_view(vr, vq));
      for (int i = 0; i < MX; i++)
        for (int j = 0; j < MX; j++)
          t[i][j] = a[i][j] + b[i][j];
      same<st>(c, "view+view", R, vr, vq, t);
      break;
    }
  case 8: /* sum of a view and a scaled view, then a view more */
    T += (k1 * A.reduced_view(vr, vq) + B.reduced_view(vr, vq) * k1) +
         k1 * A.reduced_view(vr, vq);
    set([=](double x, double y, double z) {
      return x + (k1 * y + k1 * z + k1 * y);
    });
    break;
  }
  same<st>(c, "target", T, tr, tq, w);
  same<st>(c, "operand A", A, ar, aq, a);
  same<st>(c, "operand B", B, ar, aq, b);
  c.state(mc::mix(mc::mix(5, (unsigned)(tr * 8 + tq)),
                  (unsigned)((vr * 8 + vq) * 16 + how)));
}

/* operands as large as gravity models */
template <S st> void large(mc::Ctx &c) {
  using M = CoeffMatrix2D<st>;
  static const int D[][2] = {{121, 121}, {61, 61}, {261, 261}, {64, 130}, {130, 64}, {1, 300}, {300, 1}};
  const int *d = D[c.choose(is_square<st> ? 3 : 7, "size")];
  const int r = d[0], q = d[1], how = c.choose(8, "expression"), cut = c.choose(3, "view");
  const double k = c.choose(2, "k") ? -0.5e0 : 4e0;
  auto va = [](int i, int j) { return 1000e0 * i + j; };
  auto vb = [](int i, int j) { return 7e5 - 512e0 * i + 3 * j; };
  auto vt = [](int i, int j) { return -1e6 + 2 * i - 1024e0 * j; };
  M A(r, q), B(r, q), T(r, q);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < q; j++)
      if (stored<st>(i, j)) {
        A(i, j) = va(i, j);
        B(i, j) = vb(i, j);
        T(i, j) = vt(i, j);
      }
  int vr = cut == 1 ? std::max(1, r / 2) : r, vq = cut == 2 ? std::max(1, q / 3) : q;
  if (is_square<st> && how == 7)
    vr = vq = std::min(vr, vq);
  auto same = [&](const M &m, int rows, int cols, auto f) {
    if (m.rows() != rows || m.cols() != cols)
      c.fail("dims", "expression %d: %dx%d", how, m.rows(), m.cols());
    for (int i = 0; i < rows; i++)
      for (int j = 0; j < cols; j++)
        if (stored<st>(i, j)) {
          if (m(i, j) != f(i, j))
            c.fail("value", "%dx%d, expression %d: element (%d,%d) is %g, should be %g", r, q, how, i, j, m(i, j),
                   (double)f(i, j));
          c.checked();
        }
  };
  auto in = [&](int i, int j) { return i < vr && j < vq; };
  switch (how) {
  case 0:
    same(M(A + B), r, q, [&](int i, int j) { return va(i, j) + vb(i, j); });
    break;
  case 1:
    same(M(A + k * B), r, q, [&](int i, int j) { return va(i, j) + k * vb(i, j); });
    break;
  case 2:
    T += A;
    same(T, r, q, [&](int i, int j) { return vt(i, j) + va(i, j); });
    break;
  case 3:
    T += A + k * B;
    same(T, r, q, [&](int i, int j) { return vt(i, j) + (va(i, j) + k * vb(i, j)); });
    break;
  case 4:
    T += k * A.reduced_view(vr, vq);
    same(T, r, q, [&](int i, int j) { return in(i, j) ? vt(i, j) + k * va(i, j) : vt(i, j); });
    break;
  case 5:
    T += A.reduced_view(vr, vq) + k * B.reduced_view(vr, vq);
    same(T, r, q, [&](int i, int j) { return in(i, j) ? vt(i, j) + (va(i, j) + k * vb(i, j)) : vt(i, j); });
    break;
  case 6:
    T += T;
    same(T, r, q, [&](int i, int j) { return 2 * vt(i, j); });
    break;
  case 7:
    same(M(A.reduced_view(vr, vq) + B.reduced_view(vr, vq)), vr, vq,
         [&](int i, int j) { return va(i, j) + vb(i, j); });
    break;
  }
  same(A, r, q, va);
  same(B, r, q, vb);
  c.state(mc::mix((std::uint64_t)(r * 400 + q), (std::uint64_t)(how * 4 + cut)));
}

int main(int argc, char **argv) {
  return mc::run(
      argc, argv,
      {{"expressions RowWise", expressions<S::RowWise>},
       {"expressions ColumnWise", expressions<S::ColumnWise>},
       {"expressions Trapezoid", expressions<S::Trapezoid>},
       {"expressions LwTriangularRowWise", expressions<S::LwTriangularRowWise>},
       {"expressions LwTriangularColWise", expressions<S::LwTriangularColWise>},
       {"views RowWise", reduced<S::RowWise>},
       {"views ColumnWise", reduced<S::ColumnWise>},
       {"views Trapezoid", reduced<S::Trapezoid>},
       {"views LwTriangularRowWise", reduced<S::LwTriangularRowWise>},
       {"views LwTriangularColWise", reduced<S::LwTriangularColWise>},
       {"large RowWise", large<S::RowWise>},
       {"large ColumnWise", large<S::ColumnWise>},
       {"large Trapezoid", large<S::Trapezoid>},
       {"large LwTriangularRowWise", large<S::LwTriangularRowWise>},
       {"large LwTriangularColWise", large<S::LwTriangularColWise>}});
}
