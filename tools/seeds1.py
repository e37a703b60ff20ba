GC = 'src/lib/gravity/sh_cunningham_normalized_gradient.cpp'
GS = ['src/lib/gravity/*.cpp', 'src/lib/stokes_coefficients.cpp']
SEEDS = [
dict(id='B01', property='P02',
     needs='shrink a matrix keeping its data, then grow it again (or fill it)',
     breaks='The capacity of a matrix is overstated after a data keeping '
            'shrink; a later resize does not allocate and writes go past the '
            'end of the heap block.',
     edits=[('include/coeff_matrix_2d.hpp',
             '''        delete[] m_data;
      }
      _capacity = StorageImplementation<S>(rows, cols).num_elements();
      m_data = ptr;''',
             '''        delete[] m_data;
      }
      _capacity = std::max(
          _capacity, StorageImplementation<S>(rows, cols).num_elements());
      m_data = ptr;''')],
     flags='-DNDEBUG -fsanitize=address',
     demo='''#include "coeff_matrix_2d.hpp"
using namespace dso;
int main() {
  CoeffMatrix2D<MatrixStorageType::LwTriangularColWise> a(6, 6);
  a.fill_with(1e0);
  a.cresize(2, 2);
  a.resize(5, 5);
  for (int i = 0; i < 5; i++)
    for (int j = 0; j <= i; j++)
      a(i, j) = i + j;
  for (int i = 0; i < 5; i++)
    for (int j = 0; j <= i; j++)
      if (a(i, j) != i + j)
        return 1;
  return 0;
}
'''),
dict(id='B02', property='P03',
     needs='a restricted view of a matrix with fewer columns than the target, '
           'in row-wise storage of unequal dimensions',
     breaks='Assigning or adding a view touches columns outside of the view.',
     edits=[('include/coeff_matrix_2d.hpp',
             'for (int j = 0; j < std::min(cpcols, num_elements); j++) {',
             'for (int j = 0; j < std::min(std::max(cprows, cpcols), num_elements); j++) {')],
     demo='''#include "coeff_matrix_2d.hpp"
#include <cstdio>
using namespace dso;
int main() {
  typedef CoeffMatrix2D<MatrixStorageType::RowWise> M;
  for (int r = 1; r <= 4; r++)
    for (int c = 1; c <= 4; c++) {
      M a(4, 4), b(4, 4);
      a.fill_with(1e0);
      b.fill_with(10e0);
      a += b.reduced_view(r, c);
      for (int i = 0; i < 4; i++)
        for (int j = 0; j < 4; j++)
          if (a(i, j) != ((i < r && j < c) ? 11e0 : 1e0)) {
            printf("view %dx%d: (%d,%d)=%g\\n", r, c, i, j, a(i, j));
            return 1;
          }
    }
  return 0;
}
'''),
dict(id='B03', property='P05',
     needs='an argument whose order is smaller than its degree and whose '
           'storage holds sine coefficients above the order',
     breaks='Accumulation adds sine coefficients above the order of the '
            'argument.',
     edits=[('src/lib/stokes_coefficients.cpp',
             '''  for (int m = 0; m <= sc.max_order(); m++) {
    const double *colSnm2''',
             '''  for (int m = 0; m <= sc.max_degree(); m++) {
    const double *colSnm2''')],
     srcs=['src/lib/stokes_coefficients.cpp'],
     demo='''#include "stokes_coefficients.hpp"
#include <cstdio>
int main() {
  dso::StokesCoeffs a(6, 6), b(6, 6);
  a.clear();
  for (int n = 0; n <= 6; n++)
    for (int m = 0; m <= n; m++) {
      b.C(n, m) = 1 + n;
      b.S(n, m) = 1 + m;
    }
  if (b.shrink_dimensions(5, 2))
    return 2;
  a += b;
  for (int n = 0; n <= 6; n++)
    for (int m = 0; m <= n; m++) {
      const bool in = n <= 5 && m <= 2;
      if (a.C(n, m) != (in ? 1 + n : 0) || a.S(n, m) != (in ? 1 + m : 0)) {
        printf("(%d,%d): %g %g\\n", n, m, a.C(n, m), a.S(n, m));
        return 1;
      }
    }
  return 0;
}
'''),
dict(id='B04', property='P12',
     needs='two expansions without scratch space of the caller, the second one '
           'of a degree that is higher by one',
     breaks='Scratch space kept between calls is reused although it is one '
            'row too small, and a valid request is refused.',
     edits=[(GC, '''  /* allocate (if needed) scratch space */
  int delete_mem_pool[] = {0, 0};
''', '''  /* allocate (if needed) scratch space; keep it for the next call */
  int delete_mem_pool[] = {0, 0};
  using Tri = dso::CoeffMatrix2D<dso::MatrixStorageType::LwTriangularColWise>;
  static thread_local Tri work[2] = {Tri(0, 0), Tri(0, 0)};
  for (int i = 0; i < 2; i++) {
    auto &p = i ? M : W;
    if (!p) {
      if (work[i].rows() < max_degree + 2)
        work[i].resize(max_degree + 3, max_degree + 3);
      p = &work[i];
    }
  }
''')],
     srcs=GS,
     demo='''#include "gravity.hpp"
#include <cstdio>
int main() {
  double first[3][3];
  for (int pass = 0; pass < 2; pass++)
    for (int k = 0; k < 3; k++) {
      const int n = pass ? 6 - k : 4 + k;
      dso::StokesCoeffs cs(n, n);
      cs.clear();
      cs.C(0, 0) = 1e0;
      cs.C(n, n) = 1e-3;
      Eigen::Matrix<double, 3, 1> r(4e6, 5e6, 3e6), a;
      Eigen::Matrix<double, 3, 3> g;
      if (dso::sh2gradient_cunningham(cs, r, a, g)) {
        printf("degree %d refused\\n", n);
        return 1;
      }
      for (int i = 0; i < 3; i++) {
        if (!pass)
          first[n - 4][i] = a(i);
        else if (a(i) != first[n - 4][i])
          return 1;
      }
    }
  return 0;
}
'''),
dict(id='B05', property='P07',
     needs='an order smaller than the degree by at least two',
     breaks='The last requested column of the Legendre functions lacks its '
            'highest degree.',
     edits=[('src/lib/gravity/forward_column_alf.cpp',
             '''  for (int n = m + 2; n <= max_degree; n++) {
    int k = n - m;
    pmm[k] = anm(n, m) * t * pmm[k - 1] - bnm(n, m) * pmm[k - 2];
  }

  return 0;''',
             '''  for (int n = m + 2; n < max_degree; n++) {
    int k = n - m;
    pmm[k] = anm(n, m) * t * pmm[k - 1] - bnm(n, m) * pmm[k - 2];
  }

  return 0;''')],
     srcs=GS,
     demo='''#include "gravity.hpp"
#include <cmath>
#include <cstdio>
int main() {
  dso::CoeffMatrix2D<dso::MatrixStorageType::LwTriangularColWise> P(13, 13),
      Q(13, 13);
  Q.fill_with(0e0);
  dso::normalised_associated_legendre_functions(.3e0, 12, 12, P);
  for (int m = 0; m <= 12; m++) {
    Q.fill_with(-77e0);
    dso::normalised_associated_legendre_functions(.3e0, 12, m, Q);
    for (int n = 0; n <= 12; n++)
      for (int k = 0; k <= std::min(n, m); k++)
        if (std::fabs(P(n, k) - Q(n, k)) > 1e-12) {
          printf("order %d: P(%d,%d)\\n", m, n, k);
          return 1;
        }
  }
  return 0;
}
'''),
dict(id='B06', property='P15',
     needs='a point exactly on the upper limit of the grid',
     breaks='A point on the upper limit of the x axis gets the index of '
            'another row, or one past the last.',
     edits=[('include/grid.hpp', 'return !(x >= mxstart && x < xstop());',
             'return !(x >= mxstart && x <= xstop());')],
     demo='''#include "grid.hpp"
int main() {
  dso::TwoDimGrid<dso::GridAxis::Y> g(.25, .5, 4, -1., .5, 3);
  for (int j = 0; j < 3; j++)
    for (int i = -1; i <= 4; i++) {
      const long want = (i < 0 || i > 3) ? -1 : 4 * j + i;
      if (g.line(.25 + .5 * i, -1. + .5 * j) != want)
        return 1;
    }
  return 0;
}
'''),
dict(id='B07', property='P14',
     needs='a large negative term while the sum is small',
     breaks='The lost digits are taken from the wrong operand.',
     edits=[('include/kahan.hpp', 'if (std::abs(msum) >= std::abs(v)) {',
             'if (std::abs(msum) >= v) {')],
     demo='''#include <initializer_list>
#include "kahan.hpp"
int main() {
  for (double big : {1e16, -1e16, 3e20, -3e20}) {
    dso::KahanSum s;
    s += 1e0;
    s += big;
    s += 1e0;
    s += -big;
    if (static_cast<double>(s) != 2e0)
      return 1;
  }
  return 0;
}
'''),
dict(id='B08', property='P17',
     needs='moving a stopwatch that has samples into another new one, then '
           'asking for its average',
     breaks='The number of samples is lost by moving.',
     edits=[('include/clock.hpp', '''  Clock(Clock &&other) {
    start_time = other.start_time;
    total_duration = other.total_duration;
    msamples = other.msamples;''', '''  Clock(Clock &&other) {
    start_time = other.start_time;
    total_duration = other.total_duration;''')],
     demo='''#include <utility>
#include "clock.hpp"
int main() {
  Clock a("a");
  for (int i = 0; i < 3; i++) {
    a.start();
    a.stop();
  }
  Clock b(a);
  Clock c(std::move(a));
  return !(b.msamples == 3 && c.msamples == 3 &&
           c.get_total_duration<std::chrono::nanoseconds>() ==
               b.get_total_duration<std::chrono::nanoseconds>());
}
'''),
dict(id='B10', property='P10',
     needs='sine coefficients of order one of a degree above the order of the '
           'expansion by at least two',
     breaks='The gradient misses a part of the order one sine terms.',
     edits=[(GC, '''cs.C(n, m) * (-Cm0 - Cp2) + cs.S(n, m) * (-3 * Sm0 - Sp2);''',
             '''cs.C(n, m) * (-Cm0 - Cp2) + cs.S(n, m) * (-3 * Sm0 - ((n < 3) ? Sp2 : Sm0));''')],
     srcs=GS,
     demo='''#include "gravity.hpp"
#include <cmath>
#include <cstdio>
int main() {
  for (int n = 1; n < 8; n++) {
    dso::StokesCoeffs cs(n, n);
    cs.clear();
    cs.S(n, 1) = 1e0;
    Eigen::Matrix<double, 3, 1> r(4e6, 5e6, 3e6), a;
    Eigen::Matrix<double, 3, 3> g;
    if (dso::sh2gradient_cunningham(cs, r, a, g))
      return 2;
    if (std::fabs(g.trace()) > 1e-10 * g.norm()) {
      printf("degree %d: trace %g of %g\\n", n, g.trace(), g.norm());
      return 1;
    }
  }
  return 0;
}
'''),
dict(id='B11', property='P04',
     needs='swapping two sets of different order',
     breaks='The order stays behind when two sets are swapped.',
     edits=[('include/stokes_coefficients.hpp',
             '    std::swap(m_order, b.m_order);\n', '')],
     demo='''#include "stokes_coefficients.hpp"
int main() {
  dso::StokesCoeffs a(5, 2), b(7, 6);
  using std::swap;
  swap(a, b);
  return !(a.max_degree() == 7 && a.max_order() == 6 && b.max_degree() == 5 &&
           b.max_order() == 2);
}
''', srcs=['src/lib/stokes_coefficients.cpp']),
dict(id='B12', property='P11',
     needs='a request of an order above the one of a truncated model',
     breaks='Requests beyond the order of the model are served from undefined '
            'coefficients.',
     edits=[(GC, '  if (max_order > cs.max_order()) {',
             '  if (max_order > std::max(cs.max_degree(), cs.max_order())) {')],
     srcs=GS,
     demo='''#include "gravity.hpp"
int main() {
  dso::StokesCoeffs cs(6, 3);
  cs.clear();
  Eigen::Matrix<double, 3, 1> r(4e6, 5e6, 3e6), a;
  Eigen::Matrix<double, 3, 3> g;
  for (int m = 0; m <= 6; m++)
    if ((dso::sh2gradient_cunningham(cs, r, a, g, 6, m) != 0) != (m > 3))
      return 1;
  return 0;
}
'''),
]
