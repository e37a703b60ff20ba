AODH = '''static void header(FILE *f, int deg, int sets, const char *extra) {
  const char *h[][2] = {{"PRODUCER AGENCY", "GFZ"}, {"FILE TYPE ipAOD1BF", "999"}, {"FILE FORMAT 0=BINARY 1=ASCII", "1"},
    {"NUMBER OF HEADER RECORDS", "15"}, {"SATELLITE NAME", "GRACE"}, {"SENSOR NAME", "X"},
    {"TIME EPOCH (GPS TIME)", "2000-01-01 12:00:00"}, {"TIME FIRST OBS(SEC PAST EPOCH)", "268228800.000000 (2008-07-02 00:00:00)"},
    {"TIME LAST OBS(SEC PAST EPOCH)", "268272000.000000 (2008-07-02 12:00:00)"}, {"NUMBER OF DATA RECORDS", "6"},
    {"COEFFICIENTS ERRORS (YES/NO)", "NO"}, {"COEFF. NORMALIZED (YES/NO)", "YES"},
    {"CONSTANT GM [M^3/S^2]", "0.3986004418E+15"}, {"CONSTANT A [M]", "6378136.6"}};
  for (auto &l : h)
    fprintf(f, "%-30s: %s\\n", l[0], l[1]);
  fprintf(f, "%-30s: %d\\n%-30s: %d\\n%s%-30s\\n", "MAXIMUM DEGREE", deg, "NUMBER OF DATA SETS", sets, extra, "END OF HEADER");
}
'''
AOD = ['src/lib/aod1b/*.cpp', 'src/lib/stokes_coefficients.cpp', 'src/lib/doodson/*.cpp']
GFC = '''static void gfc(const char *name, int n, double v) {
  FILE *f = fopen(name, "w");
  fprintf(f, "product_type gravity_field\\nmodelname X\\nearth_gravity_constant 3.986e14\\nradius 6378136.3\\nmax_degree %d\\n"
             "errors no\\nnorm fully_normalized\\ntide_system zero_tide\\nkey L M C S\\nend_of_head ====\\n", n);
  for (int l = 0; l <= n; l++)
    for (int m = 0; m <= l; m++)
      fprintf(f, "gfc %d %d %.6e %.6e\\n", l, m, v + l + 0.1 * m, m ? -v - l - 0.1 * m : 0.);
  fclose(f);
}
'''
TIDE = ['src/lib/tide_atlas*.cpp', 'src/lib/tidal_constituent.cpp', 'src/lib/doodson/*.cpp', 'src/lib/icgem/*.cpp', 'src/lib/stokes_coefficients.cpp']
SEEDS = [
dict(id='D01', property='P01',
     needs='a trapezoidal matrix of more rows than columns',
     breaks='The storage of a trapezoidal matrix is taken for that of a triangular one and holds more elements than documented.',
     edits=[('include/coeff_matrix_storage.hpp', 'if (rows == cols) {\n      std::size_t n = rows;', 'if (rows >= cols) {\n      std::size_t n = rows;')],
     demo='''#include "coeff_matrix_2d.hpp"
int main() {
  const dso::CoeffMatrix2D<dso::MatrixStorageType::Trapezoid> a(6, 4), b(4, 6), c(5, 5);
  return !(a.num_elements() == 1 + 2 + 3 + 4 + 4 + 4 && b.num_elements() == 10 && c.num_elements() == 15);
}
'''),
dict(id='D06', property='P06',
     needs='a set of order above 200',
     breaks='Sine coefficients are unpacked up to order 200, only.',
     edits=[('include/stokes_coefficients.hpp', 'for (int l=0; l<m; l++) {', 'for (int l=0; l<m && l<200; l++) {')],
     srcs=['src/lib/stokes_coefficients.cpp'],
     demo='''#include "stokes_coefficients.hpp"
int main() {
  dso::StokesCoeffs a(204, 204);
  a.clear();
  for (int m = 0; m <= 204; m++)
    for (int n = m; n <= 204; n++) {
      a.C(n, m) = 100 + 1000 * n + m;
      if (m)
        a.S(n, m) = -(100. + 1000 * n + m);
    }
  const auto b = dso::StokesCoeffs::from_anm(a.to_anm());
  for (int m = 0; m <= 204; m++)
    for (int n = m; n <= 204; n++)
      if (b.C(n, m) != a.C(n, m) || b.S(n, m) != a.S(n, m))
        return 1;
  return 0;
}
'''),
dict(id='D09', property='P09',
     needs='the highest degree and order there is',
     breaks='The factors of the recursion end two too early, so that the sectorial term of the highest degree is lost.',
     edits=[('src/lib/gravity/sh_cunningham_normalized_gradient.cpp', 'for (int n = 2; n < N; n++) {', 'for (int n = 2; n < N - 2; n++) {')],
     srcs=['src/lib/gravity/sh_cunningham_normalized_gradient.cpp', 'src/lib/stokes_coefficients.cpp'],
     demo='''#include "gravity.hpp"
#include <cmath>
int main() {
  /* sectorial terms on the equator; what is next to them is of no matter */
  for (int n : {2, 50, 197, 198}) {
    dso::StokesCoeffs s(n, n, 1., 1.);
    s.clear();
    s.C(n, n) = 1;
    Eigen::Vector3d a;
    Eigen::Matrix3d g;
    if (dso::sh2gradient_cunningham(s, Eigen::Vector3d(1, 0, 0), a, g, n, n, 1., 1.))
      return 1;
    double p = 2;
    for (int k = 1; k <= n; k++)
      p *= (2. * k + 1) / (2. * k) * (k == 1 ? 1 : 1);
    p = std::sqrt(p * (1.));
    if (!(std::abs(a(0) / (-(n + 1.) * p) - 1) < 1e-9))
      return 1;
  }
  return 0;
}
'''),
dict(id='D25', property='P25', shim=True,
     needs='a file with calibrated and with formal errors',
     breaks='Files with both kinds of errors are taken for those with one.',
     edits=[('src/lib/icgem/icgemio_read_header.cpp', '''        if (!std::strncmp(arg, "calibrated_and_formal", 21))
          _errors = ErrorModel::CalibratedAndFormal;
        else if (!std::strncmp(arg, "calibrated", 10))
          _errors = ErrorModel::Calibrated;
''', '''        if (!std::strncmp(arg, "calibrated", 10))
          _errors = ErrorModel::Calibrated;
        else if (!std::strncmp(arg, "calibrated_and_formal", 21))
          _errors = ErrorModel::CalibratedAndFormal;
''')],
     srcs=['src/lib/icgem/*.cpp', 'src/lib/stokes_coefficients.cpp'],
     demo='''#include "icgemio.hpp"
#include <cstdio>
static dso::Icgem::ErrorModel m(const char *e) {
  FILE *f = fopen("m.gfc", "w");
  fprintf(f, "product_type gravity_field\\nmodelname X\\nearth_gravity_constant 3.986e14\\nradius 6378136.3\\nmax_degree 2\\n"
             "errors %s\\nnorm fully_normalized\\ntide_system zero_tide\\nkey L M C S\\nend_of_head ====\\n", e);
  fclose(f);
  return dso::Icgem("m.gfc").errors();
}
int main() {
  using E = dso::Icgem::ErrorModel;
  return !(m("no") == E::No && m("formal") == E::Formal && m("calibrated") == E::Calibrated && m("calibrated_and_formal") == E::CalibratedAndFormal);
}
'''),
dict(id='D31', property='P31', shim=True,
     needs='a block whose last line is not the one of the highest order',
     breaks='The size of a resized container follows from the last line of the block, not from all of them.',
     edits=[('src/lib/aod1b/aod1b_collect_coeffs.cpp', 'max_order_collected = std::max(max_order_collected, m);', 'max_order_collected = m;')],
     srcs=AOD,
     demo='''#include "aod1b.hpp"
#include <cstdio>
''' + AODH + '''int main() {
  FILE *f = fopen("a.asc", "w");
  header(f, 2, 1, "");
  fprintf(f, "DATA SET 01:        4 COEFFICIENTS FOR 2008-07-02 00:00:00 OF TYPE glo\\n"
             "   0   0 1.0e+00 0.0e+00\\n   2   2 4.0e+00 5.0e+00\\n   2   1 2.0e+00 3.0e+00\\n   2   0 7.0e+00 0.0e+00\\n");
  fclose(f);
  dso::Aod1bIn a("a.asc");
  dso::Aod1bDataBlockIterator<dso::AOD1BCoefficientType::GLO> it(a);
  it.set_begin();
  dso::StokesCoeffs s(0, 0);
  if (it.collect(s, 2, 2, true))
    return 1;
  return !(s.max_degree() == 2 && s.max_order() == 2 && s.C(2, 2) == 4 && s.S(2, 2) == 5 && s.C(2, 0) == 7);
}
'''),
dict(id='D33', property='P33', shim=True,
     needs='a request of lower order than degree',
     breaks='Sine terms of a wave are read up to the degree, whatever the order asked for.',
     edits=[('src/lib/aod1b/aod1b_get_tidal_wave.cpp', '''    if ((l <= max_degree) && (m <= max_order) && (!error)) {
      res = std::from_chars(skipws(res.ptr), stop, sCs.C(l, m));''', '''    if ((l <= max_degree) && (m <= max_degree) && (!error)) {
      res = std::from_chars(skipws(res.ptr), stop, sCs.C(l, m));''')],
     srcs=AOD,
     demo='''#include "aod1b.hpp"
#include <cstdio>
''' + AODH + '''int main() {
  FILE *f = fopen("a.asc", "w");
  header(f, 2, 2, "PARTIAL TIDE                  : S2\\n");
  for (int k = 1; k <= 2; k++) {
    fprintf(f, "DATA SET %02d:        6 COEFFICIENTS OF TYPE %s\\n", k, k == 1 ? "cos" : "sin");
    for (int l = 0; l <= 2; l++)
      for (int m = 0; m <= l; m++)
        fprintf(f, "  %d  %d  %.3e  %.3e\\n", l, m, k * 100. + l * 10 + m, m ? k * 1000. + l * 10 + m : 0);
  }
  fclose(f);
  dso::Aod1bIn a("a.asc");
  dso::StokesCoeffs c(2, 2), s(2, 2);
  if (a.get_tidal_wave_coeffs(c, s, 2, 1))
    return 1;
  return !(c.C(2, 1) == 121 && s.C(2, 1) == 221 && s.S(2, 1) == 2021 && c.C(2, 2) == 0 && s.C(2, 2) == 0 && s.S(2, 2) == 0);
}
'''),
dict(id='D35', property='P35', shim=True,
     needs='a zonal line that ends before its second number',
     breaks='Lines of zonal terms may lack their sine coefficient.',
     edits=[('src/lib/aod1b/aod1b_collect_coeffs.cpp', '''      res = std::from_chars(skipws(res.ptr), stop, cs.S(l, m));
      error += (res.ec != std::errc{});''', '''      res = std::from_chars(skipws(res.ptr), stop, cs.S(l, m));
      error += (m && res.ec != std::errc{});''')],
     srcs=AOD,
     demo='''#include "aod1b.hpp"
#include <cstdio>
''' + AODH + '''static int get(const char *line) {
  FILE *f = fopen("a.asc", "w");
  header(f, 1, 1, "");
  fprintf(f, "DATA SET 01:        3 COEFFICIENTS FOR 2008-07-02 00:00:00 OF TYPE glo\\n"
             "   0   0 1.0e+00 0.0e+00\\n%s\\n   1   1 2.0e+00 3.0e+00\\n", line);
  fclose(f);
  dso::Aod1bIn a("a.asc");
  dso::Aod1bDataBlockIterator<dso::AOD1BCoefficientType::GLO> it(a);
  it.set_begin();
  dso::StokesCoeffs s(1, 1);
  return it.collect(s, 1, 1);
}
int main() { return !(!get("   1   0 7.0e+00 0.0e+00") && get("   1   0 7.0e+00") && get("   1   0 7.0e+00 x")); }
'''),
dict(id='D40', property='P40', shim=True,
     needs='a lower order than degree asked for',
     breaks='Waves are read up to the degree asked for, whatever the order.',
     edits=[('src/lib/tide_atlas_groops.cpp', 'if (icgem.parse_data(max_degree, max_order, dso', 'if (icgem.parse_data(max_degree, max_degree, dso')],
     srcs=TIDE,
     demo='''#include "tide_atlas.hpp"
#include <cstdio>
''' + GFC + '''int main() {
  gfc("X_255.555_M2_cos.gfc", 4, 10);
  gfc("X_255.555_M2_sin.gfc", 4, 20);
  FILE *f = fopen("list.txt", "w");
  fprintf(f, "X_255.555_M2_cos.gfc X_255.555_M2_sin.gfc\\n");
  fclose(f);
  const auto a = dso::groops_atlas("list.txt", ".", 4, 2);
  const auto &w = a.waves()[0];
  return !(a.waves().size() == 1 && w.stokes_cos().max_degree() == 4 && w.stokes_cos().max_order() == 2 && w.stokes_sin().max_order() == 2 &&
           w.stokes_sin().C(4, 2) == 24.2);
}
'''),
dict(id='D41', property='P41', shim=True, flags='-DNDEBUG -DSPARSE_ADMITTANCE_MATRIX',
     needs='a build with sparse matrices and an admittance below zero',
     breaks='Admittances below zero are left out of the sparse matrix.',
     edits=[('src/lib/tide_atlas_groops.cpp', '      if (val)\n', '      if (val > 0)\n')],
     srcs=TIDE,
     demo='''#include "tide_atlas.hpp"
#include <cstdio>
''' + GFC + '''int main() {
  gfc("X_255.555_M2_cos.gfc", 2, 10);
  gfc("X_255.555_M2_sin.gfc", 2, 20);
  FILE *f = fopen("1.txt", "w");
  fprintf(f, "X_255.555_M2_cos.gfc X_255.555_M2_sin.gfc\\n");
  fclose(f);
  f = fopen("2.txt", "w");
  fprintf(f, "2 0 0 0 0 0\\n2 2 -2 0 0 0\\n");
  fclose(f);
  f = fopen("3.txt", "w");
  fprintf(f, "1.0 -0.25\\n");
  fclose(f);
  dso::GroopsTideModel m;
  dso::groops_atlas("1.txt", "2.txt", "3.txt", ".", m);
  return !(m.admittance_matrix().coeff(0, 0) == 1 && m.admittance_matrix().coeff(0, 1) == -0.25);
}
'''),
dict(id='D71', property='P71', shim=True,
     needs='accuracy of some microarcseconds, as the Conventions have',
     breaks='The separate version of Y forgets the accumulated precession in the arguments of its terms.',
     edits=[('src/lib/iau/ycip06a.cpp', 'for (int i = 5; i < 14; i++)\n        arg += fargs[i] * f[i];', 'for (int i = 5; i < 13; i++)\n        arg += fargs[i] * f[i];')],
     srcs=['src/lib/iau/*.cpp', 'src/lib/fundarg/*.cpp'],
     demo='''#include "iau.hpp"
#include <cmath>
int main() {
  for (int d = 30000; d < 80000; d += 5001) {
    double x, y, X, Y;
    const dso::MjdEpoch t(d);
    dso::xycip06a(t, x, y);
    dso::extra::xycip06a(t, X, Y);
    /* a tenth of a microarcsecond */
    if (!(std::abs(x - X) < 5e-13 && std::abs(y - Y) < 5e-13))
      return 1;
  }
  return 0;
}
'''),
dict(id='D91', property='P91', shim=True,
     needs='the position of one planet',
     breaks='Jupiter is taken for the barycenter of its system.',
     edits=[('src/lib/planets/planet_to_naif_id.cpp', '{dso::Planet::JUPITER, 599}', '{dso::Planet::JUPITER, 5}')],
     srcs=['src/lib/planets/planet_to_naif_id.cpp'],
     demo='''#include "planets.hpp"
#include <cstring>
int main() {
  char s[8];
  int id;
  return !(!dso::cspice::planet_to_naif_id(dso::Planet::JUPITER, id) && id == 599 && !dso::cspice::planet_to_naif_idstr(dso::Planet::JUPITER, s, 8) && !strcmp(s, "599"));
}
'''),
]
