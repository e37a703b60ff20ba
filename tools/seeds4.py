EOPR = ''.join('''
''')
SEEDS = [
dict(id='C01', property='P08',
     needs='an order lower than the degree by two or more',
     breaks='Derivatives of the Legendre functions of the last order are wrong from the second term on.',
     edits=[('src/lib/gravity/forward_column_alf.cpp', '\n    dpmm[k] = uinv * (n*t*pmm[k] - fnm(n,m)*pmm[k-1]);', '\n    dpmm[k] = uinv * (k*t*pmm[k] - fnm(n,m)*pmm[k-1]);')],
     srcs=['src/lib/gravity/forward_column_alf.cpp'],
     demo='''#include "gravity.hpp"
#include <cmath>
int main() {
  using Mat = dso::CoeffMatrix2D<dso::MatrixStorageType::LwTriangularColWise>;
  Mat P(8, 8), D(8, 8), a(8, 8), b(8, 8);
  const double h = 1e-5;
  for (int order = 0; order <= 7; order++) {
    dso::normalised_associated_legendre_functions(0.7, 7, order, P, D);
    dso::normalised_associated_legendre_functions(0.7 + h, 7, order, a);
    dso::normalised_associated_legendre_functions(0.7 - h, 7, order, b);
    /* the sign is that of the library: against the sine of theta */
    for (int m = 0; m <= order; m++)
      for (int n = m; n <= 7; n++)
        if (!(std::abs(D(n, m) + (a(n, m) - b(n, m)) / (2 * h)) < 1e-6))
          return 1;
  }
  return 0;
}
'''),
dict(id='C02', property='P13',
     needs='a body about as far from the satellite as from the Earth, but not exactly',
     breaks='The Jacobian of the acceleration takes the distance of the body from the Earth in place of that from the satellite.',
     edits=[('src/lib/gravity/point_mass_acceleration.cpp', 'const double S5 = S3 * s.squaredNorm();', 'const double S5 = S3 * rcb.squaredNorm();')],
     srcs=['src/lib/gravity/point_mass_acceleration.cpp'],
     demo='''#include "gravity.hpp"
#include <cmath>
int main() {
  const Eigen::Vector3d r(7e6, -3e6, 1e6), b(2.1e8, 3.0e8, -1e8);
  Eigen::Matrix3d J;
  dso::point_mass_acceleration(r, b, 4.9e12, J);
  for (int i = 0; i < 3; i++) {
    const Eigen::Vector3d e = Eigen::Vector3d::Unit(i) * 1e3;
    const Eigen::Vector3d d = (dso::point_mass_acceleration(r + e, b, 4.9e12) - dso::point_mass_acceleration(r - e, b, 4.9e12)) / 2e3;
    if (!((J.col(i) - d).norm() < 1e-4 * J.norm()))
      return 1;
  }
  return 0;
}
'''),
dict(id='C03', property='P16',
     needs='a grid that is stored along Y and has different numbers of points along its axes',
     breaks='The node to the right is taken as far away as if the grid were stored along X.',
     edits=[('include/grid.hpp', 'idx_br = idx_bl + mypts;', 'idx_br = idx_bl + mxpts;')],
     demo='''#include "grid.hpp"
#include <cmath>
int main() {
  const dso::TwoDimGrid<dso::GridAxis::X> g(0, 1, 7, 0, 1, 5);
  long bl, br, tl, tr;
  g.surrounding_nodes(2.5, 3.5, bl, br, tl, tr);
  const auto n = g.xyindex2node(br);
  return !(n.x == 3 && n.y == 3);
}
'''),
dict(id='C04', property='P26', shim=True,
     needs='a static term of zero followed by a trend, at another epoch than the terms before',
     breaks='The epoch of a time variable term is only noted if its static part is not zero.',
     edits=[('src/lib/icgem/icgemio_read_data_v1.cpp', 'dt = t.diff<DateTimeDifferenceType::FractionalYears>(entry.t0)', 'if (entry.C != 0e0 || entry.S != 0e0)\n              dt = t.diff<DateTimeDifferenceType::FractionalYears>(entry.t0)')],
     srcs=['src/lib/icgem/*.cpp', 'src/lib/stokes_coefficients.cpp'],
     demo='''#include "icgemio.hpp"
#include <cmath>
#include <cstdio>
static double c(const char *value) {
  FILE *f = fopen("m.gfc", "w");
  fprintf(f, "product_type gravity_field\\nmodelname X\\nearth_gravity_constant 3.986e14\\nradius 6378136.3\\nmax_degree 2\\n"
             "errors no\\nnorm fully_normalized\\ntide_system zero_tide\\nkey L M C S\\nend_of_head ====\\n"
             "gfc 0 0 1.0 0.0\\ngfct 2 0 -4.0e-4 0.0 20000101\\ntrnd 2 0 1.0e-6 0.0\\n"
             "gfct 2 1 %s 0.0 20100101\\ntrnd 2 1 1.0e-6 0.0\\n", value);
  fclose(f);
  dso::Icgem i("m.gfc");
  dso::StokesCoeffs s(2, 2);
  if (i.parse_data(2, 2, dso::Datetime<dso::nanoseconds>(dso::modified_julian_day(57000), dso::nanoseconds(0)), s))
    return -1;
  return s.C(2, 1);
}
int main() { return !(std::abs((c("1.0e-3") - 1e-3) - c("0.0")) < 1e-12 && std::abs(c("0.0") - 4.94e-6) < 1e-7); }
'''),
dict(id='C05', property='P53', shim=True,
     needs='more than one entry on a day',
     breaks='The tidal arguments are computed once per day, for the first entry of the day.',
     edits=[('src/lib/eop/regularize.cpp', '    dso::fundarg(entry.t(), fargs);\n', '    if (&entry == &mvec.front() || entry.t().imjd() != (&entry - 1)->t().imjd())\n      dso::fundarg(entry.t(), fargs);\n')],
     srcs=['src/lib/eop/regularize.cpp', 'src/lib/eop/zonal_tides.cpp', 'src/lib/fundarg/*.cpp'],
     demo='''#include "eop.hpp"
#include <cmath>
static double lod(double sec, bool with) {
  dso::EopSeries s;
  dso::EopRecord r;
  r.xp() = r.yp() = r.dX() = r.dY() = r.lod() = r.dut() = 0;
  r.dat() = 37;
  if (with) {
    r.t() = dso::MjdEpoch(57000);
    s.push_back(r);
  }
  r.t() = dso::MjdEpoch(57000, dso::FractionalSeconds(sec));
  s.push_back(r);
  s.reset_vec_iterator();
  s.regularize();
  return s.give_me_the_vector().back().dut();
}
int main() { return !(std::abs(lod(72000, true) - lod(72000, false)) < 1e-12); }
'''),
dict(id='C06', property='P60', shim=True,
     needs='a table whose latest entries come first',
     breaks='Entries that are older than the one before are dropped.',
     edits=[('src/lib/free_core_nutation/parse_lambert_coeffs.cpp', 'lvec.emplace_back(t, d[2], d[3], d[4]);', 'if (lvec.empty() || t >= lvec.back().t)\n        lvec.emplace_back(t, d[2], d[3], d[4]);')],
     srcs=['src/lib/free_core_nutation/*.cpp'],
     demo='''#include "fcn.hpp"
#include <cstdio>
int main() {
  FILE *f = fopen("t.txt", "w");
  fprintf(f, "%% year MJD X Y S\\n1986.0 46431.000 -264.4 12.3 4.4\\n1985.0 46066.000 -259.5 9.1 4.1\\n1984.0 45700.000 -244.7 25.3 4.0\\n");
  fclose(f);
  std::vector<dso::fcn::LambertCoefficients> v;
  if (dso::parse_lambert_coefficients("t.txt", dso::MjdEpoch(0), dso::MjdEpoch(60000), v))
    return 1;
  return v.size() != 3;
}
'''),
dict(id='C07', property='P80', shim=True,
     needs='an instance for another gravitational constant of the Earth',
     breaks='The mass ratio of the Moon is that to the Earth of the conventions, whatever the constant given.',
     edits=[('include/solid_earth_tide.hpp', ': mSEratio(GMsun / GMearth), mMEratio(GMmoon / GMearth),', ': mSEratio(GMsun / GMearth), mMEratio(GMmoon / ::iers2010::GMe),')],
     srcs=['src/lib/solid_earth_tides/*.cpp', 'src/lib/stokes_coefficients.cpp', 'src/lib/iau/gmst.cpp', 'src/lib/iau/era00.cpp'],
     demo='''#include "solid_earth_tide.hpp"
#include <cmath>
static double c(double gme, double gml) {
  const Eigen::Vector3d moon(3.8e8, 0, 1e8), sun(1.5e11, 0, 0);
  const double f[5] = {0.3, 1.7, 2.9, 4.1, 5.3};
  dso::SolidEarthTide t(gme, 6378136.6, 0, gml);
  t.stokes_coeffs(dso::MjdEpoch(57000), dso::MjdEpoch(57000), moon, sun, f);
  return t.stokes_coeffs().C(3, 0);
}
int main() { return !(std::abs(c(3.9e14, 4.9e12) / c(7.8e14, 9.8e12) - 1) < 1e-9); }
'''),
dict(id='C08', property='P70', shim=True,
     needs='an epoch some centuries from J2000',
     breaks='The sign of the cubic term of the accumulated precession in GMST is wrong.',
     edits=[('src/lib/iau/gmst.cpp', '(-0.00000044e0 + (', '(+0.00000044e0 + (')],
     srcs=['src/lib/iau/gmst.cpp', 'src/lib/iau/era00.cpp'],
     demo='''#include "iau.hpp"
#include <cmath>
int main() {
  double q[5];
  for (int i = -2; i <= 2; i++) {
    const dso::MjdEpoch t(51544 + 36525 * 8 * i, dso::FractionalSeconds(43200e0));
    q[i + 2] = std::remainder(dso::gmst(t, t) - dso::era00(t) - 4612.156534 * 8 * i * M_PI / 180 / 3600, 2 * M_PI);
  }
  /* the odd part without the linear term */
  const double d = ((q[4] - q[0]) - 2 * (q[3] - q[1])) / (2 * 6 * 512.) * 180 * 3600 / M_PI;
  return !(d < 0 && true ? std::abs(d - (-0.00000044 - 0.0000000368 * 64 * 5)) < 2e-7 : false);
}
'''),
dict(id='C09', property='P32', shim=True,
     needs='a product of blocks that are not three hours apart',
     breaks='Blocks are taken to be three hours apart.',
     edits=[('include/aod1b_data_stream.hpp', """    const double t2t1 =
        t2.diff<DateTimeDifferenceType::FractionalDays>(t1).days();
""", """    const double t2t1 = 3e0 / 24e0;
""")],
     srcs=['src/lib/aod1b/*.cpp', 'src/lib/stokes_coefficients.cpp', 'src/lib/doodson/*.cpp'],
     demo='''#include "aod1b_data_stream.hpp"
#include <cmath>
#include <cstdio>
int main() {
  FILE *f = fopen("a.asc", "w");
  const char *h[][2] = {{"PRODUCER AGENCY", "GFZ"}, {"FILE TYPE ipAOD1BF", "999"}, {"FILE FORMAT 0=BINARY 1=ASCII", "1"},
    {"NUMBER OF HEADER RECORDS", "15"}, {"SATELLITE NAME", "GRACE"}, {"SENSOR NAME", "X"},
    {"TIME EPOCH (GPS TIME)", "2000-01-01 12:00:00"}, {"TIME FIRST OBS(SEC PAST EPOCH)", "268228800.000000 (2008-07-02 00:00:00)"},
    {"TIME LAST OBS(SEC PAST EPOCH)", "268272000.000000 (2008-07-02 12:00:00)"}, {"NUMBER OF DATA RECORDS", "6"},
    {"MAXIMUM DEGREE", "0"}, {"COEFFICIENTS ERRORS (YES/NO)", "NO"}, {"COEFF. NORMALIZED (YES/NO)", "YES"},
    {"CONSTANT GM [M^3/S^2]", "0.3986004418E+15"}, {"CONSTANT A [M]", "6378136.6"}, {"NUMBER OF DATA SETS", "3"}};
  for (auto &l : h)
    fprintf(f, "%-30s: %s\\n", l[0], l[1]);
  fprintf(f, "END OF HEADER\\n");
  for (int k = 0; k < 3; k++)
    fprintf(f, "DATA SET %02d:        1 COEFFICIENTS FOR 2008-07-02 %02d:00:00 OF TYPE glo\\n   0   0 %.6e  0.000000e+00\\n", k + 1, 6 * k, 1. + k);
  fclose(f);
  dso::Aod1bDataStream<dso::AOD1BCoefficientType::GLO> s("a.asc");
  if (s.initialize())
    return 1;
  dso::StokesCoeffs c(0, 0);
  /* 09:00 in GPS time, which is 51.184 s less than TT */
  const dso::Datetime<dso::nanoseconds> t(dso::modified_julian_day(54649), dso::nanoseconds((9L * 3600 + 51) * 1000000000L + 184000000L));
  if (s.coefficients_at(t, c))
    return 1;
  return !(std::abs(c.C(0, 0) - 2.5) < 1e-9);
}
'''),
dict(id='C10', property='P50', shim=True,
     needs='a window of dates that spans a leap second',
     breaks='The difference of atomic time is that of the first date of the window, for all of them.',
     edits=[('src/lib/eop/parse_iers_c0420.cpp', '        rec.dat() = dat;', '        if (!eops.num_entries())\n          rec.dat() = dat;')],
     srcs=['src/lib/eop/parse_iers_c0420.cpp'],
     demo='''#include "eop.hpp"
#include <cmath>
#include <cstdio>
int main() {
  FILE *f = fopen("e.txt", "w");
  for (int i = 0; i < 6; i++)
    fprintf(f, "# x\\n");
  const int d[][3] = {{2016, 12, 30}, {2016, 12, 31}, {2017, 1, 1}, {2017, 1, 2}};
  for (int i = 0; i < 4; i++)
    fprintf(f, "%4d  %2d  %2d  0  %.2f    0.100000    0.200000  -0.4000000    0.000100    0.000200    0.000000    0.000000    0.0010000"
               "   0.000000   0.000000   0.0000000   0.000000   0.000000   0.000000   0.000000   0.0000000\\n",
            d[i][0], d[i][1], d[i][2], 57752. + i);
  fclose(f);
  dso::EopSeries s;
  if (dso::details::parse_iers_C0420("e.txt", dso::MjdEpoch(57750), dso::MjdEpoch(57760), s))
    return 1;
  const auto &v = s.give_me_the_vector();
  return !(v.size() == 4 && v[0].dat() == 36 && v[1].dat() == 36 && v[2].dat() == 37 && v[3].dat() == 37);
}
'''),
dict(id='C11', property='P66', shim=True,
     needs='a line of more than 100 characters',
     breaks='Only the first 100 characters of a line count.',
     edits=[('src/lib/pole_tide/parse_desai02_coeffs.cpp', 'auto sz = std::strlen(line);', 'auto sz = std::strlen(line) < 100 ? std::strlen(line) : 100;')],
     srcs=['src/lib/pole_tide/*.cpp', 'src/lib/stokes_coefficients.cpp'],
     demo='''#include "pole_tide.hpp"
#include <cmath>
#include <cstdio>
static int go(int w, double &v) {
  FILE *f = fopen("d.txt", "w");
  fprintf(f, "n m Anm(Real) Bnm(Real) Anm(Imaginary) Bnm(Imaginary)\\n");
  for (int n = 0; n <= 2; n++)
    for (int m = 0; m <= n; m++)
      fprintf(f, "%d %d %*.15e %*.15e %*.15e %*.15e\\n", n, m, w, 1e-1, w, 2e-1, w, 3e-1, w, 4e-1);
  fclose(f);
  dso::CoeffMatrix2D<dso::MatrixStorageType::LwTriangularColWise> a(3, 3), b(3, 3), c(3, 3), d(3, 3);
  const int e = dso::pole_tide_details::parse_desai02_coeffs("d.txt", 2, 2, a, b, c, d);
  v = d(2, 1);
  return e;
}
int main() {
  double v;
  return go(23, v) || v != 0.4 || go(25, v) || v != 0.4;
}
'''),
dict(id='C12', property='P43', shim=True,
     needs='a wave whose phase is shifted to the other side',
     breaks='A phase of minus half pi is taken as plus half pi.',
     edits=[('src/lib/atmospheric_tides/atm_tides_geopotential.cpp', 'wave.wave().doodson().pifactor() * dso::DPI/2;', 'std::abs(wave.wave().doodson().pifactor()) * dso::DPI/2;')],
     srcs=['src/lib/atmospheric_tides/*.cpp', 'src/lib/aod1b/*.cpp', 'src/lib/tide_atlas*.cpp', 'src/lib/tidal_constituent.cpp', 'src/lib/doodson/*.cpp', 'src/lib/icgem/*.cpp',
           'src/lib/stokes_coefficients.cpp', 'src/lib/iau/gmst.cpp', 'src/lib/iau/era00.cpp', 'src/lib/fundarg/*.cpp'],
     demo='''#include "atmospheric_tides.hpp"
#include <cmath>
static double c(double pi) {
  dso::TideAtlas a;
  auto it = a.append_wave(dso::TidalWave(dso::DoodsonConstituent(1, 1, -2, 0, 0, 0, pi), 0, 0, "P1"), 2, 2);
  it->stokes_cos().clear();
  it->stokes_sin().clear();
  it->stokes_cos().C(2, 1) = 1;
  const double f[5] = {1, 2, 3, 4, 5};
  const dso::MjdEpoch t(58000, dso::FractionalSeconds(100e0));
  dso::AtmosphericTide x(a);
  x.stokes_coeffs(t, t, f);
  return x.stokes_coeffs().C(2, 1);
}
int main() { return !(std::abs(c(-1) + c(1)) < 1e-12 && std::abs(c(1)) > 1e-3); }
'''),
dict(id='C13', property='P52', shim=True,
     needs='more than a hundredth of a microsecond of accuracy',
     breaks='The sign of the term of 27 days of the rate of the rotation is that of its neighbours.',
     edits=[('src/lib/eop/zonal_tides.cpp', '{-1, 0, 2, 0, 1, 26.98, 0.1767, 0e0, -0.4115, 0e0, 0.3473, 0e0}', '{-1, 0, 2, 0, 1, 26.98, 0.1767, 0e0, -0.4115, 0e0, -0.3473, 0e0}')],
     srcs=['src/lib/eop/zonal_tides.cpp'],
     demo='''#include "eop.hpp"
#include <cmath>
int main() {
  /* the coefficient of the term by averaging over the arguments */
  double sum = 0, dut, lod, om;
  const int N = 16;
  for (int a = 0; a < N; a++)
    for (int b = 0; b < N; b++)
      for (int c = 0; c < N; c++)
        for (int d = 0; d < N; d++) {
          const double l = 2 * M_PI * a / N, F = 2 * M_PI * b / N, O = 2 * M_PI * c / N, D = 2 * M_PI * d / N;
          const double f[5] = {l, 0.3, F, D, O};
          dso::deop_zonal_tide(f, dut, lod, om);
          sum += om * std::cos(-l + 2 * F + O) * 2 / (double)(N * N * N * N);
        }
  return !(std::abs(sum - 0.3473) < 1e-3 || std::abs(sum - 0.3473e-14) < 1e-17 || std::abs(sum - 34.73) < 0.1);
}
'''),
dict(id='C14', property='P73', shim=True,
     needs='a length of day other than 86400 s',
     breaks='The rate of the rotation of the Earth is that for a day which is shorter by what it is longer.',
     edits=[('src/lib/earth_rotation/c2i06a.cpp', 'dso::earth_rotation_rate(eops.lod())) *', 'dso::earth_rotation_rate(-eops.lod())) *')],
     srcs=['src/lib/earth_rotation/*.cpp', 'src/lib/iau/*.cpp', 'src/lib/fundarg/*.cpp'],
     demo='''#include "earth_rotation.hpp"
#include <cmath>
static Eigen::Matrix3d m(double lod) {
  dso::EopRecord r;
  r.t() = dso::MjdEpoch(57000);
  r.xp() = r.yp() = r.dX() = r.dY() = r.dut() = 0;
  r.dat() = 35;
  r.lod() = lod;
  Eigen::Matrix3d d;
  dso::c2i06a(dso::MjdEpoch(57000), r, d);
  return d;
}
int main() {
  /* a longer day is a slower turn */
  return !(m(1.).norm() < m(0).norm());
}
'''),
dict(id='C15', property='P30', shim=True,
     needs='a product that does not start at a whole second',
     breaks='The parts of the second of the first epoch are dropped.',
     edits=[('src/lib/aod1b/aod1b_read_header.cpp', """      nanoseconds isec(static_cast<nanoseconds::underlying_type>(sec * 1e9));
      first_epoch()""", """      nanoseconds isec(static_cast<nanoseconds::underlying_type>(sec) * 1000000000L);
      first_epoch()""")],
     srcs=['src/lib/aod1b/*.cpp', 'src/lib/stokes_coefficients.cpp', 'src/lib/doodson/*.cpp'],
     demo='''#include "aod1b.hpp"
#include <cmath>
#include <cstdio>
int main() {
  FILE *f = fopen("a.asc", "w");
  const char *h[][2] = {{"PRODUCER AGENCY", "GFZ"}, {"FILE TYPE ipAOD1BF", "999"}, {"FILE FORMAT 0=BINARY 1=ASCII", "1"},
    {"NUMBER OF HEADER RECORDS", "15"}, {"SATELLITE NAME", "GRACE"}, {"SENSOR NAME", "X"},
    {"TIME EPOCH (GPS TIME)", "2000-01-01 12:00:00"}, {"TIME FIRST OBS(SEC PAST EPOCH)", "268228800.500000 (2008-07-02 00:00:00.500000)"},
    {"TIME LAST OBS(SEC PAST EPOCH)", "268228800.500000 (2008-07-02 00:00:00.500000)"}, {"NUMBER OF DATA RECORDS", "2"},
    {"MAXIMUM DEGREE", "0"}, {"COEFFICIENTS ERRORS (YES/NO)", "NO"}, {"COEFF. NORMALIZED (YES/NO)", "YES"},
    {"CONSTANT GM [M^3/S^2]", "0.3986004418E+15"}, {"CONSTANT A [M]", "6378136.6"}, {"NUMBER OF DATA SETS", "1"}};
  for (auto &l : h)
    fprintf(f, "%-30s: %s\\n", l[0], l[1]);
  fprintf(f, "END OF HEADER\\n");
  fclose(f);
  dso::Aod1bIn a("a.asc");
  const auto &b = a;
  /* what differs is the part of a second of the second one */
  const double d = b.first_epoch().diff<dso::DateTimeDifferenceType::FractionalSeconds>(b.time_epoch()).seconds();
  return !(std::abs(d - 268228800.5) < 1e-3);
}
'''),
]
