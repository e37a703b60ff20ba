SEEDS = [
dict(id='B20', property='P20', shim=True,
     needs='a constituent with a multiplier of exactly +5 (written 10 after adding five)',
     breaks='A Doodson number with a ten is written with a character that is no digit or letter and cannot be read back.',
     edits=[('include/doodson.hpp', 'if (d > 9)\n      return (\'a\'', 'if (d > 10)\n      return (\'a\'')],
     srcs=['src/lib/doodson/*.cpp'],
     demo='''#include "doodson.hpp"
int main() {
  for (int a = -8; a <= 8; a++) {
    dso::DoodsonConstituent d(5, a, -a, 0, 1, -1);
    char buf[16] = {0};
    d.str(buf, true);
    if (dso::DoodsonConstituent::from_chars(buf) != d)
      return 1;
  }
  return 0;
}
'''),
dict(id='B21', property='P21', shim=True,
     needs='an epoch some ten centuries from J2000',
     breaks='The quartic term of the mean elongation of the Moon has the wrong sign; below a milliarcsecond for decades.',
     edits=[('include/fundarg.hpp', 't * (-6.3706e0 + t * (0.006593e0 + t * (-0.00003169e0))))', 't * (-6.3706e0 + t * (0.006593e0 + t * (+0.00003169e0))))')],
     srcs=['src/lib/fundarg/*.cpp'],
     demo='''#include "fundarg.hpp"
#include <cmath>
int main() {
  for (int i = -20; i <= 20; i++) {
    const long double t = i;
    const long double as = 1072260.703692L + t * (1602961601.2090L + t * (-6.3706L + t * (0.006593L - t * 0.00003169L)));
    const long double w = as * M_PIl / 648000.L;
    if (fabsl(sinl((dso::iers2010::fad03((double)t) - w) / 2)) > 1e-8L)
      return 1;
  }
  return 0;
}
'''),
dict(id='B23', property='P27', shim=True,
     needs='an epoch that is exactly the end of one interval and the start of the next',
     breaks='Both intervals are counted at the epoch where they meet.',
     edits=[('src/lib/icgem/icgemio_read_data_v2.cpp', 't < entry.t1)', 't <= entry.t1)')],
     srcs=['src/lib/icgem/*.cpp', 'src/lib/stokes_coefficients.cpp'],
     demo='''#include "icgemio.hpp"
#include <cstdio>
#include <cmath>
int main() {
  FILE *f = fopen("m.gfc", "w");
  fputs("begin_of_head ====\\nproduct_type gravity_field\\nmodelname X\\nearth_gravity_constant 3.986004415E+14\\n"
        "radius 6378136.46\\nmax_degree 2\\nerrors formal\\nnorm fully_normalized\\ntide_system zero_tide\\n"
        "format icgem2.0\\nkey L M C S sigma_C sigma_S\\nend_of_head ====\\n"
        "gfc 0 0 1.0 0.0 0.0 0.0\\n"
        "gfct 2 0 1.0 0.0 0.0 0.0 20000101.0000 20050101.0000\\n"
        "gfct 2 0 3.0 0.0 0.0 0.0 20050101.0000 20100101.0000\\n", f);
  fclose(f);
  dso::Icgem g("m.gfc");
  dso::StokesCoeffs c(2, 2);
  const dso::Icgem::Datetime t(dso::year(2005), dso::month(1), dso::day_of_month(1), dso::hours(0), dso::minutes(0), dso::nanoseconds(0));
  if (g.parse_data(2, 2, t, c))
    return 2;
  return std::abs(c.C(2, 0) - 3e0) > 1e-12;
}
'''),
dict(id='B25', property='P42', shim=True,
     needs='two requests for the same TT with different UT1',
     breaks='Sidereal time is remembered by TT alone, so a changed UT1 goes unnoticed.',
     edits=[('src/lib/ocean_tide/ocean_tide_potential.cpp', """  /* compute GMST using IAU 2006/2000A [rad] */
  const double gmst = dso::gmst(mjdtt, mjdut1);

  /* compute six-vector of multipliers ni from Delaunay vars */
  double __dargs[6];""", """  /* compute GMST using IAU 2006/2000A [rad], once per epoch */
  static thread_local dso::MjdEpoch last = dso::MjdEpoch::min();
  static thread_local double gmst = 0e0;
  if (!(last == mjdtt)) {
    gmst = dso::gmst(mjdtt, mjdut1);
    last = mjdtt;
  }

  /* compute six-vector of multipliers ni from Delaunay vars */
  double __dargs[6];""")],
     srcs=['src/lib/ocean_tide/*.cpp', 'src/lib/tide_atlas.cpp', 'src/lib/tidal_constituent.cpp', 'src/lib/doodson/*.cpp',
           'src/lib/stokes_coefficients.cpp', 'src/lib/iau/gmst.cpp', 'src/lib/iau/era00.cpp', 'src/lib/fundarg/*.cpp'],
     demo='''#include "ocean_tide.hpp"
#include <cmath>
int main() {
  dso::TideAtlas a;
  auto it = a.append_wave(dso::TidalWave(dso::DoodsonConstituent(2, 0, 0, 0, 0, 0), 0, 0, "M2"), 2, 2);
  it->stokes_cos().clear();
  it->stokes_sin().clear();
  it->stokes_cos().C(2, 2) = 1;
  const double f[5] = {1, 2, 3, 4, 5};
  const dso::MjdEpoch t(58000, dso::FractionalSeconds(100e0)), u1(58000, dso::FractionalSeconds(30e0)),
      u2(58000, dso::FractionalSeconds(3630e0));
  dso::OceanTide x(a), y(a);
  x.stokes_coeffs(t, u1, f);
  x.stokes_coeffs(t, u2, f);
  /* one hour is 30 degrees of a semidiurnal argument */
  const double c2 = x.stokes_coeffs().C(2, 2);
  y.stokes_coeffs(t, u1, f);
  const double c1 = y.stokes_coeffs().C(2, 2);
  return !(std::abs(c1 - c2) > 1e-6);
}
'''),
dict(id='B26', property='P51', shim=True, flags='-DNDEBUG -fsanitize=address',
     needs='interpolation at an epoch so close to the end of the series that one node is missing',
     breaks='A node beyond the end of the series is used.',
     edits=[('src/lib/eop/lagrange_interpolation.cpp', 'if (it - ndp < mvec.begin() || it + (ndp - 1) >= mvec.end()) {\n    /* not',
             'if (it - ndp < mvec.begin() || it + (ndp - 1) > mvec.end()) {\n    /* not')],
     srcs=['src/lib/eop/lagrange_interpolation.cpp'],
     demo='''#include "eop.hpp"
#include <cmath>
int main() {
  for (int deg = 1; deg <= 9; deg += 2)
    for (int k = 0; k < 19; k++) {
      dso::EopSeries s;
      s.reserve(20);
      for (int i = 0; i < 20; i++) {
        dso::EopRecord r;
        r.t() = dso::MjdEpoch(57000 + i);
        r.xp() = r.yp() = r.dX() = r.dY() = r.lod() = 0.25;
        r.dut() = 0.125;
        r.dat() = 35;
        s.push_back(r);
      }
      s.reset_vec_iterator();
      dso::EopRecord o;
      s.interpolate(dso::MjdEpoch(57000 + k, dso::FractionalSeconds(7000e0)), o, deg);
      if (!(std::abs(o.xp() - 0.25) < 1e-9 && std::abs(o.yp() - 0.25) < 1e-9 && std::abs(o.lod() - 0.25) < 1e-9))
        return 1;
    }
  return 0;
}
'''),
dict(id='B28', property='P61', shim=True,
     needs='an epoch that is exactly one of the dates of the table',
     breaks='At the dates of the table, the coefficients of the oldest entry are used.',
     edits=[('src/lib/free_core_nutation/lambert.cpp', 'if (t >= rit->t && t < (rit - 1)->t)', 'if (t > rit->t && t < (rit - 1)->t)')],
     srcs=['src/lib/free_core_nutation/*.cpp'],
     demo='''#include "fcn.hpp"
#include <cmath>
int main() {
  std::vector<dso::fcn::LambertCoefficients> v;
  for (int i = 0; i < 4; i++)
    v.emplace_back(dso::MjdEpoch(50000 + 365 * i), 100. * (i + 1), 10. * i, 1. + i);
  for (int i = 0; i < 4; i++) {
    const double phi = -2 * M_PI / 430.21 * (v[i].t.imjd() - 51544.5);
    const auto r = dso::lambert_fcn(v[i].t, v);
    if (!(std::abs(r.xcip - (v[i].real * std::cos(phi) - v[i].imag * std::sin(phi))) < 1e-6))
      return 1;
  }
  return 0;
}
'''),
dict(id='B29', property='P65', shim=True,
     needs='a station more than 90 degrees from the prime meridian',
     breaks='The cosine of the longitude lost its sign.',
     edits=[('src/lib/pole_tide/pole_tide_deformation.cpp', 'const double cl = std::cos(rsta.lon());', 'const double cl = std::sqrt(1e0 - sl * sl);')],
     srcs=['src/lib/pole_tide/pole_tide_deformation.cpp'],
     demo='''#include "pole_tide.hpp"
#include <cmath>
/* turning the station by 180 degrees about the axis mirrors the deformation of the diurnal pattern */
int main() {
  const dso::MjdEpoch t(57000);
  for (int i = 0; i < 12; i++) {
    dso::SphericalCrd a, b;
    a.r() = b.r() = 6371e3;
    a.lat() = b.lat() = 0.6;
    a.lon() = -3.1 + .5 * i;
    b.lon() = a.lon() + (a.lon() > 0 ? -M_PI : M_PI);
    const auto p = dso::PoleTide::deformation(t, 0.3, 0.5, dso::SphericalCrdConstView(a)),
               q = dso::PoleTide::deformation(t, 0.3, 0.5, dso::SphericalCrdConstView(b));
    /* radial parts are opposite, so are east and north */
    if (!(std::abs(p.mv(0) - q.mv(0)) < 1e-9 && std::abs(p.mv(1) - q.mv(1)) < 1e-9 && std::abs(p.mv(2) + q.mv(2)) < 1e-9))
      return 1;
  }
  return 0;
}
'''),
dict(id='B31', property='P67', shim=True,
     needs='the imaginary part of a northward loading coefficient',
     breaks='A sign of the small imaginary part of the wobble factor is wrong in the north component.',
     edits=[('src/lib/pole_tide/ocean_pole_tide_deformation.cpp', '(m2 * g2_real - m1 * g2_imag) * coef.nI;', '(m2 * g2_real + m1 * g2_imag) * coef.nI;')],
     srcs=['src/lib/pole_tide/*.cpp', 'src/lib/stokes_coefficients.cpp'],
     demo='''#include "pole_tide.hpp"
#include <cmath>
/* the same coefficient in each component gives the same size of displacement */
int main() {
  dso::SphericalCrd a;
  a.r() = 6371e3; a.lat() = 0.6; a.lon() = 0.3;
  dso::OceanPoleTideDesaiCoeffs c[3];
  double n[3];
  for (int k = 0; k < 3; k++) {
    c[k].rR = c[k].rI = c[k].nR = c[k].nI = c[k].eR = c[k].eI = 0;
    (k == 0 ? c[k].rI : k == 1 ? c[k].nI : c[k].eI) = 1;
    const auto p = dso::OceanPoleTide::deformation(dso::MjdEpoch(57000), 2.3, 0.5, dso::SphericalCrdConstView(a), c[k]);
    n[k] = p.mv.norm();
  }
  return !(std::abs(n[0] - n[1]) < 1e-9 * n[0] && std::abs(n[0] - n[2]) < 1e-9 * n[0]);
}
'''),
dict(id='B33', property='P72', shim=True,
     needs='an epoch decades from J2000 and more than microarcsecond accuracy',
     breaks='The TIO locator has the wrong sign in one of the forms of the rotation.',
     edits=[('src/lib/earth_rotation/c2i06abz.cpp', 'const double thetap = era + sp - s;', 'const double thetap = era - sp - s;')],
     srcs=['src/lib/earth_rotation/*.cpp', 'src/lib/iau/*.cpp', 'src/lib/fundarg/*.cpp'],
     demo='''#include "earth_rotation.hpp"
#include <cmath>
int main() {
  const auto q1 = dso::detail::gcrs2itrs_quaternion(1.0, 1e-8, 0e0, 1e-3, 2e-3, 1e-6, 2e-6);
  const auto q2 = dso::detail::gcrs2itrs_quaternion(1.0 + 1e-6, 1e-8, -1e-6, 1e-3, 2e-3, 1e-6, 2e-6);
  /* only the sum of both angles matters */
  return !((q1.coeffs() - q2.coeffs()).norm() < 1e-12);
}
'''),
dict(id='B35', property='P81', shim=True,
     needs='a station away from the latitude where P2 vanishes',
     breaks='The latitude dependence of the Shida number of degree 2 is applied with the sign of that of the Love number.',
     edits=[('src/lib/solid_earth_tides/iers2010_displacement_step1.cpp', 'constexpr const double shida_l2 = 0.0002e0;', 'constexpr const double shida_l2 = -0.0002e0;')],
     srcs=['src/lib/solid_earth_tides/*.cpp', 'src/lib/stokes_coefficients.cpp', 'src/lib/iau/gmst.cpp', 'src/lib/iau/era00.cpp'],
     demo='''#include "solid_earth_tide.hpp"
#include <cmath>
/* a Moon so far, and so heavy, that only degree 2 is left */
static Eigen::Vector3d disp(double gml) {
  const Eigen::Vector3d sta(6378e3, 0, 0), moon(3.8e11 * std::cos(.5), 0, 3.8e11 * std::sin(.5)), sun(1.5e11, 0, 0);
  const double f[5] = {0.3, 1.7, 2.9, 4.1, 5.3};
  dso::SolidEarthTide t(3.986004418e14, 6378136.6, 0, gml);
  return t.displacement(dso::MjdEpoch(57000), dso::MjdEpoch(57000), sta, moon, sun, f);
}
int main() {
  const double gm = 4.9e21;
  const Eigen::Vector3d d = disp(gm) - disp(0);
  /* the motion to the north at the equator is 3 l2 cos sin, and l2 is 0.0847 - 0.0002 / 2 there */
  const double l2 = d.z() / (gm / 3.986004418e14 * 6378136.6 * std::pow(6378136.6 / 3.8e11, 3) * 3 * std::cos(.5) * std::sin(.5));
  return !(std::abs(l2 - 0.0846) < 5e-5);
}
'''),
dict(id='B36', property='P85', shim=True,
     needs='a parameter gamma other than one',
     breaks='The geodesic precession depends on gamma in the wrong way; both agree in general relativity.',
     edits=[('src/lib/relativity/iers12010_relativistic_correction.cpp', 'return (1e0 + 2e0 * gamma) * (ve.cross(re))', 'return (2e0 + gamma) * (ve.cross(re))')],
     srcs=['src/lib/relativity/*.cpp'],
     demo='''#include "relativity.hpp"
#include <cmath>
int main() {
  Eigen::Matrix<double, 6, 1> s, e;
  s << 0, 0, 1e7, 5e3, 0, 0;
  e << 1.5e11, 0, 0, 0, 3e4, 0;
  /* no mass of the Earth to speak of: de Sitter only, with factors 3 and 5 */
  const auto a = dso::iers2010_relativistic_acceleration(s, e, 1e3, 1.327e20, 0, 299792458e0, 1, 1);
  const auto b = dso::iers2010_relativistic_acceleration(s, e, 1e3, 1.327e20, 0, 299792458e0, 1, 2);
  return !(std::abs(b.norm() / a.norm() - 5. / 3) < 1e-6);
}
'''),
dict(id='B37', property='P90', shim=True,
     needs='asking for the kernel that was loaded last once more',
     breaks='The last of the loaded kernels is not looked at, so it is loaded again.',
     edits=[('src/lib/planets/kernel.cpp', 'for (which = 0; which < count; which++) {', 'for (which = 0; which + 1 < count; which++) {')],
     srcs=['src/lib/planets/kernel.cpp'],
     demo='''#include "planets.hpp"
#include <cstring>
#include <string>
#include <vector>
static std::vector<std::string> pool;
extern "C" {
void ktotal_c(const char *, SpiceInt *n) { *n = (int)pool.size(); }
void kdata_c(SpiceInt w, const char *, SpiceInt fl, SpiceInt, SpiceInt, SpiceChar *f, SpiceChar *t, SpiceChar *s, SpiceInt *h, SpiceBoolean *found) {
  *found = w >= 0 && w < (int)pool.size();
  *t = *s = 0;
  *h = 1;
  if (*found) snprintf(f, fl, "%s", pool[w].c_str());
}
void furnsh_c(const char *f) { pool.push_back(f); }
}
int main() {
  for (const char *k : {"a.bsp", "a.bsp", "b.tls", "a.bsp", "b.tls"})
    dso::load_spice_kernel(k);
  return pool.size() != 2;
}
'''),
]
