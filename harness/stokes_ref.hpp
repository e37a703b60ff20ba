/* Reference model of a set of Stokes coefficients. */
#ifndef VERIF_STOKES_REF_HPP
#define VERIF_STOKES_REF_HPP
#include "mc.hpp"
#include "stokes_coefficients.hpp"

struct SRef {
  static constexpr int MX = 8;
  int deg = 0, ord = 0;
  double GM = 0, Re = 0;
  bool norm = true;
  double C[MX][MX] = {}, S[MX][MX] = {};
};

inline void verify_stokes(mc::Ctx &c, const char *op, const char *who,
                          const dso::StokesCoeffs &s, const SRef &f) {
  if (s.max_degree() != f.deg || s.max_order() != f.ord)
    c.fail("dims", "after %s: %s has degree/order %d/%d, should be %d/%d", op,
           who, s.max_degree(), s.max_order(), f.deg, f.ord);
  if (s.GM() != f.GM || s.Re() != f.Re || s.normalized() != f.norm)
    c.fail("attr", "after %s: %s GM/Re/normalized %.17g/%.17g/%d, should be "
           "%.17g/%.17g/%d", op, who, s.GM(), s.Re(), (int)s.normalized(), f.GM,
           f.Re, (int)f.norm);
  for (int n = 0; n <= f.deg; n++)
    for (int m = 0; m <= n; m++) {
      if (s.C(n, m) != f.C[n][m])
        c.fail("C", "after %s: %s (degree %d) C(%d,%d)=%g, should be %g", op,
               who, f.deg, n, m, s.C(n, m), f.C[n][m]);
      if (s.S(n, m) != f.S[n][m])
        c.fail("S", "after %s: %s (degree %d) S(%d,%d)=%g, should be %g", op,
               who, f.deg, n, m, s.S(n, m), f.S[n][m]);
      c.checked(2);
    }
}
inline std::uint64_t hash_stokes(const SRef &f) {
  std::uint64_t h = mc::mix((unsigned)f.deg * 16 + (unsigned)f.ord,
                            mc::bits(f.GM) ^ mc::bits(f.Re) ^ (f.norm ? 1 : 0));
  for (int n = 0; n <= f.deg; n++)
    for (int m = 0; m <= n; m++)
      h = mc::mix(mc::mix(h, mc::bits(f.C[n][m])), mc::bits(f.S[n][m]));
  return h;
}
#endif
