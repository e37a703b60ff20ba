/* Packed square-matrix form of Stokes coefficients: both directions. */
#include "stokes_ref.hpp"
using dso::StokesCoeffs;

static const int LARGE[] = {60, 120, 180, 256, 360, 720};
template <bool large> static void pack(mc::Ctx &c) {
  const int top = c.thorough() ? 20 : 9;
  const int n = large ? LARGE[c.choose(6, "degree")] : c.choose(top + 1, "degree");
  const int m = large ? n * c.choose(5, "order") / 4 : c.choose(n + 1, "order");
  const int made = c.choose(3, "made by");
  const int r = made == 1 ? n + 1 : made == 2 ? n + 3 : n;
  c.log("degree/order %d/%d, storage for %d", n, m, r);
  StokesCoeffs s(r, r);
  for (int l = 0; l <= r; l++)
    for (int k = 0; k <= l; k++) {
      s.C(l, k) = 1000 * l + k + 1;
      s.S(l, k) = k ? -(1000 * l + k + 1) : 0;
    }
  if (s.shrink_dimensions(n, m))
    c.fail("shrink", "could not cut to %d/%d", n, m);
  const Eigen::MatrixXd a = s.to_anm();
  if (a.rows() != n + 1 || a.cols() != n + 1)
    c.fail("size", "degree %d packs into %dx%d", n, (int)a.rows(),
           (int)a.cols());
  for (int l = 0; l <= n; l++)
    for (int k = 0; k <= l; k++) {
      if (a(l, k) != 1000 * l + k + 1)
        c.fail("pack", "degree %d: C(%d,%d)=%d packed as %g", n, l, k,
               1000 * l + k + 1, a(l, k));
      if (k && a(k - 1, l) != -(1000 * l + k + 1))
        c.fail("pack", "degree %d: S(%d,%d)=%d packed as %g", n, l, k,
               -(1000 * l + k + 1), a(k - 1, l));
      c.checked(2);
    }
  /* and back, with or without the order given */
  const int give = c.choose(2, "order given");
  const StokesCoeffs t =
      give ? StokesCoeffs::from_anm(a, m) : StokesCoeffs::from_anm(a);
  if (t.max_degree() != n || t.max_order() != (give ? m : n))
    c.fail("dims", "unpacked to %d/%d, should be %d/%d", t.max_degree(),
           t.max_order(), n, give ? m : n);
  for (int l = 0; l <= n; l++)
    for (int k = 0; k <= std::min(l, t.max_order()); k++) {
      if (t.C(l, k) != s.C(l, k))
        c.fail("unpack", "degree %d: C(%d,%d) comes back as %g, was %g", n, l,
               k, t.C(l, k), s.C(l, k));
      if (t.S(l, k) != (k ? s.S(l, k) : 0e0))
        c.fail("unpack", "degree %d: S(%d,%d) comes back as %g, was %g", n, l,
               k, t.S(l, k), s.S(l, k));
      c.checked(2);
    }
  c.state(mc::mix((unsigned)n, (unsigned)(m * 256 + r)));
}
/* from an arbitrary square matrix and back again */
template <bool large> static void unpack(mc::Ctx &c) {
  const int top = c.thorough() ? 20 : 9;
  const int n = large ? LARGE[c.choose(6, "degree")] : c.choose(top + 1, "degree");
  Eigen::MatrixXd a(n + 1, n + 1);
  for (int i = 0; i <= n; i++)
    for (int j = 0; j <= n; j++)
      a(i, j) = 1 + i * (n + 1) + j;
  const Eigen::MatrixXd b = StokesCoeffs::from_anm(a).to_anm();
  if (b.rows() != n + 1 || b.cols() != n + 1)
    c.fail("size", "%dx%d came back as %dx%d", n + 1, n + 1, (int)b.rows(),
           (int)b.cols());
  for (int i = 0; i <= n; i++)
    for (int j = 0; j <= n; j++) {
      if (a(i, j) != b(i, j))
        c.fail("roundtrip", "degree %d: (%d,%d) is %g, was %g", n, i, j,
               b(i, j), a(i, j));
      c.checked();
    }
  c.state((unsigned)n);
}

int main(int argc, char **argv) {
  return mc::run(argc, argv, {{"pack", pack<false>}, {"unpack", unpack<false>}, {"pack large", pack<true>}, {"unpack large", unpack<true>}});
}
