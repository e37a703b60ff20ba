/* Sets of Stokes coefficients as values: every history of operations. */
#include <limits>
#include "stokes_ref.hpp"
#include <memory>
#include <stdexcept>
using dso::StokesCoeffs;

struct World {
  mc::Ctx &c;
  std::unique_ptr<StokesCoeffs> obj[2];
  SRef ref[2];
  double next = 1e0;
  explicit World(mc::Ctx &x) : c(x) {}

  void fill_fresh(int k) {
    for (int n = 0; n <= ref[k].deg; n++)
      for (int m = 0; m <= n; m++) {
        obj[k]->C(n, m) = ref[k].C[n][m] = next;
        obj[k]->S(n, m) = ref[k].S[n][m] = -next;
        next += 1e0;
      }
  }
  void verify(const char *op) {
    for (int k = 0; k < 2; k++) {
      verify_stokes(c, op, k ? "B" : "A", *obj[k], ref[k]);
      c.state(hash_stokes(ref[k]));
    }
    if (obj[0]->Cnm().data() == obj[1]->Cnm().data() ||
        obj[0]->Snm().data() == obj[1]->Snm().data() ||
        obj[0]->Cnm().data() == obj[0]->Snm().data())
      c.fail("share", "after %s: coefficients share memory", op);
  }
  /* give a moved-from object a definite state again */
  void revive(int k) {
    const int way = c.choose(2, "reuse of moved-from");
    if (way == 0) {
      obj[k]->resize(2, 1);
      obj[k]->GM() = 7e0;
      obj[k]->Re() = 8e0;
      obj[k]->normalized() = true;
    } else {
      *obj[k] = StokesCoeffs(2, 1, 7e0, 8e0);
    }
    ref[k] = SRef();
    ref[k].deg = 2;
    ref[k].ord = 1;
    ref[k].GM = 7e0;
    ref[k].Re = 8e0;
    ref[k].norm = true;
    fill_fresh(k);
  }
  void degord(int &n, int &m, int top) {
    n = c.choose(top + 1, "degree");
    m = c.choose(n + 1, "order");
  }
  void step() {
    const int op = c.choose(17, "op");
    switch (op) {
    case 0:
    case 1: {
      const int a = op, b = 1 - op;
      c.log("%c=%c", "AB"[a], "AB"[b]);
      *obj[a] = static_cast<const StokesCoeffs &>(*obj[b]);
      ref[a] = ref[b];
      verify("copy assignment");
      fill_fresh(b);
      verify("copy assignment and write to the source");
    } break;
    case 2:
    case 3: {
      const int a = op - 2, b = 1 - a;
      c.log("%c=move(%c)", "AB"[a], "AB"[b]);
      *obj[a] = std::move(*obj[b]);
      ref[a] = ref[b];
      revive(b);
      verify("move assignment");
    } break;
    case 4: {
      c.log("A=A");
      StokesCoeffs &alias = *obj[0];
      *obj[0] = alias;
      verify("self assignment");
    } break;
    case 5: {
      const int how = c.choose(2, "swap");
      c.log("swap");
      if (how == 0)
        obj[0]->swap(*obj[1]);
      else {
        using std::swap;
        swap(*obj[0], *obj[1]);
      }
      std::swap(ref[0], ref[1]);
      verify("swap");
    } break;
    case 6: {
      int n, m;
      degord(n, m, 3);
      c.log("A.resize(%d,%d)", n, m);
      obj[0]->resize(n, m);
      ref[0].deg = n;
      ref[0].ord = m;
      fill_fresh(0);
      verify("resize");
    } break;
    case 7: {
      int n, m;
      degord(n, m, 3);
      c.log("A.cresize(%d,%d)", n, m);
      const int old = ref[0].deg;
      obj[0]->cresize(n, m);
      ref[0].deg = n;
      ref[0].ord = m;
      for (int l = old + 1; l <= n; l++)
        for (int k = 0; k <= l; k++) {
          obj[0]->C(l, k) = ref[0].C[l][k] = next;
          obj[0]->S(l, k) = ref[0].S[l][k] = -next;
          next += 1e0;
        }
      verify("cresize");
    } break;
    case 8: {
      int n, m;
      n = c.choose(5, "degree");
      m = c.choose(4, "order");
      c.log("A.shrink_dimensions(%d,%d)", n, m);
      const bool ok = m <= n && n <= ref[0].deg && m <= ref[0].ord;
      const int rc = obj[0]->shrink_dimensions(n, m);
      if ((rc == 0) != ok)
        c.fail("shrink", "shrink %d/%d to %d/%d returned %d", ref[0].deg,
               ref[0].ord, n, m, rc);
      if (ok) {
        ref[0].deg = n;
        ref[0].ord = m;
      }
      verify("shrink_dimensions");
    } break;
    case 9: {
      const bool odd = c.flag("values that are not numbers");
      if (odd) {
        obj[0]->C(ref[0].deg, 0) = std::numeric_limits<double>::quiet_NaN();
        obj[0]->S(ref[0].deg, ref[0].ord) = std::numeric_limits<double>::infinity();
      }
      c.log("A.clear()%s", odd ? " of values that are not numbers" : "");
      obj[0]->clear();
      for (int n = 0; n < SRef::MX; n++)
        for (int m = 0; m < SRef::MX; m++)
          ref[0].C[n][m] = ref[0].S[n][m] = 0e0;
      verify("clear");
    } break;
    case 10: {
      const double f = c.choose(2, "factor") ? -0.5e0 : 3e0;
      c.log("A.scale(%g)", f);
      obj[0]->scale(f);
      for (int n = 0; n < SRef::MX; n++)
        for (int m = 0; m < SRef::MX; m++) {
          ref[0].C[n][m] *= f;
          ref[0].S[n][m] *= f;
        }
      verify("scale");
    } break;
    case 11: {
      c.log("A set GM, Re, normalized");
      obj[0]->GM() = ref[0].GM = next;
      obj[0]->Re() = ref[0].Re = next + 0.5e0;
      obj[0]->normalized() = ref[0].norm = !ref[0].norm;
      next += 1e0;
      verify("setting the constants");
    } break;
    case 12: {
      c.log("A=copy-construct(A)");
      std::unique_ptr<StokesCoeffs> p(
          new StokesCoeffs(static_cast<const StokesCoeffs &>(*obj[0])));
      const SRef keep = ref[0];
      fill_fresh(0);
      obj[0] = std::move(p);
      ref[0] = keep;
      verify("copy construction");
    } break;
    case 13: {
      c.log("A=move-construct(A)");
      std::unique_ptr<StokesCoeffs> p(new StokesCoeffs(std::move(*obj[0])));
      const SRef keep = ref[0];
      revive(0);
      obj[0] = std::move(p);
      ref[0] = keep;
      verify("move construction");
    } break;
    case 14: {
      int n, m;
      degord(n, m, 3);
      const bool consts = c.flag("constants given");
      c.log("A=Stokes(%d,%d)", n, m);
      SRef f;
      f.deg = n;
      f.ord = m;
      f.norm = true;
      if (consts) {
        f.GM = 5e14;
        f.Re = 6e6;
        obj[0].reset(new StokesCoeffs(n, m, f.GM, f.Re));
      } else {
        f.GM = 3.986004418e14;
        f.Re = 6378136.6;
        obj[0].reset(new StokesCoeffs(n, m));
      }
      ref[0] = f;
      fill_fresh(0);
      verify("construction");
    } break;
    case 15: {
      const int n = c.choose(4, "degree");
      c.log("A=Stokes(%d)", n);
      SRef f;
      f.deg = f.ord = n;
      f.GM = 3.986004418e14;
      f.Re = 6378136.6;
      f.norm = true;
      obj[0].reset(new StokesCoeffs(n));
      ref[0] = f;
      fill_fresh(0);
      verify("construction (order not given)");
    } break;
    case 16: {
      /* default constructed, then given a size */
      const int way = c.choose(3, "default constructed, then");
      c.log("A=Stokes(), then %d", way);
      obj[0].reset(new StokesCoeffs());
      SRef f;
      f.GM = 3.986004418e14;
      f.Re = 6378136.6;
      if (obj[0]->max_degree() != 0 || obj[0]->max_order() != 0 ||
          !obj[0]->normalized() || obj[0]->GM() != f.GM ||
          obj[0]->Re() != f.Re)
        c.fail("default", "default constructed set is not empty");
      obj[0]->clear();
      obj[0]->scale(2e0);
      if (way == 0) {
        obj[0]->resize(2, 2);
        f.deg = f.ord = 2;
      } else if (way == 1) {
        obj[0]->cresize(3, 1);
        f.deg = 3;
        f.ord = 1;
      } else {
        StokesCoeffs t(*obj[0]); /* copies of an empty set */
        *obj[0] = t;
        obj[0]->resize(1, 0);
        f.deg = 1;
        f.ord = 0;
      }
      ref[0] = f;
      fill_fresh(0);
      verify("default construction");
    } break;
    }
  }
};

static void histories(mc::Ctx &c) {
  const int depth = c.thorough() ? 4 : 3;
  const std::size_t before = mc::live_bytes();
  {
    World w(c);
    for (int k = 0; k < 2; k++) {
      w.ref[k].deg = k ? 3 : 2;
      w.ref[k].ord = k ? 1 : 2;
      w.ref[k].GM = 3e14 + k;
      w.ref[k].Re = 6e6 + k;
      w.obj[k].reset(new StokesCoeffs(w.ref[k].deg, w.ref[k].ord, w.ref[k].GM,
                                      w.ref[k].Re));
      w.fill_fresh(k);
    }
    w.verify("start");
    for (int d = 0; d < depth; d++)
      w.step();
  }
  const long lost = (long)mc::live_bytes() - (long)before;
  if (lost)
    c.fail("leak", "%ld bytes not freed at the end of the history", lost);
}

int main(int argc, char **argv) {
  return mc::run(argc, argv, {{"histories", histories, 2}});
}
