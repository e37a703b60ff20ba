/* Evaluations do not depend on what was evaluated before. */
#include "grav_ref.hpp"
#include <sys/wait.h>
static const double RE = 6378136.3e0, GM0 = 3.986004415e14;

static double val(int n, int m, int k) {
  return (k ? -1 : 1) * (1e0 + .01 * n - .003 * m) / (1 + n);
}
static const V3 PTS[] = {V3(.6, -.5, .7), V3(0, 0, -1.2), V3(-1.05, 0, 1e-3),
                         V3(-.1, -1.4, .3)};
struct Model {
  dso::StokesCoeffs cs;
  Model(int n) : cs(n, n, GM0, RE) {
    for (int i = 0; i <= n; i++)
      for (int j = 0; j <= i; j++) {
        cs.C(i, j) = val(i, j, 0);
        cs.S(i, j) = j ? val(i, j, 1) : 0;
      }
  }
};
static void expected(Expect &e, const V3 &p, int deg, int ord) {
  const Harmonics &H = harmonics(p * RE, RE, deg);
  for (int n = 0; n <= deg; n++)
    for (int m = 0; m <= std::min(n, ord); m++)
      e.add(H, n, m, val(n, m, 0), m ? val(n, m, 1) : 0, p.norm(), GM0, RE);
}
/* the first evaluation of a process decides on nothing that later ones use */
static void first(mc::Ctx &c) {
  static const int degs[] = {0, 2, 9, 40, 198};
  const int d[3] = {degs[c.choose(5, "first")], degs[c.choose(5, "second")],
                    degs[c.choose(5, "third")]};
  std::fflush(stdout);
  const pid_t pid = fork();
  if (pid == 0) {
    for (int i = 0; i < 3; i++) {
      const V3 p = PTS[i];
      Model m(d[i]);
      V3 acc;
      M3 grad;
      if (dso::sh2gradient_cunningham(m.cs, p * RE, acc, grad))
        _exit(11);
      Expect e;
      expected(e, p, d[i], d[i]);
      for (int k = 0; k < 3; k++) {
        if (!(fabsl(acc(k) - e.a[k]) <= 4e-15L * e.sa))
          _exit(12);
        for (int l = 0; l < 3; l++)
          if (!(fabsl(grad(k, l) - e.g[k][l]) <= 4e-15L * e.sg))
            _exit(13);
      }
    }
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  c.checked(36);
  if (!WIFEXITED(st) || WEXITSTATUS(st))
    c.fail("first", "degrees %d, %d, %d in a fresh process: status %d", d[0],
           d[1], d[2], st);
}
/* sequences of evaluations that share scratch space */
static void sequence(mc::Ctx &c) {
  const int depth = 3;
  const int top = c.thorough() ? 3 : 2;
  static Model m(top);
  const int extra = c.choose(3, "scratch");
  Tri W(top + 3 + extra, top + 3 + extra), M(top + 3, top + 3);
  Tri small(top + 3, top + 3);
  for (int i = 0; i < depth; i++) {
    const int deg = c.choose(top + 1, "degree");
    const int ord = c.choose(deg + 1, "order");
    const int at = c.choose(c.thorough() ? 3 : 2, "point");
    const int use = c.choose(4, "scratch use");
    V3 acc(7e0, -1e300, 1e10); /* results do not depend on what was there */
    M3 grad = M3::Constant(3e0);
    if (dso::sh2gradient_cunningham(m.cs, PTS[at] * RE, acc, grad, deg, ord, -1,
                                    -1, use & 1 ? &W : nullptr,
                                    use & 2 ? &M : nullptr))
      c.fail("status", "refused");
    Expect e;
    expected(e, PTS[at], deg, ord);
    char what[100];
    std::snprintf(what, sizeof what, "evaluation %d (%d/%d)", i + 1, deg, ord);
    compare_gravity(c, acc, grad, e, what, true, true);
    c.state(mc::mix((unsigned)(i * 1000 + deg * 100 + ord), (unsigned)(at * 10 + use)));
  }
  for (int i = 0; i <= top; i++)
    for (int j = 0; j <= i; j++)
      if (m.cs.C(i, j) != val(i, j, 0) || m.cs.S(i, j) != (j ? val(i, j, 1) : 0))
        c.fail("model", "the model was changed at (%d,%d)", i, j);
  if (m.cs.max_degree() != top || m.cs.max_order() != top ||
      W.rows() != top + 3 + extra || W.cols() != top + 3 + extra ||
      M.rows() != top + 3)
    c.fail("size", "the model or the scratch space was resized");
}
/* scratch space of a large expansion reused by a small one and back */
static void sizes(mc::Ctx &c) {
  static const int degs[] = {2, 5, 11, 30};
  static Model m(30);
  Tri W(33, 33), M(33, 33);
  for (int i = 0; i < 3; i++) {
    const int deg = degs[c.choose(4, "degree")];
    const int ord = c.flag("truncated") ? deg / 2 : deg;
    const int at = c.choose(4, "point");
    V3 acc;
    M3 grad;
    if (dso::sh2gradient_cunningham(m.cs, PTS[at] * RE, acc, grad, deg, ord, -1,
                                    -1, &W, &M))
      c.fail("status", "refused");
    Expect e;
    expected(e, PTS[at], deg, ord);
    compare_gravity(c, acc, grad, e, "reused scratch", true, true);
  }
}
/* each of the inputs changes, or does not, from one request to the next */
static void inputs(mc::Ctx &c) {
  const int space = c.choose(2, "scratch");
  Tri W(6, 6), M(6, 6);
  dso::StokesCoeffs cs(3, 3, GM0, RE);
  mc::inputs(c, 9, [&](int b) {
    for (int i = 0; i <= 3; i++)
      for (int j = 0; j <= i; j++) {
        cs.C(i, j) = val(i, j, 0);
        cs.S(i, j) = j ? val(i, j, 1) : 0;
      }
    const V3 p(b & 1 ? .6 : -.9, b & 2 ? -.5 : .8, b & 4 ? .7 : -1.);
    const double c22 = b & 8 ? .3 : -.2, s31 = b & 16 ? .1 : .7;
    cs.C(2, 2) = c22, cs.S(3, 1) = s31;
    const int deg = b & 32 ? 3 : 2, ord = b & 64 ? 2 : 1;
    /* another mass, another radius of reference */
    const double gm = b & 128 ? GM0 : 2 * GM0, re = b & 256 ? RE : .9 * RE;
    cs.GM() = gm, cs.Re() = re;
    V3 acc;
    M3 grad;
    if (dso::sh2gradient_cunningham(cs, p * RE, acc, grad, deg, ord, -1, -1, space ? &W : nullptr, space ? &M : nullptr))
      c.fail("status", "refused");
    Expect e;
    const Harmonics &H = harmonics(p * RE, re, deg);
    for (int n = 0; n <= deg; n++)
      for (int m = 0; m <= std::min(n, ord); m++)
        e.add(H, n, m, n == 2 && m == 2 ? c22 : val(n, m, 0), n == 3 && m == 1 ? s31 : m ? val(n, m, 1) : 0, p.norm() * RE / re, gm, re);
    compare_gravity(c, acc, grad, e, "changed inputs", true, true);
  });
}
int main(int argc, char **argv) {
  return mc::run(argc, argv,
                 {{"first", first, 1}, {"sequence", sequence, 4}, {"sizes", sizes, 3}, {"inputs", inputs, 2}});
}
