/* Terms of ICGEM models, in all sequences. V2 is set by the property. */
#include "icgem_ref.hpp"

static const int DEG[][2] = {{0, 0}, {2, 0}, {2, 1}, {3, 3}, {4, 2}};

static Term term(mc::Ctx &c, int at, int nnm) {
  Term t;
  t.key = (Key)c.choose(V2 ? 5 : 6, "kind");
  const int k = c.choose(nnm, "degree and order") + (nnm < 5 ? 1 : 0);
  t.n = DEG[k][0];
  t.m = DEG[k][1];
  t.C = (at + 1) * 1.5e-7 + k * 1e-9;
  t.S = -(at + 1) * 2.25e-8 - k * 3e-10;
  t.t0 = T0[0];
  t.t1 = T1[1];
  t.period = at == 1 ? .5 : 1.25;
  if (V2 && t.key != GFC) {
    t.t0 = T0[c.choose(2, "begin of validity")];
    t.t1 = T1[c.choose(2, "end of validity")];
  } else if (!V2) {
    if (t.key == GFCT) {
      /* 3: of value zero, but a reference epoch like any other */
      const int r = c.choose(4, "reference epoch");
      t.t0 = T0[r % 3 ? r : r ? 1 : 0];
      if (r == 3)
        t.C = t.S = 0;
      t.t0.hh = t.t0.mm = 0;
    }
  }
  return t;
}
static void run(mc::Ctx &c, const std::vector<Term> &terms,
                const std::string &text, const Date &t, int N, int M,
                int maxdeg, bool used) {
  const std::string fn = write_file(c, text);
  dso::Icgem g(fn.c_str());
  dso::StokesCoeffs s =
      used ? dso::StokesCoeffs(9, 7, 1., 2.) : dso::StokesCoeffs(0, 0, 0., 0.);
  if (used)
    for (int n = 0; n <= 9; n++)
      for (int m = 0; m <= std::min(n, 7); m++)
        s.C(n, m) = s.S(n, m) = 77;
  const int rn = N < 0 ? maxdeg : N, rm = M < 0 ? rn : M;
  const Field f = sum(terms, V2, t, rn, rm);
  const int e = N < 0 && M < 0 && used ? g.parse_data(t.when(), s)
                                       : g.parse_data(N, M, t.when(), s);
  if ((e != 0) != f.error)
    c.fail("status", "parsing returned %d", e);
  c.checked();
  if (!e)
    same_field(c, s, f);
  c.state(mc::mix(mc::mix((std::uint64_t)f.deg * 8 + (std::uint64_t)f.ord,
                          mc::bits((double)f.C[2][1])),
                  mc::bits((double)f.S[3][3])));
}
static void sequences(mc::Ctx &c) {
  const int len = c.thorough() && !V2 ? 4 : 3;
  std::vector<Term> terms;
  std::string text = header(V2, 0, 5);
  static const int req[][2] = {{-1, -1}, {5, 5}, {3, -1}, {4, 1}, {2, 0}};
  const bool less = V2 && !c.thorough();
  const int r = less ? 2 + c.choose(2, "request") : c.choose(5, "request");
  const Date t = EPOCH[c.choose(less || (c.thorough() && !V2) ? 2 : 3, "epoch")];
  for (int i = 0; i < len; i++) {
    terms.push_back(term(c, i, 2));
    text += line_of(terms.back(), V2, Style()) + "\n";
  }
  run(c, terms, text, t, req[r][0], req[r][1], 5, r & 1);
}
static void lines(mc::Ctx &c) {
  /* one or two lines (version 1 needs a reference), all ways of writing */
  Style s;
  const int err = c.choose(4, "errors");
  s.errcols = ERRCOLS[err];
  s.exponent = c.choose(4, "exponent");
  s.plus = c.flag("plus sign");
  s.gap = 1 + c.choose(3, "gap");
  s.tail = c.choose(2, "trailing blank");
  std::vector<Term> terms;
  std::string text = header(V2, err, 5);
  Term x = term(c, 0, 5);
  const Date t = EPOCH[c.choose(4, "epoch")];
  if (!V2 && x.key != GFC && x.key != GFCT) {
    Term r = x;
    r.key = GFCT;
    terms.push_back(r);
    text += line_of(r, V2, s) + "\n";
  }
  terms.push_back(x);
  text += line_of(x, V2, s);
  if (c.flag("newline at the end"))
    text += "\n";
  run(c, terms, text, t, -1, -1, 5, false);
}
/* a term each, of all degrees and orders; any degree and order asked for */
static void requests(mc::Ctx &c) {
  std::vector<Term> terms;
  std::string text = header(V2, 0, 5);
  const int order = c.choose(3, "order of the lines");
  for (int i = 0; i < 5; i++) {
    Term t;
    t.key = GFC;
    const int k = order == 0 ? i : order == 1 ? 4 - i : (i * 2) % 5;
    t.n = DEG[k][0];
    t.m = DEG[k][1];
    t.C = (i + 1) * 1.5e-7;
    t.S = t.m ? -(i + 1) * 2.25e-8 : 0;
    t.t0 = T0[0];
    t.t1 = T1[1];
    terms.push_back(t);
  }
  Term x = term(c, 1, 5);
  if (!V2 && x.key != GFC && x.key != GFCT) {
    Term r = x;
    r.key = GFCT;
    terms.push_back(r);
  }
  terms.push_back(x);
  for (const Term &t : terms)
    text += line_of(t, V2, Style()) + "\n";
  const int N = c.choose(7, "degree") - 1, M = c.choose((N < 0 ? 5 : N) + 2, "order") - 1;
  run(c, terms, text, EPOCH[1], N, M, 5, c.flag("container in use"));
}
/* models as large as the published ones: static terms, and with them terms that
 * vary in time up to some degree */
static void published(mc::Ctx &c) {
  static const int D[] = {120, 180, 90, 200}, REQ[][2] = {{-1, -1}, {120, -1}, {60, 60}, {90, 20}, {30, 0}, {2, 1}, {89, 88}};
  const int nd = c.choose(c.thorough() ? 4 : 2, "degree"), top = D[nd];
  const int *req = REQ[c.choose(7, "request")];
  const int vary = c.choose(3, "degree of the variable terms") * 40, by = c.choose(2, "lines by"), err = (c.thorough() ? c.choose(2, "errors") : by) * 3;
  const Date t = EPOCH[c.thorough() ? c.choose(4, "epoch") : 1 + c.choose(2, "epoch")];
  Style st;
  st.errcols = ERRCOLS[err];
  st.exponent = by * 2;
  std::vector<Term> terms;
  std::string text = header(V2, err, top);
  auto one = [&](int n, int m) {
    const double C = (n % 2 ? 1e-6 : -1e-6) / (n * n + 1.) * (1 + .01 * m), S = m ? C * (.3 + .001 * n) : 0;
    auto put = [&](Key k, double f, const Date &a, const Date &b, double period) {
      terms.push_back({k, n, m, C * f, S * -f, a, b, period});
      text += line_of(terms.back(), V2, st) + "\n";
    };
    if (n > vary || n < 2) {
      put(GFC, 1., T0[0], T1[1], 1.);
      return;
    }
    static const Date B[] = {{1950, 1, 1, 0, 0}, {2005, 1, 1, 0, 0}, {2050, 1, 1, 0, 0}};
    for (int i = 0; i < (V2 ? 2 : 1); i++) {
      const Date a = V2 ? B[i] : B[(n + m) % 2], b = B[i + 1];
      put(GFCT, 1. + i, a, b, 1.);
      put(TRND, 1e-3 * (2 - i), a, b, 1.);
      put(ACOS, 2e-2 + i, a, b, 1.);
      put(ASIN, -3e-2, a, b, 1.);
      put(ACOS, 1e-2, a, b, .5);
      put(ASIN, 5e-3 - i, a, b, .5);
    }
  };
  if (by)
    for (int m = 0; m <= top; m++)
      for (int n = m; n <= top; n++)
        one(n, m);
  else
    for (int n = 0; n <= top; n++)
      for (int m = 0; m <= n; m++)
        one(n, m);
  const std::string fn = write_file(c, text);
  dso::Icgem g(fn.c_str());
  dso::StokesCoeffs s(by ? 9 : 0, by ? 7 : 0, 0., 0.);
  const int N = req[0] < 0 ? top : req[0], M = req[1] < 0 ? N : req[1];
  if (const int e = g.parse_data(req[0], req[1], t.when(), s))
    c.fail("status", "degree %d of a model of degree %d: parsing returned %d", N, top, e);
  if (s.max_degree() != N || s.max_order() != M)
    c.fail("dimensions", "degree and order are (%d, %d) and not (%d, %d)", s.max_degree(), s.max_order(), N, M);
  std::vector<ld> C((std::size_t)(N + 1) * (N + 1), 0), S = C, size = C;
  for (const Term &x : terms)
    if (x.n <= N && x.m <= M) {
      const Field f = sum({Term{GFCT, 0, 0, 0, 0, x.t0, x.t1, 1.}, Term{x.key, 0, 0, x.C, x.S, x.t0, x.t1, x.period}}, V2, t, 0, 0);
      const std::size_t at = (std::size_t)(x.n * (N + 1) + x.m);
      C[at] += f.C[0][0];
      S[at] += f.S[0][0];
      size[at] += f.size;
    }
  for (int m = 0; m <= M; m++)
    for (int n = m; n <= N; n++) {
      const std::size_t at = (std::size_t)(n * (N + 1) + m);
      if (!(fabsl(s.C(n, m) - C[at]) <= 4e-15L * size[at]) || !(fabsl(s.S(n, m) - S[at]) <= 4e-15L * size[at]))
        c.fail("coefficient", "C, S of (%d, %d) are %.17g, %.17g and not %.17Lg, %.17Lg", n, m, s.C(n, m), s.S(n, m),
               C[at], S[at]);
      c.checked(2);
    }
  c.state(mc::mix((std::uint64_t)(N * 300 + M), (std::uint64_t)(top * 1000 + vary * 2 + by)));
}
/* epochs of a century before and after the reference, or the limits of validity */
static void epochs(mc::Ctx &c) {
  static const Date D[] = {{1899, 12, 31, 23, 59}, {1900, 3, 1, 0, 0}, {1950, 1, 1, 0, 0}, {1969, 12, 31, 23, 59},
                           {1970, 1, 1, 0, 0}, {1972, 2, 29, 12, 0}, {1999, 12, 31, 23, 59}, {2000, 1, 1, 0, 0},
                           {2000, 2, 29, 6, 1}, {2000, 12, 31, 0, 0}, {2004, 12, 31, 23, 59}, {2005, 1, 1, 0, 0},
                           {2008, 2, 29, 0, 0}, {2016, 12, 31, 23, 59}, {2017, 1, 1, 0, 0}, {2038, 1, 19, 3, 14},
                           {2038, 1, 19, 3, 15}, {2050, 1, 1, 0, 0}, {2099, 12, 31, 23, 59}, {2100, 3, 1, 0, 1}};
  const int n = 20, a = c.choose(n, "begin"), b = V2 ? c.choose(n, "end") : n - 1;
  if (V2 && b <= a)
    c.prune();
  const Date t = D[c.choose(n, "epoch")];
  const double period = std::vector<double>{1., .5, 18.6, .0383}[(std::size_t)c.choose(V2 && !c.thorough() ? 2 : 4, "period")];
  std::vector<Term> terms;
  std::string text = header(V2, 0, 5);
  Date t0 = D[a];
  if (!V2)
    t0.hh = t0.mm = 0;
  static const Key K[] = {GFCT, TRND, ACOS, ASIN};
  for (int i = 0; i < 4; i++) {
    terms.push_back({K[i], 2, 1, 1e-6 * (i + 1), -2e-7 * (i + 1), t0, D[b], period});
    text += line_of(terms.back(), V2, Style()) + "\n";
  }
  terms.push_back({GFC, 3, 3, 5e-7, 6e-7, t0, D[b], period});
  text += line_of(terms.back(), V2, Style()) + "\n";
  run(c, terms, text, t, -1, -1, 5, false);
}
/* references or limits at every minute of a day (2.0), or every day (1.0) */
static void every(mc::Ctx &c) {
  const int i = c.choose(V2 ? 1440 : 31 * 12, "minute or day"), end = V2 ? c.choose(2, "end") : 0, off = c.choose(3, "before, at or after") - 1;
  Date a{2008, 2, 29, 0, 0}, t = a;
  if (V2) {
    if (i + off < 0 || i + off >= 1440)
      c.prune();
    a.hh = i / 60;
    a.mm = i % 60;
    t.hh = (i + off) / 60;
    t.mm = (i + off) % 60;
  } else {
    static const int L[] = {31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    a.m = i / 31 + 1;
    a.d = i % 31 + 1;
    if (a.d > L[a.m - 1])
      c.prune();
    t = off < 0 ? Date{1999, 12, 31, 23, 59} : off ? Date{2031, 7, 1, 12, 34} : a;
  }
  std::vector<Term> terms;
  std::string text = header(V2, 0, 5);
  static const Key K[] = {GFCT, TRND, ACOS, ASIN};
  for (int q = 0; q < 4; q++) {
    terms.push_back({K[q], 2, 1, 1e-6 * (q + 1), -2e-7 * (q + 1), end ? T0[0] : a, end ? a : T1[1], 0.75});
    text += line_of(terms.back(), V2, Style()) + "\n";
  }
  run(c, terms, text, t, -1, -1, 5, false);
}
/* several requests to the same model, and to another one in between */
static void again(mc::Ctx &c) {
  static const int REQ[][2] = {{-1, -1}, {3, 1}, {2, 0}, {6, 2}, {1, 2}};
  std::vector<Term> terms[2];
  dso::Icgem *g[2];
  for (int k = 0; k < 2; k++) {
    std::string text = header(V2, 0, 5);
    for (int i = 0; i < 5; i++) {
      static const Key K[] = {GFCT, TRND, ACOS, ASIN};
      for (int q = 0; q < (i == 4 ? 1 : 4); q++) {
        terms[k].push_back({i == 4 ? GFC : K[(q + k * (q > 0)) % 4], DEG[i][0], DEG[i][1], (k + 1) * 1e-6 + q * 1e-7, DEG[i][1] * 1e-7 * (q + 1),
                            k ? T0[0] : T0[2], V2 && k ? T1[0] : T1[1], 1.25});
        if (k && !V2 && terms[k].back().key == GFCT && q)
          terms[k].back().key = TRND;
        text += line_of(terms[k].back(), V2, Style()) + "\n";
      }
    }
    g[k] = new dso::Icgem(write_file(c, text, k ? "b.gfc" : "a.gfc").c_str());
  }
  dso::StokesCoeffs s(0, 0, 0., 0.);
  for (int i = 0; i < (c.thorough() ? 4 : 3); i++) {
    const int k = c.choose(2, "model"), r = c.choose(5, "request");
    const Date t = EPOCH[c.choose(3, "epoch")];
    const int N = REQ[r][0] < 0 ? 5 : REQ[r][0], M = REQ[r][1] < 0 ? N : REQ[r][1];
    const int e = g[k]->parse_data(REQ[r][0], REQ[r][1], t.when(), s);
    const bool bad = N > 5 || M > N;
    if ((e != 0) != bad)
      c.fail("status", "request %d for degree %d and order %d: %d", i, N, M, e);
    if (!bad)
      same_field(c, s, sum(terms[k], V2, t, N, M));
    c.checked();
    c.state(mc::mix((std::uint64_t)(i * 2 + k), (std::uint64_t)r));
  }
  delete g[0];
  delete g[1];
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, {{"sequences", sequences, 3}, {"lines", lines, 4}, {"requests", requests, 3}, {"epochs", epochs, 2}, {"every", every, 1}, {"again", again, 3}, {"published", published, 3}});
}
