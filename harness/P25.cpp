/* Headers of ICGEM files. */
#include "icgem_ref.hpp"

struct Head {
  int order = 0, gap = 1, tail = 0, begin = 1, text = 0;
  int errors = 1, tide = 0, norm = 0, format = 1, number = 0;
  int name = 7, product = 13, extra = 0, end = 0;
};
static const char *E[] = {"no", "calibrated", "formal",
                          "calibrated_and_formal", "unheard_of", nullptr};
static const dso::Icgem::ErrorModel EM[] = {
    dso::Icgem::No,     dso::Icgem::Calibrated, dso::Icgem::Formal,
    dso::Icgem::CalibratedAndFormal, dso::Icgem::No, dso::Icgem::No};
static const char *TIDE[] = {nullptr, "tide_free", "zero_tide", "mean_tide",
                             "unknown"};
static const char *NORM[] = {nullptr, "fully_normalized", "unnormalized"};
static const char *NUM[][2] = {{"0.3986004415E+15", "0.6378136460E+07"},
                               {"0.3986004415D+15", "0.6378136460d+07"},
                               {"3.986004415e14", "6378136.460"},
                               {"+0.3986004415E+15", "+6378136.46"},
                               {"398600441500000", "6378136.460000000"}};
/* nothing of this is a header line */
static const char *TEXT[] = {"", "A model.\n\n   radiusses of spheres\n",
                             "normalization is a delicate matter\n",
                             "errors_are given elsewhere\n\n",
                             "formatted by hand\nmax_degrees 77\n",
                             "earth_gravity_constants vary\nproduct_types x\n",
                             "tide_systems a\nmodelnames b\nthe radius 5\n", "#"};

static std::string word(int n) {
  std::string s;
  for (int i = 0; i < n; i++)
    s += (char)('A' + i % 23);
  return s;
}
static std::string text_of(const Head &h) {
  std::vector<std::string> l;
  const std::string gap((std::size_t)h.gap, ' ');
  const std::string lead((std::size_t)(h.gap - 1), ' ');
  const std::string tail((std::size_t)h.tail, ' ');
  auto add = [&](const char *key, const std::string &v) {
    l.push_back(lead + key + gap + v + tail);
  };
  add("product_type", word(h.product));
  add("modelname", word(h.name));
  add("earth_gravity_constant", NUM[h.number][0]);
  add("radius", NUM[h.number][1]);
  add("max_degree", "37");
  if (E[h.errors])
    add("errors", E[h.errors]);
  if (TIDE[h.tide])
    add("tide_system", TIDE[h.tide]);
  if (NORM[h.norm])
    add("norm", NORM[h.norm]);
  if (h.format)
    add("format", h.format == 1 ? "icgem1.0" : "icgem2.0");
  if (h.extra)
    add("url", "http://example.org/errors no");
  std::string s = TEXT[h.text];
  if (s == "#") { /* a whole page, and more */
    s.clear();
    for (int i = 0; i < 900; i++)
      s += "line " + std::to_string(i) + " of a long description\n";
  }
  if (h.begin)
    s += h.begin == 1 ? "begin_of_head\n" : "begin_of_head ======\n";
  for (std::size_t i = 0; i < l.size(); i++)
    s += l[(i + (std::size_t)h.order) % l.size()] + "\n";
  s += "\nkey   L   M      C       S\n";
  s += h.end ? "end_of_head =====\n" : "end_of_head\n";
  return s;
}
/** vary one factor over its domain */
static void vary(mc::Ctx &c, Head &h, int factor) {
  switch (factor) {
  case 0: h.order = c.choose(10, "rotation"); break;
  case 1: h.gap = 1 + c.choose(4, "gap"); break;
  case 2: h.tail = c.choose(3, "trailing blanks"); break;
  case 3: h.begin = c.choose(3, "begin of head"); break;
  case 4: h.text = c.choose(8, "text before"); break;
  case 5: h.errors = c.choose(6, "errors"); break;
  case 6: h.tide = c.choose(5, "tide system"); break;
  case 7: h.norm = c.choose(3, "norm"); break;
  case 8: h.format = c.choose(3, "format"); break;
  case 9: h.number = c.choose(5, "numbers"); break;
  case 10: h.name = 1 + c.choose(200, "length of the name"); break;
  case 11: h.product = 1 + c.choose(150, "length of the product"); break;
  case 12: h.extra = c.choose(2, "unknown keyword"); break;
  case 13: h.end = c.choose(2, "end of head"); break;
  }
}
static void value(mc::Ctx &c, const char *what, const std::string &got,
                  const std::string &want, std::size_t size) {
  /* kept, or cut to fit */
  if (got != want.substr(0, got.size()) ||
      got.size() < std::min(want.size(), size - 1))
    c.fail(what, "%s is [%s] and not [%s]", what, got.c_str(), want.c_str());
  c.checked();
}
static void good(mc::Ctx &c) {
  Head h;
  const int a = c.choose(14, "factor"), b = c.choose(14, "other factor");
  if (b <= a)
    c.prune();
  if (a == 10 && b == 11) { /* the product of the lengths is not of interest */
    const int k = c.choose(200, "length");
    h.name = h.product = 1 + k;
  } else {
    vary(c, h, a);
    vary(c, h, b);
  }
  std::string text = text_of(h);
  const bool v2 = h.format == 2;
  Term t{v2 ? GFCT : GFC, 3, 2, 1.5e-7, -2.5e-9, T0[0], T1[1], 1.};
  Style s;
  s.errcols = h.errors < 4 ? ERRCOLS[h.errors] : 0;
  text += line_of(t, v2, s) + "\n";
  const std::string fn = write_file(c, text);
  const dso::Icgem g0(fn.c_str());
  dso::Icgem g(fn.c_str());
  if (g.filename() != fn)
    c.fail("filename", "[%s]", g.filename().c_str());
  value(c, "product", g.product_type(), word(h.product), 64);
  value(c, "name", g.model_name(), word(h.name), 128);
  value(c, "tide system", g.tide_system(), TIDE[h.tide] ? TIDE[h.tide] : "unknown",
        64);
  if (g.errors() != EM[h.errors])
    c.fail("errors", "error model %d for %s", (int)g.errors(),
           E[h.errors] ? E[h.errors] : "none");
  if (g.version() != (v2 ? dso::Icgem::v20 : dso::Icgem::v10))
    c.fail("version", "%d", (int)g.version());
  if (g.max_degree() != 37 || g.gm() != 0.3986004415E+15 ||
      g.radius() != 0.6378136460E+07)
    c.fail("number", "degree %d, GM %.17g, radius %.17g", g.max_degree(),
           g.gm(), g.radius());
  if (g.is_normalized() != (h.norm != 2))
    c.fail("normalized", "%d", g.is_normalized());
  /* the data start behind the header */
  dso::StokesCoeffs cs(0, 0, 0., 0.);
  if (g.parse_data(EPOCH[0].when(), cs))
    c.fail("data", "the line behind the header is not read");
  if (cs.max_degree() != 3 || cs.max_order() != 2 || cs.C(3, 2) != 1.5e-7 ||
      cs.S(3, 2) != -2.5e-9 || cs.normalized() != (h.norm != 2) ||
      cs.GM() != g.gm() || cs.Re() != g.radius())
    c.fail("data", "the line behind the header is read wrong");
  c.checked(8);
  c.state(mc::mix((std::uint64_t)(a * 14 + b), mc::bits(g.gm())));
}
static void bad(mc::Ctx &c) {
  Head h;
  h.format = 1 + c.choose(2, "format");
  h.order = c.choose(10, "rotation");
  h.tide = h.norm = 1;
  std::string text = text_of(h);
  static const char *key[] = {"product_type", "modelname",
                              "earth_gravity_constant", "radius", "max_degree",
                              "errors", "tide_system", "norm", "format"};
  const int kind = c.choose(10, "damage");
  std::string fn;
  if (kind <= 2) { /* a value is missing, or is no number */
    const int k = kind < 2 ? c.choose(9, "keyword") : 2 + c.choose(3, "keyword");
    const std::size_t at = text.find(std::string(key[k]) + " ");
    const std::size_t end = text.find('\n', at);
    static const char *junk[] = {"x", "-", ".", "e5", "NaNa", "--5"};
    text.replace(at, end - at,
                 std::string(key[k]) +
                     (kind == 0   ? ""
                      : kind == 1 ? "    "
                                  : std::string(" ") + junk[c.choose(6, "junk")]));
    if (kind == 2 && text.find(" NaNa") != std::string::npos)
      c.prune(); /* that is a number for the standard library */
  } else if (kind == 3) {
    const std::size_t at = text.find("icgem");
    static const char *v[] = {"icgem3.0", "icgem", "2.0", "ICGEM1.0",
                              "icgem0.0"};
    text.replace(at, 8, v[c.choose(5, "version")]);
  } else if (kind == 4) { /* the end of the header is missing */
    const int n = c.choose(9, "lines kept");
    std::size_t at = 0;
    for (int i = 0; i < n; i++)
      at = text.find('\n', at) + 1;
    text.resize(at);
  } else if (kind == 5) { /* cut in the last header line */
    text.resize(text.find("end_of_head") + (std::size_t)c.choose(11, "cut"));
  } else if (kind == 6) { /* a line longer than supported */
    text = std::string(256 + (std::size_t)c.choose(4, "more") * 600, 'x') + "\n" +
           text;
  } else if (kind == 7) { /* an endless header */
    std::string t;
    for (int i = 0; i < 1002; i++)
      t += "comment\n";
    text = t + text;
  } else if (kind == 9) { /* a line that the model cannot do without is missing */
    const std::size_t at =
        text.rfind('\n', text.find(std::string(key[2 + c.choose(3, "keyword")]) + " ")) + 1;
    text.erase(at, text.find('\n', at) + 1 - at);
  } else {
    const int k = c.choose(3, "no file");
    if (k == 0)
      fn = c.tmpdir + "/none.gfc";
    else if (k == 1)
      fn = c.tmpdir;
    else
      fn = "";
  }
  if (fn.empty() && kind != 8)
    fn = write_file(c, text);
  bool threw = false;
  try {
    dso::Icgem g(fn.c_str());
  } catch (std::runtime_error &) {
    threw = true;
  }
  if (!threw)
    c.fail("accepted", "a damaged header was accepted (damage %d)", kind);
  c.checked();
  c.state(mc::mix((std::uint64_t)kind, (std::uint64_t)h.order));
}
static void cuts(mc::Ctx &c) {
  /* every prefix of a header, and every byte of it replaced: no harm */
  Head h;
  h.tide = h.norm = 1;
  std::string text = text_of(h);
  const int at = c.choose((int)text.size(), "place");
  const int k = c.choose(6, "replacement");
  static const char with[] = {'\0', '\n', ' ', '9', '-'};
  if (k == 5)
    text.resize((std::size_t)at);
  else
    text[(std::size_t)at] = with[k];
  const std::string fn = write_file(c, text);
  try {
    dso::Icgem g(fn.c_str());
    if (std::strlen(g.model_name()) > 127 || std::strlen(g.tide_system()) > 63)
      c.fail("length", "a value is longer than its buffer");
  } catch (std::runtime_error &) {
  }
  c.checked();
  c.state((std::uint64_t)at);
}
int main(int argc, char **argv) {
  return mc::run(argc, argv,
                 {{"good", good, 3}, {"bad", bad, 3}, {"cuts", cuts, 1}});
}
