#include "spice_mock.hpp"
static const int NAIF[8] = {399, 301, 10, 199, 299, 499, 599, 699};
static void bodies(mc::Ctx &c) {
  SP = Spice();
  const int p = c.choose(256, "planet"), day = c.pick<int>({51544, 40587, 58849, 60310, 69807}, "day");
  const double sec = c.pick<double>({0, 43200, 86399.9375, 1.0 / 1024}, "seconds");
  const int n = c.choose(3, "calls before"); /* none is remembered */
  const dso::MjdEpoch t(day, dso::FractionalSeconds(sec));
  Eigen::Vector3d r(1, 2, 3);
  Eigen::Matrix<double, 6, 1> v;
  v << 1, 2, 3, 4, 5, 6;
  for (int i = 0; i < n; i++) {
    dso::planet_pos(dso::Planet::MOON, t, r);
    dso::planet_state(dso::Planet::SUN, t, v);
  }
  const int a = dso::planet_pos((dso::Planet)(char)p, t, r), b = dso::planet_state((dso::Planet)(char)p, t, v);
  const bool ok = p < 8;
  if (!a != ok || !b != ok)
    c.fail("status", "%d and %d for planet %d", a, b, p);
  c.checked();
  if (ok) {
    const double et = (day - 51544.5 + sec / 86400) * 86400 + 0.25;
    for (int k = 0; k < 6; k++) {
      const double w = mock(NAIF[p], 399, et, k) * 1e3;
      if (k < 3 && !(std::fabs(r(k) - w) <= 1e-12 * std::fabs(w) + 1e-3))
        c.fail("position", "component %d is %.17g instead of %.17g", k, r(k), w);
      if (!(std::fabs(v(k) - w) <= 1e-12 * std::fabs(w) + 1e-3))
        c.fail("state", "component %d is %.17g instead of %.17g", k, v(k), w);
    }
    c.checked(9);
  }
  if (!SP.wrong.empty())
    c.fail("misuse", "%s", SP.wrong.c_str());
  c.state(mc::mix((std::uint64_t)p, (std::uint64_t)day));
}
static void ids(mc::Ctx &c) {
  const int p = c.choose(256, "planet"), n = 4 + c.choose(13, "size of the buffer");
  int id = 77;
  const int a = dso::cspice::planet_to_naif_id((dso::Planet)(char)p, id);
  std::vector<char> buf(n, 'z'); /* the sanitizer watches its ends */
  const int b = dso::cspice::planet_to_naif_idstr((dso::Planet)(char)p, buf.data(), n);
  const bool ok = p < 8;
  if (!a != ok || !b != ok)
    c.fail("status", "%d and %d for planet %d", a, b, p);
  if (ok && (id != NAIF[p] || strnlen(buf.data(), n) == (std::size_t)n || std::to_string(NAIF[p]) != buf.data()))
    c.fail("id", "%d and '%.*s' instead of %d", id, n, buf.data(), NAIF[p]);
  c.checked(3);
  c.state(mc::mix((std::uint64_t)p, (std::uint64_t)n));
}
/* any pair of bodies */
static void pairs(mc::Ctx &c) {
  SP = Spice();
  const int t = NAIF[c.choose(8, "target")], o = NAIF[c.choose(8, "observer")];
  const double et = c.pick<double>({0, 1e8, -3e8}, "time");
  double p[3], v[6];
  const int a = dso::cspice::j2planet_pos_from(et, t, o, p),
            b = dso::cspice::j2planet_state_from(et, std::to_string(t).c_str(), std::to_string(o).c_str(), v);
  if (a || b)
    c.fail("status", "%d and %d", a, b);
  for (int k = 0; k < 6; k++)
    if ((k < 3 && p[k] != mock(t, o, et, k)) || v[k] != mock(t, o, et, k))
      c.fail("vector", "component %d of %d from %d", k, t, o);
  if (!SP.wrong.empty())
    c.fail("misuse", "%s", SP.wrong.c_str());
  c.checked(9);
  c.state(mc::mix((std::uint64_t)t, (std::uint64_t)o));
}
/* each of the inputs changes, or does not, from one request to the next */
static void inputs(mc::Ctx &c) {
  SP = Spice();
  mc::inputs(c, 4, [&](int b) {
    const int p = b & 1 ? 1 : 2, day = b & 2 ? 51544 : 60310;
    const double sec = b & 4 ? 43200 : 100.5, et = (day - 51544.5 + sec / 86400) * 86400 + 0.25;
    const dso::MjdEpoch t(day, dso::FractionalSeconds(sec));
    Eigen::Matrix<double, 6, 1> v = Eigen::Matrix<double, 6, 1>::Zero();
    Eigen::Vector3d r(1, 2, 3);
    if (b & 8 ? dso::planet_pos((dso::Planet)(char)p, t, r) : dso::planet_state((dso::Planet)(char)p, t, v))
      c.fail("status", "planet %d", p);
    for (int k = 0; k < (b & 8 ? 3 : 6); k++) {
      const double w = mock(NAIF[p], 399, et, k) * 1e3, g = b & 8 ? r(k) : v(k);
      if (!(std::fabs(g - w) <= 1e-12 * std::fabs(w) + 1e-3))
        c.fail("history", "component %d is %.17g instead of %.17g", k, g, w);
    }
    c.checked(3);
  });
}
int main(int a, char **b) { return mc::run(a, b, {{"bodies", bodies, 2}, {"ids", ids, 1}, {"pairs", pairs, 1}, {"inputs", inputs, 1}}); }
