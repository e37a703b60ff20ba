/* Grid: index of a point, and node of an index. */
#include "grid_ref.hpp"

template <dso::GridAxis A, bool global = false> static void grid(mc::Ctx &c) {
  const int top = c.thorough() ? 7 : 4;
  const int gl = global ? c.choose(c.thorough() ? 7 : 6, "global grid") : 0;
  const Axis ax = global ? GLOBAL[gl].x : AXES[c.choose((int)AXES.size(), "x axis")],
             ay = global ? GLOBAL[gl].y : AXES[c.choose((int)AXES.size(), "y axis")];
  const int nx = global ? GLOBAL[gl].nx : 1 + c.choose(top, "x points"),
            ny = global ? GLOBAL[gl].ny : 1 + c.choose(top, "y points");
  dso::TwoDimGrid<A> g(ax.start, ax.step, nx, ay.start, ay.step, ny);
  if (c.flag("copy")) {
    dso::TwoDimGrid<A> h;
    h = g;
    g = h;
  }
  if (g.xstep() != ax.step || g.ystep() != ay.step ||
      g.xstop() != ax.start + nx * ax.step || g.ystop() != ay.start + ny * ay.step)
    c.fail("extent", "steps %g, %g, ends %g, %g", g.xstep(), g.ystep(),
           g.xstop(), g.ystop());
  std::vector<int> seen((std::size_t)nx * ny, 0);
  c.log("%dx%d points", nx, ny);
  for (int i = -2; i <= nx + 1; i++)
    for (int j = -2; j <= ny + 1; j++)
      for (double fx : FRAC)
        for (double fy : FRAC) {
          const double x = ax.start + (i + fx) * ax.step,
                       y = ay.start + (j + fy) * ay.step;
          const bool in = i >= 0 && i < nx && j >= 0 && j < ny;
          const long want = !in ? -1
                            : A == dso::GridAxis::X ? (long)i * ny + j
                                                    : (long)j * nx + i;
          const long got = g.line(x, y);
          c.checked();
          if (got != want)
            c.fail("index", "%dx%d points: (%g,%g) is in cell (%d,%d), index "
                   "%ld and not %ld", nx, ny, x, y, i, j, got, want);
          if (!in)
            continue;
          const auto n = g.xyindex2node(got);
          if (n.x != ax.start + i * ax.step || n.y != ay.start + j * ay.step)
            c.fail("node", "%dx%d points: node of index %ld is (%g,%g) and not "
                   "(%g,%g)", nx, ny, got, n.x, n.y, ax.start + i * ax.step,
                   ay.start + j * ay.step);
          if (fx == 0 && fy == 0)
            ++seen[(std::size_t)got];
        }
  for (std::size_t k = 0; k < seen.size(); k++)
    if (seen[k] != 1)
      c.fail("bijective", "index %zu is taken by %d nodes", k, seen[k]);
  const double inf = INFINITY, nan = NAN;
  const double bad[] = {inf, -inf, nan};
  for (double b : bad)
    if (g.line(b, ay.start) != -1 || g.line(ax.start, b) != -1)
      c.fail("index", "a point with coordinate %g is on the grid", b);
  c.state(mc::mix((unsigned)(nx * 10000 + ny), mc::bits(ax.start) ^ mc::bits(ay.step)));
}
int main(int argc, char **argv) {
  return mc::run(argc, argv,
                 {{"x leading", grid<dso::GridAxis::X>, 2},
                  {"y leading", grid<dso::GridAxis::Y>, 2},
                  {"x leading, global", grid<dso::GridAxis::X, true>},
                  {"y leading, global", grid<dso::GridAxis::Y, true>}});
}
