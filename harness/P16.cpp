/* Grid: the four nodes around a point. */
#include "grid_ref.hpp"

template <dso::GridAxis A, bool global = false> static void cell(mc::Ctx &c) {
  const int top = c.thorough() ? 7 : 5;
  const int gl = global ? c.choose(c.thorough() ? 7 : 6, "global grid") : 0;
  const Axis ax = global ? GLOBAL[gl].x : AXES[c.choose((int)AXES.size(), "x axis")],
             ay = global ? GLOBAL[gl].y : AXES[c.choose((int)AXES.size(), "y axis")];
  const int nx = global ? GLOBAL[gl].nx : 1 + c.choose(top, "x points"),
            ny = global ? GLOBAL[gl].ny : 1 + c.choose(top, "y points");
  const dso::TwoDimGrid<A> g(ax.start, ax.step, nx, ay.start, ay.step, ny);
  c.log("%dx%d points", nx, ny);
  for (int i = -2; i <= nx + 1; i++)
    for (int j = -2; j <= ny + 1; j++)
      for (double fx : FRAC)
        for (double fy : FRAC) {
          const double x = ax.start + (i + fx) * ax.step,
                       y = ay.start + (j + fy) * ay.step;
          const bool in = i >= 0 && i < nx && j >= 0 && j < ny;
          /* enclosed by four nodes: not past the last node of an axis */
          const bool enclosed = in && i + 1 < nx && j + 1 < ny;
          if (in && !enclosed)
            continue;
          long q[4] = {7, 8, 9, 10};
          g.surrounding_nodes(x, y, q[0], q[1], q[2], q[3]);
          c.checked(4);
          static const char *name[] = {"bottom left", "bottom right",
                                       "top left", "top right"};
          for (int k = 0; k < 4; k++) {
            if (!in) {
              if (q[k] != -1)
                c.fail("range", "%dx%d points: (%g,%g) is out of range, but "
                       "its %s node is %ld", nx, ny, x, y, name[k], q[k]);
              continue;
            }
            const int a = i + (k & 1), b = j + (k >> 1);
            const long want =
                A == dso::GridAxis::X ? (long)a * ny + b : (long)b * nx + a;
            if (q[k] != want)
              c.fail("cell", "%dx%d points: %s node of (%g,%g) is %ld and not "
                     "%ld", nx, ny, name[k], x, y, q[k], want);
            const auto n = g.xyindex2node(q[k]);
            if (n.x != ax.start + a * ax.step || n.y != ay.start + b * ay.step)
              c.fail("node", "%dx%d points: %s node of (%g,%g) is at (%g,%g)",
                     nx, ny, name[k], x, y, n.x, n.y);
          }
        }
  c.state(mc::mix((unsigned)(nx * 10000 + ny), mc::bits(ax.start) ^ mc::bits(ay.step)));
}
int main(int argc, char **argv) {
  return mc::run(argc, argv,
                 {{"x leading", cell<dso::GridAxis::X>, 2},
                  {"y leading", cell<dso::GridAxis::Y>, 2},
                  {"x leading, global", cell<dso::GridAxis::X, true>},
                  {"y leading, global", cell<dso::GridAxis::Y, true>}});
}
