#pragma once
#include "earth_ref.hpp"
#include "earth_rotation.hpp"
template <typename M> static void same(mc::Ctx &c, const char *what, const M &got, const Mat &want, ld tol) {
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      if (!(fabsl(got(i, j) - want.m[i][j]) <= tol))
        c.fail(what, "%s: element %d,%d is %.17g instead of %.17Lg", what, i, j, (double)got(i, j), want.m[i][j]);
  c.checked();
}
/* a quaternion is of unit length, and its matrix the one wanted */
static void turn(mc::Ctx &c, const char *what, const Eigen::Quaterniond &q, const Mat &want, ld tol) {
  if (!(std::fabs(q.norm() - 1) <= 1e-14))
    c.fail(what, "%s: a quaternion of length %.17g", what, q.norm());
  same(c, what, q.toRotationMatrix(), want, tol);
  /* and so are the vectors it turns */
  const Eigen::Vector3d v = q * Eigen::Vector3d(1, -2, 3);
  for (int i = 0; i < 3; i++)
    if (!(fabsl(v(i) - (want.m[i][0] - 2 * want.m[i][1] + 3 * want.m[i][2])) <= 6 * tol))
      c.fail(what, "%s: a vector is turned wrong", what);
  c.checked(2);
}
