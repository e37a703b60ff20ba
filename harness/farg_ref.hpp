/** Reference fundamental arguments (IERS 2010, eq. 5.43 and 5.44). */
#ifndef VERIF_FARG_REF_HPP
#define VERIF_FARG_REF_HPP
#include <cmath>
typedef long double ld;
static const ld LPI = 3.14159265358979323846264338327950288L;
static const ld AS2R = LPI / 648000;
/** arcsec, arcsec/cy, ...; l l' F D Om */
static const ld FCOEF[5][5] = {
    {485868.249036L, 1717915923.2178L, 31.8792L, 0.051635L, -0.00024470L},
    {1287104.793048L, 129596581.0481L, -0.5532L, 0.000136L, -0.00001149L},
    {335779.526232L, 1739527262.8478L, -12.7512L, -0.001037L, 0.00000417L},
    {1072260.703692L, 1602961601.2090L, -6.3706L, 0.006593L, -0.00003169L},
    {450160.398036L, -6962890.5431L, 7.4722L, 0.007702L, -0.00005939L}};
/** radians, radians/cy: Mercury .. Neptune (longitudes), then pA */
static const ld PCOEF[8][2] = {
    {4.402608842L, 2608.7903141574L}, {3.176146697L, 1021.3285546211L},
    {1.753470314L, 628.3075849991L},  {6.203480913L, 334.0612426700L},
    {0.599546497L, 52.9690962641L},   {0.874016757L, 21.3299104960L},
    {5.481293872L, 7.4781598567L},    {5.311886287L, 3.8133035638L}};
inline ld farg(int i, ld t) {
  const ld *c = FCOEF[i];
  return AS2R * (c[0] + t * (c[1] + t * (c[2] + t * (c[3] + t * c[4]))));
}
/** d/dt, radians per century */
inline ld dfarg(int i, ld t) {
  const ld *c = FCOEF[i];
  return AS2R * (c[1] + t * (2 * c[2] + t * (3 * c[3] + t * 4 * c[4])));
}
inline ld wrap(ld x) { /* to (-pi, pi] */
  x = fmodl(x, 2 * LPI);
  if (x > LPI)
    x -= 2 * LPI;
  if (x <= -LPI)
    x += 2 * LPI;
  return x;
}
#endif
