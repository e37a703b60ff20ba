#ifndef VERIF_GRID_REF_HPP
#define VERIF_GRID_REF_HPP
#include "grid.hpp"
#include "mc.hpp"
/* Steps and offsets are dyadic, so that nodes are exact doubles. */
struct Axis {
  double start, step;
};
static const std::vector<Axis> AXES = {
    {0e0, 1e0}, {-180e0, .5e0}, {.25e0, .5e0}, {-3e0, 2e0}, {100e0, .125e0}};
/* as of maps of the whole earth */
static const struct {
  Axis x, y;
  int nx, ny;
} GLOBAL[] = {{{-180e0, 1e0}, {-90e0, 1e0}, 361, 181},
              {{0e0, .5e0}, {-90e0, .5e0}, 720, 361},
              {{1.25e0, 2.5e0}, {-88.75e0, 2.5e0}, 144, 72},
              {{-179.75e0, .5e0}, {-60e0, 8e0}, 720, 16},
              {{-180e0, .00390625e0}, {0e0, 1e0}, 92160, 3},
              {{0e0, 1e0}, {-90e0, .00390625e0}, 3, 46081},
              {{0e0, .125e0}, {-90e0, .125e0}, 2880, 1441}};
/* positions inside of a cell, as fractions of a step */
static const std::vector<double> FRAC = {0e0, .25e0, .5e0, 1e0 - 0x1p-30};
#endif
