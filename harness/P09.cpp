/* Acceleration of a spherical harmonics expansion. */
#define DO_ACC 1
#define DO_GRAD 0
#include "grav_scen.hpp"
