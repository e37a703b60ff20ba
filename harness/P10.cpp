/* Gradient of the acceleration of a spherical harmonics expansion. */
#define DO_ACC 0
#define DO_GRAD 1
#include "grav_scen.hpp"
