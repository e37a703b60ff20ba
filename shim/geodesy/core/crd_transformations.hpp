#include "../transformations.hpp"
