static const bool V2 = false;
#include "icgem_data.hpp"
