static const bool V2 = true;
#include "icgem_data.hpp"
