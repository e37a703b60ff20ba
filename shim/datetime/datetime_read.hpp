#include "calendar.hpp"
