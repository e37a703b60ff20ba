#include "../calendar.hpp"
