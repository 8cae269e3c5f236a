#include "c16.hpp"
PROP(c16_construct_int, 3) { itr::construct<int>(s); }
PROP(c16_construct_f128, 1) { itr::construct<f128>(s); }
PROP(c16_planes, 2) { itr::planes(s); }
