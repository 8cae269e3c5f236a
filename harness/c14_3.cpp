#include "c14.hpp"
PROP(c14_float_poly, 3) { sb::poly<float>(s); }
