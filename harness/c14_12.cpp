#include "c14.hpp"
PROP(c14_f128_poly, 3) { sb::poly<f128>(s); }
