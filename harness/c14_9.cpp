#include "c14.hpp"
PROP(c14_long_double_poly, 3) { sb::poly<long double>(s); }
