#include "c14.hpp"
PROP(c14_double_poly, 3) { sb::poly<double>(s); }
