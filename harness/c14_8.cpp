#include "c14.hpp"
PROP(c14_long_double_dot, 4) { sb::dot<long double>(s); }
PROP(c14_long_double_norms, 2) { sb::norms<long double>(s); }
