#include "c14.hpp"
PROP(c14_f128_dot, 4) { sb::dot<f128>(s); }
PROP(c14_f128_norms, 2) { sb::norms<f128>(s); }
