#include "c14.hpp"
PROP(c14_float_dot, 4) { sb::dot<float>(s); }
PROP(c14_float_norms, 2) { sb::norms<float>(s); }
