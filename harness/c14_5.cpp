#include "c14.hpp"
PROP(c14_double_dot, 4) { sb::dot<double>(s); }
PROP(c14_double_norms, 2) { sb::norms<double>(s); }
