#include "c14.hpp"
PROP(c14_float_sum, 4) { sb::sum<float>(s); }
PROP(c14_float_prod, 2) { sb::prod<float>(s); }
