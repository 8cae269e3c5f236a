#include "c14.hpp"
PROP(c14_double_sum, 4) { sb::sum<double>(s); }
PROP(c14_double_prod, 2) { sb::prod<double>(s); }
