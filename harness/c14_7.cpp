#include "c14.hpp"
PROP(c14_long_double_sum, 4) { sb::sum<long double>(s); }
PROP(c14_long_double_prod, 2) { sb::prod<long double>(s); }
