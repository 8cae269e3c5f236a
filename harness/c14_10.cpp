#include "c14.hpp"
PROP(c14_f128_sum, 4) { sb::sum<f128>(s); }
PROP(c14_f128_prod, 2) { sb::prod<f128>(s); }
