#include "c13.hpp"
PROP(c13_double_norm1, 4) { rd::norm_1<double, true>(s); }
