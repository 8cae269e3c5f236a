#include "c13.hpp"
PROP(c13_double_norm2, 3) { rd::norm_2<double, true>(s); }
PROP(c13_double_fin2, 2) { rd::fin2<double, true>(s); }
