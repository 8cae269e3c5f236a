#include "c13.hpp"
PROP(c13_int_poly1, 2) { rd::poly1<int, true>(s); }
PROP(c13_double_fin1, 3) { rd::fin1<double, true>(s); }
