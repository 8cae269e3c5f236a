#include "c13.hpp"
PROP(c13_int_dot2, 2) { rd::dot2<int, true>(s); }
