#include "c13.hpp"
PROP(c13_int_dot1, 3) { rd::dot1<int, true>(s); }
