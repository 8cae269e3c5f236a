#include "c13.hpp"
PROP(c13_int_gpoly, 2) { rd::gpoly1<int, true>(s); }
