#include "c13.hpp"
PROP(c13_int_eq1, 3) { rd::eq1<int, true>(s); }
PROP(c13_int_raw1, 2) { rd::raw1<int, true>(s); }
