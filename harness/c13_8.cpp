#include "c13.hpp"
PROP(c13_int_eq2, 3) { rd::eq2<int, true>(s); }
PROP(c13_int_raw2, 2) { rd::raw2<int, true>(s); }
