#include "c12.hpp"
PROP(c12_vertical_int, 4) { st::merge2<int, false>(s); }
