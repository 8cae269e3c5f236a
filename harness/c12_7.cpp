#include "c12.hpp"
PROP(c12_horizontal_int, 4) { st::merge2<int, true>(s); }
