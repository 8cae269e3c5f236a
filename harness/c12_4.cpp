#include "c12.hpp"
PROP(c12_generate_int, 2) { st::generators<int>(s); }
