#include "c26.hpp"
using namespace spp; using namespace ei;
PROP(c26_map_int, 2) { s.coin() ? map_dynamic<int>(s) : map_fixed<int>(s); }
