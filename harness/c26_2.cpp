#include "c26.hpp"
using namespace spp; using namespace ei;
PROP(c26_map_float, 2) { s.coin() ? map_dynamic<float>(s) : map_fixed<float>(s); }
