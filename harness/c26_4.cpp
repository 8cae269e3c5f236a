#include "c26.hpp"
using namespace spp; using namespace ei;
PROP(c26_map_unsigned, 2) { s.coin() ? map_dynamic<unsigned>(s) : map_fixed<unsigned>(s); }
