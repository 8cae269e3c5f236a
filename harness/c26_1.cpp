#include "c26.hpp"
using namespace spp; using namespace ei;
PROP(c26_map_double, 2) { s.coin() ? map_dynamic<double>(s) : map_fixed<double>(s); }
