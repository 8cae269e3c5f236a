#include "c26.hpp"
using namespace spp; using namespace ei;
PROP(c26_map_other, 2) { switch(s.below(3)) { case 0: return map_dynamic<bool>(s); case 1: return map_dynamic<long>(s); default: return map_dynamic<long double>(s); } }
