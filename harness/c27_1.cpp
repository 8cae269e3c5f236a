#include "c27.hpp"
using namespace spp; using namespace vs;
PROP(c27_pool1, 4) { switch(s.below(4)) { case 0: return pool<Array1D<int>>(s); case 1: return pool<Array1D<double, Aligned>>(s); case 2: return pool<Array1D<bool>>(s); default: return pool<Array1D<f128, Aligned>>(s); } }
