#include "c27.hpp"
using namespace spp; using namespace vs;
PROP(c27_pool2, 4) { switch(s.below(3)) { case 0: return pool<Array2D<int>>(s); case 1: return pool<Array2D<double, Aligned>>(s); default: return pool<Array2D<float>>(s); } }
