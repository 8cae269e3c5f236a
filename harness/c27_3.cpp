#include "c27.hpp"
using namespace spp; using namespace vs;
PROP(c27_poolf, 3) { switch(s.below(5)) { case 0: return pool<FixedArray1D<int, 4>>(s); case 1: return pool<FixedArray1D<double, 3, Aligned>>(s); case 2: return pool<FixedArray2D<int, 2, 3>>(s); case 3: return pool<FixedArray2D<long double, 3, 1, Aligned>>(s); default: return pool<FixedArray1D<long, 1>>(s); } }
