#include "c22.hpp"
using namespace spp; using namespace at;
PROP(c22_pointers, 4) { switch(s.below(8)) { case 0: return pointers<Array1D<int>>(s); case 1: return pointers<Array1D<double, Aligned>>(s); case 2: return pointers<Array2D<double>>(s); case 3: return pointers<Array2D<f128, Aligned>>(s); case 4: return pointers<FixedArray1D<int, 4>>(s); case 5: return pointers<FixedArray2D<float, 2, 3, Aligned>>(s); case 6: return pointers<FixedArray1D<long double, 1, Aligned>>(s); default: return pointers<FixedArray2D<unsigned, 3, 2>>(s); } }
