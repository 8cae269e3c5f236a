#include "c21.hpp"
using namespace spp; using namespace fx;
PROP(c21_align1, 2) { switch(s.below(4)) { case 0: return align1<int, Aligned>(s); case 1: return align1<double, Aligned>(s); case 2: return align1<bool, Aligned>(s); default: return align1<double, Unaligned>(s); } }
PROP(c21_align2, 2) { switch(s.below(3)) { case 0: return align2<int, Aligned>(s); case 1: return align2<f128, Aligned>(s); default: return align2<float, Unaligned>(s); } }
