#include "c13.hpp"

PROP(c13_other_dot1, 2) { switch(s.below(6)) { case 0: return rd::dot1<bool, false>(s); case 1: return rd::dot1<unsigned long, false>(s); case 2: return rd::dot1<float, false>(s); case 3: return rd::dot1<long double, false>(s); case 4: return rd::dot1<f128, false>(s); default: return rd::dot1<double, false>(s); } }
PROP(c13_other_dot2, 2) { switch(s.below(6)) { case 0: return rd::dot2<bool, false>(s); case 1: return rd::dot2<unsigned long, false>(s); case 2: return rd::dot2<float, false>(s); case 3: return rd::dot2<long double, false>(s); case 4: return rd::dot2<f128, false>(s); default: return rd::dot2<double, false>(s); } }
