#include "c15.hpp"

PROP(c15_other_sort1, 2) { switch(s.below(6)) { case 0: return so::sort1<long, false>(s); case 1: return so::sort1<unsigned, false>(s); case 2: return so::sort1<float, false>(s); case 3: return so::sort1<long double, false>(s); case 4: return so::sort1<f128, false>(s); default: return so::sort1<double, false>(s); } }
PROP(c15_other_visit1, 2) { switch(s.below(6)) { case 0: return so::visit1<long, false>(s); case 1: return so::visit1<unsigned, false>(s); case 2: return so::visit1<float, false>(s); case 3: return so::visit1<long double, false>(s); case 4: return so::visit1<f128, false>(s); default: return so::visit1<double, false>(s); } }
PROP(c15_other_range1, 2) { switch(s.below(6)) { case 0: return so::range1<long, false>(s); case 1: return so::range1<unsigned, false>(s); case 2: return so::range1<float, false>(s); case 3: return so::range1<long double, false>(s); case 4: return so::range1<f128, false>(s); default: return so::range1<double, false>(s); } }
