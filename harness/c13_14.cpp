#include "c13.hpp"

PROP(c13_other_pred1, 2) { switch(s.below(6)) { case 0: return rd::pred1<bool, false>(s); case 1: return rd::pred1<unsigned long, false>(s); case 2: return rd::pred1<float, false>(s); case 3: return rd::pred1<long double, false>(s); case 4: return rd::pred1<f128, false>(s); default: return rd::pred1<double, false>(s); } }
PROP(c13_other_pred2, 2) { switch(s.below(6)) { case 0: return rd::pred2<bool, false>(s); case 1: return rd::pred2<unsigned long, false>(s); case 2: return rd::pred2<float, false>(s); case 3: return rd::pred2<long double, false>(s); case 4: return rd::pred2<f128, false>(s); default: return rd::pred2<double, false>(s); } }
PROP(c13_other_eq1, 2) { switch(s.below(6)) { case 0: return rd::eq1<bool, false>(s); case 1: return rd::eq1<unsigned long, false>(s); case 2: return rd::eq1<float, false>(s); case 3: return rd::eq1<long double, false>(s); case 4: return rd::eq1<f128, false>(s); default: return rd::eq1<double, false>(s); } }
PROP(c13_other_eq2, 2) { switch(s.below(6)) { case 0: return rd::eq2<bool, false>(s); case 1: return rd::eq2<unsigned long, false>(s); case 2: return rd::eq2<float, false>(s); case 3: return rd::eq2<long double, false>(s); case 4: return rd::eq2<f128, false>(s); default: return rd::eq2<double, false>(s); } }
