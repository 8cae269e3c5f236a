#include "c13.hpp"

PROP(c13_fp_fin1, 2) { switch(s.below(4)) { case 0: return rd::fin1<float, false>(s); case 1: return rd::fin1<long double, false>(s); case 2: return rd::fin1<f128, false>(s); default: return rd::fin1<double, false>(s); } }
PROP(c13_fp_norm_1, 2) { switch(s.below(4)) { case 0: return rd::norm_1<float, false>(s); case 1: return rd::norm_1<long double, false>(s); case 2: return rd::norm_1<f128, false>(s); default: return rd::norm_1<double, false>(s); } }
PROP(c13_fp_poly1, 2) { switch(s.below(4)) { case 0: return rd::poly1<float, false>(s); case 1: return rd::poly1<long double, false>(s); case 2: return rd::poly1<f128, false>(s); default: return rd::poly1<double, false>(s); } }
PROP(c13_fp_gpoly1, 2) { switch(s.below(4)) { case 0: return rd::gpoly1<float, false>(s); case 1: return rd::gpoly1<long double, false>(s); case 2: return rd::gpoly1<f128, false>(s); default: return rd::gpoly1<double, false>(s); } }
PROP(c13_fp_raw, 1) { switch(s.below(4)) { case 0: return rd::raw1<float, false>(s); case 1: return rd::raw1<unsigned long, false>(s); case 2: return rd::raw2<f128, false>(s); default: return rd::raw2<long, false>(s); } }
