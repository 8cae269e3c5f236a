#include "c13.hpp"

PROP(c13_other_sums1, 2) { switch(s.below(6)) { case 0: return rd::sums1<long, false>(s); case 1: return rd::sums1<unsigned, false>(s); case 2: return rd::sums1<float, false>(s); case 3: return rd::sums1<long double, false>(s); case 4: return rd::sums1<f128, false>(s); default: return rd::sums1<double, false>(s); } }
PROP(c13_other_sums2, 2) { switch(s.below(6)) { case 0: return rd::sums2<long, false>(s); case 1: return rd::sums2<unsigned, false>(s); case 2: return rd::sums2<float, false>(s); case 3: return rd::sums2<long double, false>(s); case 4: return rd::sums2<f128, false>(s); default: return rd::sums2<double, false>(s); } }
PROP(c13_other_ext1, 2) { switch(s.below(6)) { case 0: return rd::ext1<long, false>(s); case 1: return rd::ext1<unsigned, false>(s); case 2: return rd::ext1<float, false>(s); case 3: return rd::ext1<long double, false>(s); case 4: return rd::ext1<f128, false>(s); default: return rd::ext1<double, false>(s); } }
PROP(c13_other_ext2, 2) { switch(s.below(6)) { case 0: return rd::ext2<long, false>(s); case 1: return rd::ext2<unsigned, false>(s); case 2: return rd::ext2<float, false>(s); case 3: return rd::ext2<long double, false>(s); case 4: return rd::ext2<f128, false>(s); default: return rd::ext2<double, false>(s); } }
PROP(c13_other_sign1, 2) { switch(s.below(6)) { case 0: return rd::sign1<long, false>(s); case 1: return rd::sign1<unsigned, false>(s); case 2: return rd::sign1<float, false>(s); case 3: return rd::sign1<long double, false>(s); case 4: return rd::sign1<f128, false>(s); default: return rd::sign1<double, false>(s); } }
PROP(c13_other_sign2, 2) { switch(s.below(6)) { case 0: return rd::sign2<long, false>(s); case 1: return rd::sign2<unsigned, false>(s); case 2: return rd::sign2<float, false>(s); case 3: return rd::sign2<long double, false>(s); case 4: return rd::sign2<f128, false>(s); default: return rd::sign2<double, false>(s); } }
