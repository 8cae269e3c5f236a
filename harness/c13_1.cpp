#include "c13.hpp"
PROP(c13_int_sum1, 3) { rd::sums1<int, true>(s); }
PROP(c13_int_sum2, 2) { rd::sums2<int, true>(s); }
PROP(c13_int_ext1, 3) { rd::ext1<int, true>(s); }
