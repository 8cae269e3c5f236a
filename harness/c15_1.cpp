#include "c15.hpp"
PROP(c15_sort1, 6) { so::sort1<int, true>(s); }
PROP(c15_mixing, 1) { if(s.chance(1, 40)) so::mixing(s); }
