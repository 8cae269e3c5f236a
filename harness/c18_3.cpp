#include "c18.hpp"
PROP(c18_one_all, 4) { switch(s.below(4)) { case 0: return er::one<false, float>(s); case 1: return er::one<false, double>(s); case 2: return er::one<false, long double>(s); default: return er::one<false, f128>(s); } }
