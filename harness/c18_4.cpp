#include "c18.hpp"
PROP(c18_two_all, 4) { switch(s.below(4)) { case 0: return er::two<false, float>(s); case 1: return er::two<false, double>(s); case 2: return er::two<false, long double>(s); default: return er::two<false, f128>(s); } }
