#include "c19.hpp"
PROP(c19_fill_all, 4) { switch(s.below(8)) { case 0: return rn::fill1<false, int>(s); case 1: return rn::fill1<false, long>(s); case 2: return rn::fill1<false, unsigned>(s); case 3: return rn::fill1<false, unsigned long>(s); case 4: return rn::fill1<false, float>(s); case 5: return rn::fill1<false, double>(s); case 6: return rn::fill1<false, long double>(s); default: return rn::fill1<false, f128>(s); } }
