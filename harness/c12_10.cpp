#include "c12.hpp"
PROP(c12_other_merge, 3) { switch(s.below(5)) { case 0: return st::merge1<bool>(s); case 1: return st::merge1<f128>(s); case 2: return st::merge1<unsigned>(s); case 3: return st::merge1<double>(s); default: return st::merge1<long double>(s); } }
