#include "c12.hpp"
PROP(c12_other_transpose, 2) { switch(s.below(4)) { case 0: return st::transposes<bool>(s); case 1: return st::transposes<f128>(s); case 2: return st::transposes<long>(s); default: return st::transposes<double>(s); } }
PROP(c12_other_merge2, 2) { switch(s.below(4)) { case 0: return st::merge2<bool, true>(s); case 1: return st::merge2<f128, false>(s); case 2: return st::merge2<unsigned long, false>(s); default: return st::merge2<double, true>(s); } }
