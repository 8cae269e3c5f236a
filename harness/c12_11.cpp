#include "c12.hpp"
PROP(c12_other_exclude, 2) { switch(s.below(4)) { case 0: return st::exclude1<bool>(s); case 1: return st::exclude1<f128>(s); case 2: return st::exclude1<unsigned long>(s); default: return st::exclude1<double>(s); } }
PROP(c12_other_broadcast, 2) { switch(s.below(4)) { case 0: return st::broadcast<bool>(s); case 1: return st::broadcast<f128>(s); case 2: return st::broadcast<unsigned long>(s); default: return st::broadcast<double>(s); } }
PROP(c12_other_generate, 2) { switch(s.below(3)) { case 0: return st::generators<bool>(s); case 1: return st::generators<f128>(s); default: return st::generators<double>(s); } }
