#include "c19.hpp"
PROP(c19_ends, 4) { switch(s.below(4)) { case 0: return rn::ends<int>(s); case 1: return rn::ends<long>(s); case 2: return rn::ends<unsigned>(s); default: return rn::ends<unsigned long>(s); } }
PROP(c19_bool, 1) { rn::bools<bool>(s); }
