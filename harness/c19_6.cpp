#include "c19.hpp"
PROP(c19_scalar, 8) { switch(s.below(8)) { case 0: return rn::scalar<int>(s); case 1: return rn::scalar<long>(s); case 2: return rn::scalar<unsigned>(s); case 3: return rn::scalar<unsigned long>(s); case 4: return rn::scalar<float>(s); case 5: return rn::scalar<double>(s); case 6: return rn::scalar<long double>(s); default: return rn::scalar<f128>(s); } }
