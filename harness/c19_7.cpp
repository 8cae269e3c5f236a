#include "c19.hpp"
PROP(c19_lazy, 8) { switch(s.below(8)) { case 0: return rn::lazy<int>(s); case 1: return rn::lazy<long>(s); case 2: return rn::lazy<unsigned>(s); case 3: return rn::lazy<unsigned long>(s); case 4: return rn::lazy<float>(s); case 5: return rn::lazy<double>(s); case 6: return rn::lazy<long double>(s); default: return rn::lazy<f128>(s); } }
