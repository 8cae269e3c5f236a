#include "c18.hpp"
PROP(c18_scalar, 8) { switch(s.below(4)) { case 0: return er::scalar<float>(s); case 1: return er::scalar<double>(s); case 2: return er::scalar<long double>(s); default: return er::scalar<f128>(s); } }
