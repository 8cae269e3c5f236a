#include "c18.hpp"
PROP(c18_lists, 4) { switch(s.below(4)) { case 0: return er::lists<float>(s); case 1: return er::lists<double>(s); case 2: return er::lists<long double>(s); default: return er::lists<f128>(s); } }
