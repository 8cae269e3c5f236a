#include "c15.hpp"
PROP(c15_range1, 6) { so::range1<int, true>(s); }
