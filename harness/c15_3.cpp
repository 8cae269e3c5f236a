#include "c15.hpp"
PROP(c15_visit1, 4) { so::visit1<int, true>(s); }
