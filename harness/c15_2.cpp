#include "c15.hpp"
PROP(c15_sort2, 4) { so::sort2<double>(s); }
