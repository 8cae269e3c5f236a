#include "c12.hpp"
PROP(c12_merge_int, 4) { st::merge1<int>(s); }
