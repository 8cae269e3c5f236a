#include "c12.hpp"
PROP(c12_reduce_int, 3) { st::reduces<int>(s); }
