#include "c12.hpp"
PROP(c12_matvec_int, 3) { st::matvec<int>(s); }
