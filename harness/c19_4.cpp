#include "c19.hpp"
PROP(c19_fill2i, 4) { rn::fill2<int>(s); }
