#include "c19.hpp"
PROP(c19_fill2, 4) { rn::fill2<double>(s); }
