#include "c19.hpp"
PROP(c19_fill1, 4) { rn::fill1<true, int>(s); }
