#include "c19.hpp"
PROP(c19_fill1d, 4) { rn::fill1<true, double>(s); }
