#include "c15.hpp"
PROP(c15_visit2, 3) { so::visit2<double>(s); }
