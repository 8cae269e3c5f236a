#include "c13.hpp"
PROP(c13_int_pred2, 2) { rd::pred2<int, true>(s); }
