#include "c13.hpp"
PROP(c13_int_pred1, 3) { rd::pred1<int, true>(s); }
