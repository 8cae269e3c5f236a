#include "c13.hpp"
PROP(c13_int_ext2, 3) { rd::ext2<int, true>(s); }
PROP(c13_int_sign1, 3) { rd::sign1<int, true>(s); }
PROP(c13_int_sign2, 2) { rd::sign2<int, true>(s); }
