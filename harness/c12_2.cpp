#include "c12.hpp"
PROP(c12_exclude_int, 3) { st::exclude1<int>(s); }
PROP(c12_broadcast_int, 2) { st::broadcast<int>(s); }
