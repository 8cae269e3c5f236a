#include "c12.hpp"
PROP(c12_transpose_int, 3) { st::transposes<int>(s); }
