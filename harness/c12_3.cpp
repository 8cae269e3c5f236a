#include "c12.hpp"
PROP(c12_tensor_int, 2) { st::tensor<int>(s); }
