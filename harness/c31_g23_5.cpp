// flags: -std=gnu++23 -O2
// compiler: g++
#define STRICT_ERROR_EXCEPTIONS
#define STRICT_REMOVE_NODISCARD
#define STRICT_QUAD_PRECISION
#define CFG g23
#define GROUP 5
#include "c25_impl.hpp"
C25_RUN(int)
C25_RUN(double)
