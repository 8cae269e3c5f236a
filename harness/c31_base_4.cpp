// flags: -std=gnu++20 -O0
// compiler: g++
#define STRICT_ERROR_EXCEPTIONS
#define STRICT_REMOVE_NODISCARD
#define STRICT_QUAD_PRECISION
#define CFG base
#define GROUP 4
#include "c25_impl.hpp"
C25_RUN(int)
C25_RUN(double)
C25_RUN(float)
