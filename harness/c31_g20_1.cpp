// flags: -std=c++20 -O3 -march=native -ffp-contract=off
// compiler: g++
#define STRICT_ERROR_EXCEPTIONS
#define STRICT_REMOVE_NODISCARD
#define CFG g20
#define GROUP 1
#include "c25_impl.hpp"
C25_RUN(int)
C25_RUN(double)
