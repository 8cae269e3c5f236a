// flags: -std=c++20 -O1
// compiler: clang++
#define STRICT_ERROR_EXCEPTIONS
#define STRICT_REMOVE_NODISCARD
#define CFG clg
#define GROUP 1
#include "c25_impl.hpp"
C25_RUN(int)
C25_RUN(double)
