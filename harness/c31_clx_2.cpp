// flags: -std=c++26 -O2
// compiler: clang++
#define STRICT_ERROR_EXCEPTIONS
#define STRICT_REMOVE_NODISCARD
#define CFG clx
#define GROUP 2
#include "c25_impl.hpp"
C25_RUN(int)
C25_RUN(double)
