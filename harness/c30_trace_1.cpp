// flags: -std=gnu++23 -O0 -fno-sanitize=address
#define STRICT_STACKTRACE
#define STRICT_REMOVE_NODISCARD
#define C25_STREAM
#define CFG trace
#define GROUP 1
#include "c25_impl.hpp"
C25_RUN(int)
C25_RUN(double)
