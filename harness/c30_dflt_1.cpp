// flags: -O0 -fno-sanitize=address
#define STRICT_QUAD_PRECISION
#define STRICT_REMOVE_NODISCARD
#define C25_STREAM
#define CFG dflt
#define GROUP 1
#include "c25_impl.hpp"
C25_RUN(int)
C25_RUN(double)
