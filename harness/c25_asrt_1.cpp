// flags: -O1 -fno-sanitize=address -isystem @/c25inc
#define STRICT_QUAD_PRECISION
#define STRICT_REMOVE_NODISCARD
#define CFG asrt
#define GROUP 1
#include "c25_impl.hpp"
C25_RUN(int)
C25_RUN(double)
