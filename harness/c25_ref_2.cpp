// flags: -isystem @/c25inc
#define STRICT_ERROR_EXCEPTIONS
#define STRICT_QUAD_PRECISION
#define STRICT_REMOVE_NODISCARD
#define CFG ref
#define GROUP 2
#include "c25_impl.hpp"
C25_RUN(int)
C25_RUN(double)
