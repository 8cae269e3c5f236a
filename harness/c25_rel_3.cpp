// flags: -O3 -fno-sanitize=address -isystem @/c25inc
#define NDEBUG
#define STRICT_DEBUG_OFF
#define STRICT_REMOVE_NODISCARD
#define CFG rel
#define GROUP 3
#include "c25_impl.hpp"
C25_RUN(int)
C25_RUN(double)
C25_RUN(float)
