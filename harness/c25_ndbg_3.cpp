// flags: -Os -fno-sanitize=address -isystem @/c25inc
#define NDEBUG
#define STRICT_ERROR_EXCEPTIONS
#define STRICT_REMOVE_NODISCARD
#define CFG ndbg
#define GROUP 3
#include "c25_impl.hpp"
C25_RUN(int)
C25_RUN(double)
C25_RUN(float)
