#include "c17.hpp"
PROP(c17_round1i, 3) { tx::rt1<true, int>(s); }
