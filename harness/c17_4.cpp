#include "c17.hpp"
PROP(c17_round2i, 3) { tx::rt2<true, int>(s); }
