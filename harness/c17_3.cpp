#include "c17.hpp"
PROP(c17_round2, 5) { tx::rt2<true, double>(s); }
