#include "c17.hpp"
PROP(c17_round1, 5) { tx::rt1<true, double>(s); }
