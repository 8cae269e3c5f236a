#include "c18.hpp"
PROP(c18_one, 5) { er::one<true, double>(s); }
