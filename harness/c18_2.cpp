#include "c18.hpp"
PROP(c18_two, 5) { er::two<true, double>(s); }
