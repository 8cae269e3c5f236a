#include "c17.hpp"
PROP(c17_text1, 10) { switch(s.below(9)) { case 0: return tx::mal1<bool>(s); case 1: return tx::mal1<int>(s); case 2: return tx::mal1<long>(s); case 3: return tx::mal1<unsigned>(s); case 4: return tx::mal1<unsigned long>(s); case 5: return tx::mal1<float>(s); case 6: return tx::mal1<double>(s); case 7: return tx::mal1<long double>(s); default: return tx::mal1<f128>(s); } }
