#include "c17.hpp"
PROP(c17_text2, 10) { switch(s.below(9)) { case 0: return tx::mal2<bool>(s); case 1: return tx::mal2<int>(s); case 2: return tx::mal2<long>(s); case 3: return tx::mal2<unsigned>(s); case 4: return tx::mal2<unsigned long>(s); case 5: return tx::mal2<float>(s); case 6: return tx::mal2<double>(s); case 7: return tx::mal2<long double>(s); default: return tx::mal2<f128>(s); } }
