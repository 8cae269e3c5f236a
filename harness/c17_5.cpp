#include "c17.hpp"
PROP(c17_all1, 6) { switch(s.below(9)) { case 0: return tx::rt1<false, bool>(s); case 1: return tx::rt1<false, int>(s); case 2: return tx::rt1<false, long>(s); case 3: return tx::rt1<false, unsigned>(s); case 4: return tx::rt1<false, unsigned long>(s); case 5: return tx::rt1<false, float>(s); case 6: return tx::rt1<false, double>(s); case 7: return tx::rt1<false, long double>(s); default: return tx::rt1<false, f128>(s); } }
