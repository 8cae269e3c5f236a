#include "c17.hpp"
PROP(c17_all2, 6) { switch(s.below(9)) { case 0: return tx::rt2<false, bool>(s); case 1: return tx::rt2<false, int>(s); case 2: return tx::rt2<false, long>(s); case 3: return tx::rt2<false, unsigned>(s); case 4: return tx::rt2<false, unsigned long>(s); case 5: return tx::rt2<false, float>(s); case 6: return tx::rt2<false, double>(s); case 7: return tx::rt2<false, long double>(s); default: return tx::rt2<false, f128>(s); } }
