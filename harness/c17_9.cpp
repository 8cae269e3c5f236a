#include "c17.hpp"
PROP(c17_scalar, 10) { switch(s.below(9)) { case 0: return tx::scalar<bool>(s); case 1: return tx::scalar<int>(s); case 2: return tx::scalar<long>(s); case 3: return tx::scalar<unsigned>(s); case 4: return tx::scalar<unsigned long>(s); case 5: return tx::scalar<float>(s); case 6: return tx::scalar<double>(s); case 7: return tx::scalar<long double>(s); default: return tx::scalar<f128>(s); } }
PROP(c17_files, 1) { tx::files(s); }
