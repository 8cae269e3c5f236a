#include "c12.hpp"
PROP(c12_other_products, 3) { switch(s.below(7)) { case 0: return st::tensor<unsigned>(s); case 1: return st::tensor<f128>(s); case 2: return st::matvec<unsigned long>(s); case 3: return st::matvec<double>(s); case 4: return st::tensor<double>(s); case 5: return st::reduces<double>(s);  default: return st::reduces<f128>(s); } }
