#include "c29_shared.hpp"
c29::Shared* c29::shared_int(const std::vector<double>& v, long n, long m, long k) { return new Sh<int>(v, n, m, k); }
