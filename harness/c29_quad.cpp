#include "c29_shared.hpp"
c29::Shared* c29::shared_quad(const std::vector<double>& v, long n, long m, long k) { return new Sh<f128>(v, n, m, k); }
