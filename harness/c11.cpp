// C11: pairs of expressions with error terms, and expressions that refer to their own sub-expressions.
#include "c11.hpp"

namespace {
template <class T>
void two(pbt::Src& s) {
   long n = s.range(0, 5);
   long n2 = s.chance(1, 8) ? n + 1 : n;
   spp::Array1D<T> A(n), B(n2);
   for(long i = 0; i < n; ++i) A[i] = mk(finite<T>(s, 10));
   for(long i = 0; i < n2; ++i) B[i] = mk(finite<T>(s, 10));
   s.note(str(vals1(A)), " ", str(vals1(B)));
   s.nontrivial(n > 1 || n2 != n);
   bool rej = rejected([&] {
      auto [p, e] = two_prod(A, B);
      REQ(n == n2);
      for(long i = 0; i < n; ++i) {
         auto [x, y] = spp::two_prods(A[i], B[i]);
         REQ(same(p[i], x) && same(e[i], y), "two_prod element ", i);
      }
      spp::Array1D<T> E(e);
      for(long i = 0; i < n; ++i) REQ(same(E[i], spp::two_prods(A[i], B[i]).second));
   });
   REQ(rej == (n != n2));
}
template <class T>
void pw(pbt::Src& s) {
   long n = s.range(0, 5);
   spp::Array1D<T> A(n);
   spp::Array1D<long> P(n);
   for(long i = 0; i < n; ++i) A[i] = mk(finite<T>(s, 3)), P[i] = mk(s.range(0, 9));
   s.note(str(vals1(A)), " ", str(vals1(P)));
   s.nontrivial(n > 1);
   auto [p, e] = pow_prod(A, P);
   for(long i = 0; i < n; ++i) {
      auto [x, y] = spp::pow_prods(A[i], P[i]);
      REQ(same(p[i], x) && same(e[i], y), "pow_prod element ", i, ": ", str(p[i]), " ", str(e[i]));
   }
}
} // namespace
PROP(c11_two_prod, 6) {
   switch(s.below(4)) {
      case 0: return two<float>(s);
      case 1: return two<double>(s);
      case 2: return two<long double>(s);
      default: return two<f128>(s);
   }
}
PROP(c11_pow_prod, 4) {
   if(s.coin()) pw<double>(s);
   else pw<float>(s);
}
