// C04: error-free transformations, decided in exact arithmetic.
#include "exact.hpp"
using namespace g;
using spp::Strict;
using namespace exact;

namespace {

// Exponent range in which neither the operation nor its error term over- or underflows.
template <class T>
constexpr int emax_sum = fpinfo<T>::max_exp - 4 > 900 ? 900 : fpinfo<T>::max_exp - 4;
template <class T>
constexpr int emax_prod() {
   int e = fpinfo<T>::max_exp / 2 - fpinfo<T>::digits - 4;
   return e > 600 ? 600 : e;
}

template <class T>
void check_sum(T x, T y, T r, T c) {
   REQ(same(r, static_cast<T>(x + y)) || r == x + y, "two_sums result is the rounded sum");
   REQ(eq(add(of(r), of(c)), add(of(x), of(y))), "two_sums: ", str(r), " + ", str(c), " is not the exact sum");
}
template <class T>
void check_prod(T x, T y, T r, T c) {
   REQ(r == x * y, "two_prods result is the rounded product");
   REQ(eq(add(of(r), of(c)), mul(of(x), of(y))), "two_prods: ", str(r), " + ", str(c), " is not the exact product");
}
template <class T>
void check_pow(T x, long p, T r, T c) {
   D ex = exact::pow(of(x), p);
   constexpr int d = fpinfo<T>::digits;
   REQ(le_scaled(sub(of(r), ex), p + 1, -d, ex), "pow_prods leading part ", str(r));
   if(p <= 1) REQ(c == 0 && eq(of(r), ex), "pow_prods trivial power is exact");
   D err = sub(add(of(r), of(c)), ex);
   if(p == 2) REQ(err.m == 0, "pow_prods square is exact");
   REQ(le_scaled(err, 8 * (p + 2) * (p + 2), -2 * d, ex), "pow_prods: relative error ", ratio(err, ex), " of result+correction, p=", p);
}

template <class T>
T related(pbt::Src& s, T x, int em) { // an operand with an interesting relation to x
   constexpr int d = fpinfo<T>::digits;
   switch(s.below(5)) {
      case 0: return -x;
      case 1: return x;
      case 2: { // near the rounding boundary of x
         int e;
         (void)fpinfo<T>::frexp(x == 0 ? T(1) : x, &e);
         e -= d;
         e += static_cast<int>(s.range(0, 4)) - 2;
         if(e < -em) e = -em;
         T y = finite<T>(s, 1);
         return fpinfo<T>::ldexp(y, e);
      }
      default: return finite<T>(s, em);
   }
}

template <class T>
void two_sum(pbt::Src& s) {
   int em = s.coin() ? 10 : emax_sum<T>;
   if(em == emax_sum<T> && is_quad<T>) em = 900;
   T x = finite<T>(s, em), y = related(s, x, em - 2 * fpinfo<T>::digits > 10 ? em - 2 * fpinfo<T>::digits : 10);
   s.note(tname<T>(), " two_sums ", str(x), " ", str(y));
   auto [r, c] = two_sums(mk(x), mk(y));
   check_sum<T>(x, y, r.val(), c.val());
   s.nontrivial(c.val() != 0);
   s.label(c.val() != 0 ? "two_sums inexact" : "two_sums exact");
}
template <class T>
void two_prod(pbt::Src& s) {
   int em = s.coin() ? 10 : emax_prod<T>();
   T x = finite<T>(s, em), y = s.chance(1, 6) ? x : finite<T>(s, em);
   s.note(tname<T>(), " two_prods ", str(x), " ", str(y));
   auto [r, c] = two_prods(mk(x), mk(y));
   check_prod<T>(x, y, r.val(), c.val());
   s.nontrivial(c.val() != 0);
   s.label(c.val() != 0 ? "two_prods inexact" : "two_prods exact");
}
template <class T>
int pow_em(long p) {
   int room = -(fpinfo<T>::min_exp) - 2 * fpinfo<T>::digits - 8; // keeps the correction normal
   if(room < 0) room = 0;
   int e = static_cast<int>(room / (p + 1));
   return e > 8 ? 8 : e;
}
template <class T>
void pow_prod(pbt::Src& s) {
   long p = s.below(3) == 0 ? s.range(0, 40) : s.range(0, 12);
   int em = pow_em<T>(p);
   T x = finite<T>(s, em);
   s.note(tname<T>(), " pow_prods ", str(x), " ^ ", p);
   auto [r, c] = pow_prods(mk(x), p);
   if(x != 0 && (of(x).m != 0)) {
      int e;
      (void)fpinfo<T>::frexp(x, &e);
      if((std::abs(e) + 1) * p > -(fpinfo<T>::min_exp) - 2 * fpinfo<T>::digits - 8) return; // correction may underflow
   }
   s.nontrivial(c.val() != 0);
   s.label(p <= 5 ? "power 0..5" : p % 2 ? "power odd > 5" : "power even > 5");
   check_pow<T>(x, p, r.val(), c.val());
}
template <class T>
void arrays(pbt::Src& s) {
   long n = s.range(0, 6);
   spp::Array1D<T> A(n), B(n);
   spp::Array1D<int> P(n);
   for(long i = 0; i < n; ++i) {
      A[i] = mk(finite<T>(s, 3));
      B[i] = mk(finite<T>(s, 3));
      P[i] = mk(static_cast<int>(s.range(0, 9)));
   }
   s.note(tname<T>(), " arrays of ", n);
   s.nontrivial(n > 0);
   spp::Array1D<T> first, second;
   {
      auto pr = two_prod(A, B);
      REQ(pr.first.size().val() == n && pr.second.size().val() == n);
      for(long i = 0; i < n; ++i) check_prod<T>(A[i].val(), B[i].val(), pr.first[i].val(), pr.second[i].val());
   }
   {
      auto pr = pow_prod(A, P);
      REQ(pr.first.size().val() == n && pr.second.size().val() == n);
      for(long i = 0; i < n; ++i) {
         int e;
         (void)fpinfo<T>::frexp(A[i].val(), &e);
         if(std::abs(e) > 5) continue;
         check_pow<T>(A[i].val(), P[i].val(), pr.first[i].val(), pr.second[i].val());
         auto [r, c] = pow_prods(mk(A[i].val()), P[i].val());
         REQ(same(pr.first[i].val(), r.val()) && same(pr.second[i].val(), c.val()), "pow_prod element differs from pow_prods");
      }
   }
   // two dimensions, slices
   long m = s.range(0, 3), k = m == 0 ? 0 : s.range(1, 3);
   spp::Array2D<T> M(m, k), N(m, k);
   for(long i = 0; i < m; ++i)
      for(long j = 0; j < k; ++j) {
         M(i, j) = mk(finite<T>(s, 3));
         N(i, j) = mk(finite<T>(s, 3));
      }
   auto pr = two_prod(M, N);
   for(long i = 0; i < m; ++i)
      for(long j = 0; j < k; ++j)
         check_prod<T>(M(i, j).val(), N(i, j).val(), pr.first(i, j).val(), pr.second(i, j).val());
}

#define FP_DISPATCH(fn)                                  \
   switch(s.below(4)) {                                  \
      case 0: return fn<float>(s);                       \
      case 1: return fn<double>(s);                      \
      case 2: return fn<long double>(s);                 \
      default: return fn<f128>(s);                       \
   }
PROP(two_sums_exact, 5) { FP_DISPATCH(two_sum) }
PROP(two_prods_exact, 5) { FP_DISPATCH(two_prod) }
PROP(pow_prods_accurate, 6) { FP_DISPATCH(pow_prod) }
PROP(array_forms, 2) { FP_DISPATCH(arrays) }

} // namespace
