// C23: support for generated programs that are evaluated by the compiler and at run time.
#pragma once
#include "sp.hpp"
#include <array>
using namespace g;
using spp::Strict;

template <class T>
constexpr Strict<T> V(long x) { // any integer as a value
   if constexpr(std::is_same_v<T, bool>) return Strict<T>{x % 2 != 0};
   else if constexpr(is_fp<T>) return Strict<T>{x % 2 ? static_cast<T>(x) / T(10) : static_cast<T>(x) / T(4)}; // some exact, some whose sums depend on the order of addition
   else return Strict<T>{static_cast<T>(x)};
}
template <class I>
constexpr long ix(long x, I n) { // an index below n where there is one
   long k;
   if constexpr(std::is_integral_v<I>) k = n;
   else k = n.val();
   return k > 0 ? (x % k + k) % k : 0;
}
template <class I>
constexpr long m1(I n) {
   if constexpr(std::is_integral_v<I>) return n - 1;
   else return n.val() - 1;
}
template <class I>
constexpr long cn(long x, I n) { // a count up to n
   return ix(x, m1(n) + 2);
}
template <class T>
constexpr Strict<T> tame(Strict<T> x) { // keeps values small, so that the built-in operations stay defined
   if constexpr(std::is_same_v<T, bool>) return x;
   else if constexpr(is_fp<T>) return x.val() < T(64) && x.val() > T(-64) ? x : Strict<T>{T(1.5)};
   else return Strict<T>{static_cast<T>(x.val() % T(13))};
}
template <class T>
constexpr Strict<T> nz(Strict<T> x) {
   return x.val() == T(0) ? Strict<T>{T(1)} : x;
}
template <class T>
constexpr Strict<T> pos(Strict<T> x) {
   if constexpr(std::is_same_v<T, bool>) return x;
   else return x.val() < T(0) ? Strict<T>{T(2)} : x.val() > T(1000) ? Strict<T>{T(7)} : x;
}
template <class A>
constexpr void fill(A& a, const long* p, long k) {
   using T = spp::BuiltinTypeOf<A>;
   for(long i = 0; i < a.size().val(); ++i) a.un(i) = V<T>(p[(i + k) % 8] + i % 3);
}
template <class A>
constexpr void tame_all(A& a) {
   for(long i = 0; i < a.size().val(); ++i) a.un(i) = tame(a.un(i));
}

template <class T>
struct Out {
   static constexpr int cap = 120;
   T v[cap]{};
   long w[40]{};
   int n = 0, k = 0;
   constexpr void put(Strict<T> x) {
      if(n < cap) v[n] = x.val();
      ++n;
   }
   template <class I>
   constexpr void num(I x) {
      if(k < 40) w[k] = x.val();
      ++k;
   }
   constexpr void bit(Strict<bool> x) {
      if(k < 40) w[k] = x.val();
      ++k;
   }
   template <class A>
   constexpr void all(const A& a) {
      num(a.size());
      if constexpr(spp::TwoDimBaseType<A>) {
         num(a.rows());
         for(long i = 0; i < a.rows().val(); ++i)
            for(long j = 0; j < a.cols().val(); ++j) put(a(i, j));
      } else
         for(long i = 0; i < a.size().val(); ++i) put(a[i]);
   }
};

template <long... X>
struct Par {
   static constexpr long p[] = {X...};
};
template <bool>
struct Yes {};
template <auto F, class P>
concept Constant = requires { typename Yes<(static_cast<void>(F(P::p)), true)>; };

template <class T, auto F, class P>
void one(pbt::Src& s) {
   volatile long q[8];
   for(int i = 0; i < 8; ++i) q[i] = P::p[i];
   long p[8];
   for(int i = 0; i < 8; ++i) p[i] = q[i];
   bool threw = false;
   Out<T> r;
   try {
      r = F(p);
   } catch(const spp::StrictException&) { threw = true; }
   s.note("parameters ", str(std::vector<long>(p, p + 8)), threw ? " rejected" : " accepted");
   s.label(threw ? "rejected" : "accepted");
   s.nontrivial();
   constexpr bool c = Constant<F, P>;
   REQ(c || threw, "the program runs but is not a constant expression");
   REQ(!c || !threw, "the program is rejected at run time but is a constant expression");
   if constexpr(c) {
      static constexpr Out<T> e = F(P::p);
      REQ(e.n == r.n && e.k == r.k, "constant evaluation gives ", e.n, " values and ", e.k, " numbers, run time ", r.n, " and ", r.k);
      for(int i = 0; i < e.n && i < e.cap; ++i) REQ(same(e.v[i], r.v[i]), "value ", i, ": ", str(e.v[i]), " in constant evaluation, ", str(r.v[i]), " at run time");
      for(int i = 0; i < e.k && i < 40; ++i) REQ(e.w[i] == r.w[i], "number ", i, ": ", e.w[i], " in constant evaluation, ", r.w[i], " at run time");
   }
}
template <class T, auto F, class... P>
void both(pbt::Src& s) {
   using Fn = void (*)(pbt::Src&);
   static constexpr Fn f[] = {&one<T, F, P>...};
   f[s.below(sizeof...(P))](s);
}
