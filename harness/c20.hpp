// C20: support for generated programs whose temporaries die before the expression is used.
#pragma once
#include "sp.hpp"
#include <cstring>
#include <memory>
using namespace g;
using spp::Strict;

inline __attribute__((noinline)) void stomp() {
   volatile char b[20000];
   for(std::size_t i = 0; i < sizeof b; ++i) b[i] = static_cast<char>(0xA5 + i);
}
template <class A>
void fill(pbt::Src& s, A& a) {
   using T = spp::BuiltinTypeOf<A>;
   for(long i = 0; i < a.size().val(); ++i) a.un(i) = mk(static_cast<T>(s.range(0, 3)));
}
template <class A>
auto raw(A& a) {
   return reinterpret_cast<spp::BuiltinTypeOf<A>*>(a.data());
}
template <class T>
Strict<T> scal(long x) {
   return mk(static_cast<T>(x));
}

template <class T, bool Two>
struct Val {
   long m = 0, n = 0;
   std::vector<T> v;
   bool fits(long a, long b = -1) const {
      return Two ? m == a && n == b : static_cast<long>(v.size()) == a;
   }
   void eq(const Val& o, const char* how) const {
      REQ(m == o.m && n == o.n && same(o.v, v), how, ": ", str(o.v), ", but ", str(v), " within the full expression");
   }
};
template <class A>
auto val(const A& a) {
   using T = spp::BuiltinTypeOf<A>;
   Val<T, spp::TwoDimBaseType<A>> r;
   if constexpr(spp::TwoDimBaseType<A>) {
      r.m = a.rows().val(), r.n = a.cols().val();
      for(long i = 0; i < r.m; ++i)
         for(long j = 0; j < r.n; ++j) r.v.push_back(a(i, j).val());
   } else {
      for(long i = 0; i < a.size().val(); ++i) r.v.push_back(a[i].val());
   }
   return r;
}

template <class F, class V>
void elements(pbt::Src&, F& make, const V& v) {
   const auto E = make();
   stomp();
   v.eq(val(E), "elements of the returned expression");
   V r = v;
   for(long i = 0; i < E.size().val(); ++i) r.v[static_cast<std::size_t>(i)] = E.un(i).val();
   v.eq(r, "linear elements of the returned expression");
}
template <class F, class V>
void copies(pbt::Src&, F& make, const V& v) {
   auto again = [&] {
      auto E = make();
      stomp();
      auto G = E;
      return G;
   };
   auto H = again();
   stomp();
   v.eq(val(H), "copy of a copy of the expression");
}
template <class F, class V>
void heap(pbt::Src&, F& make, const V& v) {
   using X = decltype(make());
   auto p = std::make_unique<X>(make());
   auto q = std::make_unique<X>(*p);
   p.reset();
   stomp();
   v.eq(val(*q), "copy of the expression after the original was destroyed");
}
template <class F, class V>
void iterate(pbt::Src&, F& make, const V& v) {
   auto E = make();
   stomp();
   V r = v;
   std::size_t k = 0;
   for(auto x : E) {
      REQ(k < v.v.size(), "iteration is too long");
      r.v[k++] = x.val();
   }
   v.eq(r, "iteration over the returned expression");
}
template <class F, class T>
void derived(pbt::Src&, F& make, const Val<T, false>& v) {
   auto f = [&] {
      auto E = make();
      return E(spp::place::reverse);
   };
   auto R = f();
   stomp();
   auto w = v;
   std::reverse(w.v.begin(), w.v.end());
   w.eq(val(R), "slice of a local copy of the expression");
}
template <class F, class T>
void derived(pbt::Src& s, F& make, const Val<T, true>& v) {
   long i = s.range(0, v.m - 1), j = s.range(0, v.n - 1);
   auto f = [&] {
      auto E = make();
      return std::make_tuple(E.row(i), E.col(j), E(spp::place::reverse, spp::place::all));
   };
   auto [R, C, E] = f();
   stomp();
   Val<T, false> r, c;
   Val<T, true> e = v;
   for(long k = 0; k < v.n; ++k) r.v.push_back(v.v[static_cast<std::size_t>(i * v.n + k)]);
   for(long k = 0; k < v.m; ++k) c.v.push_back(v.v[static_cast<std::size_t>(k * v.n + j)]);
   for(long a = 0; a < v.m; ++a)
      for(long b = 0; b < v.n; ++b) e.v[static_cast<std::size_t>(a * v.n + b)] = v.v[static_cast<std::size_t>((v.m - 1 - a) * v.n + b)];
   r.eq(val(R), "row of a local copy of the expression");
   c.eq(val(C), "column of a local copy of the expression");
   e.eq(val(E), "slice of a local copy of the expression");
}
template <class F, class V>
void combined(pbt::Src&, F& make, const V& v) {
   auto f = [&] {
      auto E = make();
      return spp::generate(E, make(), [](auto x, auto y) { return x + y; });
   };
   auto E = f();
   stomp();
   V w = v;
   for(auto& x : w.v) x = x + x;
   w.eq(val(E), "expression of local expressions");
}
template <class F, class T>
void owned(pbt::Src&, F& make, const Val<T, false>& v) {
   auto E = make();
   stomp();
   spp::Array1D<T> A(E);
   v.eq(val(A), "array constructed from the returned expression");
   A = make();
   v.eq(val(A), "array assigned from the returned expression");
}
template <class F, class T>
void owned(pbt::Src&, F& make, const Val<T, true>& v) {
   auto E = make();
   stomp();
   spp::Array2D<T> A(E);
   v.eq(val(A), "array constructed from the returned expression");
   A = make();
   v.eq(val(A), "array assigned from the returned expression");
}
