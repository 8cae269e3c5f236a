// C19: random and semi-random generation.
#pragma once
#include "objs.hpp"
#include <set>
#include <sstream>

namespace rn {
using namespace o;

template <class A>
constexpr bool writable = std::is_lvalue_reference_v<decltype(std::declval<A&>().un(0))> && !std::is_const_v<std::remove_reference_t<decltype(std::declval<A&>().un(0))>>;

template <class T>
struct Rg {
   T lo, hi;
   bool invalid = false; // low > high or NaN
   bool zero() const {
      return lo == T(0) && hi == T(0);
   }
   bool in(T x) const {
      return x >= lo && x <= hi;
   }
   std::string str() const {
      return "[" + g::str(lo) + ", " + g::str(hi) + "]";
   }
};

template <class T>
T end(pbt::Src& s) {
   if constexpr(is_fp<T>) {
      T v = s.coin() ? small<T>(s) : any<T>(s);
      if(!fpinfo<T>::isfinite(v)) v = T(1);
      if(v > fpinfo<T>::max() / T(2) || v < -fpinfo<T>::max() / T(2)) v /= T(2); // the width is representable
      return v;
   } else {
      return s.coin() ? small<T>(s) : any<T>(s);
   }
}
template <class T>
Rg<T> range(pbt::Src& s) {
   Rg<T> r{};
   switch(s.below(7)) {
      case 0: r = {T(0), T(1)}; break;
      case 1: r.lo = end<T>(s), r.hi = r.lo; break;
      case 2: r = {T(0), end<T>(s)}; break;
      case 3:
         if constexpr(is_fp<T>) r = {T(0), fpinfo<T>::denorm() * static_cast<T>(s.range(0, 3))};
         else if(s.coin()) r = {std::numeric_limits<T>::min(), std::numeric_limits<T>::max()};
         else r = {T(0), std::numeric_limits<T>::max()};
         break;
      case 4: { // a narrow range anywhere
         T a = end<T>(s);
         if constexpr(is_fp<T>) r = {a, a * (T(1) + T(1) / T(1024))};
         else r = {a, static_cast<T>(a > std::numeric_limits<T>::max() - T(5) ? a : a + static_cast<T>(s.below(5)))};
         break;
      }
      default: r = {end<T>(s), end<T>(s)};
   }
   if(r.hi < r.lo) std::swap(r.lo, r.hi);
   if constexpr(!is_uint<T>) {
      if(s.chance(1, 6)) { // mirrored
         if constexpr(is_fp<T>) r = {-r.hi, -r.lo};
         else if(r.lo != std::numeric_limits<T>::min()) r = {static_cast<T>(-r.hi), static_cast<T>(-r.lo)};
      }
   }
   if(s.chance(1, 10) && r.lo < r.hi) std::swap(r.lo, r.hi), r.invalid = true;
   if constexpr(is_fp<T>) {
      if(s.chance(1, 40)) (s.coin() ? r.lo : r.hi) = fpinfo<T>::nan(), r.invalid = true;
   }
   return r;
}
inline unsigned seed(pbt::Src& s) {
   return s.coin() ? static_cast<unsigned>(s.below(20)) : static_cast<unsigned>(any<unsigned>(s));
}

template <class T>
void ok(const Rg<T>& r, T x, bool not0, const char* what) {
   REQ(r.in(x), what, " gave ", str(x), " outside ", r.str());
   if(not0) REQ(x != T(0), what, " gave zero");
}
template <class T, class F>
void each(const Rg<T>& r, bool not0, const char* what, F f) {
   bool bad = r.invalid || (not0 && r.zero());
   if(bad) {
      REQ(rejected([&] { (void)f(); }), what, " accepted the range ", r.str());
      return;
   }
   for(int i = 0; i < 3; ++i) ok<T>(r, f().val(), not0, what);
}

template <class T>
void scalar(pbt::Src& s) {
   using namespace spp;
   auto r = range<T>(s);
   auto L = mk(r.lo), H = mk(r.hi);
   auto sd = seed(s);
   Seed S{mk(sd)};
   s.note(tname<T>(), " ", r.str(), " seed ", sd);
   s.nontrivial();
   if(r.invalid) s.label("invalid range");
   Rg<T> u{T(0), T(1)};
   each<T>(r, false, "rands", [&] { return rands(L, H); });
   each<T>(r, false, "rands", [&] { return rands(Low{L}, High{H}); });
   each<T>(u, false, "rands", [&] { return rands<T>(); });
   each<T>(r, true, "rands_not0", [&] { return rands_not0(L, H); });
   each<T>(r, true, "rands_not0", [&] { return rands_not0(Low{L}, High{H}); });
   each<T>(u, true, "rands_not0", [&] { return rands_not0<T>(); });
   each<T>(r, false, "semi_rands", [&] { return semi_rands(L, H, S); });
   each<T>(r, false, "semi_rands", [&] { return semi_rands(L, H); });
   each<T>(r, false, "semi_rands", [&] { return semi_rands(Low{L}, High{H}, S); });
   each<T>(u, false, "semi_rands", [&] { return semi_rands<T>(S); });
   each<T>(r, true, "semi_rands_not0", [&] { return semi_rands_not0(L, H, S); });
   each<T>(r, true, "semi_rands_not0", [&] { return semi_rands_not0(Low{L}, High{H}, S); });
   each<T>(u, true, "semi_rands_not0", [&] { return semi_rands_not0<T>(S); });
   if(!r.invalid) {
      auto a = semi_rands(L, H, S);
      (void)semi_rands(L, H, Seed{mk(sd + 7)});
      REQ(same(a, semi_rands(L, H, S)) && same(a, semi_rands(Low{L}, High{H}, S)), "semi_rands is not a function of seed and range");
      REQ(same(semi_rands(L, H), semi_rands(L, H, Seed{1u})), "default seed");
      if(!r.zero()) REQ(same(semi_rands_not0(L, H, S), semi_rands_not0(Low{L}, High{H}, S)), "semi_rands_not0 is not a function of seed and range");
      REQ(same(semi_rands<T>(S), semi_rands(Zero<T>, One<T>, S)), "default range");
   }
}

template <class X>
auto flat(const X& a) {
   using T = spp::BuiltinTypeOf<X>;
   std::vector<T> r;
   for(long i = 0, n = a.size().val(); i < n; ++i) r.push_back(a.un(i).val());
   return r;
}

// Fills a; memory outside the object stays as it was.
template <class T, class A, class In>
void fills(pbt::Src& s, A& a, In& in) {
   using namespace spp;
   auto r = range<T>(s);
   auto sd = seed(s);
   auto L = mk(r.lo), H = mk(r.hi);
   Seed S{mk(sd)};
   int k = static_cast<int>(s.below(16));
   bool not0 = k % 2;
   if(k >= 12) r = {T(0), T(1)};
   s.note("range ", r.str(), " form ", k, " seed ", sd);
   s.nontrivial(in.map.size() > 1 || r.invalid);
   auto B = s.coin() ? Array1D<T>(3) : Array1D<T>(0);
   auto C = Array2D<T>(2, 2);
   auto go = [&](auto& x) {
      switch(k) {
         case 0: random(x, L, H); break;
         case 1: random_not0(x, L, H); break;
         case 2: random(x, Low{L}, High{H}); break;
         case 3: random_not0(x, Low{L}, High{H}); break;
         case 4: random(x, B, L, H); break;
         case 5: random_not0(B, x, C, L, H); break;
         case 6: random(B, x, C, Low{L}, High{H}); break;
         case 7: random_not0(x, B, Low{L}, High{H}); break;
         case 8: semi_random(x, L, H, S); break;
         case 9: semi_random_not0(x, L, H, S); break;
         case 10: semi_random(x, Low{L}, High{H}, S); break;
         case 11: semi_random_not0(x, Low{L}, High{H}, S); break;
         case 12: random(x, B); break;
         case 13: random_not0(x, B, C); break;
         case 14: semi_random(B, x); break;
         default: semi_random_not0(x, B);
      }
   };
   auto mem = in.reg.get();
   if(r.invalid || (not0 && r.zero())) {
      s.label("invalid range");
      REQ(rejected([&] { go(a); }), "invalid range accepted");
      if(k < 5 || k >= 7) REQ(same(in.reg.get(), mem), "array changed by a rejected call");
      return;
   }
   go(a);
   auto w = flat(a);
   for(T x : w) ok<T>(r, x, not0, "element");
   for(T x : flat(B))
      if((k >= 4 && k < 8) || k >= 12) ok<T>(r, x, not0, "element of the second array");
   for(T x : flat(C))
      if(k == 5 || k == 6 || k == 13) ok<T>(r, x, not0, "element of the third array");
   auto now = in.reg.get();
   std::vector<bool> mine(mem.size());
   for(long i : in.map) mine[static_cast<std::size_t>(i)] = true;
   for(std::size_t i = 0; i < mem.size(); ++i) REQ(mine[i] || same(static_cast<T>(now[i]), static_cast<T>(mem[i])), "element ", i, " outside the object changed");
   auto sorted = in.map;
   std::sort(sorted.begin(), sorted.end());
   bool dup = std::adjacent_find(sorted.begin(), sorted.end()) != sorted.end();
   if(k >= 8 && k < 12 && !dup) { // again into other arrays of the same size
      Array1D<T> D(static_cast<long>(w.size()));
      go(D);
      REQ(same(flat(D), w), "the same seed and range gave ", str(flat(D)), " and ", str(w));
      if(!w.empty()) {
         auto R = D(place::reverse);
         go(R);
         std::reverse(w.begin(), w.end());
         REQ(same(flat(D), w), "the same seed and range gave a different sequence for a slice");
      }
   }
}

template <class T>
void bools(pbt::Src& s) {
   using namespace spp;
   long n = s.range(0, 5);
   Array1D<bool> A(n);
   random(A);
   semi_random(A);
   s.nontrivial();
   int t = 0, f = 0;
   switch(s.below(6)) {
      case 0:
         for(int i = 0; i < 300; ++i) ++(rands<bool>() ? t : f);
         break;
      case 1: {
         Array1D<bool> B(300);
         random(B);
         for(auto x : B) ++(x ? t : f);
         break;
      }
      case 2: {
         Array1D<bool> B(300);
         semi_random(B(place::even), B(place::odd));
         for(auto x : B) ++(x ? t : f);
         break;
      }
      case 3: {
         Array1D<bool> B = random<bool>(300);
         for(auto x : B) ++(x ? t : f);
         break;
      }
      case 4: {
         Array2D<bool> B = semi_random<bool>(10, 30, Seed{mk(seed(s))});
         for(auto x : B) ++(x ? t : f);
         break;
      }
      default: {
         for(unsigned i = 0; i < 100; ++i) ++(semi_rands<bool>(Seed{mk(i)}) ? t : f);
      }
   }
   REQ(t && f, "300 booleans are all the same");
}

// Lazy generators: extents, membership, evaluation.
template <class T>
void lazy(pbt::Src& s) {
   using namespace spp;
   auto r = range<T>(s);
   auto sd = seed(s);
   auto L = mk(r.lo), H = mk(r.hi);
   Seed S{mk(sd)};
   Low LL{L};
   High HH{H};
   int k = static_cast<int>(s.below(20));
   bool not0 = k % 2, two = k >= 10, dflt = k % 10 >= 6 && k % 10 < 8;
   if(dflt) r = {T(0), T(1)};
   long m = s.range(0, 4), n = s.range(0, 4);
   if(s.chance(1, 12)) (s.coin() && two ? m : n) = -s.range(1, 3);
   if(two && (m == 0 || n == 0)) m = n = 0;
   bool neg = n < 0 || (two && m < 0);
   s.note(tname<T>(), " range ", r.str(), " form ", k, " m ", m, " n ", n, " seed ", sd);
   s.nontrivial();
   auto use = [&](auto make) {
      if(neg || r.invalid || (not0 && r.zero())) {
         s.label("invalid");
         REQ(rejected([&] { (void)make(); }), "negative size or invalid range accepted");
         return;
      }
      auto&& E = make();
      using A = std::remove_cvref_t<decltype(E)>;
      std::vector<T> w;
      if constexpr(OneDimBaseType<A>) {
         REQ(E.size().val() == n, "size ", E.size().val());
         for(long i = 0; i < n; ++i) ok<T>(r, E[i].val(), not0, "element");
         Array1D<T> B(make());
         REQ(B.size().val() == n, "size of the array");
         w = flat(B);
         Array1D<T> C(n);
         C = make();
         for(T x : flat(C)) ok<T>(r, x, not0, "element");
         if(k >= 4 && k % 10 >= 4 && k % 10 != 6 && k % 10 != 7) REQ(same(flat(C), w), "the same seed gave ", str(flat(C)), " and ", str(w));
      } else {
         REQ(E.rows().val() == m && E.cols().val() == n, "extents ", E.rows().val(), "x", E.cols().val());
         for(long i = 0; i < m; ++i)
            for(long j = 0; j < n; ++j) ok<T>(r, E(i, j).val(), not0, "element");
         Array2D<T> B(make());
         REQ(B.rows().val() == m && B.cols().val() == n, "extents of the array");
         w = flat(B);
         Array2D<T> C(m, n);
         C = make();
         for(T x : flat(C)) ok<T>(r, x, not0, "element");
         if(k % 10 >= 4 && k % 10 != 6 && k % 10 != 7) REQ(same(flat(C), w), "the same seed gave ", str(flat(C)), " and ", str(w));
      }
      for(T x : w) ok<T>(r, x, not0, "element");
      if constexpr(!is_fp<T>) {
         std::ostringstream o;
         o << make();
         std::istringstream is{o.str()};
         long c = 0;
         for(T x; is >> x; ++c) ok<T>(r, x, not0, "printed element");
         REQ(c == static_cast<long>(w.size()), "printed ", c, " elements");
      }
   };
   switch(k) {
      case 0: return use([&] { return random<T>(n, L, H); });
      case 1: return use([&] { return random_not0<T>(n, L, H); });
      case 2: return use([&] { return random<T>(Size{n}, LL, HH); });
      case 3: return use([&] { return random_not0<T>(Size{n}, LL, HH); });
      case 4: return use([&] { return semi_random<T>(n, L, H, S); });
      case 5: return use([&] { return semi_random_not0<T>(n, L, H, S); });
      case 6:
         if(s.coin()) return use([&] { return random<T>(n); });
         return use([&] { return random<T>(Size{n}); });
      case 7:
         if(s.coin()) return use([&] { return random_not0<T>(n); });
         return use([&] { return random_not0<T>(Size{n}); });
      case 8: return use([&] { return semi_random<T>(Size{n}, LL, HH, S); });
      case 9: return use([&] { return semi_random_not0<T>(Size{n}, LL, HH, S); });
      case 10: return use([&] { return random<T>(m, n, L, H); });
      case 11: return use([&] { return random_not0<T>(m, n, L, H); });
      case 12: return use([&] { return random<T>(Rows{m}, Cols{n}, LL, HH); });
      case 13: return use([&] { return random_not0<T>(Rows{m}, Cols{n}, LL, HH); });
      case 14: return use([&] { return semi_random<T>(m, n, L, H, S); });
      case 15: return use([&] { return semi_random_not0<T>(m, n, L, H, S); });
      case 16:
         if(s.coin()) return use([&] { return random<T>(m, n); });
         return use([&] { return random<T>(Rows{m}, Cols{n}); });
      case 17:
         if(s.coin()) return use([&] { return random_not0<T>(m, n); });
         return use([&] { return random_not0<T>(Rows{m}, Cols{n}); });
      case 18: return use([&] { return semi_random<T>(Rows{m}, Cols{n}, LL, HH, S); });
      default: return use([&] { return semi_random_not0<T>(Rows{m}, Cols{n}, LL, HH, S); });
   }
}

// Both end values of a small range occur.
template <class T>
void ends(pbt::Src& s) {
   using namespace spp;
   T lo = end<T>(s);
   T w = static_cast<T>(s.range(0, 4));
   if(lo > std::numeric_limits<T>::max() - w) lo = static_cast<T>(lo - w);
   T hi = static_cast<T>(lo + w);
   bool not0 = s.coin() && lo != T(0) && hi != T(0);
   auto L = mk(lo), H = mk(hi);
   Rg<T> r{lo, hi};
   int k = static_cast<int>(s.below(5));
   s.note(tname<T>(), " ", r.str(), " form ", k, not0 ? " not 0" : "");
   s.nontrivial(w > T(0));
   std::vector<T> v;
   Array1D<T> A(300);
   Seed S{mk(seed(s))};
   switch(k) {
      case 0:
         for(int i = 0; i < 300; ++i) v.push_back((not0 ? rands_not0(L, H) : rands(L, H)).val());
         break;
      case 1:
         if(not0) random_not0(A, L, H);
         else random(A, L, H);
         v = flat(A);
         break;
      case 2:
         if(not0) A = random_not0<T>(300, L, H);
         else A = random<T>(300, L, H);
         v = flat(A);
         break;
      case 3:
         if(not0) semi_random_not0(A, L, H, S);
         else semi_random(A, L, H, S);
         v = flat(A);
         break;
      default:
         if(not0) A = semi_random_not0<T>(300, L, H, S);
         else A = semi_random<T>(300, L, H, S);
         v = flat(A);
   }
   for(T x : v) ok<T>(r, x, not0, "value");
   REQ(std::find(v.begin(), v.end(), lo) != v.end(), "the low end did not occur in 300 values");
   REQ(std::find(v.begin(), v.end(), hi) != v.end(), "the high end did not occur in 300 values");
}

template <bool Full, class T>
void fill1(pbt::Src& s) {
   if constexpr(Full) {
      any1<T>(s, 5, &small<T>, [&](auto&& A, auto& in) {
         s.note(in.kind, " of ", in.v.size());
         if constexpr(writable<std::remove_reference_t<decltype(A)>>) fills<T>(s, A, in);
      }, true);
   } else {
      long n = s.range(0, 5);
      Info1<T> in;
      spp::Array1D<T> A(n);
      in.map = iota(n), in.reg = region(A);
      fills<T>(s, A, in);
   }
}
template <class T>
void fill2(pbt::Src& s) {
   any2<T>(s, 3, &small<T>, [&](auto&& A, auto& in) {
      s.note(in.kind);
      if constexpr(writable<std::remove_reference_t<decltype(A)>>) fills<T>(s, A, in);
   }, true);
}
} // namespace rn
