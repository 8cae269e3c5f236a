// C15: sorting, range queries, visiting and shuffling.
#pragma once
#include "objs.hpp"

namespace so {
using namespace o;

template <class A>
constexpr bool writable = std::is_lvalue_reference_v<decltype(std::declval<A&>().un(0))> && !std::is_const_v<std::remove_reference_t<decltype(std::declval<A&>().un(0))>>;

template <class T>
T val(pbt::Src& s) {
   T v = s.coin() ? small<T>(s) : any<T>(s);
   if constexpr(is_fp<T>) {
      if(fpinfo<T>::isnan(v)) v = T(1);
   }
   return v;
}

template <class T>
bool dup(std::vector<T> m) {
   std::sort(m.begin(), m.end());
   return std::adjacent_find(m.begin(), m.end()) != m.end();
}

template <class X>
auto flat(const X& a) {
   using T = spp::BuiltinTypeOf<X>;
   std::vector<T> r;
   for(long i = 0, n = a.size().val(); i < n; ++i) r.push_back(a.un(i).val());
   return r;
}

// Values ordered as bit patterns, so that permutations are compared with signed zeros told apart.
template <class T>
bool permutation(const std::vector<T>& a, const std::vector<T>& b) {
   if(a.size() != b.size()) return false;
   std::vector<bool> used(b.size());
   for(std::size_t i = 0; i < a.size(); ++i) {
      bool f = false;
      for(std::size_t j = 0; j < b.size() && !f; ++j)
         if(!used[j] && same(static_cast<T>(a[i]), static_cast<T>(b[j]))) used[j] = true, f = true;
      if(!f) return false;
   }
   return true;
}

template <class T, class A, class In>
void sorts(pbt::Src& s, A& a, In& in, const std::vector<T>& v) {
   auto mem = in.reg.get();
   int k = static_cast<int>(s.below(5));
   s.note("operation ", k);
   s.nontrivial(v.size() > 1);
   if(k == 0) spp::sort_increasing(a);
   else if(k == 1) spp::sort_decreasing(a);
   else if(k == 2) spp::sort(a, [](auto x, auto y) { return x < y; });
   else if(k == 3) spp::sort(a, [](const auto& x, const auto& y) { return y < x; });
   else spp::shuffle(a);
   auto w = flat(a);
   if(k < 4)
      for(std::size_t i = 1; i < w.size(); ++i)
         REQ(k % 2 == 0 ? w[i - 1] <= w[i] : w[i - 1] >= w[i], "not ordered at ", i, ": ", str(w));
   REQ(permutation(v, w), "result ", str(w), " is no permutation of ", str(v));
   for(std::size_t i = 0; i < in.map.size(); ++i) mem[static_cast<std::size_t>(in.map[i])] = w[i];
   REQ(same(in.reg.get(), mem), "other elements changed: ", str(in.reg.get()), ", expected ", str(mem));
}

template <class T, class A, class In>
void visits(pbt::Src& s, A& a, In& in, std::vector<T> v) {
   s.nontrivial(v.size() > 1);
   std::size_t i = 0;
   const auto& c = a;
   spp::for_each(c, [&](auto x) {
      REQ(i < v.size() && same(x, static_cast<T>(v[i])), "visit ", i, " is ", str(x), " of ", str(v));
      ++i;
   });
   REQ(i == v.size(), "visited ", i, " of ", v.size());
   i = 0;
   spp::for_each(a, [&](const auto& x) {
      REQ(i < v.size() && same(x, static_cast<T>(v[i])), "visit ", i, " is ", str(x), " of ", str(v));
      ++i;
   });
   REQ(i == v.size(), "visited ", i, " of ", v.size());
   if constexpr(writable<A>) {
      auto mem = in.reg.get();
      T d = small<T>(s);
      i = 0;
      std::vector<T> seen;
      for_each(a, [&](auto& x) {
         seen.push_back(x.val());
         x = i % 2 == 0 ? mk(d) : x;
         ++i;
      });
      for(std::size_t k = 0; k < in.map.size(); ++k) {
         T& m = mem[static_cast<std::size_t>(in.map[k])];
         REQ(same(seen[k], m), "visit ", k, " saw ", str(seen[k]), ", expected ", str(m));
         if(k % 2 == 0) m = d;
      }
      REQ(same(in.reg.get(), mem), "memory after writing visit: ", str(in.reg.get()), ", expected ", str(mem));
   }
}

template <class T, class A, class In>
void ranges(pbt::Src& s, A& a, In& in, const std::vector<T>& v) {
   T lo = v.empty() || s.coin() ? val<T>(s) : s.pick(v), hi = v.empty() || s.coin() ? val<T>(s) : s.pick(v);
   if(lo != lo) lo = T(1); // no bound is NaN
   if(hi != hi) hi = T(1);
   int k = static_cast<int>(s.below(5));
   if(s.chance(5, 6) && hi < lo) std::swap(lo, hi);
   s.note("range query ", k, " from ", str(lo), " to ", str(hi));
   std::vector<T> w;
   std::vector<long> m;
   for(std::size_t i = 0; i < v.size(); ++i) {
      bool t = k < 2 ? v[i] > lo && v[i] < hi : k < 4 ? v[i] >= lo && v[i] <= hi : v[i] != lo;
      if(t) {
         w.push_back(v[i]);
         if(!in.map.empty()) m.push_back(in.map[i]);
      }
   }
   s.nontrivial(v.size() > 1);
   if(k < 4 && hi < lo) {
      s.label("bounds out of order");
      s.nontrivial();
      REQ(rejected([&] { (void)in_open_range(a, mk(lo), mk(hi)); }) && rejected([&] { (void)in_closed_range(a, mk(lo), mk(hi)); })
             && rejected([&] { (void)in_open_range(a, spp::Low{mk(lo)}, spp::High{mk(hi)}); }) && rejected([&] { (void)in_closed_range(a, spp::Low{mk(lo)}, spp::High{mk(hi)}); }),
          "bounds out of order accepted");
      return;
   }
   auto use = [&](auto r) {
      REQ(r.size().val() == static_cast<long>(w.size()) && same(vals1(r), w), "range is ", str(vals1(r)), ", expected ", str(w), " of ", str(v));
      if constexpr(writable<decltype(r)>) {
         if(dup(m)) return;
         auto mem = in.reg.get();
         T x = val<T>(s);
         r = mk(x);
         for(long i : m) mem[static_cast<std::size_t>(i)] = x;
         REQ(same(in.reg.get(), mem), "memory after writing to the range: ", str(in.reg.get()), ", expected ", str(mem));
      }
   };
   switch(k) {
      case 0: return use(in_open_range(a, mk(lo), mk(hi)));
      case 1: return use(in_open_range(a, spp::Low{mk(lo)}, spp::High{mk(hi)}));
      case 2: return use(in_closed_range(a, mk(lo), mk(hi)));
      case 3: return use(in_closed_range(a, spp::Low{mk(lo)}, spp::High{mk(hi)}));
      default: {
         std::size_t n = 0;
         auto r = in_cond_range(a, [&](auto x) {
            REQ(n < v.size() && same(x, static_cast<T>(v[n])), "condition called out of order");
            ++n;
            return spp::StrictBool{x.val() != lo};
         });
         REQ(n == v.size(), "condition called ", n, " times for ", v.size(), " elements");
         return use(r);
      }
   }
}

template <bool Full, class T, class G, class F>
void obj1(pbt::Src& s, long maxn, G gen, F&& f, bool lv = false) {
   auto h = [&](auto&& A, Info1<T>& in) {
      s.note(in.kind, " ", str(in.v));
      if(in.v.empty()) s.label("empty");
      f(A, in, in.v);
   };
   if constexpr(Full) return any1<T>(s, maxn, gen, h, lv);
   else {
      Info1<T> in;
      long n = s.range(0, maxn);
      spp::Array1D<T> A(n);
      auto b = seqv<T>(s, n, gen);
      fill(A, b);
      in.v = b, in.map = iota(n), in.reg = region(A), in.kind = "Array1D";
      if(s.coin()) return h(A, in);
      std::reverse(in.v.begin(), in.v.end());
      std::reverse(in.map.begin(), in.map.end());
      in.kind = "reversed";
      return h(A(spp::place::reverse), in);
   }
}
template <class T, bool Full>
void sort1(pbt::Src& s) {
   long mx = s.chance(1, 8) ? 40 : 6;
   obj1<Full, T>(s, mx, &val<T>, [&](auto& A, auto& in, const std::vector<T>& v) {
      if constexpr(writable<std::remove_reference_t<decltype(A)>>) {
         if(!dup(in.map)) sorts<T>(s, A, in, v);
      }
   }, true);
}
template <class T>
void sort2(pbt::Src& s) {
   any2<T>(s, s.chance(1, 6) ? 7 : 3, &val<T>, [&](auto&& A, auto& in) {
      s.note(in.kind, " ", str(in.v));
      if constexpr(writable<std::remove_reference_t<decltype(A)>>) {
         if(!dup(in.map)) sorts<T>(s, A, in, in.v.v);
      }
   }, true);
}
template <class T, bool Full>
void visit1(pbt::Src& s) {
   obj1<Full, T>(s, 5, &any<T>, [&](auto& A, auto& in, const std::vector<T>& v) {
      if(dup(in.map)) return;
      visits<T>(s, A, in, v);
   });
}
template <class T>
void visit2(pbt::Src& s) {
   any2<T>(s, 3, &any<T>, [&](auto&& A, auto& in) {
      s.note(in.kind, " ", str(in.v));
      if(dup(in.map)) return;
      visits<T>(s, A, in, in.v.v);
   });
}
template <class T>
T unordered(pbt::Src& s) {
   if constexpr(is_fp<T>) {
      if(s.chance(1, 6)) return fpinfo<T>::nan();
   }
   return val<T>(s);
}
template <class T, bool Full>
void range1(pbt::Src& s) {
   obj1<Full, T>(s, 6, s.coin() ? &unordered<T> : &val<T>, [&](auto& A, auto& in, const std::vector<T>& v) { ranges<T>(s, A, in, v); });
}
// Shuffling is not the identity: in a hundred shuffles every value visits every position.
inline void mixing(pbt::Src& s) {
   long n = s.range(2, 4);
   s.note("100 shuffles of ", n, " elements");
   s.nontrivial();
   std::vector<std::vector<bool>> hit(static_cast<std::size_t>(n), std::vector<bool>(static_cast<std::size_t>(n)));
   for(int k = 0; k < 100; ++k) {
      auto A = spp::sequence<long>(n).eval();
      if(k % 2) spp::shuffle(A);
      else {
         auto R = A(spp::place::reverse);
         spp::shuffle(R);
      }
      for(long i = 0; i < n; ++i) hit[static_cast<std::size_t>(i)][static_cast<std::size_t>(A[i].val())] = true;
   }
   for(auto& h : hit)
      for(bool b : h) REQ(b, "a value never reached some position in 100 shuffles");
}
} // namespace so
