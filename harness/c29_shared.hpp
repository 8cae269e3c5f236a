#pragma once
#define STRICT_ERROR_EXCEPTIONS
#define STRICT_QUAD_PRECISION
#define STRICT_REMOVE_NODISCARD
#include "sp.hpp"
#include "c29.hpp"
#include <atomic>
#include <iomanip>
#include <memory>
#include <random>
#include <sstream>

namespace c29 {
using namespace g;
using namespace spp;

template <class T>
struct Sh : Shared {
   Array1D<T> a, b;
   Array1D<T, Aligned> c;
   Array2D<T> m;
   FixedArray1D<T, 5> f;
   FixedArray2D<T, 2, 3> w;

   Sh(const std::vector<double>& init, long n, long mm, long k) : a(n), b(n), c(n), m(mm, mm ? k : 0) {
      std::size_t i = 0;
      auto fill = [&](auto& A) {
         for(long j = 0; j < A.size().val(); ++j) A.un(j) = Strict<T>{static_cast<T>(init[i++ % init.size()])};
      };
      fill(a); fill(b); fill(c); fill(m); fill(f); fill(w);
      auto const& A = a;
      auto const& M = m;
      // slices and expressions made once and read by every thread
      keep1([&] { return A(place::reverse); });
      keep1([&] { return A({ImplicitInt{0}, ImplicitInt{2}, ImplicitInt{1}}); });
      keep1([&] { return merge(A, b, f); });
      keep1([&] { return (A + b) * Strict<T>{static_cast<T>(2)} - abs(A); });
      keep1([&] { return exclude(A, 1); });
      keep1([&] { return in_closed_range(A, Strict<T>{static_cast<T>(-5)}, Strict<T>{static_cast<T>(5)}); });
      keep1([&] { return M.row(0); });
      keep1([&] { return M.diag()(place::even); });
      keep1([&] { return M.view1D()(place::skipN{2}); });
      keep1([&] { return row_reduce(M, [](auto r) { return sum(r); }); });
      keep1([&] { return sequence(5, Strict<T>{static_cast<T>(1)}); });
      keep2([&] { return transpose(M); });
      keep2([&] { return M + M; });
      keep2([&] { return tensor_prod(A, f); });
      keep2([&] { return row_broadcast(f); });
      keep2([&] { return merge_vertical(M, M, M); });
      keep2([&] { return merge_horizontal(M, transpose(M)); });
      keep2([&] { return identity<T>(3) * Strict<T>{static_cast<T>(2)}; });
      keep1([&] { return matvec_prod(M, M.row(0)); });
      keep1([&] { return col_reduce(M, [](auto r) { return min(r); }); });
      keep1([&] { return array_cast<float>(A); });
      keep2([&] { return M(place::reverse, place::even); });
      keep2([&] { return col_broadcast(A); });
      keep2([&] { return A.view2D(1, A.size()); });
      keep2([&] { return M.blockN(0, 0, 1, 1); });
   }
   std::vector<std::function<void(std::string&, int, long)>> kept;
   template <class Make>
   void keep1(Make mk) {
      try {
         auto p = std::make_shared<decltype(mk())>(mk());
         kept.push_back([p](std::string& o, int how, long i) {
            auto const& e = *p;
            switch(how) {
               case 0: put(o, e); return;
               case 1: put(o, sum(e)); put(o, max(e)); return;
               case 2: put(o, e[i]); return;
               case 3: for(auto v : e) put(o, v); return;
               case 4: { std::ostringstream t; t << e; o += t.str(); return; }
               case 5: put(o, e(place::lastN{i})); return;
               case 6: { auto q = e.eval(); put(o, q); put(o, Strict<bool>{q == e}); return; }
               default: put(o, e + e); put(o, e.at(i));
            }
         });
      } catch(const StrictException&) {}
   }
   template <class Make>
   void keep2(Make mk) {
      try {
         auto p = std::make_shared<decltype(mk())>(mk());
         kept.push_back([p](std::string& o, int how, long i) {
            auto const& e = *p;
            switch(how) {
               case 0: put(o, e); return;
               case 1: put(o, sum(e)); put(o, max(e)); return;
               case 2: put(o, e(i, 0)); return;
               case 3: for(auto v : e) put(o, v); return;
               case 4: { std::ostringstream t; t << e; o += t.str(); return; }
               case 5: put(o, e.row(i)); put(o, e.col(i)); return;
               case 6: { auto q = e.eval(); put(o, q); put(o, Strict<bool>{q == e}); return; }
               default: put(o, e + e); put(o, e.view1D());
            }
         });
      } catch(const StrictException&) {}
   }
   template <class U>
   static void put(std::string& o, Strict<U> v) {
      o += str(v) + ' ';
   }
   static void put(std::string& o, OneDimBaseType auto const& q) {
      o += '[';
      for(long i = 0; i < q.size().val(); ++i) put(o, Strict<BuiltinTypeOf<decltype(q)>>{q.un(i)});
      o += "] ";
   }
   static void put(std::string& o, TwoDimBaseType auto const& q) {
      o += '{';
      for(long i = 0; i < q.rows().val(); ++i)
         for(long j = 0; j < q.cols().val(); ++j) put(o, Strict<BuiltinTypeOf<decltype(q)>>{q.un(i, j)});
      o += "} ";
   }
   int count() const override {
      return 54;
   }
   std::string read(int op, long i, long j, double x0) const override {
      std::string o;
      try {
         one(o, op, i, j, Strict<T>{static_cast<T>(x0)});
      } catch(const StrictException& e) { o += std::string("rejected: ") + e.what(); }
      return o;
   }
   void one(std::string& o, int op, long i, long j, Strict<T> x) const {
      constexpr bool fl = is_fp<T>;
      switch(op) {
         case 0: put(o, a[i]); put(o, b.at(j)); return;
         case 1: put(o, m(i, j)); put(o, m.at(j, i)); return;
         case 2: put(o, a(place::reverse)); put(o, f(place::even)); return;
         case 3: put(o, a(seqN{i, j})); return;
         case 4: put(o, m.row(i)); put(o, m.col(j)); put(o, m.diag()); return;
         case 5: put(o, m.blockN(0, 0, i, j)); return;
         case 6: put(o, a + b * x); return;
         case 7: put(o, abs(a - x)); put(o, -b); return;
         case 8: put(o, transpose(m)); put(o, m + m); return;
         case 9: put(o, sum(a)); put(o, max(b)); put(o, min(m)); return;
         case 10: { auto [p, v] = min_index(a); put(o, p); put(o, v); return; }
         case 11: put(o, dot_prod(a, b)); return;
         case 12: put(o, Strict<bool>{a == b}); put(o, Strict<bool>{a != c}); put(o, has_zero(m)); return;
         case 13: for(auto v : a) put(o, v); for(auto it = m.crbegin(); it != m.crend(); ++it) put(o, *it); return;
         case 14: { std::ostringstream t; t << std::setprecision(static_cast<int>(20 + i)) << a << m << f; o += t.str(); return; }
         case 15: { std::ostringstream t; t << std::scientific << (a + b)(place::reverse) << x << w; o += t.str(); return; }
         case 16: { std::stringstream t; t << std::setprecision(40) << a; Array1D<T> q; t >> q; put(o, q); return; }
         case 17: { Array1D<T> q(a); q.resize_and_assign(merge(a, b)); q.insert(i, x); q.remove(j); put(o, q); return; }
         case 18: { Array2D<T> q(m); q.insert_row(i, m.row(j)); q.remove_col(j); put(o, q); return; }
         case 19: { Array1D<T> q = a; sort_increasing(q); put(o, q); return; }
         case 20: put(o, in_closed_range(a, Strict<T>{static_cast<T>(-3)}, Strict<T>{static_cast<T>(3)})); return;
         case 21: put(o, exclude(a, i)); put(o, a({ImplicitInt{i}, ImplicitInt{j}})); return;
         case 22: put(o, m.rows({ImplicitInt{i}})); put(o, m(place::complement{{ImplicitInt{i}}}, place::all)); return;
         case 23: if constexpr(fl) { put(o, sqrt(abs(a))); put(o, norm2(b)); put(o, stable_sum(a)); } else put(o, a * b); return;
         case 24: if constexpr(fl) { put(o, stable_dot_prod(a, b)); put(o, pow_int(a, i)); put(o, within_tol_rel(a, b)); } else put(o, a ^ b); return;
         case 25: put(o, row_reduce(m, [](auto r) { return max(r); })); put(o, col_broadcast(a)); return;
         case 26: put(o, a.view2D(i, j)); put(o, m.view1D()); return;
         case 27: put(o, semi_random(i + 1, Strict<T>{static_cast<T>(-2)}, Strict<T>{static_cast<T>(5)}, Seed{static_cast<unsigned>(j + 1)})); return;
         case 28: { // random values differ from run to run, but stay in range
            auto lo = Strict<T>{static_cast<T>(-4)}, hi = Strict<T>{static_cast<T>(9)};
            auto q = random(8, lo, hi).eval();
            put(o, Strict<bool>{all_of(q, [lo, hi](auto v) { return v >= lo && v <= hi; })});
            put(o, Strict<bool>{rands(lo, hi) <= hi});
            put(o, Strict<bool>{rands_not0(lo, hi) != Strict<T>{}});
            return;
         }
         case 29: { Array1D<T> q(a); shuffle(q); sort_increasing(q); put(o, q); random(q, Low{Strict<T>{static_cast<T>(0)}}, High{Strict<T>{static_cast<T>(1)}}); return; }
         case 30: { std::istringstream t("1 2 3\n4 5 6"); Array2D<T> q; t >> q; put(o, q); return; }
         case 31: { Strict<T> q = x; q += x; put(o, q); std::stringstream t; t << q; Strict<T> r{}; t >> r; put(o, r); return; }
         case 32: put(o, matvec_prod(m, m.row(0))); put(o, tensor_prod(a, f)); return;
         case 33: { FixedArray1D<T, 5> q(f); q(place::odd) = x; q += f; put(o, q); put(o, f(place::lastN{i})); return; }
         default:
            if(!kept.empty()) kept[static_cast<std::size_t>(op + i) % kept.size()](o, static_cast<int>(j + (i > 2 ? 4 : 0)) % 8, i);
      }
   }
};
} // namespace c29
