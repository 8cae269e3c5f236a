// The interpreter.  The including file sets the configuration macros, CFG (a suffix) and GROUP.
#include "c25_prog.hpp"
#include <algorithm>
#include <array>
#include <bit>
#include <charconv>
#include <cmath>
#include <compare>
#include <complex>
#include <concepts>
#include <cstdio>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#ifdef STRICT_QUAD_PRECISION
#include <quadmath.h>
#endif
#include <random>
#include <ranges>
#include <source_location>
#include <span>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#define __TIME__ "00:00:00" // seeds the semi-random generator
#define C25_CAT_(a, b, c) a##_##b##_##c
#define C25_CAT(a, b, c) C25_CAT_(a, b, c)
#define spp C25_CAT(spp, CFG, lib) // every configuration has a library namespace of its own
#define c25i C25_CAT(c25i, CFG, GROUP)
#include <strictpp/strict.hpp>

namespace c25 {
struct AssertFailed {}; // thrown by the replaced __assert_fail
}

namespace c25i {
using namespace spp;
using c25::Step;
using std::string;

template <class T>
void put(string& s, T x) {
   char b[80];
   if constexpr(std::is_same_v<T, bool>) s += x ? "t" : "f";
   else if constexpr(std::is_integral_v<T>) s += std::to_string(x);
   else {
      if(x != x) {
         s += "nan"; // the sign of a NaN is not part of its value
         return;
      }
#ifdef STRICT_QUAD_PRECISION
      if constexpr(std::is_same_v<T, __float128>) quadmath_snprintf(b, sizeof b, "%Qa", x);
      else
#endif
      if constexpr(std::is_same_v<T, long double>) std::snprintf(b, sizeof b, "%La", x);
      else std::snprintf(b, sizeof b, "%a", static_cast<double>(x));
      s += b;
   }
}

template <class T>
struct St {
   Array1D<T> a, b;
   Array1D<T, Aligned> c;
   Array2D<T> m;
   Array2D<T, Aligned> k;
   FixedArray1D<T, 4> f;
   FixedArray2D<T, 2, 3> g;
   string o; // output of the current step

   void out(const string& s) {
      o += s;
      o += ' ';
   }
   void out(const char* s) {
      out(string(s));
   }
   template <class U>
   void out(Strict<U> x) {
      put(o, x.val());
      o += ' ';
   }
   void out(bool x) {
      put(o, x);
   }
   void out(long x) {
      put(o, x);
      o += ' ';
   }
   void arr(OneDimBaseType auto const& q) {
      o += std::to_string(q.size().val()) + "[";
      for(long i = 0; i < q.size().val(); ++i) {
         put(o, q.un(i).val());
         o += ' ';
      }
      o += "] ";
   }
   void arr(TwoDimBaseType auto const& q) {
      o += std::to_string(q.rows().val()) + "x" + std::to_string(q.cols().val()) + "[";
      for(long i = 0; i < q.rows().val(); ++i)
         for(long j = 0; j < q.cols().val(); ++j) {
            put(o, q.un(i, j).val());
            o += ' ';
         }
      o += "] ";
   }
   string state() {
      string t;
      t.swap(o);
      arr(a); arr(b); arr(c); arr(m); arr(k); arr(f); arr(g);
      t.swap(o);
      return t;
   }
};

template <class T>
Strict<T> val(double x) {
   return Strict<T>{static_cast<T>(x)};
}
inline std::vector<ImplicitInt> il(const std::vector<long>& v) {
   std::vector<ImplicitInt> r;
   for(auto x : v) r.push_back(ImplicitInt{x});
   return r;
}
// keeps integer elements small, so that arithmetic does not overflow
template <class A>
void norm(A& q) {
   using T = BuiltinTypeOf<A>;
   if constexpr(std::is_integral_v<T> && !std::is_same_v<T, bool>)
      for(long i = 0; i < q.size().val(); ++i) q.un(i) = Strict<T>{static_cast<T>(q.un(i).val() % 100)};
}

//////////////////////////////////////////////////////////////////////////////////////////////////////
#if GROUP == 1 // 1D arrays
constexpr int COUNT = 62;
template <class T>
void step(St<T>& S, const Step& p) {
   auto& [a, b, c, m, k, f, g, o] = S;
   using namespace place;
   auto x = val<T>(p.x), y = val<T>(p.y);
   auto L = il(p.list);
   switch(p.op) {
      case 0: S.out(a[p.a]); a[p.b] = x; return;
      case 1: S.out(a.at(p.a)); a.at(p.b) = x; return;
      case 2: a[Last{p.a}] = x; return;
      case 3: S.arr(a(seqN{p.a, p.b, p.c})); return;
      case 4: a(seqN{p.a, p.b, p.c}) = x; return;
      case 5: a(seqN{p.a, p.b, p.c}) = b(seqN{p.d, p.b}); return;
      case 6: S.arr(a(seq{p.a, p.b, p.c})); return;
      case 7: a(seq{p.a, p.b}) *= x; return;
      case 8: a(all) = b(reverse); return;
      case 9: a(even) = x; a(odd) = y; return;
      case 10: S.arr(a(firstN{p.a})); a(lastN{p.a}) = b(firstN{p.a}); return;
      case 11: a(skipN{p.a}) += x; return;
      case 12: S.arr(a(L)); return;
      case 13: a(L) = x; return;
      case 14: a(L) = b(L); return;
      case 15: S.arr(a(complement{L})); return;
      case 16: a(complement{L}) = x; return;
      case 17: a(seqN{p.a, p.b})(reverse)(firstN{p.c}) = x; return;
      case 18: a = b; return;
      case 19: a = b(reverse); return;
      case 20: a = {x, y, x}; return;
      case 21: a += b; return;
      case 22: a -= b(reverse); return;
      case 23: a *= y; return;
      case 24: std::reverse(a.begin(), a.end()); return;
      case 25: std::sort(a.begin(), a.end()); return;
      case 26: for(auto it = a.rbegin(); it != a.rend(); ++it) S.out(*it); return;
      case 27: { auto it = a.begin() + p.a; S.out(*it); S.out(long(a.end() - it)); *it = x; return; }
      case 28: { auto w = a(reverse); std::copy(b.cbegin(), b.cbegin() + std::min(a.size().val(), b.size().val()), w.begin()); return; }
      case 29: a.resize(p.a); return;
      case 30: a.resize(p.a, false); a = x; return;
      case 31: a.insert(p.a, x); return;
      case 32: a.insert(p.a, b); return;
      case 33: a.insert_front(x); a.insert_back(y); return;
      case 34: a.insert_front(c); a.insert_back(b(reverse)); return;
      case 35: a.remove(p.a); return;
      case 36: a.remove(p.a, p.b); return;
      case 37: a.remove(L); return;
      case 38: a.remove_front(p.a); return;
      case 39: a.remove_back(p.a); return;
      case 40: a.remove(Last{p.a}); return;
      case 41: a.resize_and_assign(b); return;
      case 42: a.resize_and_assign(merge(b, c, a)); return;
      case 43: a.resize_and_assign(exclude(b, p.a, p.b)); return;
      case 44: if(p.b & 1) a.resize_and_assign(a(reverse)); else a.resize_and_assign(a(L)); return;
      case 45: a.swap(b); return;
      case 46: b.resize_and_assign(std::move(a)); S.arr(a); return;
      case 47: c.resize_and_assign(a); return;
      case 48: c = a; return;
      case 49: f = x; f[p.a] = y; return;
      case 50: f = a(firstN{4}); return;
      case 51: a.resize_and_assign(f(reverse)); return;
      case 52: f(seqN{p.a, p.b, p.c}) = x; return;
      case 53: { Array1D<T> q(p.a, x), r{x, y}, u(b.begin(), b.end()); S.arr(q); S.arr(r); S.arr(u); return; }
      case 54: { T* q = a.blas_data(); auto w = attach1D(q, p.a <= a.size().val() ? p.a : 0); S.arr(w); w += x; return; }
      case 55: a.resize_and_assign(merge(a, x, y)); return;
      case 56: { Array1D<T> q(a); q.resize_and_assign(merge(q(reverse), q)); q.insert(p.a, q(seqN{p.b, p.c})); S.arr(q); return; }
      case 57: S.arr(a.view2D(p.a, p.b)); return;
      case 58: a.view2D(p.a, p.b).row(p.c) = x; return;
      case 59: for_each(a, [&](auto& e) { e += x; }); return;
      case 60: S.out(a.size_m1()); S.out(a.empty()); S.out(a.bytes()); return;
      default: in_cond_range(a, [&](auto e) { return e < x; }) = y;
   }
}
#define C25_ALWAYS(p) ((p).op == 1 || (p).op == 57)
//////////////////////////////////////////////////////////////////////////////////////////////////////
#elif GROUP == 2 // 2D arrays
constexpr int COUNT = 64;
template <class T>
void step(St<T>& S, const Step& p) {
   auto& [a, b, c, m, k, f, g, o] = S;
   using namespace place;
   auto x = val<T>(p.x), y = val<T>(p.y);
   auto L = il(p.list);
   switch(p.op) {
      case 0: S.out(m(p.a, p.b)); m(p.c, p.d) = x; return;
      case 1: S.out(m.at(p.a, p.b)); m.at(p.c, p.d) = x; return;
      case 2: m(Last{p.a}, Last{p.b}) = x; return;
      case 3: S.arr(m.row(p.a)); m.row(p.b) = x; return;
      case 4: S.arr(m.col(p.a)); m.col(p.b) *= x; return;
      case 5: S.arr(m.diag(p.a - p.b)); m.diag() = x; return;
      case 6: m.row(p.a) = m.row(p.b); return;
      case 7: m.row(p.a)(reverse) = a(firstN{p.b}); return;
      case 8: m.col(p.a) = a; return;
      case 9: S.arr(m.rows(L)); return;
      case 10: S.arr(m.cols(L)); return;
      case 11: m.rows(L) = x; return;
      case 12: m.cols(L) += x; return;
      case 13: S.arr(m.block(p.a, p.b, p.c, p.d)); return;
      case 14: m.block(p.a, p.b, p.c, p.d) = x; return;
      case 15: S.arr(m.blockN(p.a, p.b, p.c, p.d)); return;
      case 16: m.blockN(p.a, p.b, 1, 2) = k.blockN(p.c, p.d, 1, 2); return;
      case 17: S.arr(m(seqN{p.a, p.b}, seqN{p.c, p.d})); return;
      case 18: m(reverse, all) = m.rows(all); return;
      case 19: m(even, skipN{p.a}) = x; return;
      case 20: S.arr(m(L, reverse)); return;
      case 21: m(firstN{p.a}, lastN{p.b}) -= x; return;
      case 22: S.arr(m(complement{L}, all)); return;
      case 23: m = k; return;
      case 24: m = x; return;
      case 25: m += k; return;
      case 26: m *= y; return;
      case 27: m.resize(p.a, p.b); return;
      case 28: m.resize(p.a, p.b, false); m = x; return;
      case 29: m.insert_rows(p.a, k); return;
      case 30: m.insert_cols(p.a, k); return;
      case 31: m.insert_row(p.a, a); return;
      case 32: m.insert_col(p.a, b); return;
      case 33: m.insert_row(p.a, k.row(p.b)); return;
      case 34: m.insert_col(p.a, k.col(p.b)(reverse)); return;
      case 35: m.remove_row(p.a); return;
      case 36: m.remove_col(p.a); return;
      case 37: m.remove_rows(p.a, p.b); return;
      case 38: m.remove_cols(p.a, p.b); return;
      case 39: m.remove_rows(L); return;
      case 40: m.remove_cols(L); return;
      case 41: m.remove_rows_front(p.a); return;
      case 42: m.remove_rows_back(p.a); return;
      case 43: m.remove_cols_front(p.a); return;
      case 44: m.remove_cols_back(p.a); return;
      case 45: m.resize_and_assign(k); return;
      case 46: m.resize_and_assign(transpose(m)); return;
      case 47: m.resize_and_assign(merge_horizontal(m, k)); return;
      case 48: m.resize_and_assign(merge_vertical(k, m)); return;
      case 49: { Array2D<T> q(m); m.resize_and_assign(std::move(q)); S.arr(q); return; }
      case 50: { Array2D<T> q(k); m.swap(q); k = q.blockN(0, 0, p.a, p.b); return; }
      case 51: g = x; g(p.a, p.b) = y; S.arr(g.row(p.c)); return;
      case 52: g = m.blockN(p.a, p.b, 2, 3); return;
      case 53: m.resize_and_assign(g); return;
      case 54: k.resize_and_assign(m(reverse, reverse)); return;
      case 55: S.arr(m.view1D()(reverse)); m.view1D()(firstN{p.a}) = x; return;
      case 56: S.arr(m.view2D(p.a, p.b)); return;
      case 57: m.view2D(m.cols().val(), m.rows().val()).row(p.a) = x; return;
      case 58: for(auto&& e : m) S.out(e); return;
      case 59: for(auto it = m.rbegin(); it != m.rend(); ++it) *it += x; return;
      case 60: { Array2D<T> q(p.a, p.b, x); S.arr(q); Array2D<T> r{{x, y}, {y, x}}; S.arr(r); return; }
      case 61: { T* q = m.blas_data(); auto w = attach2D(q, m.rows().val(), m.cols().val()); w.row(p.a) = x; S.arr(w); return; }
      case 62: m.insert_rows_front(k); m.insert_row_back(a); return;
      default: S.out(m.rows()); S.out(m.cols()); S.out(m.empty()); m.diag(p.a) += x;
   }
}
#define C25_ALWAYS(p) ((p).op == 1 || (p).op == 56)
//////////////////////////////////////////////////////////////////////////////////////////////////////
#elif GROUP == 3 // expressions
constexpr int COUNT = 52;
template <class T>
void step(St<T>& S, const Step& p) {
   auto& [a, b, c, m, k, f, g, o] = S;
   using namespace place;
   auto x = val<T>(p.x), y = val<T>(p.y);
   auto L = il(p.list);
   constexpr bool fl = Floating<T>, in = Integer<T>;
   switch(p.op) {
      case 0: S.arr(a + b); return;
      case 1: S.arr(a - b(reverse)); return;
      case 2: S.arr(a * b + x); return;
      case 3: S.arr(a / b); return;
      case 4: S.arr(x / a); return;
      case 5: S.arr(-a); S.arr(+b); return;
      case 6: S.arr(abs(a)); return;
      case 7: if constexpr(in) S.arr(a % b); else S.arr(a); return;
      case 8: if constexpr(in) S.arr((a & b) | (a ^ b)); else S.arr(b); return;
      case 9: if constexpr(in) S.arr((a << b) >> b); else S.arr(a); return;
      case 10: if constexpr(in) S.arr(~a); else S.arr(b); return;
      case 11: if constexpr(fl) { S.arr(sqrt(abs(a))); S.arr(exp(a * Strict<T>{static_cast<T>(0.125)})); } return;
      case 12: if constexpr(fl) { S.arr(sin(a)); S.arr(cos(b)); S.arr(tan(a)); } return;
      case 13: if constexpr(fl) { S.arr(log(abs(a) + val<T>(1))); S.arr(log2(abs(b) + val<T>(1))); S.arr(log10(abs(a) + val<T>(2))); S.arr(cbrt(a)); } return;
      case 14: if constexpr(fl) { S.arr(inv(a)); S.arr(pow(abs(a), y)); S.arr(pow_int(a, p.a)); } return;
      case 15: if constexpr(fl) S.arr(fast_pow_int(a, p.a % 4)); else S.arr(a * a); return;
      case 16: S.arr(m + k); return;
      case 17: S.arr(m * m - transpose(transpose(m))); return;
      case 18: S.arr(transpose(m)); return;
      case 19: S.arr(matvec_prod(m, a)); return;
      case 20: S.arr(tensor_prod(a, b)); return;
      case 21: S.arr(merge(a, b, c)); return;
      case 22: S.arr(merge(x, a)); S.arr(merge(b, y, x)); return;
      case 23: S.arr(merge_horizontal(m, k)); return;
      case 24: S.arr(merge_vertical(m, k)); return;
      case 25: S.arr(exclude(a, p.a, p.b)); return;
      case 26: S.arr(exclude(a, Last{p.a})); return;
      case 27: S.arr(row_reduce(m, [](auto r) { return max(r); })); return;
      case 28: S.arr(col_reduce(m, [](auto r) { return sum(r); })); return;
      case 29: S.arr(row_broadcast(a)); return;
      case 30: S.arr(col_broadcast(a)); return;
      case 31: S.arr(sequence(p.a, x, y)); return;
      case 32: if constexpr(fl) S.arr(linspace(p.a, x, y)); return;
      case 33: S.arr(const1D(p.a, x)); S.arr(const2D(p.a, p.b, x)); return;
      case 34: S.arr(irange(p.a)); S.arr(irange(a)); S.arr(irange_row(m)); return;
      case 35: S.arr(e_unit<T>(p.a, p.b)); return;
      case 36: S.arr(identity<T>(p.a)); return;
      case 37: S.arr(generate(a, [&](auto e) { return e * x; })); return;
      case 38: S.arr(generate(a, b, [&](auto e, auto d) { return e - d; })); return;
      case 39: S.arr((a + b)(seqN{p.a, p.b})); return;
      case 40: S.arr((a + x)(L)); return;
      case 41: S.arr((m + x).row(p.a)); S.arr((m + x).col(p.b)); return;
      case 42: S.arr((m - x)(L, reverse)); return;
      case 43: S.arr((m * y).block(p.a, p.b, p.c, p.d)); return;
      case 44: a = (a + b) * x - a; return;
      case 45: m = m * k + x; return;
      case 46: a(reverse) = b + b; return;
      case 47: b.resize_and_assign(a(L) + x); return;
      case 48: S.arr(array_cast<double>(a)); return;
      case 49: S.out(a == b); S.out(a != c); S.out(m == k); return;
      case 50: S.arr(abs(m) - k); return;
      default: S.arr(((a + x)(reverse) * b)(firstN{p.a}) - y);
   }
}
#define C25_ALWAYS(p) false
//////////////////////////////////////////////////////////////////////////////////////////////////////
#elif GROUP == 4 // reductions and scalars
constexpr int COUNT = 44;
template <class T>
void step(St<T>& S, const Step& p) {
   auto& [a, b, c, m, k, f, g, o] = S;
   using namespace place;
   auto x = val<T>(p.x), y = val<T>(p.y);
   auto L = il(p.list);
   constexpr bool fl = Floating<T>, in = Integer<T>;
   auto z = [&](auto e) { return e == Strict<T>{}; };
   switch(p.op) {
      case 0: S.out(sum(a)); S.out(sum(m)); return;
      case 1: S.out(prod(a(firstN{p.a}))); return;
      case 2: S.out(max(a)); S.out(min(a, x)); return;
      case 3: { auto [i, v] = min_index(a); S.out(i); S.out(v); return; }
      case 4: { auto [i, j, v] = max_index(m); S.out(i); S.out(j); S.out(v); return; }
      case 5: if constexpr(fl) { S.out(norm1(a)); S.out(norm_inf(b)); } return;
      case 6: if constexpr(fl) { S.out(mean(a)); S.out(norm2(a)); S.out(norm2_scaled(b)); } return;
      case 7: S.out(has_zero(a)); S.out(all_zeros(b)); S.out(all_pos(a)); S.out(all_non_neg(m)); return;
      case 8: S.out(all_of(a, z)); S.out(any_of(a, z)); S.out(none_of(b, x)); return;
      case 9: if constexpr(fl) { S.out(all_finite(a)); S.out(has_nan(b)); S.out(has_inf(a)); } return;
      case 10: S.out(dot_prod(a, b)); return;
      case 11: if constexpr(fl) { S.out(stable_sum(a)); S.out(semi_stable_sum(b)); } return;
      case 12: if constexpr(fl) { S.out(stable_mean(a)); S.out(stable_norm1(a)); S.out(stable_norm2(b)); S.out(stable_norm2_scaled(b)); } return;
      case 13: if constexpr(fl) { S.out(stable_prod(a)); S.out(stable_norm_lp(b, p.a)); } return;
      case 14: if constexpr(fl) S.out(stable_dot_prod(a, b)); return;
      case 15: sort_increasing(a); return;
      case 16: sort_decreasing(b(seqN{p.a, p.b})); return;
      case 17: sort(a, [](auto e, auto d) { return abss(e) < abss(d); }); return;
      case 18: in_open_range(a, Low{x}, High{y}) = x; return;
      case 19: S.arr(in_closed_range(a, Low{x}, High{y})); return;
      case 20: S.out(maxs(x, y)); S.out(mins(x, y)); S.out(abss(x)); S.out(squares(x)); S.out(signs(y)); return;
      case 21: if(p.x <= p.y) S.out(clamps(x, Low{val<T>(0)}, High{y})); else S.out(clamps(y, Low{y}, High{x})); return;
      case 22: S.out(in_open(Value{x}, Low{y}, High{x})); S.out(in_closed(x, y, y)); return;
      case 23: S.out(x + y); S.out(x - y); S.out(x * y); return;
      case 24: S.out(x / y); return;
      case 25: if constexpr(in) { S.out(x % y); S.out(x & y); } return;
      case 26: if constexpr(in) { S.out(x << y); S.out(x >> y); } return;
      case 27: { auto u = x; u += y; u *= y; u -= x; ++u; u--; S.out(u); return; }
      case 28: S.out(factorial(p.a)); S.out(binom_coeff(p.a, p.b)); return;
      case 29: if constexpr(fl) { S.out(fast_pows_int(x, p.a % 4)); S.out(pows_int(x, p.a)); S.out(exps_int<T>(p.a)); } return;
      case 30: if constexpr(fl) { S.out(pows(abss(x), y)); S.out(sqrts(abss(x))); S.out(sqrts(x)); S.out(logs(x)); } return;
      case 31: if constexpr(fl) { auto [h, l] = two_prods(x, y); S.out(h); S.out(l); auto [u, v] = two_sums(x, y); S.out(u); S.out(v); } return;
      case 32: if constexpr(fl) { auto [h, l] = pow_prods(x, p.a); S.out(h); S.out(l); S.out(fmas(x, y, x)); S.out(invs(y)); } return;
      case 33: if constexpr(fl) { S.out(abs_error(x, y)); if(auto r = rel_error(x, y)) S.out(*r); } return;
      case 34: if constexpr(fl) { S.out(within_tol_abs(x, y, Strict<T>{static_cast<T>(p.a)})); S.out(within_tol_rel(a, b, Strict<T>{static_cast<T>(p.a)})); } return;
      case 35: if constexpr(fl) { auto r = max_abs_error(a, b); S.out(r); if(auto q = max_rel_error(a, b)) S.out(*q); } return;
      case 36: S.arr(semi_random(p.a, val<T>(0), y, Seed{static_cast<unsigned>(p.b + 1)})); return;
      case 37: semi_random(a, Low{val<T>(-2)}, High{val<T>(3)}, Seed{static_cast<unsigned>(p.b + 1)}); return;
      case 38: S.out(semi_rands_not0(val<T>(-1), val<T>(2), Seed{static_cast<unsigned>(p.b + 1)})); return;
      case 39: S.out(sum(a(L))); S.out(max(m(L, all))); return;
      case 40: S.out(x < y); S.out(x == y); S.out(x >= y); S.out((x < y) && !(y < x)); return;
      case 41: S.out(strict_cast<int>(x)); return;
      case 42: S.out(sum(row_reduce(m, [](auto r) { return max(r); }))); return;
      default: S.out(min(a + b)); S.out(sum(abs(m)));
   }
}
#define C25_ALWAYS(p) false
//////////////////////////////////////////////////////////////////////////////////////////////////////
#elif GROUP == 6 // mathematical functions, special values
constexpr int COUNT = 42;
template <class T>
void step(St<T>& S, const Step& p) {
   auto& [a, b, c, m, k, f, g, o] = S;
   using namespace place;
   auto x = val<T>(p.x), y = val<T>(p.y);
   const auto& L = il(p.list);
   constexpr bool fl = Floating<T>, in = Integer<T>;
   auto w = x; // now and then a special value
   if constexpr(fl) {
      using lim = std::numeric_limits<T>;
      switch(p.a + 5 * (p.b % 2)) {
         case 0: w = Strict<T>{lim::infinity()}; break;
         case 1: w = Strict<T>{lim::quiet_NaN()}; break;
         case 2: w = Strict<T>{lim::max()}; break;
         case 3: w = Strict<T>{lim::denorm_min()}; break;
         case 5: w = Strict<T>{-lim::infinity()}; break;
         case 6: w = x * Strict<T>{T(1e15)}; break;
         case 7: w = Strict<T>{-T(0)}; break;
         case 8: w = x * Strict<T>{T(1e-15)}; break;
      }
   }
   Array1D<long> P(a.size());
   for(long i = 0; i < P.size().val(); ++i) P.un(i) = Strict<long>{i % (p.c < 0 ? 3 : p.c + 1)};
   switch(p.op % 42) {
      case 0: if constexpr(fl) { S.out(floors(w)); S.out(ceils(w)); S.out(floors(x)); S.out(ceils(y)); } return;
      case 1: if constexpr(fl) { S.out(isinfs(w)); S.out(isnans(w)); S.out(isfinites(w)); } return;
      case 2: if constexpr(fl) { S.out(exps(w)); S.out(exps(x)); S.out(logs(w)); } return;
      case 3: if constexpr(fl) { S.out(log2s(w)); S.out(log10s(w)); S.out(log2s(abss(x))); S.out(log10s(abss(y))); } return;
      case 4: if constexpr(fl) { S.out(sqrts(w)); S.out(cbrts(w)); S.out(cbrts(x)); } return;
      case 5: if constexpr(fl) { S.out(sins(x)); S.out(coss(x)); S.out(tans(y)); S.out(sins(w)); } return;
      case 6: if constexpr(fl) { S.out(pows(w, y)); S.out(pows(x, w)); S.out(pows(w, w)); } return;
      case 7: if constexpr(fl) { S.out(fmas(w, x, y)); S.out(fmas(x, y, w)); S.out(invs(w)); } return;
      case 8: if constexpr(fl) { S.out(squares(w)); S.out(cubes(w)); } S.out(squares(x)); S.out(cubes(y)); return;
      case 9: if constexpr(fl) { S.out(maxs(w, x)); S.out(mins(x, w));  S.out(signs(w)); } return;
      case 10: if constexpr(fl) { S.out(w < x); S.out(w >= x); S.out(w == w); S.out(w != x); S.out(abss(w)); S.out(-w); } return;
      case 11: if constexpr(fl) { S.out(fast_pows_int(w, p.c % 6)); S.out(pows_int(w, p.c)); S.out(pows_int(x, -p.d)); } return;
      case 12: if constexpr(fl) { S.out(abs_error(w, x)); if(auto r = rel_error(w, x)) S.out(*r); S.out(within_tol_rel(w, x, Strict<T>{T(0.5)})); } return;
      case 13: S.arr(abs(a) + b * b * b); return;
      case 14: if constexpr(fl) { S.arr(exp(b)); S.arr(log(a)); } return;
      case 15: if constexpr(fl) { S.arr(log2(abs(a))); S.arr(log10(abs(m))); } return;
      case 16: if constexpr(fl) { S.arr(sqrt(m)); S.arr(cbrt(a)); } return;
      case 17: if constexpr(fl) { S.arr(sin(a)); S.arr(cos(f)); S.arr(tan(m)); } return;
      case 18: if constexpr(fl) { S.arr(pow(abs(a), y)); S.arr(pow_int(a, p.d)); } return;
      case 19: if constexpr(fl) { S.arr(inv(a)); S.arr(fast_pow_int(m, p.c % 5)); } return;
      case 20: S.arr(a * a); S.arr(m * m - m); return;
      case 21: if constexpr(fl) { S.out(norm_lp(a, p.c + 1)); S.out(norm_lp_scaled(b, p.d + 1)); } return;
      case 22: if constexpr(fl) { S.out(norm1_scaled(a)); S.out(stable_norm1_scaled(b)); } return;
      case 23: if constexpr(fl) S.out(stable_norm_lp_scaled(a, p.c + 1)); return;
      case 24: if(fl || a.size() < 4_sl) S.out(polynomial(a, x)); if(fl || p.c < 4) S.out(polynomial(b(firstN{p.c}), y)); return;
      case 25: if(fl || p.c < 4) S.out(polynomial(a, y, P)); return;
      case 26: if constexpr(fl) S.out(gpolynomial(a, a(reverse), P)); return;
      case 27: if constexpr(fl) { S.out(stable_polynomial(a, x)); S.out(stable_polynomial(a, y, P)); } return;
      case 28: if constexpr(fl) S.out(stable_gpolynomial(a, a(reverse), P)); return;
      case 29: if constexpr(fl) S.out(semi_stable_dot_prod(a, b)); return;
      case 30: if constexpr(fl) { auto r = two_prod(a, b); S.arr(r.first); S.arr(r.second); } return;
      case 31: if constexpr(fl) { auto r = pow_prod(a, P); S.arr(r.first); S.arr(r.second); } return;
      case 32: S.out(all_neg(a)); S.out(all_non_pos(m)); S.out(all_neg(b, true_sb)); return;
      case 33: S.arr(irange(a)); S.arr(irange_m1(b)); S.arr(irange_row(m)); S.arr(irange_col_m1(m)); return;
      case 34: if constexpr(fl) S.arr(linspace(p.c, x, y)); return;
      case 35: S.arr(sequence(p.c, x, y)); S.arr(e_unit<T>(p.c, p.d)); S.arr(identity<T>(p.c)); return;
      case 36: S.arr(generate_const(a, x)); S.arr(generate_const(m, y)); return;
      case 37: semi_random_not0(b, val<T>(-2), val<T>(4), Seed{static_cast<unsigned>(p.c + 1)}); return;
      case 38: S.out(semi_rands(val<T>(-3), val<T>(6), Seed{static_cast<unsigned>(p.d + 1)})); return;
      case 39: if constexpr(fl) { a = w; S.out(sum(a)); S.out(has_nan(a)); S.out(max(a)); } return; // special values in arrays
      case 40: if constexpr(fl) { if(!a.empty()) a[p.c] = w; S.out(sum(a)); S.out(dot_prod(a, b)); S.out(min(a)); S.out(norm_inf(a)); S.out(a == b); } return;
      default: S.out(x.val() == w.val()); S.arr(array_cast<float>(a)); S.arr(array_cast<double>(m)); S.arr(array_cast<bool>(b));
   }
}
#define C25_ALWAYS(p) false
//////////////////////////////////////////////////////////////////////////////////////////////////////
#else // text
constexpr int COUNT = 14;
template <class T>
void step(St<T>& S, const Step& p) {
   auto& [a, b, c, m, k, f, g, o] = S;
   using namespace place;
   auto x = val<T>(p.x), y = val<T>(p.y);
   switch(p.op) {
      case 0: { std::ostringstream t; t << a; S.out(t.str()); return; }
      case 1: { std::ostringstream t; t << m << x; S.out(t.str()); return; }
      case 2: { std::ostringstream t; t << a(reverse) << (a + x); S.out(t.str()); return; }
      case 3: { std::istringstream t(p.text); t >> a; return; }
      case 4: { std::istringstream t(p.text); t >> m; return; }
      case 5: { std::istringstream t(p.text); t >> x; S.out(x); return; }
      case 6: { std::stringstream t; t << std::setprecision(40) << a; t >> c; return; }
      case 7: { std::stringstream t; t << std::setprecision(40) << m; t >> k; return; }
      case 8: { std::ostringstream t; t << std::setprecision(static_cast<int>(p.a)) << std::scientific << m; S.out(t.str()); return; }
      case 9: { std::istringstream t(p.text); Strict<T> u{}, v{}; t >> u >> v; S.out(u); S.out(v); return; }
      case 10: S.out(a.at(p.a)); return;
      case 11: S.out(m.at(p.a, p.b)); return;
      case 12: S.arr(m.view2D(p.a, p.b)); return;
      default: { std::istringstream t(p.text); t >> b; S.arr(b(reverse)); }
   }
}
#define C25_ALWAYS(p) ((p).op >= 3 && (p).op != 8 && (p).op != 13)
#endif

template <class T>
c25::Out run(const c25::Prog& q, const std::vector<char>* mask) {
   St<T> S;
   std::size_t w = 0;
   auto next = [&] { return val<T>(q.init[w++ % q.init.size()]); };
   S.a.resize(q.n); S.b.resize(q.n); S.c.resize(q.k); S.m.resize(q.m, q.m ? q.k : 0); S.k.resize(q.m, q.m ? q.k : 0);
   auto fill = [&](auto& A) {
      for(long i = 0; i < A.size().val(); ++i) A.un(i) = next();
   };
   fill(S.a); fill(S.b); fill(S.c); fill(S.m); fill(S.k); fill(S.f); fill(S.g);
   c25::Out r;
   for(std::size_t i = 0; i < q.steps.size(); ++i) {
      auto p = q.steps[i];
      p.op %= COUNT;
      r.rejected.push_back(0);
      r.log.emplace_back();
      r.what.emplace_back();
      r.thrown.emplace_back();
      if(mask && (*mask)[i] == 1) continue; // rejected by a debug check in the reference run
      auto backup = S;
      S.o.clear();
      bool rej = true;
      try {
         step(S, p);
         rej = false;
      } catch(const std::exception& e) {
         if(!dynamic_cast<const StrictException*>(&e)) throw;
         r.what.back() = e.what();
         r.thrown.back() = std::current_exception();
      } catch(const c25::AssertFailed&) {
      }
      if(rej) {
         string tmp = "rejected";
         S.a.resize_and_assign(backup.a); S.b.resize_and_assign(backup.b); S.c.resize_and_assign(backup.c);
         S.m.resize_and_assign(backup.m); S.k.resize_and_assign(backup.k);
         S.f = backup.f; S.g = backup.g;
         r.rejected.back() = C25_ALWAYS(p) ? 2 : 1;
         r.log.back() = tmp;
         continue;
      }
      norm(S.a); norm(S.b); norm(S.c); norm(S.m); norm(S.k); norm(S.f); norm(S.g);
      if(S.a.size().val() > 40) S.a.resize(5);
      if(S.b.size().val() > 40) S.b.resize(5);
      if(S.m.size().val() > 60) S.m.resize(2, 3);
      if(S.k.size().val() > 60) S.k.resize(2, 3);
      r.log.back() = S.o + "| " + S.state();
#ifdef C25_STREAM
      c25::step_done(r.log.back());
#endif
   }
   return r;
}
} // namespace c25i

#define C25_NAME_(a, b, c) run_##a##_##b##_##c
#define C25_NAME(a, b, c) C25_NAME_(a, b, c)
#define C25_RUN(T)                                                                        \
   namespace c25 {                                                                        \
   Out C25_NAME(CFG, GROUP, T)(const Prog& q, const std::vector<char>* mask) {            \
      return c25i::run<T>(q, mask);                                                       \
   }                                                                                      \
   }
