// Helpers shared by the harnesses: value generators, bit-exact comparison, printing.
#pragma once
#include "pbt.hpp"

#include <strictpp/strict.hpp>

#include <algorithm>
#include <cmath>
#include <cstring>
#include <limits>
#include <vector>
#ifdef STRICT_QUAD_PRECISION
#include <quadmath.h>
#endif

#ifdef STRICT_QUAD_PRECISION
using f128 = __float128;
#define IF_QUAD(...) __VA_ARGS__
#else
#define IF_QUAD(...)
#endif

namespace g {

template <class T>
constexpr bool is_quad = false;
#ifdef STRICT_QUAD_PRECISION
template <>
constexpr bool is_quad<f128> = true;
#endif
template <class T>
constexpr bool is_fp = std::is_floating_point_v<T> || is_quad<T>;
template <class T>
constexpr bool is_bool = std::is_same_v<T, bool>;
template <class T>
constexpr bool is_int = std::is_integral_v<T> && !is_bool<T>;
template <class T>
constexpr bool is_sint = is_int<T> && std::is_signed_v<T>;
template <class T>
constexpr bool is_uint = is_int<T> && std::is_unsigned_v<T>;

template <class T>
const char* tname() {
   if constexpr(std::is_same_v<T, bool>) return "bool";
   else if constexpr(std::is_same_v<T, int>) return "int";
   else if constexpr(std::is_same_v<T, long>) return "long";
   else if constexpr(std::is_same_v<T, unsigned>) return "unsigned";
   else if constexpr(std::is_same_v<T, unsigned long>) return "unsigned long";
   else if constexpr(std::is_same_v<T, float>) return "float";
   else if constexpr(std::is_same_v<T, double>) return "double";
   else if constexpr(std::is_same_v<T, long double>) return "long double";
   else return "float128";
}

template <class T>
struct fpinfo {
   static constexpr int digits = std::numeric_limits<T>::digits;
   static constexpr int max_exp = std::numeric_limits<T>::max_exponent;
   static constexpr int min_exp = std::numeric_limits<T>::min_exponent;
   static T max() { return std::numeric_limits<T>::max(); }
   static T min() { return std::numeric_limits<T>::min(); }
   static T denorm() { return std::numeric_limits<T>::denorm_min(); }
   static T inf() { return std::numeric_limits<T>::infinity(); }
   static T nan() { return std::numeric_limits<T>::quiet_NaN(); }
   static T ldexp(T x, int e) { return std::ldexp(x, e); }
   static bool isnan(T x) { return std::isnan(x); }
   static bool isfinite(T x) { return std::isfinite(x); }
   static bool signbit(T x) { return std::signbit(x); }
   static T frexp(T x, int* e) { return std::frexp(x, e); }
};
#ifdef STRICT_QUAD_PRECISION
template <>
struct fpinfo<f128> {
   static constexpr int digits = FLT128_MANT_DIG;
   static constexpr int max_exp = FLT128_MAX_EXP;
   static constexpr int min_exp = FLT128_MIN_EXP;
   static f128 max() { return FLT128_MAX; }
   static f128 min() { return FLT128_MIN; }
   static f128 denorm() { return FLT128_DENORM_MIN; }
   static f128 inf() { return HUGE_VALQ; }
   static f128 nan() { return nanq(""); }
   static f128 ldexp(f128 x, int e) { return ldexpq(x, e); }
   static bool isnan(f128 x) { return isnanq(x); }
   static bool isfinite(f128 x) { return finiteq(x); }
   static bool signbit(f128 x) { return signbitq(x) != 0; }
   static f128 frexp(f128 x, int* e) { return frexpq(x, e); }
};
#endif

// Same value, same sign of zero; all NaNs are equal (payloads are not part of any claim).
template <class T>
bool same(T a, T b) {
   if constexpr(is_fp<T>) {
      if(fpinfo<T>::isnan(a) || fpinfo<T>::isnan(b)) return fpinfo<T>::isnan(a) && fpinfo<T>::isnan(b);
      return a == b && fpinfo<T>::signbit(a) == fpinfo<T>::signbit(b);
   } else {
      return a == b;
   }
}
template <class T>
bool same(spp::Strict<T> a, T b) {
   return same(a.val(), b);
}
template <class T>
bool same(spp::Strict<T> a, spp::Strict<T> b) {
   return same(a.val(), b.val());
}

template <class T>
std::string str(T x) {
   if constexpr(is_quad<T>) {
#ifdef STRICT_QUAD_PRECISION
      char b[80];
      quadmath_snprintf(b, sizeof b, "%.36Qg", x);
      return b;
#else
      return "";
#endif
   } else if constexpr(is_fp<T>) {
      std::ostringstream o;
      o.precision(std::numeric_limits<T>::max_digits10);
      o << x;
      return o.str();
   } else {
      std::ostringstream o;
      o << x;
      return o.str();
   }
}
template <class T>
std::string str(spp::Strict<T> x) {
   return str(x.val());
}
template <class T>
std::string str(const std::vector<T>& v) {
   std::string o = "{";
   for(std::size_t i = 0; i < v.size(); ++i) o += (i ? ", " : "") + str(static_cast<T>(v[i]));
   return o + "}";
}

// Small values on which arithmetic is exact (dyadic fractions for floating types).
template <class T>
T small(pbt::Src& s) {
   if constexpr(is_bool<T>) {
      return s.coin();
   } else if constexpr(is_uint<T>) {
      return static_cast<T>(s.below(10));
   } else {
      auto v = static_cast<long>(s.below(19));
      long z = v % 2 ? -(v + 1) / 2 : v / 2; // 0 -1 1 -2 2 ...
      if constexpr(is_fp<T>) {
         T x = static_cast<T>(z);
         return s.below(4) == 3 ? x / T(4) : x;
      } else {
         return static_cast<T>(z);
      }
   }
}

// Any finite floating value with exponent roughly within [-emax, emax].
template <class T>
T finite(pbt::Src& s, int emax) {
   constexpr int d = fpinfo<T>::digits;
   switch(s.below(5)) {
      case 0: return static_cast<T>(small<T>(s));
      case 1: { // few significant bits
         T x = static_cast<T>(static_cast<long>(s.below(256)));
         int e = static_cast<int>(s.range(0, 2 * emax)) - emax;
         x = fpinfo<T>::ldexp(x, e - 7);
         return s.coin() ? -x : x;
      }
      case 2: { // near a power of two
         int e = static_cast<int>(s.range(0, 2 * emax)) - emax;
         T one = fpinfo<T>::ldexp(T(1), e);
         T ulp = fpinfo<T>::ldexp(T(1), e - d + 1);
         T x = one + ulp * static_cast<T>(static_cast<long>(s.below(7)) - 3);
         return s.coin() ? -x : x;
      }
      default: { // full mantissa
         T x = 0;
         for(int got = 0; got < d; got += 32) x = x * T(4294967296.0) + static_cast<T>(static_cast<long>(s.below(1ull << 32)));
         int e;
         x = fpinfo<T>::frexp(x, &e);
         x = fpinfo<T>::ldexp(x, static_cast<int>(s.range(0, 2 * emax)) - emax);
         return s.coin() ? -x : x;
      }
   }
}

// Any value of the type, including special ones.
template <class T>
T any(pbt::Src& s) {
   if constexpr(is_bool<T>) {
      return s.coin();
   } else if constexpr(is_int<T>) {
      using L = std::numeric_limits<T>;
      switch(s.below(6)) {
         case 0: return small<T>(s);
         case 1: return s.pick({T(0), T(1), L::max(), L::min(), T(L::max() - 1), T(L::min() + 1), T(L::max() / 2), T(2), T(64), T(31)});
         case 2: return static_cast<T>(T(1) << s.below(static_cast<std::uint64_t>(L::digits)));
         case 3: return static_cast<T>((T(1) << s.below(static_cast<std::uint64_t>(L::digits))) - T(1));
         case 4: {
            auto k = s.below(static_cast<std::uint64_t>(L::digits)) + 1;
            T v = static_cast<T>(s.word() & ((k >= 64 ? 0 : (1ull << k)) - 1ull));
            if constexpr(is_sint<T>) {
               if(v != L::min() && s.coin()) v = static_cast<T>(-v);
            }
            return v;
         }
         default: return static_cast<T>(s.word());
      }
   } else {
      using F = fpinfo<T>;
      switch(s.below(8)) {
         case 0: return small<T>(s);
         case 1: {
            T x = s.pick({T(0), T(-0.0), T(1), F::inf(), F::nan(), F::max(), F::min(), F::denorm(), T(0.5)});
            return s.coin() ? -x : x;
         }
         case 2: return finite<T>(s, F::max_exp - 2);
         case 3: return F::denorm() * static_cast<T>(static_cast<long>(s.below(1000)));
         default: return finite<T>(s, 20);
      }
   }
}

template <class T>
spp::Strict<T> mk(T x) {
   return spp::Strict<T>{x};
}

// Runs f; true if it raised the library's error.
template <class F>
bool rejected(F&& f) {
   try {
      f();
   } catch(const spp::StrictException&) {
      return true;
   }
   return false;
}

// Values of a 1D object through its public indexing.
template <class A>
auto vals1(const A& a) {
   using T = spp::BuiltinTypeOf<A>;
   std::vector<T> v;
   for(long i = 0, n = a.size().val(); i < n; ++i) v.push_back(a[i].val());
   return v;
}

template <class T>
struct Mat {
   long m = 0, n = 0;
   std::vector<T> v;
   Mat() = default;
   Mat(long m_, long n_) : m{m_}, n{n_}, v(static_cast<std::size_t>(m_ * n_)) {
   }
   T get(long i, long j) const {
      return v[static_cast<std::size_t>(i * n + j)];
   }
   void set(long i, long j, T x) {
      v[static_cast<std::size_t>(i * n + j)] = x;
   }
};
template <class T>
std::string str(const Mat<T>& a) {
   return std::to_string(a.m) + "x" + std::to_string(a.n) + str(a.v);
}

template <class A>
auto vals2(const A& a) {
   using T = spp::BuiltinTypeOf<A>;
   Mat<T> r(a.rows().val(), a.cols().val());
   for(long i = 0; i < r.m; ++i)
      for(long j = 0; j < r.n; ++j) r.set(i, j, a(i, j).val());
   return r;
}

template <class T>
bool same(const std::vector<T>& a, const std::vector<T>& b) {
   if(a.size() != b.size()) return false;
   for(std::size_t i = 0; i < a.size(); ++i)
      if(!same(static_cast<T>(a[i]), static_cast<T>(b[i]))) return false;
   return true;
}
template <class T>
bool same(const Mat<T>& a, const Mat<T>& b) {
   return a.m == b.m && a.n == b.n && same(a.v, b.v);
}

} // namespace g
