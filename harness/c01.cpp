// C01: strict scalar operators and casts against the built-in operation.
#include "sp.hpp"
using namespace g;
using spp::Strict;

namespace {

template <class T> struct lim { static constexpr int w = std::numeric_limits<T>::digits + (std::is_signed_v<T> ? 1 : 0); };

template <class T>
void arith(pbt::Src& s) {
   T x = any<T>(s), y = s.chance(1, 8) ? x : any<T>(s);
   const Strict<T> X{x}, Y{y};
   s.note(tname<T>(), " x=", str(x), " y=", str(y));
   REQ(same(X.val(), x) && same(static_cast<T>(X), x));
   long op = s.range(0, 3);
   bool skip = false;
   T r{};
   if constexpr(is_int<T>) {
      switch(op) {
         case 0: skip = __builtin_add_overflow(x, y, &r) && is_sint<T>; break;
         case 1: skip = __builtin_sub_overflow(x, y, &r) && is_sint<T>; break;
         case 2: skip = __builtin_mul_overflow(x, y, &r) && is_sint<T>; break;
         default:
            skip = y == 0 || (is_sint<T> && x == std::numeric_limits<T>::min() && y == T(-1));
            if(!skip) r = x / y;
      }
   } else {
      r = op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y;
   }
   if(skip) {
      s.label("excluded: undefined for the built-in type");
      return;
   }
   s.nontrivial();
   s.label(op == 0 ? "+" : op == 1 ? "-" : op == 2 ? "*" : "/");
   Strict<T> R = op == 0 ? X + Y : op == 1 ? X - Y : op == 2 ? X * Y : X / Y;
   REQ(same(R, r), "op ", op, " got ", str(R), " want ", str(r));
   Strict<T> Z = X;
   Strict<T>& ret = op == 0 ? (Z += Y) : op == 1 ? (Z -= Y) : op == 2 ? (Z *= Y) : (Z /= Y);
   REQ(&ret == &Z, "compound assignment returns its left operand");
   REQ(same(Z, r), "compound op ", op, " got ", str(Z), " want ", str(r));
   REQ(same(X.val(), x) && same(Y.val(), y), "operands untouched");
   // self-compound
   Strict<T> W = X;
   T w = x;
   bool wskip = false;
   if constexpr(is_int<T>) {
      switch(op) {
         case 0: wskip = __builtin_add_overflow(x, x, &w) && is_sint<T>; break;
         case 1: w = T(0); break;
         case 2: wskip = __builtin_mul_overflow(x, x, &w) && is_sint<T>; break;
         default: wskip = x == 0; w = T(1);
      }
   } else {
      w = op == 0 ? x + x : op == 1 ? x - x : op == 2 ? x * x : x / x;
   }
   if(!wskip) {
      op == 0 ? (W += W) : op == 1 ? (W -= W) : op == 2 ? (W *= W) : (W /= W);
      REQ(same(W, w), "self compound op ", op);
   }
}

template <class T>
void unary(pbt::Src& s) {
   T x = any<T>(s);
   const Strict<T> X{x};
   s.note(tname<T>(), " unary x=", str(x));
   s.nontrivial();
   REQ(same((+X).val(), x));
   if constexpr(!is_uint<T>) {
      bool ok = true;
      if constexpr(is_sint<T>) ok = x != std::numeric_limits<T>::min();
      if(ok) REQ(same((-X).val(), static_cast<T>(-x)), "got ", str(-X));
   }
   if constexpr(is_int<T>) REQ((~X).val() == static_cast<T>(~x));
   bool inc = true, dec = true;
   if constexpr(is_sint<T>) {
      inc = x != std::numeric_limits<T>::max();
      dec = x != std::numeric_limits<T>::min();
   }
   if(inc) {
      T want = x;
      ++want;
      Strict<T> a = X, b = X;
      Strict<T>& ra = ++a;
      REQ(&ra == &a && same(a, want));
      Strict<T> old = b++;
      REQ(same(old.val(), x) && same(b, want), "postfix ++ old=", str(old), " new=", str(b));
   }
   if(dec) {
      T want = x;
      --want;
      Strict<T> a = X, b = X;
      Strict<T>& ra = --a;
      REQ(&ra == &a && same(a, want));
      Strict<T> old = b--;
      REQ(same(old.val(), x) && same(b, want), "postfix -- old=", str(old), " new=", str(b));
   }
   Strict<T> d;
   REQ(same(d.val(), T(0)), "default value is zero");
   Strict<T> c = X;
   c = Strict<T>{any<T>(s)};
   REQ(same(X.val(), x));
}

template <class T>
void compare(pbt::Src& s) {
   T x = any<T>(s), y = s.chance(1, 3) ? x : any<T>(s);
   const Strict<T> X{x}, Y{y};
   s.note(tname<T>(), " compare x=", str(x), " y=", str(y));
   s.nontrivial();
   REQ((X == Y).val() == (x == y));
   REQ((X != Y).val() == (x != y));
   REQ((X < Y).val() == (x < y));
   REQ((X <= Y).val() == (x <= y));
   REQ((X > Y).val() == (x > y));
   REQ((X >= Y).val() == (x >= y));
   REQ(equal(X, Y).val() == (x == y));
}

template <class T>
void integer(pbt::Src& s) {
   T x = any<T>(s), y = any<T>(s);
   const Strict<T> X{x}, Y{y};
   s.note(tname<T>(), " integer x=", str(x), " y=", str(y));
   s.nontrivial();
   auto both = [&](Strict<T> r, Strict<T> z, Strict<T>* zr, Strict<T>* za, T want, const char* op) {
      REQ(r.val() == want, op, " got ", str(r), " want ", str(want));
      REQ(zr == za && z.val() == want, "compound ", op);
   };
   Strict<T> Z = X;
   Strict<T>* p = &(Z &= Y);
   both(X & Y, Z, p, &Z, static_cast<T>(x & y), "&");
   Z = X;
   p = &(Z |= Y);
   both(X | Y, Z, p, &Z, static_cast<T>(x | y), "|");
   Z = X;
   p = &(Z ^= Y);
   both(X ^ Y, Z, p, &Z, static_cast<T>(x ^ y), "^");
   if(y != 0 && !(is_sint<T> && x == std::numeric_limits<T>::min() && y == T(-1))) {
      Z = X;
      p = &(Z %= Y);
      both(X % Y, Z, p, &Z, static_cast<T>(x % y), "%");
   }
   T k = static_cast<T>(s.below(static_cast<std::uint64_t>(lim<T>::w)));
   const Strict<T> K{k};
   if(!is_sint<T> || x >= 0) {
      Z = X;
      p = &(Z <<= K);
      both(X << K, Z, p, &Z, static_cast<T>(x << k), "<<");
      Z = X;
      p = &(Z >>= K);
      both(X >> K, Z, p, &Z, static_cast<T>(x >> k), ">>");
   }
}

void boolean(pbt::Src& s) {
   bool x = s.coin(), y = s.coin();
   const Strict<bool> X{x}, Y{y};
   s.note("bool x=", x, " y=", y);
   s.nontrivial();
   REQ((X && Y).val() == (x && y));
   REQ((X || Y).val() == (x || y));
   REQ((X ^ Y).val() == (x != y));
   REQ((!X).val() == !x);
   REQ((X == Y).val() == (x == y) && (X != Y).val() == (x != y));
   REQ((X < Y).val() == (x < y) && (X <= Y).val() == (x <= y));
   REQ((X > Y).val() == (x > y) && (X >= Y).val() == (x >= y));
   REQ(static_cast<bool>(X) == x);
   Strict<bool> d;
   REQ(!d.val());
   d = X;
   REQ(d.val() == x);
   int taken = 0;
   if(X) taken = 1;
   REQ(taken == (x ? 1 : 0));
}

// Conversion U -> T is defined for x.
template <class T, class U>
bool convertible(U x) {
   if constexpr(is_fp<U> && is_int<T>) {
      if(!fpinfo<U>::isfinite(x)) return false;
      // bounds that are exactly representable in every floating type used here
      U hi = fpinfo<U>::ldexp(U(1), std::numeric_limits<T>::digits);
      U lo = is_sint<T> ? -hi : U(-1);
      return x < hi && (is_sint<T> ? x >= lo : x > lo);
   } else if constexpr(is_fp<U> && is_fp<T>) {
      if(!fpinfo<U>::isfinite(x)) return true;
      if(fpinfo<T>::max_exp >= fpinfo<U>::max_exp) return true;
      U m = static_cast<U>(fpinfo<T>::max());
      return x <= m && x >= -m;
   } else {
      return true;
   }
}

template <class T, class U>
void conv(pbt::Src& s) {
   U x = any<U>(s);
   if(!convertible<T, U>(x)) {
      s.label("excluded: conversion undefined");
      return;
   }
   s.nontrivial();
   const Strict<U> X{x};
   T want = static_cast<T>(x);
   s.note(tname<U>(), " -> ", tname<T>(), " x=", str(x));
   REQ(same(spp::strict_cast<T>(X), want), "strict_cast(Strict)");
   REQ(same(spp::strict_cast<T>(x), want), "strict_cast(builtin)");
   REQ(same(spp::builtin_cast<T>(X), want), "builtin_cast(Strict)");
   REQ(same(spp::builtin_cast<T>(x), want), "builtin_cast(builtin)");
   if constexpr(!is_bool<T> && !is_bool<U>) {
      REQ(same(spp::real_cast<T>(X), want), "real_cast(Strict)");
      REQ(same(spp::real_cast<T>(x), want), "real_cast(builtin)");
   }
   if constexpr(is_fp<T> && is_int<U>) {
      REQ(same(spp::whole<T>(X), want), "whole");
      REQ(same(spp::whole<T>(x), want), "whole");
   }
   if constexpr(std::is_same_v<T, bool>) REQ(same(X.sb(), want), "sb");
   if constexpr(std::is_same_v<T, int>) REQ(same(X.si(), want), "si");
   if constexpr(std::is_same_v<T, long>) {
      REQ(same(X.sl(), want), "sl");
      REQ(same(spp::to_index_t(X), want) && same(spp::to_index_t(x), want), "to_index_t");
   }
   if constexpr(std::is_same_v<T, unsigned>) REQ(same(X.sui(), want), "sui");
   if constexpr(std::is_same_v<T, unsigned long>) {
      REQ(same(X.sul(), want), "sul");
      REQ(spp::to_size_t(X) == want && spp::to_size_t(x) == want, "to_size_t");
   }
   if constexpr(std::is_same_v<T, float>) REQ(same(X.sf(), want), "sf");
   if constexpr(std::is_same_v<T, double>) REQ(same(X.sd(), want), "sd");
   if constexpr(std::is_same_v<T, long double>) REQ(same(X.sld(), want), "sld");
   IF_QUAD(if constexpr(is_quad<T>) REQ(same(X.sq(), want), "sq");)
}

template <class T>
void conv_all(pbt::Src& s) {
   switch(s.below(9)) {
      case 0: return conv<T, bool>(s);
      case 1: return conv<T, int>(s);
      case 2: return conv<T, long>(s);
      case 3: return conv<T, unsigned>(s);
      case 4: return conv<T, unsigned long>(s);
      case 5: return conv<T, float>(s);
      case 6: return conv<T, double>(s);
      case 7: return conv<T, long double>(s);
      default: return conv<T, f128>(s);
   }
}

template <template <class> class F>
void dispatch_real(pbt::Src&);

#define REAL_DISPATCH(fn)                                \
   switch(s.below(8)) {                                  \
      case 0: return fn<int>(s);                         \
      case 1: return fn<long>(s);                        \
      case 2: return fn<unsigned>(s);                    \
      case 3: return fn<unsigned long>(s);               \
      case 4: return fn<float>(s);                       \
      case 5: return fn<double>(s);                      \
      case 6: return fn<long double>(s);                 \
      default: return fn<f128>(s);                       \
   }

PROP(arithmetic, 4) { REAL_DISPATCH(arith) }
PROP(unary_and_increment, 2) { REAL_DISPATCH(unary) }
PROP(comparison, 2) { REAL_DISPATCH(compare) }
PROP(integer_operators, 3) {
   switch(s.below(4)) {
      case 0: return integer<int>(s);
      case 1: return integer<long>(s);
      case 2: return integer<unsigned>(s);
      default: return integer<unsigned long>(s);
   }
}
PROP(boolean_operators, 1) { boolean(s); }
PROP(conversions, 5) {
   if(s.below(9) == 8) return conv_all<bool>(s);
   REAL_DISPATCH(conv_all)
}

PROP(literals, 1) {
   using namespace spp::literals;
   s.nontrivial();
   REQ((0_si).val() == 0 && (2147483647_si).val() == 2147483647 && (17_SI).val() == 17);
   REQ((0_sl).val() == 0 && (9223372036854775807_sl).val() == 9223372036854775807L && (5_SL).val() == 5);
   REQ((4294967295_sui).val() == 4294967295u && (3_SUI).val() == 3u);
   REQ((18446744073709551615_sul).val() == 18446744073709551615ul && (3_SUL).val() == 3ul);
   REQ(same((0.1_sf).val(), 0.1f) && same((1e-40_sf).val(), 1e-40f) && same((3.25_SF).val(), 3.25f));
   REQ(same((0.1_sd).val(), 0.1) && same((1e300_SD).val(), 1e300) && same((5e-324_sd).val(), 5e-324));
   REQ(same((0.1_sl).val(), 0.1L) && same((1e4000_SL).val(), 1e4000L));
   IF_QUAD(REQ(same((0.1_sq).val(), strtoflt128("0.1", nullptr)) && same((1e4000_SQ).val(), strtoflt128("1e4000", nullptr)));)
}

} // namespace
