// C02: scalar preconditions are enforced, exactly.
#include "sp.hpp"
using namespace g;
using spp::Strict;

namespace {

template <class T>
void ops(pbt::Src& s) {
   T x = any<T>(s), y = s.chance(1, 3) ? T(0) : any<T>(s);
   using L = std::numeric_limits<T>;
   s.note(tname<T>(), " x=", str(x), " y=", str(y));
   const Strict<T> X{x}, Y{y};
   constexpr int W = L::digits + (is_sint<T> ? 1 : 0);
   auto expect = [&](bool bad, auto f, auto cf, const char* op) {
      s.nontrivial(bad);
      s.label(bad ? "invalid operands" : "valid operands");
      REQ(rejected([&] { (void)f(); }) == bad, op, bad ? " accepted invalid operands" : " rejected valid operands");
      Strict<T> Z = X;
      REQ(rejected([&] { cf(Z); }) == bad, "compound ", op, bad ? " accepted invalid operands" : " rejected valid operands");
      if(bad) REQ(Z.val() == x, "compound ", op, " changed its operand although rejected");
   };
   switch(s.below(4)) {
      case 0:
         if(is_sint<T> && x == L::min() && y == T(-1)) return;
         return expect(y == 0, [&] { return X / Y; }, [&](auto& Z) { Z /= Y; }, "/");
      case 1:
         if(is_sint<T> && x == L::min() && y == T(-1)) return;
         return expect(y == 0, [&] { return X % Y; }, [&](auto& Z) { Z %= Y; }, "%");
      case 2: {
         bool bad = is_sint<T> && (x < 0 || y < 0);
         if(!bad && y >= T(W)) return;
         return expect(bad, [&] { return X << Y; }, [&](auto& Z) { Z <<= Y; }, "<<");
      }
      default: {
         bool bad = is_sint<T> && (x < 0 || y < 0);
         if(!bad && y >= T(W)) return;
         return expect(bad, [&] { return X >> Y; }, [&](auto& Z) { Z >>= Y; }, ">>");
      }
   }
}

template <class T>
void small_shift(pbt::Src& s) { // shifts near the boundary
   T x = static_cast<T>(s.range(0, 4) - 2), y = static_cast<T>(s.range(0, 4) - 2);
   const Strict<T> X{x}, Y{y};
   s.note(tname<T>(), " shift x=", x, " y=", y);
   bool bad = x < 0 || y < 0;
   s.nontrivial();
   REQ(rejected([&] { (void)(X << Y); }) == bad, "<<");
   REQ(rejected([&] { (void)(X >> Y); }) == bad, ">>");
   Strict<T> Z = X;
   REQ(rejected([&] { Z <<= Y; }) == bad && (!bad || Z.val() == x), "<<=");
   Z = X;
   REQ(rejected([&] { Z >>= Y; }) == bad && (!bad || Z.val() == x), ">>=");
}

// Floating division never rejects.
template <class T>
void fdiv(pbt::Src& s) {
   T x = any<T>(s), y = s.coin() ? T(0) : any<T>(s);
   s.note(tname<T>(), " fdiv ", str(x), " / ", str(y));
   s.nontrivial(y == 0);
   Strict<T> X{x}, Y{y};
   REQ(!rejected([&] { (void)(X / Y); }));
   REQ(!rejected([&] { X /= Y; }));
}

template <class T>
void intervals(pbt::Src& s) {
   T x = s.coin() ? small<T>(s) : any<T>(s), lo = s.coin() ? small<T>(s) : any<T>(s), hi = s.chance(1, 4) ? lo : s.coin() ? small<T>(s) : any<T>(s);
   const Strict<T> X{x}, LO{lo}, HI{hi};
   s.note(tname<T>(), " x=", str(x), " low=", str(lo), " high=", str(hi));
   bool bad = !(lo <= hi);
   s.nontrivial(bad);
   REQ(rejected([&] { (void)in_open(X, LO, HI); }) == bad, "in_open");
   REQ(rejected([&] { (void)in_closed(X, LO, HI); }) == bad, "in_closed");
   REQ(rejected([&] { (void)in_open(spp::Value{X}, spp::Low{LO}, spp::High{HI}); }) == bad, "in_open");
   REQ(rejected([&] { (void)in_closed(spp::Value{X}, spp::Low{LO}, spp::High{HI}); }) == bad, "in_closed");
   bool nan = false;
   if constexpr(is_fp<T>) nan = fpinfo<T>::isnan(x) || fpinfo<T>::isnan(lo) || fpinfo<T>::isnan(hi);
   s.label(nan ? "nan" : bad ? "low > high" : "valid interval");
   REQ(rejected([&] { (void)clamps(X, LO, HI); }) == (bad || nan), "clamps");
   REQ(rejected([&] { (void)clamps(X, spp::Low{LO}, spp::High{HI}); }) == (bad || nan), "clamps");
}

#define REAL_DISPATCH(fn)                                \
   switch(s.below(8)) {                                  \
      case 0: return fn<int>(s);                         \
      case 1: return fn<long>(s);                        \
      case 2: return fn<unsigned>(s);                    \
      case 3: return fn<unsigned long>(s);               \
      case 4: return fn<float>(s);                       \
      case 5: return fn<double>(s);                      \
      case 6: return fn<long double>(s);                 \
      default: return fn<f128>(s);                       \
   }

PROP(integer_operators, 4) {
   switch(s.below(4)) {
      case 0: return ops<int>(s);
      case 1: return ops<long>(s);
      case 2: return ops<unsigned>(s);
      default: return ops<unsigned long>(s);
   }
}
PROP(shift_boundaries, 1) { s.coin() ? small_shift<int>(s) : small_shift<long>(s); }
PROP(floating_division, 1) {
   switch(s.below(4)) {
      case 0: return fdiv<float>(s);
      case 1: return fdiv<double>(s);
      case 2: return fdiv<long double>(s);
      default: return fdiv<f128>(s);
   }
}
PROP(interval_helpers, 3) { REAL_DISPATCH(intervals) }

PROP(factorial_binomial, 1) {
   long n = s.range(0, 70) - 10, k = s.range(0, 70) - 10;
   s.note("n=", n, " k=", k);
   s.nontrivial(n < 0 || k < 0 || k > n);
   if(n <= 20) REQ(rejected([&] { (void)spp::factorial(n); }) == (n < 0), "factorial(", n, ")");
   if(n <= 60) REQ(rejected([&] { (void)spp::binom_coeff(n, k); }) == (k < 0 || k > n), "binom_coeff(", n, ",", k, ")");
}

template <class T>
void ipow(pbt::Src& s) {
   T x = static_cast<T>(s.range(0, 2));
   if(is_sint<T>) x = static_cast<T>(static_cast<long>(x) - 1);
   T p = static_cast<T>(s.range(0, 60));
   if(is_sint<T>) p = static_cast<T>(static_cast<long>(p) - 30);
   s.note(tname<T>(), " pows ", str(x), "^", str(p));
   bool bad = is_sint<T> && p < 0;
   s.nontrivial(bad);
   REQ(rejected([&] { (void)spp::pows(mk(x), mk(p)); }) == bad, "pows");
}
PROP(integer_power, 1) {
   switch(s.below(4)) {
      case 0: return ipow<int>(s);
      case 1: return ipow<long>(s);
      case 2: return ipow<unsigned>(s);
      default: return ipow<unsigned long>(s);
   }
}
template <class T>
void powprod(pbt::Src& s) {
   long p = s.range(0, 24) - 12;
   T x = small<T>(s);
   s.note(tname<T>(), " pow_prods ", str(x), "^", p);
   s.nontrivial(p < 0);
   REQ(rejected([&] { (void)spp::pow_prods(mk(x), p); }) == (p < 0), "pow_prods");
}
PROP(pow_prods_domain, 1) {
   switch(s.below(4)) {
      case 0: return powprod<float>(s);
      case 1: return powprod<double>(s);
      case 2: return powprod<long double>(s);
      default: return powprod<f128>(s);
   }
}

template <class I, class W>
void wrap1(pbt::Src& s, const char* name, bool nonneg) {
   I v = s.coin() ? static_cast<I>(s.range(0, 10) - 5) : any<I>(s);
   s.note(name, "{", str(v), "}");
   bool bad = nonneg && v < 0;
   s.nontrivial(v < 0);
   long got = 0, got2 = 0;
   REQ(rejected([&] { got = W{v}.get().val(); }) == bad, name, "{", str(v), "}");
   REQ(rejected([&] { got2 = W{Strict<I>{v}}.get().val(); }) == bad, name, "{Strict ", str(v), "}");
   if(!bad) REQ(got == static_cast<long>(v) && got2 == got, name, " holds another value");
}
template <class W>
void wrap(pbt::Src& s, const char* name, bool nonneg = true) {
   s.coin() ? wrap1<int, W>(s, name, nonneg) : wrap1<long, W>(s, name, nonneg);
}
PROP(size_wrappers, 3) {
   switch(s.below(12)) {
      case 0: return wrap<spp::First>(s, "First");
      case 1: return wrap<spp::Endmost>(s, "Endmost");
      case 2: return wrap<spp::Size>(s, "Size");
      case 3: return wrap<spp::Count>(s, "Count");
      case 4: return wrap<spp::Pos>(s, "Pos");
      case 5: return wrap<spp::Index>(s, "Index");
      case 6: return wrap<spp::Rows>(s, "Rows");
      case 7: return wrap<spp::Cols>(s, "Cols");
      case 8: return wrap<spp::ImplicitNonNegInt>(s, "ImplicitNonNegInt");
      case 9: return wrap<spp::Stride>(s, "Stride", false);
      case 10: return wrap<spp::ImplicitInt>(s, "ImplicitInt", false);
      default: {
         long a = small<long>(s), b = small<long>(s);
         s.note("last ", a, " ", b);
         s.nontrivial();
         REQ((spp::last - a).get().val() == a && (spp::last + a).get().val() == -a && (a + spp::last).get().val() == -a);
         REQ((spp::last - a + b).get().val() == a - b && (spp::last - a - b).get().val() == a + b);
         REQ((spp::ImplicitInt{a} + spp::ImplicitInt{b}).get().val() == a + b && (spp::ImplicitInt{a} - spp::ImplicitInt{b}).get().val() == a - b);
         return;
      }
   }
}

} // namespace
