// C03: scalar math helpers against their definition.
#include "exact.hpp"
using namespace g;
using spp::Strict;

namespace {

template <class T>
bool mul_ok(T a, T b, T& r) {
   if constexpr(is_int<T>) {
      return !__builtin_mul_overflow(a, b, &r) || is_uint<T>;
   } else {
      r = a * b;
      return true;
   }
}

template <class T>
void basic(pbt::Src& s) {
   T x = any<T>(s), y = s.chance(1, 6) ? x : any<T>(s);
   if constexpr(is_fp<T>) {
      if(fpinfo<T>::isnan(x) || fpinfo<T>::isnan(y)) return;
   }
   s.note(tname<T>(), " x=", str(x), " y=", str(y));
   s.nontrivial();
   Strict<T> X = mk(x), Y = mk(y);
   REQ(signs(X).val() == (x > 0 ? T(1) : x < 0 ? T(-1) : T(0)), "signs ", str(signs(X)));
   if(!(is_sint<T> && x == std::numeric_limits<T>::min())) {
      T a = x;
      if(x < 0) a = -x;
      REQ(abss(X).val() == a, "abss ", str(abss(X)));
   }
   REQ(mins(X, Y).val() == (y < x ? y : x), "mins ", str(mins(X, Y)));
   REQ(maxs(X, Y).val() == (y > x ? y : x), "maxs ", str(maxs(X, Y)));
   T q, c;
   if(mul_ok(x, x, q)) {
      REQ(same(squares(X), q), "squares ", str(squares(X)));
      if(mul_ok(q, x, c)) REQ(same(cubes(X), c), "cubes ", str(cubes(X)));
   }
   if constexpr(is_fp<T>) REQ(same(invs(X), T(1) / x), "invs");
}

template <class T>
void interval(pbt::Src& s) {
   T lo = s.coin() ? small<T>(s) : any<T>(s), hi = s.coin() ? small<T>(s) : any<T>(s);
   if constexpr(is_fp<T>) {
      if(fpinfo<T>::isnan(lo) || fpinfo<T>::isnan(hi)) return;
   }
   if(hi < lo) std::swap(lo, hi);
   T x = s.pick({lo, hi, T(0), small<T>(s), any<T>(s)});
   if constexpr(is_fp<T>) {
      if(fpinfo<T>::isnan(x)) return;
   }
   s.note(tname<T>(), " x=", str(x), " in ", str(lo), " ", str(hi));
   s.nontrivial();
   s.label(x == lo || x == hi ? "x on the boundary" : x < lo || x > hi ? "x outside" : "x inside");
   auto X = mk(x), L = mk(lo), H = mk(hi);
   REQ(in_open(X, L, H).val() == (lo < x && x < hi), "in_open");
   REQ(in_closed(X, L, H).val() == (lo <= x && x <= hi), "in_closed");
   REQ(in_open(spp::Value{X}, spp::Low{L}, spp::High{H}).val() == (lo < x && x < hi), "in_open wrapped");
   REQ(in_closed(spp::Value{X}, spp::Low{L}, spp::High{H}).val() == (lo <= x && x <= hi), "in_closed wrapped");
   T want = x < lo ? lo : x > hi ? hi : x;
   REQ(clamps(X, L, H).val() == want, "clamps ", str(clamps(X, L, H)));
   REQ(clamps(X, spp::Low{L}, spp::High{H}).val() == want, "clamps wrapped");
}

template <class T>
void ipow(pbt::Src& s) {
   T x = s.coin() ? small<T>(s) : any<T>(s);
   T p = static_cast<T>(s.range(0, 70));
   // exact product with overflow detection
   T r = 1;
   bool ok = true;
   for(T i = 0; ok && i < p; ++i) {
      T n;
      ok = mul_ok(r, x, n);
      r = n;
   }
   if(!ok) {
      s.label("excluded: power overflows");
      return;
   }
   s.note(tname<T>(), " ", str(x), "^", str(p));
   s.nontrivial(p > 1);
   REQ(pows(mk(x), mk(p)).val() == r, "pows got ", str(pows(mk(x), mk(p))), " want ", str(r));
}

template <class T>
void fpow(pbt::Src& s) {
   constexpr int d = fpinfo<T>::digits;
   T x = finite<T>(s, 6);
   long p = s.range(0, 60);
   if(s.coin()) p = -p;
   if(x == 0) x = 1;
   s.note(tname<T>(), " fast_pows_int ", str(x), "^", p);
   s.nontrivial(p != 0 && p != 1);
   s.label(p < 0 ? "negative exponent" : p % 2 ? "odd exponent" : "even exponent");
   { // keep the power and its reciprocal clear of overflow and underflow
      int e;
      (void)fpinfo<T>::frexp(x, &e);
      long lg = std::abs(e) + 1;
      if(std::labs(p) * lg > fpinfo<T>::max_exp - 10) p %= (fpinfo<T>::max_exp - 10) / lg;
   }
   T got = fast_pows_int(mk(x), p).val();
   REQ(fpinfo<T>::isfinite(got));
   using namespace exact;
   D ex = exact::pow(of(x), std::labs(p)), gt = of(got);
   // relative error at most 2 * (|p| + 3) units roundoff
   if(p >= 0)
      REQ(le_scaled(sub(gt, ex), 2 * (std::labs(p) + 3), -d, ex), "got ", str(got));
   else // |got * x^|p| - 1| <= bound
      REQ(le_scaled(sub(mul(gt, ex), ofz(1)), 2 * (std::labs(p) + 3), -d, ofz(1)), "got ", str(got));
   if(p == 0) REQ(got == T(1));
   if(p == 1) REQ(got == x);
   T w, e;
   if constexpr(is_quad<T>) {
      w = powq(x, static_cast<T>(p));
      e = expq(static_cast<T>(p));
   } else {
      w = std::pow(x, static_cast<T>(p));
      e = std::exp(static_cast<T>(p));
   }
   REQ(same(pows_int(mk(x), p), w), "pows_int");
   REQ(same(spp::exps_int<T>(p), e), "exps_int");
}

template <class T>
void wrappers(pbt::Src& s) {
   T x = any<T>(s), y = s.coin() ? small<T>(s) : any<T>(s), z = any<T>(s);
   s.note(tname<T>(), " x=", str(x), " y=", str(y), " z=", str(z));
   s.nontrivial();
   auto X = mk(x);
#define W(name, stdf, quadf)                                                       \
   {                                                                               \
      T want;                                                                      \
      if constexpr(is_quad<T>) want = quadf(x);                                    \
      else want = std::stdf(x);                                                    \
      REQ(same(name(X), want), #name " got ", str(name(X)), " want ", str(want));  \
   }
   W(exps, exp, expq)
   W(logs, log, logq)
   W(log2s, log2, log2q)
   W(log10s, log10, log10q)
   W(sqrts, sqrt, sqrtq)
   W(cbrts, cbrt, cbrtq)
   W(sins, sin, sinq)
   W(coss, cos, cosq)
   W(tans, tan, tanq)
   W(floors, floor, floorq)
   W(ceils, ceil, ceilq)
   bool nan = x != x, inf = x == fpinfo<T>::inf() || x == -fpinfo<T>::inf();
   REQ(isnans(X).val() == nan && isinfs(X).val() == inf && isfinites(X).val() == (!nan && !inf), "classification");
   T pw, fm;
   if constexpr(is_quad<T>) {
      pw = powq(x, y);
      fm = fmaq(x, y, z);
   } else {
      pw = std::pow(x, y);
      fm = std::fma(x, y, z);
   }
   REQ(same(pows(X, mk(y)), pw), "pows");
   REQ(same(fmas(X, mk(y), mk(z)), fm), "fmas");
}

#define REAL_DISPATCH(fn)                                \
   switch(s.below(8)) {                                  \
      case 0: return fn<int>(s);                         \
      case 1: return fn<long>(s);                        \
      case 2: return fn<unsigned>(s);                    \
      case 3: return fn<unsigned long>(s);               \
      case 4: return fn<float>(s);                       \
      case 5: return fn<double>(s);                      \
      case 6: return fn<long double>(s);                 \
      default: return fn<f128>(s);                       \
   }
#define FP_DISPATCH(fn)                                  \
   switch(s.below(4)) {                                  \
      case 0: return fn<float>(s);                       \
      case 1: return fn<double>(s);                      \
      case 2: return fn<long double>(s);                 \
      default: return fn<f128>(s);                       \
   }

PROP(sign_abs_min_max, 3) { REAL_DISPATCH(basic) }
PROP(clamp_and_intervals, 3) { REAL_DISPATCH(interval) }
PROP(integer_powers, 3) {
   switch(s.below(4)) {
      case 0: return ipow<int>(s);
      case 1: return ipow<long>(s);
      case 2: return ipow<unsigned>(s);
      default: return ipow<unsigned long>(s);
   }
}
PROP(floating_powers, 2) { FP_DISPATCH(fpow) }
PROP(library_wrappers, 4) { FP_DISPATCH(wrappers) }
PROP(factorial_binomial, 1) {
   long n = s.range(0, 60), k = s.range(0, n);
   s.note("n=", n, " k=", k);
   s.nontrivial();
   if(n <= 20) {
      long f = 1;
      for(long i = 2; i <= n; ++i) f *= i;
      REQ(spp::factorial(n).val() == f, "factorial");
   }
   static std::vector<std::vector<long>> tri;
   if(tri.empty()) {
      for(long i = 0; i <= 60; ++i) {
         std::vector<long> r(static_cast<std::size_t>(i + 1), 1);
         for(std::size_t j = 1; j < static_cast<std::size_t>(i); ++j)
            r[j] = tri.back()[j - 1] + tri.back()[j];
         tri.push_back(r);
      }
   }
   REQ(spp::binom_coeff(n, k).val() == tri[static_cast<std::size_t>(n)][static_cast<std::size_t>(k)], "binom_coeff got ",
       spp::binom_coeff(n, k).val());
}
template <class T>
void consts() {
   T eps = fpinfo<T>::ldexp(T(1), 1 - fpinfo<T>::digits);
   REQ(same(spp::constants::epsilon<T>, eps), "epsilon");
   T pi, e, r2;
   if constexpr(is_quad<T>) {
      pi = M_PIq;
      e = M_Eq;
      r2 = M_SQRT2q;
   } else {
      pi = static_cast<T>(3.14159265358979323846264338327950288L);
      e = static_cast<T>(2.71828182845904523536028747135266250L);
      r2 = static_cast<T>(1.41421356237309504880168872420969808L);
   }
   REQ(same(spp::constants::pi<T>, pi) && same(spp::constants::e<T>, e) && same(spp::constants::sqrt2<T>, r2), "constants");
}
PROP(constants, 1) {
   s.nontrivial();
   consts<float>();
   consts<double>();
   consts<long double>();
   consts<f128>();
}

} // namespace
