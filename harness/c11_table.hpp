// C11: every element-wise operator and function once per type, every compound assignment, on all operand forms.
#pragma once
#include "c11.hpp"

namespace tab {
template <class T>
using V = std::vector<M<T>>;

template <class T, class E, class F>
void eq(const char* what, const E& e, long n, F f) {
   REQ(e.size().val() == n, what, ": size");
   for(long i = 0; i < n; ++i) {
      M<T> w = f(i);
      if(!w.ok) return;
   }
   for(long i = 0; i < n; ++i) {
      M<T> w = f(i);
      REQ(same(e.un(i), w.v), what, " at ", i, ": ", str(e.un(i)), " instead of ", str(w.v));
   }
}

template <class T, class A, class B>
void binary(pbt::Src& s, const A& a, const B& b, Strict<T> c) {
   long n = a.size().val();
   auto x = [&](long i) { return M<T>(a.un(i)); };
   auto y = [&](long i) { return M<T>(b.un(i)); };
   M<T> z(c);
   long k = s.below(g::is_bool<T> ? 3 : g::is_int<T> ? 10 : 4);
   bool defined = true;
#define ALL3(op, name)                                                        \
   for(long i = 0; i < n; ++i) defined = defined && (x(i) op y(i)).ok && (x(i) op z).ok && (z op y(i)).ok; \
   if(!defined) return;                                                       \
   eq<T>(name, a op b, n, [&](long i) { return x(i) op y(i); });              \
   eq<T>(name " scalar", a op c, n, [&](long i) { return x(i) op z; });       \
   eq<T>("scalar " name, c op b, n, [&](long i) { return z op y(i); });
   if constexpr(g::is_bool<T>) {
      switch(k) {
         case 0: ALL3(&&, "&&") break;
         case 1: ALL3(||, "||") break;
         default: ALL3(^, "^")
      }
   } else {
      switch(k) {
         case 0: ALL3(+, "+") break;
         case 1: ALL3(-, "-") break;
         case 2: ALL3(*, "*") break;
         case 3: ALL3(/, "/") break;
         default:
            if constexpr(g::is_int<T>) {
               switch(k) {
                  case 4: ALL3(%, "%") break;
                  case 5: ALL3(&, "&") break;
                  case 6: ALL3(|, "|") break;
                  case 7: ALL3(^, "^") break;
                  case 8: ALL3(<<, "<<") break;
                  default: ALL3(>>, ">>")
               }
            }
      }
   }
   s.label("binary operator, two operands and both scalar forms");
}

template <class T, class A>
void unary(pbt::Src& s, const A& a, Strict<T> c) {
   long n = a.size().val();
   auto x = [&](long i) { return M<T>(a.un(i)); };
#define U(expr, mod) eq<T>(#expr, expr, n, [&](long i) { return mod; }); break
   if constexpr(g::is_bool<T>) {
      eq<T>("!a", !a, n, [&](long i) { return !x(i); });
   } else if constexpr(g::is_int<T>) {
      switch(s.below(3)) {
         case 0: U(+a, +x(i));
         case 1:
            if constexpr(g::is_sint<T>) {
               for(long i = 0; i < n; ++i)
                  if(!(-x(i)).ok) return;
               eq<T>("-a", -a, n, [&](long i) { return -x(i); });
               eq<T>("abs(a)", abs(a), n, [&](long i) { return abs(x(i)); });
            }
            break;
         default: U(~a, ~x(i));
      }
   } else {
      long p = s.range(0, 8) - 4;
      switch(s.below(17)) {
         case 0: U(+a, +x(i));
         case 1: U(-a, -x(i));
         case 2: U(abs(a), abs(x(i)));
         case 3: U(exp(a), exp(x(i)));
         case 4: U(log(abs(a)), log(abs(x(i))));
         case 5: U(log2(abs(a)), log2(abs(x(i))));
         case 6: U(log10(abs(a)), log10(abs(x(i))));
         case 7: U(sqrt(abs(a)), sqrt(abs(x(i))));
         case 8: U(cbrt(a), cbrt(x(i)));
         case 9: U(sin(a), sin(x(i)));
         case 10: U(cos(a), cos(x(i)));
         case 11: U(tan(a), tan(x(i)));
         case 12: U(inv(a), inv(x(i)));
         case 13: U(pow(abs(a), c), pow(abs(x(i)), c));
         case 14: U(pow_int(a, p), pow_int(x(i), p));
         case 15: U(fast_pow_int(a, p), fast_pow_int(x(i), p));
         default: U(-(-a), x(i));
      }
   }
#undef U
   s.label("unary operator or function");
}

// b op= scalar, b op= array, on an owning array or a slice, everything else in the array unchanged.
template <class T, class B>
void compound(pbt::Src& s, B&& b, Strict<T> c) {
   long n = b.size().val();
   std::vector<T> before = rd(b);
   auto other = b.eval();
   for(long i = 0; i < n; ++i) other.un(i) = mk(elem<T>(s));
   bool scalar = s.coin();
   auto x = [&](long i) { return M<T>(static_cast<T>(before[static_cast<std::size_t>(i)])); };
   auto y = [&](long i) { return scalar ? M<T>(c) : M<T>(other.un(i)); };
#define CA(op)                                                                   \
   for(long i = 0; i < n; ++i) if(!(x(i) op y(i)).ok) return;                    \
   if(scalar) b op##= c;                                                         \
   else b op##= other;                                                           \
   eq<T>(#op "=", b, n, [&](long i) { return x(i) op y(i); });                   \
   break
   if constexpr(!g::is_bool<T>) {
      switch(s.below(g::is_int<T> ? 10 : 4)) {
         case 0: CA(+);
         case 1: CA(-);
         case 2: CA(*);
         case 3: CA(/);
         default:
            if constexpr(g::is_int<T>) {
               switch(s.below(6)) {
                  case 0: CA(%);
                  case 1: CA(&);
                  case 2: CA(|);
                  case 3: CA(^);
                  case 4: CA(<<);
                  default: CA(>>);
               }
            }
      }
      s.label("compound assignment");
   }
}

template <class T, class U>
void cast(pbt::Src&, const spp::Array1D<T>& a) {
   long n = a.size().val();
   for(long i = 0; i < n; ++i)
      if(!array_cast<U>(M<T>(a.un(i))).ok) return;
   eq<U>("array_cast", spp::array_cast<U>(a), n, [&](long i) { return array_cast<U>(M<T>(a.un(i))); });
}

template <class T>
void run(pbt::Src& s) {
   long n = s.range(0, 6), m = s.range(1, 3), k = s.range(1, 3);
   auto c = mk(elem<T>(s));
   spp::Array1D<T> a(n), b(n), d(n);
   rnd(s, a), rnd(s, b), rnd(s, d);
   spp::Array2D<T> A(m, k), B(m, k);
   rnd(s, A), rnd(s, B);
   s.note(g::tname<T>(), " c ", str(c), " a ", str(rd(a)), " b ", str(rd(b)), " A ", str(rd(A)), " B ", str(rd(B)));
   s.nontrivial(n > 1);
   switch(s.below(7)) {
      case 0: binary<T>(s, a, b, c); break;
      case 1: binary<T>(s, a(spp::place::reverse), b, c); break;
      case 2: binary<T>(s, A, B, c); break;
      case 3: unary<T>(s, a, c); break;
      case 4: unary<T>(s, A, c); break;
      case 5: {
         auto before = rd(a);
         if(s.coin()) {
            compound<T>(s, a, c);
         } else {
            compound<T>(s, a(spp::place::even), c);
            for(long i = 1; i < n; i += 2) REQ(same(a[i], static_cast<T>(before[static_cast<std::size_t>(i)])), "element ", i, " outside the slice changed");
         }
         break;
      }
      default:
         if(s.coin()) compound<T>(s, A, c);
         else {
            auto before = rd(A);
            compound<T>(s, A.row(m - 1), c);
            for(long i = 0; i < (m - 1) * k; ++i) REQ(same(A.un(i), static_cast<T>(before[static_cast<std::size_t>(i)])), "element ", i, " outside the row changed");
         }
   }
}
template <class T>
void casts(pbt::Src& s) {
   spp::Array1D<T> a(s.range(0, 4));
   for(long i = 0; i < a.size().val(); ++i) a.un(i) = s.coin() ? mk(elem<T>(s)) : g::is_int<T> || g::is_bool<T> ? mk(g::any<T>(s)) : mk(finite<T>(s, 10));
   s.note(g::tname<T>(), " a ", str(rd(a)));
   s.nontrivial(a.size().val() > 0);
   switch(s.below(9)) {
      case 0: return cast<T, bool>(s, a);
      case 1: return cast<T, int>(s, a);
      case 2: return cast<T, long>(s, a);
      case 3: return cast<T, unsigned>(s, a);
      case 4: return cast<T, unsigned long>(s, a);
      case 5: return cast<T, float>(s, a);
      case 6: return cast<T, double>(s, a);
      case 7: return cast<T, long double>(s, a);
      default: return cast<T, f128>(s, a);
   }
}
} // namespace tab
#define TABLE(T, N) \
   PROP(c11_table_##N, 20) { return tab::run<T>(s); } \
   PROP(c11_casts_##N, 4) { return tab::casts<T>(s); }
