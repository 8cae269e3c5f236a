// C11: support for generated expression programs.  M<T> is a built-in value that knows when the
// built-in operation was undefined (or the scalar operation rejected), so that such cases are not judged.
#pragma once
#include "objs.hpp"
#include <functional>

template <class T>
struct M {
   T v{};
   bool ok = true;
   M() = default;
   M(T x, bool o = true) : v{x}, ok{o} {
   }
   M(Strict<T> x) : v{x.val()} {
   }
};
namespace m {
template <class T>
constexpr bool si = g::is_sint<T>;
}
#define M_ARITH(op, bi)                                        \
   template <class T>                                          \
   M<T> operator op(M<T> a, M<T> b) {                          \
      bool ok = a.ok && b.ok;                                  \
      if constexpr(m::si<T>) {                                 \
         T r;                                                  \
         ok = !bi(a.v, b.v, &r) && ok;                         \
         return {r, ok};                                       \
      } else return {static_cast<T>(a.v op b.v), ok};          \
   }
M_ARITH(+, __builtin_add_overflow)
M_ARITH(-, __builtin_sub_overflow)
M_ARITH(*, __builtin_mul_overflow)
template <class T>
M<T> operator/(M<T> a, M<T> b) {
   if constexpr(g::is_int<T>) {
      if(b.v == 0 || (m::si<T> && b.v == T(-1))) return {T{}, false};
      return {static_cast<T>(a.v / b.v), a.ok && b.ok};
   } else {
      return {a.v / b.v, a.ok && b.ok};
   }
}
template <class T>
M<T> operator%(M<T> a, M<T> b) {
   if(b.v == 0 || (m::si<T> && b.v == T(-1))) return {T{}, false};
   return {static_cast<T>(a.v % b.v), a.ok && b.ok};
}
template <class T>
M<T> operator<<(M<T> a, M<T> b) {
   if(b.v < 0 || b.v > 7 || a.v < 0 || (a.v >> 20) != 0) return {T{}, false};
   return {static_cast<T>(a.v << b.v), a.ok && b.ok};
}
template <class T>
M<T> operator>>(M<T> a, M<T> b) {
   if(b.v < 0 || b.v > 30 || a.v < 0) return {T{}, false};
   return {static_cast<T>(a.v >> b.v), a.ok && b.ok};
}
template <class T>
M<T> operator&(M<T> a, M<T> b) {
   return {static_cast<T>(a.v & b.v), a.ok && b.ok};
}
template <class T>
M<T> operator|(M<T> a, M<T> b) {
   return {static_cast<T>(a.v | b.v), a.ok && b.ok};
}
template <class T>
M<T> operator^(M<T> a, M<T> b) {
   return {static_cast<T>(a.v ^ b.v), a.ok && b.ok};
}
inline M<bool> operator&&(M<bool> a, M<bool> b) {
   return {a.v && b.v, a.ok && b.ok};
}
inline M<bool> operator||(M<bool> a, M<bool> b) {
   return {a.v || b.v, a.ok && b.ok};
}
inline M<bool> operator!(M<bool> a) {
   return {!a.v, a.ok};
}
template <class T>
M<T> operator+(M<T> a) {
   return a;
}
template <class T>
M<T> operator-(M<T> a) {
   if(m::si<T> && a.v == std::numeric_limits<T>::min()) return {T{}, false};
   return {static_cast<T>(-a.v), a.ok};
}
template <class T>
M<T> operator~(M<T> a) {
   return {static_cast<T>(~a.v), a.ok};
}
template <class T>
M<T> abs(M<T> a) {
   if(m::si<T> && a.v == std::numeric_limits<T>::min()) return {T{}, false};
   if constexpr(g::is_uint<T>) return a;
   else return {a.v < T(0) || (g::is_fp<T> && a.v == T(0)) ? spp::abss(mk(a.v)).val() : a.v, a.ok};
}
// The scalar function applied to the element; a rejection makes the case undecided.
template <class T, class F>
M<T> sc(F f, bool ok) {
   try {
      return {f().val(), ok};
   } catch(const spp::StrictException&) {
      return {T{}, false};
   }
}
#define M_FN(name, sname)                                       \
   template <class T>                                           \
   M<T> name(M<T> a) {                                          \
      return sc<T>([&] { return spp::sname(mk(a.v)); }, a.ok);  \
   }
M_FN(exp, exps)
M_FN(log, logs)
M_FN(log2, log2s)
M_FN(log10, log10s)
M_FN(sqrt, sqrts)
M_FN(cbrt, cbrts)
M_FN(sin, sins)
M_FN(cos, coss)
M_FN(tan, tans)
M_FN(inv, invs)
template <class T>
M<T> pow(M<T> a, Strict<T> p) {
   return sc<T>([&] { return spp::pows(mk(a.v), p); }, a.ok);
}
template <class T>
M<T> pow_int(M<T> a, long p) {
   return sc<T>([&] { return spp::pows_int(mk(a.v), p); }, a.ok);
}
template <class T>
M<T> fast_pow_int(M<T> a, long p) {
   return sc<T>([&] { return spp::fast_pows_int(mk(a.v), p); }, a.ok);
}
template <class U, class T>
M<U> array_cast(M<T> a) {
   if constexpr(g::is_fp<T> && g::is_int<U>) {
      if(!(a.v > T(-1000000) && a.v < T(1000000)) || (g::is_uint<U> && !(a.v >= T(0)))) return {U{}, false};
   }
   return {static_cast<U>(a.v), a.ok};
}
template <class T, class F>
M<T> user(M<T> a, F f) { // generate(A, f)
   return {f(mk(a.v)).val(), a.ok};
}
template <class T, class F>
M<T> user2(M<T> a, M<T> b, F f) {
   return {f(mk(a.v), mk(b.v)).val(), a.ok && b.ok};
}
// The same two for arrays.
template <class A, class F>
   requires spp::BaseType<A>
auto user(const A& a, F f) {
   return spp::generate(a, f);
}
template <class A, class B, class F>
   requires(spp::BaseType<A> && spp::BaseType<B>)
auto user2(const A& a, const B& b, F f) {
   return spp::generate(a, b, f);
}

template <class T>
T elem(pbt::Src& s) {
   if constexpr(g::is_fp<T>) {
      return s.chance(1, 6) ? finite<T>(s, 3) : small<T>(s);
   } else {
      return small<T>(s);
   }
}
template <class A>
void rnd(pbt::Src& s, A& a) {
   using T = spp::BuiltinTypeOf<A>;
   for(long i = 0; i < a.size().val(); ++i) a.un(i) = mk(elem<T>(s));
}
template <class A>
auto rd(const A& a) { // contents, linearly
   using T = spp::BuiltinTypeOf<A>;
   std::vector<T> v;
   for(long i = 0; i < a.size().val(); ++i) v.push_back(a.un(i).val());
   return v;
}
template <class A>
void alter(pbt::Src& s, A& a) { // changes some elements
   using T = spp::BuiltinTypeOf<A>;
   for(long i = 0; i < a.size().val(); ++i)
      if(s.coin()) a.un(i) = mk(elem<T>(s));
}

// The expected values of an expression of n elements; false if a value is undecided.
template <class T, class F>
bool expected(F f, long n, std::vector<T>& r) {
   r.clear();
   bool ok = true;
   for(long i = 0; i < n; ++i) {
      M<T> x = f(i);
      ok = ok && x.ok;
      r.push_back(x.v);
   }
   return ok;
}

template <class T>
struct Want {
   pbt::Src& s;
   long m, n; // n < 0: one-dimensional of m elements
   std::vector<T> v;
   long size() const {
      return n < 0 ? m : m * n;
   }
   void eq(const std::vector<T>& got, const char* how) const {
      REQ(same(got, v), how, ": got ", str(got), ", expected ", str(v));
   }
   template <class A>
   void shape(const A& a, const char* how) const {
      REQ(a.size().val() == size(), how, ": size ", a.size().val(), ", expected ", size());
      if constexpr(spp::TwoDimBaseType<A>) REQ(a.rows().val() == m && a.cols().val() == n, how, ": shape ", a.rows().val(), "x", a.cols().val());
   }
   template <class A>
   void index(const A& e) const {
      shape(e, "expression");
      if constexpr(spp::TwoDimBaseType<A>) {
         eq(vals2(e).v, "indexing");
         std::vector<T> w;
         for(long i = 0; i < m; ++i)
            for(long j = 0; j < n; ++j) w.push_back(e.at(i, j).val());
         eq(w, "at");
      } else {
         eq(vals1(e), "indexing");
         std::vector<T> w;
         for(long i = 0; i < m; ++i) w.push_back(e.at(i).val());
         eq(w, "at");
      }
      eq(rd(e), "unchecked linear access");
   }
   template <class A>
   void iterate(const A& e) const {
      std::vector<T> w;
      for(auto x : e) w.push_back(x.val());
      eq(w, "iteration");
   }
   template <class A>
   void eval(const A& e) const {
      auto B = e.eval();
      shape(B, "eval");
      eq(rd(B), "eval");
   }
   template <class A>
   void construct(const A& e) const {
      if constexpr(spp::TwoDimBaseType<A>) {
         spp::Array2D<T, spp::Aligned> B(e);
         shape(B, "construction");
         eq(rd(B), "construction");
      } else {
         spp::Array1D<T, spp::Aligned> B(e);
         shape(B, "construction");
         eq(rd(B), "construction");
      }
   }
   auto target() const {
      if constexpr(true) {
         return 0;
      }
   }
   template <class A>
   void assign(const A& e) const {
      if constexpr(spp::TwoDimBaseType<A>) {
         spp::Array2D<T> B(m, n), C(2 * m, 2 * n);
         B = e;
         eq(rd(B), "assignment");
         for(long i = 0; i < C.size().val(); ++i) C.un(i) = mk(T(1));
         C(spp::place::even, spp::place::odd) = e;
         for(long i = 0; i < 2 * m; ++i)
            for(long j = 0; j < 2 * n; ++j) {
               T w = i % 2 == 0 && j % 2 == 1 ? v[static_cast<std::size_t>(i / 2 * n + j / 2)] : T(1);
               REQ(same(C(i, j), w), "assignment to a slice, element ", i, ",", j);
            }
      } else {
         spp::Array1D<T> B(m), C(2 * m);
         B = e;
         eq(rd(B), "assignment");
         for(long i = 0; i < C.size().val(); ++i) C.un(i) = mk(T(1));
         C(spp::place::odd) = e;
         for(long i = 0; i < 2 * m; ++i) {
            T w = i % 2 == 1 ? v[static_cast<std::size_t>(i / 2)] : T(1);
            REQ(same(C[i], w), "assignment to a slice, element ", i);
         }
      }
   }
   template <class B, class A>
   void compound(B& b, const A& e, int op) const { // b is a writable 1D or 2D object of the same shape
      std::vector<M<T>> w;
      for(long i = 0; i < b.size().val(); ++i) {
         b.un(i) = mk(elem<T>(s));
         w.push_back(b.un(i));
      }
      bool ok = true;
      for(long i = 0; i < size(); ++i) {
         auto& x = w[static_cast<std::size_t>(i)];
         M<T> y = v[static_cast<std::size_t>(i)];
         switch(op) {
            case 0: x = x + y; break;
            case 1: x = x - y; break;
            case 2: x = x * y; break;
            case 3: x = x / y; break;
            default:
               if constexpr(g::is_int<T>) {
                  if(op == 4) x = x % y;
                  else if(op == 5) x = x & y;
                  else if(op == 6) x = x | y;
                  else x = x ^ y;
               }
         }
         ok = ok && x.ok;
      }
      if(!ok) return;
      switch(op) {
         case 0: b += e; break;
         case 1: b -= e; break;
         case 2: b *= e; break;
         case 3: b /= e; break;
         default:
            if constexpr(g::is_int<T>) {
               if(op == 4) b %= e;
               else if(op == 5) b &= e;
               else if(op == 6) b |= e;
               else b ^= e;
            }
      }
      for(long i = 0; i < size(); ++i)
         REQ(same(b.un(i), w[static_cast<std::size_t>(i)].v), "compound assignment ", op, ", element ", i, ": ", str(b.un(i)), " instead of ", str(w[static_cast<std::size_t>(i)].v));
   }
   template <class A>
   void compounds(const A& e) const {
      int op = static_cast<int>(s.below(g::is_int<T> ? 8 : 4));
      if constexpr(spp::TwoDimBaseType<A>) {
         spp::Array2D<T> B(m, n);
         compound(B, e, op);
      } else {
         if(s.coin()) {
            spp::Array1D<T> B(m);
            compound(B, e, op);
         } else {
            spp::Array1D<T> C(m);
            auto B = C(spp::place::reverse);
            compound(B, e, op);
         }
      }
   }
   template <class A>
   void copy(const A& e) const {
      auto F = e;
      auto G = F;
      eq(rd(G), "copy of the expression");
   }
   template <class A>
   void sub(const A& e) const {
      if constexpr(spp::TwoDimBaseType<A>) {
         if(!m) return;
         long r = s.range(0, m - 1), c = s.range(0, n - 1);
         auto R = e.row(r);
         auto C = e.col(c);
         std::vector<T> wr, wc;
         for(long j = 0; j < n; ++j) wr.push_back(v[static_cast<std::size_t>(r * n + j)]);
         for(long i = 0; i < m; ++i) wc.push_back(v[static_cast<std::size_t>(i * n + c)]);
         REQ(same(rd(R), wr), "row ", r, ": ", str(rd(R)), ", expected ", str(wr));
         REQ(same(rd(C), wc), "column ", c, ": ", str(rd(C)), ", expected ", str(wc));
         auto V = e.view1D();
         eq(rd(V), "1D view");
      } else {
         auto R = e(spp::place::reverse);
         auto w = v;
         std::reverse(w.begin(), w.end());
         REQ(same(rd(R), w), "reversed slice: ", str(rd(R)), ", expected ", str(w));
      }
   }
   template <class A>
   void nest(const A& e) const { // as an operand of a further expression, also twice
      auto id = spp::generate(e, [](auto x) { return x; });
      eq(rd(id), "generate");
      auto pr = spp::generate(e, e, [](auto, auto y) { return y; });
      eq(rd(pr), "binary generate");
   }
};
