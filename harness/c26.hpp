// C26: Eigen maps of arrays and matrix products against plain loops.
#pragma once
#include "objs.hpp"

namespace ei {
using namespace spp;

template <class T>
T elem(pbt::Src& s, bool small) {
   if constexpr(is_bool<T>) return s.coin();
   else if constexpr(std::is_unsigned_v<T>) return small ? static_cast<T>(s.below(20)) : static_cast<T>(s.word());
   else if constexpr(std::is_integral_v<T>) return static_cast<T>(s.range(-1000, 1000));
   else return static_cast<T>(s.range(-200, 200)) / static_cast<T>(8); // products and sums are exact
}
template <class T>
Mat<T> mat(pbt::Src& s, long m, long n) {
   Mat<T> r(m, n);
   bool small = s.coin();
   for(auto&& x : r.v) x = elem<T>(s, small);
   return r;
}
template <class T>
Mat<T> prod(const Mat<T>& a, const Mat<T>& b) {
   Mat<T> c(a.m, b.n);
   for(long i = 0; i < a.m; ++i)
      for(long j = 0; j < b.n; ++j) {
         T t = 0;
         for(long k = 0; k < a.n; ++k) t = static_cast<T>(t + a.get(i, k) * b.get(k, j));
         c.set(i, j, t);
      }
   return c;
}
template <class T>
bool same(const Mat<T>& a, const Mat<T>& b) { // the sign of a zero sum is not specified
   return a.m == b.m && a.n == b.n && a.v == b.v;
}
template <class E, class T>
bool eq(const E& e, const Mat<T>& m) {
   if(e.rows() != m.m || e.cols() != m.n) return false;
   for(long i = 0; i < m.m; ++i)
      for(long j = 0; j < m.n; ++j)
         if(!(e(i, j) == m.get(i, j))) return false;
   return true;
}
template <class E>
std::string show(const E& e) {
   using T = std::decay_t<decltype(e(0, 0))>;
   Mat<T> m(e.rows(), e.cols());
   for(long i = 0; i < m.m; ++i)
      for(long j = 0; j < m.n; ++j) m.set(i, j, e(i, j));
   return str(m);
}

template <class A, class T>
void load(A& a, const Mat<T>& m) {
   if constexpr(!A::is_fixed()) a.resize(m.m, m.n, false);
   o::fill(a, m.v);
}

// element access, in place, both directions
template <class A>
void mapped(pbt::Src& s, A a, const char* kind) {
   using T = BuiltinTypeOf<A>;
   auto m = mat<T>(s, a.rows().val(), a.cols().val());
   o::fill(a, m.v);
   s.note(kind, " ", str(m));
   s.label(kind);
   s.label(m.m == 0 ? "empty" : m.m == 1 ? "single row" : m.n == 1 ? "single column" : m.m == m.n ? "square" : "rectangular");
   const A& ca = a;
   auto e = eigen::map(a);
   auto ce = eigen::map(ca);
   REQ(eq(e, m), "the map shows ", show(e));
   REQ(eq(ce, m), "the map of a const array shows ", show(ce));
   REQ(static_cast<const void*>(e.data()) == static_cast<const void*>(a.data()) && static_cast<const void*>(ce.data()) == static_cast<const void*>(a.data()), "the map does not refer to the array");
   REQ((!requires { ce(0, 0) = T(1); }), "the map of a const array is writable");
   long steps = m.v.empty() ? 0 : s.range(1, 4);
   for(long t = 0; t < steps; ++t) {
      long i = s.range(0, m.m - 1), j = s.range(0, m.n - 1);
      T x = elem<T>(s, true);
      switch(s.below(6)) {
         case 0: s.note("map(", i, ", ", j, ") = ", str(x)); e(i, j) = x; m.set(i, j, x); break;
         case 1: s.note("array(", i, ", ", j, ") = ", str(x)); a(i, j) = mk(x); m.set(i, j, x); break;
         case 2:
            s.note("map.row(", i, ") = ", str(x));
            e.row(i).setConstant(x);
            for(long k = 0; k < m.n; ++k) m.set(i, k, x);
            break;
         case 3:
            s.note("map.col(", j, ") = ", str(x));
            e.col(j).setConstant(x);
            for(long k = 0; k < m.m; ++k) m.set(k, j, x);
            break;
         case 4: {
            s.note("assign the map");
            auto w = mat<T>(s, m.m, m.n);
            A b(a);
            o::fill(b, w.v);
            auto f = eigen::map(b);
            e = f;
            m = w;
            break;
         }
         default:
            if constexpr(!is_bool<T>) {
               s.note("map = map + map");
               A b(a);
               e = eigen::map(b) + eigen::map(std::as_const(b));
               for(auto&& q : m.v) q = static_cast<T>(q + q);
            }
      }
      REQ(ei::same(vals2(a), m), "the array holds ", str(vals2(a)), ", expected ", str(m));
      REQ(eq(e, m) && eq(ce, m), "the map shows ", show(e), ", expected ", str(m));
   }
   s.nontrivial(m.v.size() > 1 || steps > 0);
}

template <class T>
void map_dynamic(pbt::Src& s) {
   auto [m, n] = o::shape(s, 6);
   if(s.coin()) mapped(s, Array2D<T>(m, n), "Array2D");
   else mapped(s, Array2D<T, Aligned>(m, n), "aligned Array2D");
}
template <class T>
void map_fixed(pbt::Src& s) {
   switch(s.below(8)) {
      case 0: return mapped(s, FixedArray2D<T, 1, 1>{}, "FixedArray2D 1x1");
      case 1: return mapped(s, FixedArray2D<T, 1, 4>{}, "FixedArray2D 1x4");
      case 2: return mapped(s, FixedArray2D<T, 3, 1>{}, "FixedArray2D 3x1");
      case 3: return mapped(s, FixedArray2D<T, 2, 3>{}, "FixedArray2D 2x3");
      case 4: return mapped(s, FixedArray2D<T, 4, 2, Aligned>{}, "aligned FixedArray2D 4x2");
      case 5: return mapped(s, FixedArray2D<T, 4, 1, Aligned>{}, "aligned FixedArray2D 4x1");
      case 6: return mapped(s, FixedArray2D<T, 1, 3, Aligned>{}, "aligned FixedArray2D 1x3");
      default: return mapped(s, FixedArray2D<T, 4, 4, Aligned>{}, "aligned FixedArray2D 4x4");
   }
}

template <class A, class B, class C>
void product(pbt::Src& s, A& a, B& b, C& c) {
   using T = BuiltinTypeOf<A>;
   auto x = vals2(a), y = vals2(b), z = vals2(c);
   s.note(str(x), " * ", str(y), " into ", str(z));
   if(x.n != y.m) {
      s.label("inner extents differ");
      s.nontrivial();
      REQ(rejected([&] { (void)matrix_prod(a, b); }), "a product of non-conforming matrices is accepted");
      REQ(rejected([&] { matrix_prod(a, b, c); }), "a product of non-conforming matrices is accepted");
      REQ(ei::same(vals2(c), z), "a rejected product changed its destination to ", str(vals2(c)));
   } else {
      auto w = prod(x, y);
      s.label(w.v.empty() ? "empty" : x.m == 1 || y.n == 1 ? "matrix-vector" : w.v.size() > 100 ? "large" : "small");
      s.nontrivial(w.v.size() > 1 || x.n > 1);
      auto r = matrix_prod(a, b);
      REQ(ei::same(vals2(r), w), "the product is ", str(vals2(r)), ", expected ", str(w));
      if(z.m != w.m || z.n != w.n) {
         s.label("destination of another shape");
         REQ(rejected([&] { matrix_prod(a, b, c); }), "a destination of another shape is accepted");
         REQ(ei::same(vals2(c), z), "a rejected product changed its destination to ", str(vals2(c)));
      } else {
         matrix_prod(a, b, c);
         REQ(ei::same(vals2(c), w), "the destination holds ", str(vals2(c)), ", expected ", str(w));
         matrix_prod(std::as_const(a), std::as_const(b), c);
         REQ(ei::same(vals2(c), w), "a second product holds ", str(vals2(c)), ", expected ", str(w));
         if(w.m == x.m && w.n == x.n) {
            if constexpr(!A::is_fixed()) {
               A d(a);
               matrix_prod(d, b, d);
               REQ(ei::same(vals2(d), w), "the product into its own left operand is ", str(vals2(d)), ", expected ", str(w));
            }
         }
      }
   }
   REQ(ei::same(vals2(a), x) && ei::same(vals2(b), y), "a product changed an operand");
}

template <class T, AlignmentFlag FA, AlignmentFlag FB, AlignmentFlag FC>
void prod_dynamic(pbt::Src& s) {
   long hi = s.chance(1, 12) ? 40 : s.chance(1, 6) ? 12 : 4;
   long m = s.range(0, hi), k = m ? s.range(1, hi) : 0, n = m ? s.range(1, hi) : 0;
   long k2 = m && s.chance(1, 6) ? s.range(1, hi) : k, m3 = m, n3 = n;
   if(s.chance(1, 6)) {
      m3 = s.range(0, hi);
      n3 = m3 ? s.range(1, hi) : 0;
   }
   Array2D<T, FA> a(m, k);
   Array2D<T, FB> b(k2, n);
   Array2D<T, FC> c(m3, n3);
   o::fill(a, mat<T>(s, m, k).v);
   o::fill(b, mat<T>(s, k2, n).v);
   o::fill(c, mat<T>(s, m3, n3).v);
   product(s, a, b, c);
}
template <class A, class B, class C>
void prod_of(pbt::Src& s, A a, B b, C c) {
   using T = BuiltinTypeOf<A>;
   o::fill(a, mat<T>(s, a.rows().val(), a.cols().val()).v);
   o::fill(b, mat<T>(s, b.rows().val(), b.cols().val()).v);
   o::fill(c, mat<T>(s, c.rows().val(), c.cols().val()).v);
   s.label("fixed operands");
   product(s, a, b, c);
}
template <class T>
void prod_fixed(pbt::Src& s) {
   long q = s.range(1, 5);
   switch(s.below(8)) {
      case 0: return prod_of(s, FixedArray2D<T, 2, 3>{}, FixedArray2D<T, 3, 2, Aligned>{}, FixedArray2D<T, 2, 2>{});
      case 1: return prod_of(s, FixedArray2D<T, 1, 4>{}, FixedArray2D<T, 4, 1>{}, FixedArray2D<T, 1, 1>{});
      case 2: return prod_of(s, FixedArray2D<T, 3, 1>{}, FixedArray2D<T, 1, 3>{}, Array2D<T>(3, 3));
      case 3: return prod_of(s, FixedArray2D<T, 3, 3>{}, FixedArray2D<T, 3, 1>{}, FixedArray2D<T, 3, 1>{});
      case 4: return prod_of(s, FixedArray2D<T, 4, 4, Aligned>{}, Array2D<T>(4, q), Array2D<T, Aligned>(4, q));
      case 5: return prod_of(s, Array2D<T, Aligned>(q, 3), FixedArray2D<T, 3, 2>{}, Array2D<T>(q, 2));
      case 6: return prod_of(s, Array2D<T>(q, q), FixedArray2D<T, 2, 3>{}, Array2D<T>(q, 3));
      default: return prod_of(s, FixedArray2D<T, 2, 2>{}, FixedArray2D<T, 2, 2, Aligned>{}, Array2D<T>(q, 2));
   }
}
} // namespace ei
