// C06: histories of operations on a dynamic 2D array against a row-major matrix.
#pragma once
#include "c05.hpp"

namespace c06 {
using c05::elem;
using c05::ilist;
using c05::subset;
using c05::vec;

inline std::pair<long, long> shape(pbt::Src& s) {
   if(s.chance(1, 10)) return {0, 0};
   if(s.chance(1, 40)) return {s.range(1, 20), s.range(1, 20)};
   return {s.range(1, 5), s.range(1, 5)};
}
template <class T>
Mat<T> mat(pbt::Src& s, long m, long n) {
   Mat<T> r(m, n);
   for(auto i = 0ul; i < r.v.size(); ++i) r.v[i] = elem<T>(s);
   return r;
}
template <class A, class T>
A make2(const Mat<T>& v) {
   A r(v.m, v.n);
   for(long i = 0; i < v.m; ++i)
      for(long j = 0; j < v.n; ++j) r(i, j) = mk(static_cast<T>(v.get(i, j)));
   return r;
}
template <class T>
Mat<T> rows_of(const Mat<T>& a, const std::vector<long>& ix) { // keeps the listed rows
   Mat<T> r(static_cast<long>(ix.size()), ix.empty() ? 0 : a.n);
   for(long i = 0; i < r.m; ++i)
      for(long j = 0; j < r.n; ++j) r.set(i, j, a.get(ix[static_cast<std::size_t>(i)], j));
   return r;
}
template <class T>
Mat<T> transp(const Mat<T>& a) {
   Mat<T> r(a.n, a.m);
   for(long i = 0; i < a.m; ++i)
      for(long j = 0; j < a.n; ++j) r.set(j, i, a.get(i, j));
   return r;
}
template <class T>
Mat<T> cols_of(const Mat<T>& a, const std::vector<long>& ix) {
   return transp(rows_of(transp(a), ix));
}
template <class T>
Mat<T> ins_rows(const Mat<T>& a, long p, const Mat<T>& b) {
   if(a.m == 0) return b;
   Mat<T> r(a.m + b.m, a.n);
   for(long i = 0; i < r.m; ++i)
      for(long j = 0; j < r.n; ++j) r.set(i, j, i < p ? a.get(i, j) : i < p + b.m ? b.get(i - p, j) : a.get(i - b.m, j));
   return r;
}
template <class T>
Mat<T> ins_cols(const Mat<T>& a, long p, const Mat<T>& b) {
   return transp(ins_rows(transp(a), p, transp(b)));
}
inline std::vector<long> without(long n, const std::vector<long>& ix) {
   std::vector<long> r;
   for(long i = 0; i < n; ++i)
      if(!std::binary_search(ix.begin(), ix.end(), i)) r.push_back(i);
   return r;
}
inline std::vector<long> iota(long a, long n) {
   std::vector<long> r;
   for(long i = 0; i < n; ++i) r.push_back(a + i);
   return r;
}

template <class T, spp::AlignmentFlag AF>
struct Hist {
   static constexpr auto OTHER = AF == spp::Aligned ? spp::Unaligned : spp::Aligned;
   using A1 = spp::Array2D<T, AF>;
   using A2 = spp::Array2D<T, OTHER>;
   using M = Mat<T>;
   pbt::Src& s;
   A1 A, B;
   M a, b;

   void check() {
      REQ(A.rows().val() == a.m && A.cols().val() == a.n, "shape ", A.rows().val(), "x", A.cols().val(), ", model ", a.m, "x", a.n);
      REQ(A.size().val() == a.m * a.n, "size ", A.size().val());
      REQ(A.empty().val() == (a.m == 0));
      REQ(same(vals2(A), a), "array ", str(vals2(A)), ", model ", str(a));
      REQ(B.rows().val() == b.m && B.cols().val() == b.n && same(vals2(B), b), "operand array ", str(vals2(B)), ", model ", str(b));
   }

   // Array-like operand with exactly m rows (m < 0: any) and n columns (n < 0: any).
   template <class F>
   void operand(long m, long n, F&& f) {
      if(m < 0) m = s.range(1, 4);
      if(n < 0) n = s.range(1, 4);
      M o = mat<T>(s, m, n);
      switch(s.below(6)) {
         case 0: {
            s.note("  operand: array ", str(o));
            A1 X = make2<A1>(o);
            f(X, M(o));
            REQ(same(vals2(X), o), "operand changed");
            return;
         }
         case 1: {
            s.note("  operand: array of the other alignment ", str(o));
            A2 X = make2<A2>(o);
            f(X, M(o));
            REQ(same(vals2(X), o), "operand changed");
            return;
         }
         case 2: {
            s.note("  operand: block of a larger array ", str(o));
            M big = mat<T>(s, m + 2, n + 1);
            for(long i = 0; i < m; ++i)
               for(long j = 0; j < n; ++j) big.set(i + 1, j + 1, o.get(i, j));
            A1 X = make2<A1>(big);
            f(X.blockN(1, 1, m, n), M(o));
            REQ(same(vals2(X), big), "operand changed");
            return;
         }
         case 3: {
            s.note("  operand: lazy transpose ", str(o));
            A1 X = make2<A1>(transp(o));
            return f(transpose(X), M(o));
         }
         case 4: {
            s.note("  operand: own rows or columns");
            if(a.m == 0) return f(B, M(b));
            if(n == a.n) {
               long k = s.range(0, a.m - 1), c = s.range(1, a.m - k);
               return f(A.rows(spp::seqN{k, c}), rows_of(a, iota(k, c)));
            }
            if(m == a.m) {
               long k = s.range(0, a.n - 1), c = s.range(1, a.n - k);
               return f(A.cols(spp::seqN{k, c}), cols_of(a, iota(k, c)));
            }
            return f(A, M(a));
         }
         default: {
            T x = elem<T>(s);
            s.note("  operand: constant ", str(x), " ", m, "x", n);
            M c(m, n);
            std::fill(c.v.begin(), c.v.end(), x);
            return f(spp::const2D<T>(m, n, mk(x)), c);
         }
      }
   }
   // 1D operand of length n.
   template <class F>
   void operand1(long n, F&& f) {
      std::vector<T> o = vec<T>(s, n);
      s.note("  operand: ", str(o));
      using V1 = spp::Array1D<T, AF>;
      V1 X = c05::make<V1>(o);
      switch(s.below(4)) {
         case 0: return f(X, o);
         case 1: {
            V1 Y = c05::make<V1>(std::vector<T>(o.rbegin(), o.rend()));
            return f(Y(spp::place::reverse), o);
         }
         case 2: return f(generate(X, [](auto x) { return x; }), o);
         default: {
            if(n == a.n && a.m > 0) {
               long i = s.range(0, a.m - 1);
               return f(A.row(i), rows_of(a, {i}).v);
            }
            if(n == a.m && a.n > 0) {
               long j = s.range(0, a.n - 1);
               return f(A.col(j), cols_of(a, {j}).v);
            }
            return f(X, o);
         }
      }
   }

   void construct() {
      auto [m, n] = shape(s);
      switch(s.below(7)) {
         case 0: {
            s.note("A = Array2D(", m, ", ", n, ")");
            A1 X(m, n);
            A.swap(X);
            a = M(m, n);
            return;
         }
         case 1: {
            T x = elem<T>(s);
            s.note("A = Array2D(", m, ", ", n, ", ", str(x), ")");
            if(s.coin()) {
               A1 X(m, n, mk(x));
               A.swap(X);
            } else {
               A1 X(spp::Rows{m}, spp::Cols{n}, spp::Value<T>{mk(x)});
               A.swap(X);
            }
            a = M(m, n);
            std::fill(a.v.begin(), a.v.end(), x);
            return;
         }
         case 2: {
            a = mat<T>(s, 2, 3);
            auto e = [&](long i, long j) { return mk(static_cast<T>(a.get(i, j))); };
            s.note("A = {list} ", str(a));
            A1 X{{e(0, 0), e(0, 1), e(0, 2)}, {e(1, 0), e(1, 1), e(1, 2)}};
            A.swap(X);
            return;
         }
         case 3:
            s.note("A = Array2D(operand)");
            return operand(-1, -1, [&](const auto& O, M o) {
               A1 X(O);
               A.swap(X);
               a = o;
            });
         case 4: {
            s.note("A = moved");
            a = mat<T>(s, m, n);
            A1 X = make2<A1>(a), Y(std::move(X));
            REQ(X.rows().val() * X.cols().val() == X.size().val() && vals2(X).v.size() == static_cast<std::size_t>(X.size().val()),
                "moved-from array is inconsistent");
            X.resize_and_assign(Y);
            A.swap(X);
            return;
         }
         case 5: {
            s.note("A = copy, copy then changed");
            A1 X(A);
            A.swap(X);
            check();
            if(X.size().val()) X.remove_row(spp::last);
            return;
         }
         default: {
            s.note("A = Array2D()");
            A1 X;
            A.swap(std::move(X));
            a = M();
         }
      }
   }

   void step() {
      switch(s.below(22)) {
         case 0: return construct();
         case 1: { // element writes
            if(a.m == 0) return;
            long i = s.range(0, a.m - 1), j = s.range(0, a.n - 1);
            T x = elem<T>(s);
            s.note("A(", i, ",", j, ") = ", str(x));
            switch(s.below(6)) {
               case 0: A(i, j) = mk(x); break;
               case 1: A.at(i, j) = mk(x); break;
               case 2: A(spp::last - (a.m - 1 - i), spp::last - (a.n - 1 - j)) = mk(x); break;
               case 3: A.un(i * a.n + j) = mk(x); break;
               case 4: A.row(i)[j] = mk(x); break;
               default: A.data()[i * a.n + j] = mk(x);
            }
            a.set(i, j, x);
            return;
         }
         case 2:
         case 3: {
            auto [m, n] = shape(s);
            if(s.coin() && a.m > 0) {
               m = std::max(1L, a.m + s.range(0, 2) - 1);
               n = std::max(1L, a.n + s.range(0, 2) - 1);
            }
            s.note("resize(", m, ",", n, ") of ", a.m, "x", a.n);
            if(s.coin()) A.resize(m, n);
            else A.resize(m, n, true);
            M r(m, n);
            for(long i = 0; i < std::min(m, a.m); ++i)
               for(long j = 0; j < std::min(n, a.n); ++j) r.set(i, j, a.get(i, j));
            a = r;
            return;
         }
         case 4: {
            auto [m, n] = shape(s);
            s.note("resize(", m, ",", n, ", no preserve)");
            long old = a.m * a.n;
            A.resize(m, n, false);
            REQ(A.rows().val() == m && A.cols().val() == n && A.size().val() == m * n, "shape after resize");
            M now = vals2(A);
            for(long i = old; i < m * n; ++i) REQ(same(static_cast<T>(now.v[static_cast<std::size_t>(i)]), T{}), "grown storage is not zero");
            a = now;
            return;
         }
         case 5:
            s.note("resize_and_assign");
            return operand(-1, -1, [&](const auto& O, M o) {
               A.resize_and_assign(O);
               a = o;
            });
         case 6: {
            auto [m, n] = shape(s);
            M o = mat<T>(s, m, n);
            s.note("resize_and_assign(moved)");
            A1 X = make2<A1>(o);
            A.resize_and_assign(std::move(X));
            a = o;
            X.resize(2, 2);
            REQ(X.size().val() == 4, "moved-from array cannot be resized");
            return;
         }
         case 7:
         case 8: { // insert rows
            long p = s.range(0, a.m);
            bool e = a.m == 0;
            s.note("insert_rows at ", p, " of ", a.m);
            return operand(-1, e ? -1 : a.n, [&](const auto& O, M o) {
               if(!e && o.n != a.n) return;
               if(a.m + o.m > 60) return;
               switch(s.below(4)) {
                  case 0: A.insert_rows(p, O); break;
                  case 1: A.insert_rows(spp::Pos{p}, O); break;
                  case 2: p = 0; A.insert_rows_front(O); break;
                  default: p = a.m; A.insert_rows_back(O);
               }
               a = ins_rows(a, p, o);
            });
         }
         case 9:
         case 10: { // insert columns
            long p = s.range(0, a.n);
            bool e = a.m == 0;
            s.note("insert_cols at ", p, " of ", a.n);
            return operand(e ? -1 : a.m, -1, [&](const auto& O, M o) {
               if(!e && o.m != a.m) return;
               if(a.n + o.n > 60) return;
               switch(s.below(4)) {
                  case 0: A.insert_cols(p, O); break;
                  case 1: A.insert_cols(spp::Pos{p}, O); break;
                  case 2: p = 0; A.insert_cols_front(O); break;
                  default: p = a.n; A.insert_cols_back(O);
               }
               a = ins_cols(a, p, o);
            });
         }
         case 11:
         case 12: { // insert one row
            long p = s.range(0, a.m);
            s.note("insert_row at ", p, " of ", a.m);
            return operand1(a.m == 0 ? s.range(1, 4) : a.n, [&](const auto& O, std::vector<T> o) {
               switch(s.below(4)) {
                  case 0: A.insert_row(p, O); break;
                  case 1: A.insert_row(spp::Pos{p}, O); break;
                  case 2: p = 0; A.insert_row_front(O); break;
                  default: p = a.m; A.insert_row_back(O);
               }
               M r(1, static_cast<long>(o.size()));
               r.v = o;
               a = ins_rows(a, p, r);
            });
         }
         case 13:
         case 14: { // insert one column
            long p = s.range(0, a.n);
            s.note("insert_col at ", p, " of ", a.n);
            return operand1(a.m == 0 ? s.range(1, 4) : a.m, [&](const auto& O, std::vector<T> o) {
               switch(s.below(4)) {
                  case 0: A.insert_col(p, O); break;
                  case 1: A.insert_col(spp::Pos{p}, O); break;
                  case 2: p = 0; A.insert_col_front(O); break;
                  default: p = a.n; A.insert_col_back(O);
               }
               M r(static_cast<long>(o.size()), 1);
               r.v = o;
               a = ins_cols(a, p, r);
            });
         }
         case 15:
         case 16: { // remove rows
            if(a.m == 0) return;
            long p = s.range(0, a.m - 1), c = s.range(1, a.m - p);
            if(s.coin()) c = 1;
            switch(s.below(8)) {
               case 0: A.remove_rows(p, c); break;
               case 1: A.remove_rows(spp::Pos{p}, spp::Count{c}); break;
               case 2: c = 1; A.remove_row(p); break;
               case 3: c = 1; A.remove_row(spp::Pos{p}); break;
               case 4:
                  c = 1;
                  if(p == a.m - 1 && s.coin()) A.remove_row(spp::last);
                  else A.remove_row(spp::last - (a.m - 1 - p));
                  break;
               case 5:
                  p = 0;
                  if(s.coin()) A.remove_rows_front(c);
                  else A.remove_rows_front(spp::Count{c});
                  break;
               case 6:
                  p = a.m - c;
                  if(s.coin()) A.remove_rows_back(c);
                  else A.remove_rows_back(spp::Count{c});
                  break;
               default: {
                  auto ix = subset(s, a.m);
                  s.note("remove_rows list ", str(ix), " of ", a.m);
                  A.remove_rows(ilist(ix));
                  a = rows_of(a, without(a.m, ix));
                  return;
               }
            }
            s.note("remove rows [", p, ",+", c, ") of ", a.m);
            a = rows_of(a, without(a.m, iota(p, c)));
            return;
         }
         case 17:
         case 18: { // remove columns
            if(a.m == 0) return;
            long p = s.range(0, a.n - 1), c = s.range(1, a.n - p);
            if(s.coin()) c = 1;
            switch(s.below(8)) {
               case 0: A.remove_cols(p, c); break;
               case 1: A.remove_cols(spp::Pos{p}, spp::Count{c}); break;
               case 2: c = 1; A.remove_col(p); break;
               case 3: c = 1; A.remove_col(spp::Pos{p}); break;
               case 4:
                  c = 1;
                  if(p == a.n - 1 && s.coin()) A.remove_col(spp::last);
                  else A.remove_col(spp::last - (a.n - 1 - p));
                  break;
               case 5:
                  p = 0;
                  if(s.coin()) A.remove_cols_front(c);
                  else A.remove_cols_front(spp::Count{c});
                  break;
               case 6:
                  p = a.n - c;
                  if(s.coin()) A.remove_cols_back(c);
                  else A.remove_cols_back(spp::Count{c});
                  break;
               default: {
                  auto ix = subset(s, a.n);
                  s.note("remove_cols list ", str(ix), " of ", a.n);
                  A.remove_cols(ilist(ix));
                  a = cols_of(a, without(a.n, ix));
                  return;
               }
            }
            s.note("remove cols [", p, ",+", c, ") of ", a.n);
            a = cols_of(a, without(a.n, iota(p, c)));
            return;
         }
         case 19: {
            s.note("swap");
            if(s.coin()) A.swap(B);
            else B.swap(A);
            std::swap(a, b);
            return;
         }
         case 20: { // same-shape assignment
            if(s.coin()) {
               T x = elem<T>(s);
               s.note("A = value ", str(x));
               A = mk(x);
               std::fill(a.v.begin(), a.v.end(), x);
               return;
            }
            s.note("A = array of the same shape");
            M o = mat<T>(s, a.m, a.n);
            A1 X = make2<A1>(o);
            switch(s.below(5)) {
               case 0: A = X; break;
               case 1: A = std::move(X); break;
               case 2: A = generate(X, [](auto y) { return y; }); break;
               case 3: A = X(spp::place::all, spp::place::all); break;
               default: {
                  A2 Y = make2<A2>(o);
                  A = Y;
               }
            }
            a = o;
            return;
         }
         default: {
            auto [m, n] = shape(s);
            b = mat<T>(s, m, n);
            s.note("B = ", str(b));
            A1 X = make2<A1>(b);
            B.resize_and_assign(X);
         }
      }
   }

   static void run(pbt::Src& s) {
      Hist h{s, {}, {}, {}, {}};
      auto [m, n] = shape(s);
      h.a = mat<T>(s, m, n);
      auto [p, q] = shape(s);
      h.b = mat<T>(s, p, q);
      A1 X = make2<A1>(h.a), Y = make2<A1>(h.b);
      h.A.swap(X);
      h.B.swap(Y);
      s.note(tname<T>(), AF == spp::Aligned ? " aligned" : " unaligned", " A=", str(h.a), " B=", str(h.b));
      long k = s.range(1, 12), changes = 0;
      for(long i = 0; i < k; ++i) {
         auto bm = h.a.m, bn = h.a.n;
         h.step();
         changes += h.a.m != bm || h.a.n != bn;
         h.check();
      }
      s.nontrivial(changes >= 2);
      s.label(changes >= 4 ? "4+ shape changes" : changes >= 2 ? "2-3 shape changes" : "under 2 shape changes");
   }
};

} // namespace c06
