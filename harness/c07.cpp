// C07: rejected or failing operations leave the array as it was.
#include "c06.hpp"

namespace {
using c05::make;
using c05::vec;
using c06::make2;
using c06::mat;

struct Boom : std::runtime_error {
   Boom() : std::runtime_error("operand failed") {
   }
};

// Outcome of a call: 0 normal, 1 library error, 2 error of the operand.
template <class F>
int outcome(F&& f) {
   try {
      f();
   } catch(const spp::StrictException&) {
      return 1;
   } catch(const Boom&) {
      return 2;
   }
   return 0;
}

// Element function that fails at the k-th evaluation, with the user's or the library's error.
template <class T>
auto bomb(long* count, long k, bool own) {
   return [count, k, own](Strict<T> x) {
      if((*count)++ == k) {
         if(own) throw Boom();
         (void)(Strict<int>{1} / Strict<int>{0});
      }
      return x;
   };
}

// An index around [0, n], sometimes far away.
long around(pbt::Src& s, long n) {
   if(s.chance(1, 12)) return s.pick({1L << 40, -(1L << 40), 1L << 61, -(1L << 61), 1L << 32, (1L << 32) + 1, 1L << 31});
   return s.range(0, n + 5) - 3;
}
std::vector<long> any_list(pbt::Src& s, long n) { // index list, possibly invalid in one place
   auto v = c05::subset(s, n);
   switch(s.below(6)) {
      case 0: v.push_back(n); break;
      case 1: v.insert(v.begin(), -1); break;
      case 2:
         if(v.size() >= 2) std::swap(v[0], v[1]);
         break;
      case 3:
         if(!v.empty()) v.insert(v.begin() + static_cast<long>(s.below(v.size())), v[s.below(v.size())]);
         break;
      case 4:
         if(!v.empty()) v[s.below(v.size())] = around(s, n);
         break;
      default: break;
   }
   return v;
}
bool valid_list(const std::vector<long>& v, long n) {
   for(std::size_t i = 0; i < v.size(); ++i)
      if(v[i] < 0 || v[i] >= n || (i && v[i] <= v[i - 1])) return false;
   return true;
}

template <class T, spp::AlignmentFlag AF>
struct One {
   using A1 = spp::Array1D<T, AF>;
   pbt::Src& s;
   A1 A;
   std::vector<T> a;

   template <class F>
   void expect(bool valid, F&& f, const std::string& what) {
      s.note(what, valid ? " (valid)" : " (invalid)", " on ", str(a));
      s.nontrivial(!valid);
      s.label(valid ? "1D valid argument" : "1D invalid argument");
      int o = outcome(f);
      REQ(o != 2);
      REQ((o == 1) == !valid, what, valid ? " rejected" : " accepted");
      after(valid);
   }
   void after(bool valid) {
      if(!valid) {
         REQ(A.size().val() == static_cast<long>(a.size()), "size changed to ", A.size().val());
         REQ(same(vals1(A), a), "elements changed to ", str(vals1(A)));
         A.insert_back(mk(T{1}));
         a.push_back(T{1});
         REQ(same(vals1(A), a), "array unusable after the rejection");
      } else {
         a = vals1(A);
      }
   }

   void step() {
      long n = static_cast<long>(a.size());
      switch(s.below(16)) {
         case 0: {
            long p = around(s, n), c = around(s, n);
            bool pc = s.coin();
            bool v = c > 0 && p >= 0 && p < n && p + c - 1 < n;
            return expect(v, [&] { pc ? A.remove(spp::Pos{p}, spp::Count{c}) : A.remove(p, c); }, pbt::cat("remove(", p, ",", c, ")"));
         }
         case 1: {
            long c = around(s, n);
            bool front = s.coin();
            return expect(c > 0 && c <= n, [&] { front ? A.remove_front(c) : A.remove_back(c); },
                          pbt::cat(front ? "remove_front(" : "remove_back(", c, ")"));
         }
         case 2: {
            long k = around(s, n);
            return expect(k >= 0 && k < n, [&] { A.remove(spp::last - k); }, pbt::cat("remove(last - ", k, ")"));
         }
         case 3: {
            auto l = any_list(s, n);
            return expect(valid_list(l, n), [&] { A.remove(c05::ilist(l)); }, "remove index list " + str(l));
         }
         case 4: {
            long p = around(s, n);
            bool pp = s.coin();
            return expect(p >= 0 && p <= n,
                          [&] { pp ? A.insert(spp::Pos{p}, spp::Value<T>{mk(T{1})}) : A.insert(p, mk(T{1})); },
                          pbt::cat("insert(", p, ", value)"));
         }
         case 5: {
            long p = around(s, n);
            A1 X = make<A1>(vec<T>(s, s.range(0, 4)));
            return expect(p >= 0 && p <= n, [&] { A.insert(p, X); }, pbt::cat("insert(", p, ", array)"));
         }
         case 6: {
            long m = s.range(0, 12) - 4;
            bool pres = s.coin();
            return expect(m >= 0, [&] { A.resize(m, pres); }, pbt::cat("resize(", m, ")"));
         }
         case 7: { // assignments of another size
            long m = s.range(0, n + 3);
            std::vector<T> w = vec<T>(s, m);
            A1 X = make<A1>(w);
            spp::Array1D<T, AF == spp::Aligned ? spp::Unaligned : spp::Aligned> Y(X);
            switch(s.below(5)) {
               case 0: return expect(m == n, [&] { A = X; }, pbt::cat("A = array of size ", m));
               case 1: return expect(m == n, [&] { A = Y; }, pbt::cat("A = other alignment of size ", m));
               case 2: return expect(m == n, [&] { A = generate(X, [](auto x) { return x; }); }, pbt::cat("A = expression of size ", m));
               case 3: return expect(m == n, [&] { A = X(spp::place::all); }, pbt::cat("A = slice of size ", m));
               default: {
                  T x{1};
                  return expect(n == 3, [&] { A = {mk(x), mk(x), mk(x)}; }, "A = list of 3");
               }
            }
         }
         case 8: { // assignments through slices
            long st = n ? s.range(0, n - 1) : 0, c = s.range(0, n - st), m = s.range(0, c + 2);
            A1 X = make<A1>(vec<T>(s, m));
            switch(s.below(4)) {
               case 0: return expect(m == c, [&] { A(spp::seqN{st, c}) = X; }, pbt::cat("slice of ", c, " = array of ", m));
               case 1: return expect(m == c, [&] { A(spp::seqN{st, c}) = X(spp::seqN{0, m}); }, pbt::cat("slice of ", c, " = same-type slice of ", m));
               case 2:
                  return expect(m == c,
                                [&] {
                                   auto S = A(spp::seqN{st, c});
                                   const auto R = X(spp::seqN{0, m});
                                   S = R;
                                },
                                pbt::cat("named slice of ", c, " = slice of ", m));
               default: return expect(c == 2, [&] { A(spp::seqN{st, c}) = {mk(T{1}), mk(T{1})}; }, pbt::cat("slice of ", c, " = list of 2"));
            }
         }
         case 9: { // constructions
            long m = s.range(0, 9) - 4;
            return expect(m >= 0, [&] { s.coin() ? A1(m) : A1(m, mk(T{1})); }, pbt::cat("Array1D(", m, ")"));
         }
         case 10: { // compound assignment of another size
            long m = s.range(0, n + 2);
            A1 X = make<A1>(std::vector<T>(static_cast<std::size_t>(m), T{}));
            if constexpr(!is_bool<T>) {
               if(s.coin()) return expect(m == n, [&] { A += X; }, pbt::cat("A += array of size ", m));
               return expect(m == n, [&] { A += generate(X, [](auto x) { return x; }); }, pbt::cat("A += expression of size ", m));
            }
            return;
         }
         case 11: { // reads
            std::string t = s.pick({std::string("1 2 x"), std::string("1 2 -"), std::string("1 x 3"), std::string("x"), std::string("1 2 3")});
            std::istringstream is(t);
            return expect(t == "1 2 3", [&] { is >> A; }, "read \"" + t + "\"");
         }
         default: { // operands whose evaluation fails
            long m = s.range(1, 5);
            std::vector<T> w = vec<T>(s, m);
            A1 X = make<A1>(w);
            long count = 0, k = s.range(0, m);
            bool own = s.coin();
            auto E = generate(X, bomb<T>(&count, k, own));
            long p = s.range(0, n);
            int which = static_cast<int>(s.below(6));
            s.note("operand of size ", m, " failing at evaluation ", k, ", operation ", which, " at ", p, " on ", str(a));
            int o = outcome([&] {
               switch(which) {
                  case 0: A.resize_and_assign(E); break;
                  case 1: A.insert(p, E); break;
                  case 2: A.insert_front(E); break;
                  case 3: A.insert_back(E); break;
                  case 4: A.insert(spp::Pos{p}, E); break;
                  default: A.resize_and_assign(merge(X, E)); break;
               }
            });
            bool failed = count > k;
            s.nontrivial(failed);
            s.label(failed ? "1D operand failed part-way" : "1D operand succeeded");
            REQ((o != 0) == failed, "error of the operand swallowed or invented");
            if(failed) REQ(o == (own ? 2 : 1), "kind of the error");
            REQ(same(vals1(X), w), "operand changed");
            after(!failed);
         }
      }
   }
   static void run(pbt::Src& s) {
      One h{s, {}, {}};
      h.a = vec<T>(s, s.range(0, 7));
      A1 X = make<A1>(h.a);
      h.A.swap(X);
      long k = s.range(1, 4);
      while(k--) h.step();
   }
};

template <class T, spp::AlignmentFlag AF>
struct Two {
   using A2 = spp::Array2D<T, AF>;
   using A1 = spp::Array1D<T, AF>;
   pbt::Src& s;
   A2 A;
   Mat<T> a;

   template <class F>
   void expect(bool valid, F&& f, const std::string& what) {
      s.note(what, valid ? " (valid)" : " (invalid)", " on ", str(a));
      s.nontrivial(!valid);
      s.label(valid ? "2D valid argument" : "2D invalid argument");
      int o = outcome(f);
      REQ(o != 2);
      REQ((o == 1) == !valid, what, valid ? " rejected" : " accepted");
      after(valid);
   }
   void after(bool valid) {
      if(!valid) {
         REQ(A.rows().val() == a.m && A.cols().val() == a.n && A.size().val() == a.m * a.n, "shape changed to ", A.rows().val(), "x", A.cols().val());
         REQ(same(vals2(A), a), "elements changed to ", str(vals2(A)));
         if(s.coin()) {
            A.resize(a.m + 1, a.n + 1);
            REQ(A.size().val() == (a.m + 1) * (a.n + 1), "array unusable after the rejection");
            A.resize(a.m, a.n);
            REQ(same(vals2(A), a), "array unusable after the rejection");
         }
      } else {
         a = vals2(A);
      }
   }

   void step() {
      long m = a.m, n = a.n;
      bool rw = s.coin(); // rows or columns
      long e = rw ? m : n, o = rw ? n : m;
      switch(s.below(16)) {
         case 0: {
            long p = around(s, e), c = around(s, e);
            bool pc = s.coin(), v = c > 0 && p >= 0 && p < e && p + c - 1 < e;
            return expect(v,
                          [&] {
                             if(rw) pc ? A.remove_rows(p, c) : A.remove_rows(spp::Pos{p}, spp::Count{c});
                             else pc ? A.remove_cols(p, c) : A.remove_cols(spp::Pos{p}, spp::Count{c});
                          },
                          pbt::cat(rw ? "remove_rows(" : "remove_cols(", p, ",", c, ")"));
         }
         case 1: {
            long c = around(s, e);
            bool fr = s.coin();
            return expect(c > 0 && c <= e,
                          [&] {
                             if(rw) fr ? A.remove_rows_front(c) : A.remove_rows_back(c);
                             else fr ? A.remove_cols_front(c) : A.remove_cols_back(c);
                          },
                          pbt::cat(rw ? "remove_rows_" : "remove_cols_", fr ? "front(" : "back(", c, ")"));
         }
         case 2: {
            long k = around(s, e);
            return expect(k >= 0 && k < e, [&] { rw ? A.remove_row(spp::last - k) : A.remove_col(spp::last - k); },
                          pbt::cat(rw ? "remove_row(last - " : "remove_col(last - ", k, ")"));
         }
         case 3: {
            auto l = any_list(s, e);
            return expect(valid_list(l, e), [&] { rw ? A.remove_rows(c05::ilist(l)) : A.remove_cols(c05::ilist(l)); },
                          (rw ? "remove_rows " : "remove_cols ") + str(l));
         }
         case 4: {
            long p = around(s, e);
            return expect(p >= 0 && p < e, [&] { rw ? A.remove_row(p) : A.remove_col(p); }, pbt::cat(rw ? "remove_row(" : "remove_col(", p, ")"));
         }
         case 5:
         case 6: { // insert several
            long p = around(s, e), k = s.range(1, 3), w = m == 0 ? s.range(1, 3) : std::max(1L, o + s.range(0, 2) - 1);
            bool v = p >= 0 && p <= e && (m == 0 || w == o);
            A2 X = make2<A2>(rw ? mat<T>(s, k, w) : mat<T>(s, w, k));
            return expect(v, [&] { rw ? A.insert_rows(p, X) : A.insert_cols(p, X); },
                          pbt::cat(rw ? "insert_rows(" : "insert_cols(", p, ", ", X.rows().val(), "x", X.cols().val(), ")"));
         }
         case 7:
         case 8: { // insert one
            long p = around(s, e), w = m == 0 ? s.range(1, 3) : std::max(1L, o + s.range(0, 2) - 1);
            bool v = p >= 0 && p <= e && (m == 0 || w == o);
            A1 X = make<A1>(vec<T>(s, w));
            bool pp = s.coin();
            return expect(v,
                          [&] {
                             if(pp) rw ? A.insert_row(p, X) : A.insert_col(p, X);
                             else rw ? A.insert_row(spp::Pos{p}, X) : A.insert_col(spp::Pos{p}, X);
                          },
                          pbt::cat(rw ? "insert_row(" : "insert_col(", p, ", size ", w, ")"));
         }
         case 9: {
            long p = s.range(0, 6) - 2, q = s.range(0, 6) - 2;
            bool v = p >= 0 && q >= 0 && (p == 0) == (q == 0), pres = s.coin();
            return expect(v, [&] { A.resize(p, q, pres); }, pbt::cat("resize(", p, ",", q, ")"));
         }
         case 10: {
            long p = s.range(0, 6) - 2, q = s.range(0, 6) - 2;
            bool v = p >= 0 && q >= 0 && (p == 0) == (q == 0);
            bool val = s.coin();
            return expect(v, [&] { val ? A2(p, q, mk(T{1})) : A2(p, q); }, pbt::cat("Array2D(", p, ",", q, ")"));
         }
         case 11: {
            long p = std::max(0L, m + s.range(0, 2) - 1), q = std::max(0L, n + s.range(0, 2) - 1);
            if(s.chance(1, 4) && m != n) p = n, q = m; // same number of elements
            if((p == 0) != (q == 0)) p = q = 0;
            A2 X = make2<A2>(mat<T>(s, p, q));
            bool v = p == m && q == n;
            switch(s.below(5)) {
               case 0: return expect(v, [&] { A = X; }, pbt::cat("A = ", p, "x", q));
               case 1: return expect(v, [&] { A = generate(X, [](auto x) { return x; }); }, pbt::cat("A = expression ", p, "x", q));
               case 2: return expect(v, [&] { A = X(spp::place::all, spp::place::all); }, pbt::cat("A = slice ", p, "x", q));
               case 3:
                  return expect(v, [&] { A(spp::place::all, spp::place::all) = X(spp::place::all, spp::place::all); },
                                pbt::cat("whole slice = slice ", p, "x", q));
               default: return expect(v, [&] { A.blockN(0, 0, m, n) = X; }, pbt::cat("block = ", p, "x", q));
            }
         }
         case 12: {
            if(m == 0) return;
            long w = std::max(0L, o + s.range(0, 2) - 1), i = s.range(0, e - 1);
            A1 X = make<A1>(vec<T>(s, w));
            if(s.coin()) return expect(w == o, [&] { if(rw) A.row(i) = X; else A.col(i) = X; }, pbt::cat(rw ? "row = size " : "col = size ", w));
            A2 Y(2, 2);
            if(rw) return expect(n == 2, [&] { A.row(i) = Y.row(0); }, "row = row of size 2");
            return expect(m == 2, [&] { A.col(i) = Y.col(0); }, "col = col of size 2");
         }
         case 13: {
            auto x = mk(T{1});
            switch(s.below(4)) {
               case 0: return expect(false, [&] { A = {{x, x}, {x}}; }, "A = ragged list");
               case 1: return expect(m == 2 && n == 2, [&] { A = {{x, x}, {x, x}}; }, "A = 2x2 list");
               case 2: return expect(false, [&] { A2 X{{x}, {x, x}}; }, "construct from ragged list");
               default: {
                  std::string t = s.pick({std::string("1 0\n1\n"), std::string("1 0\n1 x\n"), std::string("1 0\n1 0 1\n"), std::string("x"), std::string("1 0\n0 -"),
                                          std::string("1 0\n0 1")});
                  std::istringstream is(t);
                  return expect(t == "1 0\n0 1", [&] { is >> A; }, "read \"" + t + "\"");
               }
            }
         }
         default: { // failing operands
            long k, p = s.range(0, e), cnt = 0;
            bool own = s.coin(), one = s.coin();
            int which = static_cast<int>(s.below(4));
            int r;
            if(one) {
               long w = m == 0 ? s.range(1, 3) : o;
               std::vector<T> xv = vec<T>(s, w);
               A1 X = make<A1>(xv);
               k = s.range(0, w);
               auto E = generate(X, bomb<T>(&cnt, k, own));
               s.note("insert one ", rw ? "row" : "col", " at ", p, " failing at ", k, " on ", str(a));
               r = outcome([&] {
                  switch(which) {
                     case 0: rw ? A.insert_row_front(E) : A.insert_col_front(E); break;
                     case 1: rw ? A.insert_row_back(E) : A.insert_col_back(E); break;
                     default: rw ? A.insert_row(p, E) : A.insert_col(p, E);
                  }
               });
               REQ(same(vals1(X), xv), "operand changed");
            } else {
               long c = s.range(1, 3), w = m == 0 ? s.range(1, 3) : o;
               Mat<T> xm = rw ? mat<T>(s, c, w) : mat<T>(s, w, c);
               A2 X = make2<A2>(xm);
               k = s.range(0, c * w);
               auto E = generate(X, bomb<T>(&cnt, k, own));
               s.note("insert several ", rw ? "rows" : "cols", " (", which, ") at ", p, " failing at ", k, " on ", str(a));
               r = outcome([&] {
                  switch(which) {
                     case 0: rw ? A.insert_rows_front(E) : A.insert_cols_front(E); break;
                     case 1: rw ? A.insert_rows_back(E) : A.insert_cols_back(E); break;
                     case 2: A.resize_and_assign(E); break;
                     default: rw ? A.insert_rows(p, E) : A.insert_cols(p, E);
                  }
               });
               REQ(same(vals2(X), xm), "operand changed");
            }
            bool failed = cnt > k;
            s.nontrivial(failed);
            s.label(failed ? "2D operand failed part-way" : "2D operand succeeded");
            REQ((r != 0) == failed, "error of the operand swallowed or invented");
            if(failed) REQ(r == (own ? 2 : 1), "kind of the error");
            after(!failed);
         }
      }
   }
   static void run(pbt::Src& s) {
      Two h{s, {}, {}};
      auto [m, n] = c06::shape(s);
      if(m > 5) m = n = 5;
      h.a = mat<T>(s, m, n);
      A2 X = make2<A2>(h.a);
      h.A.swap(X);
      long k = s.range(1, 4);
      while(k--) h.step();
   }
};

} // namespace
#ifdef PART1
PROP(c07_1d_int, 2) { One<int, spp::Unaligned>::run(s); }
PROP(c07_1d_double_aligned, 1) { One<double, spp::Aligned>::run(s); }
#else
PROP(c07_2d_int, 2) { Two<int, spp::Unaligned>::run(s); }
PROP(c07_2d_double_aligned, 1) { Two<double, spp::Aligned>::run(s); }
#endif
