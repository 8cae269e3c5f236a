// C05: histories of operations on a dynamic 1D array against an ordinary sequence.
#pragma once
#include "sp.hpp"
using namespace g;
using spp::Strict;

namespace c05 {

template <class T>
T elem(pbt::Src& s) {
   if constexpr(is_int<T>) return static_cast<T>(s.below(1000));
   else return any<T>(s);
}
inline long len(pbt::Src& s) {
   return s.chance(1, 40) ? s.range(0, 130) : s.range(0, 9);
}
template <class T>
std::vector<T> vec(pbt::Src& s, long n) {
   std::vector<T> v;
   for(long i = 0; i < n; ++i) v.push_back(elem<T>(s));
   return v;
}
template <class A, class T>
A make(const std::vector<T>& v) {
   A r(static_cast<long>(v.size()));
   for(std::size_t i = 0; i < v.size(); ++i) r[static_cast<long>(i)] = mk(static_cast<T>(v[i]));
   return r;
}
template <class T>
std::vector<spp::ImplicitInt> ilist(const std::vector<T>& v) {
   std::vector<spp::ImplicitInt> r;
   for(auto x : v) r.push_back(spp::ImplicitInt{x});
   return r;
}
// Strictly increasing positions below n.
inline std::vector<long> subset(pbt::Src& s, long n) {
   std::vector<long> r;
   unsigned p = static_cast<unsigned>(s.below(4));
   for(long i = 0; i < n; ++i)
      if(p == 3 || s.chance(p + 1, 4)) r.push_back(i);
   return r;
}

template <class T, spp::AlignmentFlag AF>
struct Hist {
   using A1 = spp::Array1D<T, AF>;
   using A2 = spp::Array1D<T, AF == spp::Aligned ? spp::Unaligned : spp::Aligned>;
   using V = std::vector<T>;
   pbt::Src& s;
   A1 A, B; // target and operand
   V a, b;
   V pat;

   // Calls f(library object, its element sequence) with a randomly chosen kind of operand.
   template <class F>
   void operand(F&& f) {
      switch(s.below(8)) {
         case 0: s.note("  operand: array B"); return f(B, V(b));
         case 1: s.note("  operand: the array itself"); return f(A, V(a));
         case 2: {
            s.note("  operand: reversed slice of B");
            return f(B(spp::place::reverse), V(b.rbegin(), b.rend()));
         }
         case 3: {
            long n = static_cast<long>(a.size()), st = s.range(0, n), c = s.range(0, n - st);
            s.note("  operand: own slice seqN{", st, ",", c, "}");
            if(c == 0) st = 0;
            return f(A(spp::seqN{st, c}), V(a.begin() + st, a.begin() + st + c));
         }
         case 4: {
            s.note("  operand: array of the other alignment");
            V v = vec<T>(s, len(s));
            A2 C = make<A2>(v);
            f(C, V(v));
            REQ(same(vals1(C), v), "operand changed");
            return;
         }
         case 5: {
            s.note("  operand: lazy copy of B");
            return f(generate(B, [](auto x) { return x; }), V(b));
         }
         case 6: {
            s.note("  operand: merge(B, A)");
            V v(b);
            v.insert(v.end(), a.begin(), a.end());
            return f(merge(B, A), v);
         }
         default: {
            s.note("  operand: constant expression");
            long n = s.range(0, 6);
            T x = elem<T>(s);
            return f(spp::const1D<T>(n, mk(x)), V(static_cast<std::size_t>(n), x));
         }
      }
   }

   void check() {
      REQ(A.size().val() == static_cast<long>(a.size()), "size is ", A.size().val(), ", model ", a.size());
      REQ(same(vals1(A), a), "array ", str(vals1(A)), ", model ", str(a));
      REQ(same(vals1(B), b), "operand array ", str(vals1(B)), ", model ", str(b));
      REQ(A.empty().val() == a.empty());
   }

   void construct() {
      long n = len(s);
      switch(s.below(8)) {
         case 0: {
            s.note("A = Array(", n, ")");
            A1 X(n);
            A.swap(X);
            a.assign(static_cast<std::size_t>(n), T{});
            break;
         }
         case 1: {
            T x = elem<T>(s);
            s.note("A = Array(", n, ", ", str(x), ")");
            if(s.coin()) {
               A1 X(n, mk(x));
               A.swap(X);
            } else {
               A1 X(spp::Size{n}, spp::Value<T>{mk(x)});
               A.swap(X);
            }
            a.assign(static_cast<std::size_t>(n), x);
            break;
         }
         case 2: {
            a = vec<T>(s, 4);
            s.note("A = Array{list} ", str(a));
            A1 X{mk(static_cast<T>(a[0])), mk(static_cast<T>(a[1])), mk(static_cast<T>(a[2])), mk(static_cast<T>(a[3]))};
            A.swap(X);
            break;
         }
         case 3: {
            s.note("A = Array(operand)");
            operand([&](const auto& O, V o) {
               A1 X(O);
               REQ(same(vals1(X), o), "constructed ", str(vals1(X)), ", expected ", str(o));
               A.swap(X);
               a = std::move(o);
            });
            break;
         }
         case 4: {
            s.note("A = Array(iterator range of B)");
            long n = static_cast<long>(b.size()), st = s.range(0, n), c = s.range(0, n - st);
            A1 X(B.begin() + st, B.begin() + (st + c));
            A.swap(X);
            a = V(b.begin() + st, b.begin() + st + c);
            break;
         }
         case 5: {
            s.note("A = move-constructed from fresh");
            V v = vec<T>(s, n);
            A1 X = make<A1>(v), Y(std::move(X));
            X = A1(); // a moved-from array is a valid empty target
            A.swap(Y);
            a = v;
            break;
         }
         case 6: {
            s.note("A = copy of A");
            A1 X(A);
            A.swap(X);
            check();
            if(!a.empty()) {
               X[0] = mk(elem<T>(s));
               if(X.size() > spp::index_t{1L}) X.remove(spp::last);
            }
            break;
         }
         default: {
            s.note("A = Array()");
            A1 X;
            A.swap(std::move(X));
            a.clear();
         }
      }
   }

   void step() {
      long n = static_cast<long>(a.size());
      switch(s.below(20)) {
         case 0: return construct();
         case 1: { // element writes
            if(n == 0) return;
            long i = s.range(0, n - 1);
            T x = elem<T>(s);
            s.note("A[", i, "] = ", str(x));
            switch(s.below(5)) {
               case 0: A[i] = mk(x); break;
               case 1: A.at(i) = mk(x); break;
               case 2: A[spp::last - (n - 1 - i)] = mk(x); break;
               case 3: A.un(i) = mk(x); break;
               default: A.data()[i] = mk(x);
            }
            a[static_cast<std::size_t>(i)] = x;
            return;
         }
         case 2: {
            long m = s.coin() ? len(s) : std::max(0L, n + s.range(0, 4) - 2);
            s.note("resize(", m, ")");
            if(s.coin()) A.resize(m);
            else A.resize(m, true);
            a.resize(static_cast<std::size_t>(m), T{});
            return;
         }
         case 3: {
            long m = s.coin() ? len(s) : std::max(0L, n + s.range(0, 4) - 2);
            s.note("resize(", m, ", no preserve)");
            A.resize(m, false);
            REQ(A.size().val() == m, "size after resize");
            V now = vals1(A);
            for(long i = n; i < m; ++i) REQ(same(static_cast<T>(now[static_cast<std::size_t>(i)]), T{}), "grown storage is not zero at ", i);
            a = now;
            return;
         }
         case 4:
            s.note("resize_and_assign");
            return operand([&](const auto& O, V o) {
               A.resize_and_assign(O);
               a = std::move(o);
            });
         case 5: {
            s.note("resize_and_assign(moved)");
            V v = vec<T>(s, len(s));
            A1 X = make<A1>(v);
            A.resize_and_assign(std::move(X));
            a = v;
            REQ(X.size().val() == static_cast<long>(vals1(X).size()), "moved-from array is inconsistent");
            X.resize(3);
            REQ(X.size().val() == 3, "moved-from array cannot be resized");
            return;
         }
         case 6: { // insert a value
            long p = s.range(0, n);
            T x = elem<T>(s);
            s.note("insert value at ", p, " of ", n);
            switch(s.below(3)) {
               case 0: A.insert(p, mk(x)); break;
               case 1: A.insert(spp::Pos{p}, spp::Value<T>{mk(x)}); break;
               default:
                  if(s.coin()) {
                     p = 0;
                     if(s.coin()) A.insert_front(mk(x));
                     else A.insert_front(spp::Value<T>{mk(x)});
                  } else {
                     p = n;
                     if(s.coin()) A.insert_back(mk(x));
                     else A.insert_back(spp::Value<T>{mk(x)});
                  }
            }
            a.insert(a.begin() + p, x);
            return;
         }
         case 7: { // insert an own element by value
            if(n == 0) return;
            long p = s.range(0, n), q = s.range(0, n - 1);
            s.note("insert own element ", q, " at ", p);
            A.insert(p, A[q]);
            T x = a[static_cast<std::size_t>(q)];
            a.insert(a.begin() + p, x);
            return;
         }
         case 8:
         case 9: { // insert an array-like
            long p = s.range(0, n);
            s.note("insert operand at ", p, " of ", n);
            return operand([&](const auto& O, V o) {
               if(n + static_cast<long>(o.size()) > 300) return;
               switch(s.below(4)) {
                  case 0: A.insert(p, O); break;
                  case 1: A.insert(spp::Pos{p}, O); break;
                  case 2: p = 0; A.insert_front(O); break;
                  default: p = n; A.insert_back(O);
               }
               a.insert(a.begin() + p, o.begin(), o.end());
            });
         }
         case 10:
         case 11: { // remove a range
            if(n == 0) return;
            long p = s.range(0, n - 1), c = s.range(1, n - p);
            s.note("remove(", p, ", ", c, ") of ", n);
            switch(s.below(5)) {
               case 0: A.remove(p, c); break;
               case 1: A.remove(spp::Pos{p}, spp::Count{c}); break;
               case 2:
                  c = 1;
                  if(s.coin()) A.remove(p);
                  else A.remove(spp::Pos{p});
                  break;
               case 3:
                  p = 0;
                  switch(s.below(3)) {
                     case 0: A.remove_front(c); break;
                     case 1: A.remove_front(spp::Count{c}); break;
                     default: c = 1; A.remove_front();
                  }
                  break;
               default:
                  switch(s.below(3)) {
                     case 0: A.remove_back(c); break;
                     case 1: A.remove_back(spp::Count{c}); break;
                     default: c = 1; A.remove_back();
                  }
                  p = n - c;
            }
            a.erase(a.begin() + p, a.begin() + p + c);
            return;
         }
         case 12: {
            if(n == 0) return;
            long k = s.range(0, n - 1);
            s.note("remove(last - ", k, ") of ", n);
            if(k == 0) A.remove(spp::last);
            else A.remove(spp::last - k);
            a.erase(a.begin() + (n - 1 - k));
            return;
         }
         case 13: {
            auto ix = subset(s, n);
            s.note("remove index list ", str(ix), " of ", n);
            A.remove(ilist(ix));
            V r;
            for(long i = 0; i < n; ++i)
               if(!std::binary_search(ix.begin(), ix.end(), i)) r.push_back(a[static_cast<std::size_t>(i)]);
            a = r;
            return;
         }
         case 14: {
            s.note("swap");
            if(s.coin()) A.swap(B);
            else B.swap(A);
            a.swap(b);
            return;
         }
         case 15: {
            s.note("B = resize_and_assign(A), B independent");
            B.resize_and_assign(A);
            b = a;
            return;
         }
         case 16: { // same-size assignment
            if(s.coin()) {
               T x = elem<T>(s);
               s.note("A = value ", str(x));
               A = mk(x);
               std::fill(a.begin(), a.end(), x);
            } else {
               s.note("A = array of the same size");
               V v = vec<T>(s, n);
               A1 X = make<A1>(v);
               switch(s.below(5)) {
                  case 0: A = X; break;
                  case 1: A = std::move(X); break;
                  case 2: A = generate(X, [](auto y) { return y; }); break;
                  case 3: A = X(spp::place::all); break;
                  default: {
                     A2 Y = make<A2>(v);
                     A = Y;
                  }
               }
               a = v;
            }
            return;
         }
         case 17: {
            V v = vec<T>(s, 3);
            s.note("A.resize(3) = {list}");
            A.resize(3, false) = {mk(static_cast<T>(v[0])), mk(static_cast<T>(v[1])), mk(static_cast<T>(v[2]))};
            a = v;
            return;
         }
         case 18: { // chained calls return the array itself
            if(n < 2) return;
            s.note("chained remove_front().insert_back(x)");
            T x = elem<T>(s);
            auto& R = A.remove_front(1).insert_back(mk(x));
            REQ(&R == &A, "operation returns the array");
            a.erase(a.begin());
            a.push_back(x);
            return;
         }
         default: {
            V v = vec<T>(s, len(s));
            s.note("B = new contents of size ", v.size());
            A1 X = make<A1>(v);
            B.resize_and_assign(X);
            b = v;
         }
      }
   }

   static void run(pbt::Src& s) {
      Hist h{s, {}, {}, {}, {}, {}};
      long n0 = len(s);
      h.a = vec<T>(s, n0);
      h.b = vec<T>(s, len(s));
      A1 X = make<A1>(h.a), Y = make<A1>(h.b);
      h.A.swap(X);
      h.B.swap(Y);
      s.note(tname<T>(), AF == spp::Aligned ? " aligned" : " unaligned", " A=", str(h.a), " B=", str(h.b));
      long k = s.range(1, 12), changes = 0;
      for(long i = 0; i < k; ++i) {
         auto before = h.a.size();
         h.step();
         changes += h.a.size() != before;
         h.check();
      }
      s.nontrivial(changes >= 2);
      s.label(changes >= 4 ? "4+ size changes" : changes >= 2 ? "2-3 size changes" : "under 2 size changes");
   }
};

} // namespace c05
