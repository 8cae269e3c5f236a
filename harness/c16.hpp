// C16: iterators against positions in a plain sequence.
#pragma once
#include "objs.hpp"
#include <numeric>
#include <iterator>

namespace itr {
using namespace o;
template <class A>
constexpr bool writable = requires(A a, long i) { a.un(i) = a.un(i); } && std::is_lvalue_reference_v<decltype(std::declval<A&>().un(0))> && !std::is_const_v<std::remove_reference_t<decltype(std::declval<A&>().un(0))>>;

// `b`, `e`: a range of n elements.  `same_at(x, i)`: x is what position i must give.
template <class It, class Chk>
void walk(pbt::Src& s, const char* what, It b, It e, long n, Chk same_at, bool direct = true) {
   REQ(e - b == n, what, ": end - begin is ", e - b, ", expected ", n);
   REQ(b - e == -n, what, ": begin - end");
   REQ((b == e) == (n == 0) && (b != e) == (n != 0), what, ": begin == end");
   REQ(b + n == e && e - n == b && n + b == e, what, ": begin + n is not end");
   { // every element once, in order
      long k = 0;
      for(It i = b; i != e; ++i, ++k) {
         REQ(k < n, what, ": visits more than ", n, " elements");
         REQ(same_at(*i, k), what, ": element ", k);
      }
      REQ(k == n, what, ": visits ", k, " of ", n, " elements");
      for(It i = e; i != b;) {
         --i, --k;
         REQ(same_at(*i, k), what, ": element ", k, " going down");
      }
   }
   It it = b;
   long pos = 0;
   auto off = [&] { return s.range(0, n + 5) - 2; }; // target position in [-2, n + 3]
   for(int st = 0, m = static_cast<int>(s.range(1, 8)); st < m; ++st) {
      long t = off();
      switch(s.below(14)) {
         case 0: {
            It& r = ++it;
            ++pos;
            REQ(&r == &it, what, ": prefix increment returns another object");
            break;
         }
         case 1: {
            It& r = --it;
            --pos;
            REQ(&r == &it, what, ": prefix decrement returns another object");
            break;
         }
         case 2: {
            It old = it++;
            REQ(old - b == pos, what, ": postfix increment returns position ", old - b, ", expected ", pos);
            ++pos;
            break;
         }
         case 3: {
            It old = it--;
            REQ(old - b == pos, what, ": postfix decrement returns position ", old - b, ", expected ", pos);
            --pos;
            break;
         }
         case 4: {
            It& r = (it += t - pos);
            pos = t;
            REQ(&r == &it);
            break;
         }
         case 5: {
            It& r = (it -= pos - t);
            pos = t;
            REQ(&r == &it);
            break;
         }
         case 6:
            it = it + (t - pos);
            pos = t;
            break;
         case 7:
            it = (t - pos) + it;
            pos = t;
            break;
         case 8:
            it = it - (pos - t);
            pos = t;
            break;
         case 9: { // compare with another position
            It q = b + t;
            REQ((it == q) == (pos == t) && (it != q) == (pos != t) && (it < q) == (pos < t) && (it <= q) == (pos <= t) && (it > q) == (pos > t) && (it >= q) == (pos >= t),
                what, ": comparison of positions ", pos, " and ", t);
            REQ(it - q == pos - t && q - it == t - pos, what, ": difference of positions ", pos, " and ", t);
            break;
         }
         case 10: {
            It q = it;
            ++q, --q;
            REQ(q == it, what, ": increment and decrement do not cancel");
            break;
         }
         case 11: {
            It q = b;
            q = it;
            REQ(q == it && q - b == pos, what, ": assignment of iterators");
            break;
         }
         default: { // subscript
            long k = t - pos;
            if(t >= 0 && t < n) {
               REQ(same_at(it[k], t), what, ": subscript ", k, " at position ", pos);
            } else if(direct) {
               s.label("subscript outside");
               s.nontrivial();
               REQ(rejected([&] { (void)it[k]; }), what, ": subscript ", k, " at position ", pos, " of ", n, " accepted");
            }
         }
      }
      REQ(it - b == pos, what, ": position ", it - b, ", expected ", pos);
      if(pos >= 0 && pos < n) {
         REQ(same_at(*it, pos), what, ": dereference at position ", pos);
      } else {
         s.label("dereference outside");
         REQ(rejected([&] { (void)*it; }), what, ": dereference at position ", pos, " of ", n, " accepted");
      }
   }
   s.nontrivial(n > 1);
}

template <class A, class T>
void all_iterators(pbt::Src& s, A& a, const std::vector<T>& v, bool mut) {
   long n = static_cast<long>(v.size());
   auto fw = [&](const auto& x, long i) { return same(x, static_cast<T>(v[static_cast<std::size_t>(i)])); };
   auto bw = [&](const auto& x, long i) { return same(x, static_cast<T>(v[static_cast<std::size_t>(n - 1 - i)])); };
   const A& c = a;
   switch(s.below(mut ? 7 : 4)) {
      case 0: return walk(s, "cbegin/cend", a.cbegin(), a.cend(), n, fw);
      case 1: return walk(s, "const begin/end", c.begin(), c.end(), n, fw);
      case 2: return walk(s, "crbegin/crend", a.crbegin(), a.crend(), n, bw);
      case 3: return walk(s, "const rbegin/rend", c.rbegin(), c.rend(), n, bw);
      case 4: return walk(s, "begin/end", a.begin(), a.end(), n, fw);
      case 5: return walk(s, "rbegin/rend", a.rbegin(), a.rend(), n, bw);
      default: { // range for
         long k = 0;
         for(auto&& y : a) {
            REQ(k < n && fw(y, k), "range for: element ", k);
            ++k;
         }
         REQ(k == n, "range for visits ", k, " of ", n);
      }
   }
}

template <class T, bool Two>
void laws(pbt::Src& s, bool lv) {
   auto gen = [](pbt::Src& q) { return small<T>(q); };
   auto h = [&](auto&& A, auto& in) {
      s.note(in.kind, " ", str(in.v));
      s.label(in.kind);
      auto a = [&](auto& X) {
         if constexpr(Two) all_iterators(s, X, in.v.v, false);
         else all_iterators(s, X, in.v, false);
      };
      a(A);
   };
   if constexpr(Two) any2<T>(s, 3, gen, h, lv);
   else any1<T>(s, 5, gen, h, lv);
}

// Mutable iterators: laws, writes and standard algorithms.
template <class It>
using vt = typename std::iterator_traits<It>::value_type;

template <class A, class T>
void algorithms(pbt::Src& s, A& a, std::vector<T>& v, bool rev) {
   auto lt = [](auto x, auto y) { return x < y; };
   T x0 = v.empty() || s.coin() ? small<T>(s) : s.pick(v);
   T y0 = small<T>(s);
   long n = static_cast<long>(v.size());
   auto run = [&](auto b, auto e, auto vb, auto ve) {
      auto pos = [&](auto i) { return static_cast<long>(i - b); };
      auto vpos = [&](auto i) { return static_cast<long>(i - vb); };
      int k = static_cast<int>(s.below(22));
      s.note("algorithm ", k, rev ? " on reverse iterators" : "", " with ", str(x0), " ", str(y0));
      long c = n ? s.range(0, n) : 0, d = n ? s.range(0, n) : 0;
      if(c > d) std::swap(c, d);
      switch(k) {
         case 0: std::sort(b, e, [](const auto& p, const auto& q) { return bool(p < q); }), std::sort(vb, ve); break;
         case 1: std::reverse(b, e), std::reverse(vb, ve); break;
         case 2: {
            auto r = std::rotate(b, b + c, e);
            auto q = std::rotate(vb, vb + c, ve);
            REQ(pos(r) == vpos(q), "rotate returns ", pos(r), ", expected ", vpos(q));
            break;
         }
         case 3: std::fill(b + c, b + d, mk(x0)), std::fill(vb + c, vb + d, x0); break;
         case 4: std::replace(b, e, mk(x0), mk(y0)), std::replace(vb, ve, x0, y0); break;
         case 5: REQ(pos(std::find(b, e, mk(x0))) == vpos(std::find(vb, ve, x0)), "find ", str(x0)); break;
         case 6: REQ(std::count(b, e, mk(x0)) == std::count(vb, ve, x0), "count ", str(x0)); break;
         case 7: REQ(same(std::accumulate(b, e, mk(T(0))), std::accumulate(vb, ve, T(0))), "accumulate"); break;
         case 8: {
            auto r = std::remove(b, e, mk(x0));
            auto q = std::remove(vb, ve, x0);
            REQ(pos(r) == vpos(q), "remove returns ", pos(r));
            for(auto i = q; i != ve; ++i) *i = T(0);
            for(auto i = r; i != e; ++i) *i = mk(T(0));
            break;
         }
         case 9: {
            auto r = std::unique(b, e);
            auto q = std::unique(vb, ve);
            REQ(pos(r) == vpos(q), "unique returns ", pos(r));
            for(auto i = q; i != ve; ++i) *i = T(0);
            for(auto i = r; i != e; ++i) *i = mk(T(0));
            break;
         }
         case 10: std::transform(b, e, b, [](auto z) { return z + z; }), std::transform(vb, ve, vb, [](T z) { return static_cast<T>(z + z); }); break;
         case 11: std::copy_backward(b, b + (n - c), e), std::copy_backward(vb, vb + (n - c), ve); break;
         case 12: std::copy(b + c, e, b), std::copy(vb + c, ve, vb); break;
         case 13: std::partial_sum(b, e, b), std::partial_sum(vb, ve, vb); break;
         case 14: std::stable_sort(b, e, [](const auto& p, const auto& q) { return bool(p > q); }), std::stable_sort(vb, ve, std::greater<T>()); break;
         case 15:
            if(n) {
               REQ(pos(std::max_element(b, e, [](const auto& p, const auto& q) { return bool(p < q); })) == vpos(std::max_element(vb, ve)), "max_element");
               REQ(pos(std::min_element(b, e, [](const auto& p, const auto& q) { return bool(p < q); })) == vpos(std::min_element(vb, ve)), "min_element");
            }
            break;
         case 16: std::iota(b, e, mk(x0)), std::iota(vb, ve, x0); break;
         case 17:
            if(n > 1) std::iter_swap(b + (c % n), b + (d % n)), std::iter_swap(vb + (c % n), vb + (d % n));
            break;
         case 18: {
            std::vector<T> o1;
            for(auto z : std::vector<Strict<T>>(b, e)) o1.push_back(z.val());
            REQ(same(o1, std::vector<T>(vb, ve)), "vector made from iterators");
            break;
         }
         case 19: std::ranges::sort(b, e, [](const auto& p, const auto& q) { return bool(p < q); }), std::sort(vb, ve); break;
         case 20: {
            std::sort(b, e, [](const auto& p, const auto& q) { return bool(p < q); }), std::sort(vb, ve);
            auto r = std::lower_bound(b, e, mk(x0), [](const auto& p, const auto& q) { return bool(p < q); });
            REQ(pos(r) == vpos(std::lower_bound(vb, ve, x0)), "lower_bound of ", str(x0));
            break;
         }
         default: REQ(std::distance(b, e) == n && pos(std::next(b, c)) == c && pos(std::prev(e, c)) == n - c, "distance, next, prev");
      }
   };
   if(rev) run(a.rbegin(), a.rend(), v.rbegin(), v.rend());
   else run(a.begin(), a.end(), v.begin(), v.end());
}

template <class A, class T>
void write_through(pbt::Src& s, A& a, std::vector<T>& v) {
   long n = static_cast<long>(v.size());
   if(!n) return;
   long i = s.range(0, n - 1), j = s.range(0, n - 1);
   T x = small<T>(s), y = small<T>(s), z = small<T>(s);
   auto b = a.begin();
   *(b + i) = mk(x), v[static_cast<std::size_t>(i)] = x;
   b[j] = mk(y), v[static_cast<std::size_t>(j)] = y;
   a.rbegin()[i] = mk(z), v[static_cast<std::size_t>(n - 1 - i)] = z;
   REQ(same((b + i)->val(), static_cast<T>(v[static_cast<std::size_t>(i)])), "operator-> at ", i);
   REQ(same((a.cbegin() + j)->val(), static_cast<T>(v[static_cast<std::size_t>(j)])), "const operator-> at ", j);
   REQ(&*(b + i) == &a.un(i) && &b[j] == &a.un(j), "iterator does not designate the element itself");
   REQ(rejected([&] { (void)(b + n)->val(); }) && rejected([&] { (void)(b - 1)->val(); }) && rejected([&] { (void)(a.cbegin() + n)->val(); }), "operator-> outside accepted");
}

template <class T, bool Two>
void mutating(pbt::Src& s) {
   auto gen = [](pbt::Src& q) { return small<T>(q); };
   auto h = [&](auto&& A, auto& in) {
      s.note(in.kind, " ", str(in.v));
      s.label(in.kind);
      std::vector<T> v;
      if constexpr(Two) v = in.v.v;
      else v = in.v;
      // only slices in which no element appears twice: algorithms write element by element
      auto m = in.map;
      std::sort(m.begin(), m.end());
      bool dup = std::adjacent_find(m.begin(), m.end()) != m.end();
      auto mem = in.reg.get();
      int mode = static_cast<int>(s.below(3));
      auto go = [&](auto& a) {
         if(dup || mode == 0) return all_iterators(s, a, v, true);
         if(mode == 1) write_through(s, a, v);
         else algorithms(s, a, v, s.coin());
         for(std::size_t i = 0; i < in.map.size(); ++i) mem[static_cast<std::size_t>(in.map[i])] = v[i];
         REQ(same(in.reg.get(), mem), "memory is ", str(in.reg.get()), ", expected ", str(mem));
         s.nontrivial(v.size() > 1);
      };
      if constexpr(writable<std::remove_reference_t<decltype(A)>>) go(A);
   };
   if constexpr(Two) any2<T>(s, 3, gen, h, true);
   else any1<T>(s, 6, gen, h, true);
}

template <class T>
void construct(pbt::Src& s) { // arrays from iterators, null iterators, iterators of different arrays
   long n = s.range(0, 5), k = s.range(0, 5);
   auto gen = [](pbt::Src& q) { return small<T>(q); };
   auto v = seqv<T>(s, n, gen);
   spp::Array1D<T> A(n), B(n);
   fill(A, v);
   long c = s.range(0, n), d = s.range(c, n);
   s.note("array of ", n, " from [", c, ", ", d, ")");
   s.nontrivial(d - c > 1);
   std::vector<T> w(v.begin() + c, v.begin() + d), wr(w.rbegin(), w.rend());
   spp::Array1D<T> C(A.begin() + c, A.begin() + d);
   REQ(same(vals1(C), w), "array made from iterators");
   spp::Array1D<T> D(A.crbegin() + (n - d), A.crbegin() + (n - c));
   REQ(same(vals1(D), wr), "array made from reverse iterators");
   if(n >= 3) {
      spp::FixedArray1D<T, 3> X(A.rbegin(), A.rbegin() + 3), Y(A.begin(), A.begin() + 3);
      for(long i = 0; i < 3; ++i) REQ(same(X[i].val(), static_cast<T>(v[static_cast<std::size_t>(n - 1 - i)])) && same(Y[i].val(), static_cast<T>(v[static_cast<std::size_t>(i)])), "fixed array made from iterators");
      REQ(rejected([&] { spp::FixedArray1D<T, 3> Z(A.begin(), A.begin() + 2); }), "fixed array of three made from two elements");
   }
   if(d > c) REQ(rejected([&] { spp::Array1D<T> Z(A.begin() + d, A.begin() + c); }), "array made from a backwards range");
   auto E = A(spp::place::reverse);
   spp::Array1D<T> F(E.begin() + (n - d), E.begin() + (n - c));
   REQ(same(vals1(F), wr), "array made from iterators of a slice");
   spp::Array2D<T> G(n ? 2 : 0, n);
   for(long i = 0; i < n; ++i) G.un(0, i) = mk(T(1)), G.un(1, i) = mk(v[static_cast<std::size_t>(i)]);
   if(n) {
      spp::Array1D<T> H(G.begin() + (n + c), G.begin() + (n + d));
      REQ(same(vals1(H), w), "array made from iterators of a 2D array");
   }
   auto i = A.begin(), j = B.begin();
   auto ci = A.cbegin(), cj = B.cbegin();
   REQ(rejected([&] { (void)(i == j); }) && rejected([&] { (void)(i != j); }) && rejected([&] { (void)(i < j); }) && rejected([&] { (void)(i > j); })
          && rejected([&] { (void)(i <= j); }) && rejected([&] { (void)(i >= j); }) && rejected([&] { (void)(i - j); }),
       "iterators of different arrays compared");
   REQ(rejected([&] { (void)(ci == cj); }) && rejected([&] { (void)(ci != cj); }) && rejected([&] { (void)(ci < cj); }) && rejected([&] { (void)(ci > cj); })
          && rejected([&] { (void)(ci <= cj); }) && rejected([&] { (void)(ci >= cj); }) && rejected([&] { (void)(ci - cj); }),
       "const iterators of different arrays compared");
   auto null = [&](auto z) {
      REQ(!z.points_somewhere().val());
      REQ(rejected([&] { ++z; }) && rejected([&] { --z; }) && rejected([&] { (void)z++; }) && rejected([&] { (void)z--; }) && rejected([&] { z += k; }) && rejected([&] { z -= k; })
             && rejected([&] { (void)(z + k); }) && rejected([&] { (void)(k + z); }) && rejected([&] { (void)(z - k); }) && rejected([&] { (void)*z; }) && rejected([&] { (void)z[k]; })
             && rejected([&] { (void)(z - z); }) && rejected([&] { (void)(z == z); }) && rejected([&] { (void)(z < z); }),
          "operation on a null iterator accepted");
   };
   null(decltype(i)());
   null(decltype(ci)());
   REQ(i.points_somewhere().val() && ci.points_somewhere().val());
}

template <class T>
void lines(pbt::Src& s) { // rows and columns of 2D objects
   auto gen = [](pbt::Src& q) { return small<T>(q); };
   any2<T>(s, 3, gen, [&](auto&& A, auto& in) {
      s.note(in.kind, " ", str(in.v));
      s.label(in.kind);
      auto& v = in.v;
      auto row = [&](const auto& r, long i) {
         std::vector<T> w;
         for(long j = 0; j < v.n; ++j) w.push_back(v.get(i, j));
         return same(vals1(r), w);
      };
      auto col = [&](const auto& c, long j) {
         std::vector<T> w;
         for(long i = 0; i < v.m; ++i) w.push_back(v.get(i, j));
         return same(vals1(c), w);
      };
      auto rrow = [&](const auto& r, long i) { return row(r, v.m - 1 - i); };
      auto rcol = [&](const auto& c, long j) { return col(c, v.n - 1 - j); };
      auto go = [&](auto& a) {
         spp::RowIt R(a);
         spp::ColIt C(a);
         const auto& cR = R;
         const auto& cC = C;
         switch(s.below(12)) {
            case 0: return walk(s, "rows", R.begin(), R.end(), v.m, row);
            case 1: return walk(s, "columns", C.begin(), C.end(), v.n, col);
            case 2: return walk(s, "const rows", R.cbegin(), R.cend(), v.m, row);
            case 3: return walk(s, "const columns", C.cbegin(), C.cend(), v.n, col);
            case 4: return walk(s, "rows backwards", R.rbegin(), R.rend(), v.m, rrow);
            case 5: return walk(s, "columns backwards", C.rbegin(), C.rend(), v.n, rcol);
            case 6: return walk(s, "const rows backwards", R.crbegin(), R.crend(), v.m, rrow);
            case 7: return walk(s, "const columns backwards", C.crbegin(), C.crend(), v.n, rcol);
            case 8: return walk(s, "rows of const RowIt", cR.begin(), cR.end(), v.m, row);
            case 9: return walk(s, "columns of const ColIt", cC.rbegin(), cC.rend(), v.n, rcol);
            case 10: {
               long k = 0;
               for(auto r : spp::RowIt(a)) {
                  REQ(k < v.m && row(r, k), "row ", k);
                  ++k;
               }
               REQ(k == v.m);
               return;
            }
            default: {
               long k = 0;
               for(auto r : spp::ColIt(a)) {
                  REQ(k < v.n && col(r, k), "column ", k);
                  ++k;
               }
               REQ(k == v.n);
            }
         }
      };
      go(A);
      s.nontrivial(v.v.size() > 1);
   });
}
template <class T>
void line_writes(pbt::Src& s) {
   auto gen = [](pbt::Src& q) { return small<T>(q); };
   any2<T>(s, 3, gen, [&](auto&& A, auto& in) {
      s.note(in.kind, " ", str(in.v));
      auto m = in.map;
      std::sort(m.begin(), m.end());
      if(std::adjacent_find(m.begin(), m.end()) != m.end()) return;
      auto mem = in.reg.get();
      auto go = [&](auto& a) {
         bool rows = s.coin();
         long k = 0, n = rows ? in.v.m : in.v.n, w = rows ? in.v.n : in.v.m;
         auto set = [&](long line, long i, T x) { mem[static_cast<std::size_t>(in.map[static_cast<std::size_t>(rows ? line * in.v.n + i : i * in.v.n + line)])] = x; };
         auto f = [&](auto r) {
            T x = small<T>(s);
            r = mk(x);
            for(long i = 0; i < w; ++i) set(k, i, x);
            if(w) {
               long i = s.range(0, w - 1);
               r[i] = mk(T(3));
               set(k, i, T(3));
            }
            ++k;
         };
         if(rows)
            for(auto r : spp::RowIt(a)) f(r);
         else
            for(auto r : spp::ColIt(a)) f(r);
         REQ(k == n, "visited ", k, " lines of ", n);
         s.nontrivial(n > 1);
         REQ(same(in.reg.get(), mem), "memory is ", str(in.reg.get()), ", expected ", str(mem));
      };
      if constexpr(writable<std::remove_reference_t<decltype(A)>>) go(A);
   }, true);
}

inline void planes(pbt::Src& s) {
   long m = s.range(0, 6) - 1, n = s.range(0, 6) - 1;
   s.note("index range ", m, " x ", n);
   bool ok = m >= 0 && n >= 0 && (m == 0) == (n == 0);
   if(!ok) {
      s.nontrivial();
      REQ(rejected([&] { (void)spp::IndexRange2D(m, n); }), "index range ", m, " x ", n, " accepted");
      return;
   }
   s.nontrivial(m * n > 1);
   auto run = [&](const spp::IndexRange2D& R) {
      long k = 0;
      for(auto [i, j] : R) {
         REQ(k < m * n && i.val() == k / n && j.val() == k % n, "pair ", k, " is ", i.val(), ",", j.val());
         ++k;
      }
      REQ(k == m * n, "visited ", k, " pairs of ", m * n);
      auto e = R.end();
      REQ(rejected([&] { (void)*e; }) && rejected([&] { ++e; }), "moved or dereferenced beyond the end");
      auto b = R.begin();
      REQ((b == e).val() == (m == 0) && (b != e).val() == (m != 0));
      spp::IndexRange2D Q(m + 1, n + 1);
      REQ(rejected([&] { (void)(Q.begin() == b); }) && rejected([&] { (void)(Q.begin() != b); }) && rejected([&] { b = Q.begin(); }), "iterators of different extents compared or assigned");
      if(m) {
         auto c = b++;
         REQ((*c).first.val() == 0 && (*c).second.val() == 0, "postfix increment returns ", (*c).first.val());
         REQ((b == e).val() == (m * n == 1));
         b = c;
         REQ((b == R.begin()).val());
      }
   };
   if(s.coin()) run(spp::IndexRange2D(m, n));
   else {
      spp::Array2D<int> A(m, n);
      run(spp::IndexRange2D(A));
      if(m) run(spp::IndexRange2D(A(spp::place::all, spp::place::reverse)));
   }
   spp::IndexRange2D Z;
   for(auto p : Z) {
      (void)p;
      pbt::fail("default index range is not empty");
   }
}
} // namespace itr
