// C27: copies, moves, self-operations, swaps and assignment between views.
#pragma once
#include "objs.hpp"
#include <memory>
#include <optional>

namespace vs {

template <class T>
struct Con { // contents of a pool slot
   long m = 0, n = 0; // 1D: m == 1
   std::vector<T> v;
};

template <class A>
constexpr bool two = spp::TwoDimBaseType<A>;
template <class A>
constexpr bool fixed_ = A::is_fixed();

template <class A>
auto read(const A& a) {
   using T = spp::BuiltinTypeOf<A>;
   Con<T> c;
   if constexpr(two<A>) {
      auto x = vals2(a);
      c.m = x.m, c.n = x.n, c.v = x.v;
   } else {
      c.v = vals1(a);
      c.m = 1, c.n = static_cast<long>(c.v.size());
   }
   return c;
}
template <class T>
bool eq(const Con<T>& a, const Con<T>& b) {
   return a.m == b.m && a.n == b.n && same(a.v, b.v);
}
template <class T>
std::string show(const Con<T>& c) {
   return std::to_string(c.m) + "x" + std::to_string(c.n) + str(c.v);
}
template <class T>
T elem(pbt::Src& s) {
   if constexpr(is_bool<T>) return s.coin();
   else return any<T>(s);
}
template <class A>
std::unique_ptr<A> make(const Con<spp::BuiltinTypeOf<A>>& c) {
   std::unique_ptr<A> p;
   if constexpr(fixed_<A>) p = std::make_unique<A>();
   else if constexpr(two<A>) p = std::make_unique<A>(c.m, c.n);
   else p = std::make_unique<A>(c.n);
   o::fill(*p, c.v);
   return p;
}
template <class A>
Con<spp::BuiltinTypeOf<A>> gen(pbt::Src& s) {
   using T = spp::BuiltinTypeOf<A>;
   Con<T> c;
   if constexpr(fixed_<A>) {
      if constexpr(two<A>) c.m = A::rows().val(), c.n = A::cols().val();
      else c.m = 1, c.n = A::size().val();
   } else if constexpr(two<A>) {
      auto [m, n] = o::shape(s, 4);
      c.m = m, c.n = n;
   } else {
      c.m = 1, c.n = s.range(0, 6);
   }
   for(long i = 0; i < c.m * c.n; ++i) c.v.push_back(elem<T>(s));
   return c;
}

// A history over a pool of arrays of one type.
template <class A>
void pool(pbt::Src& s) {
   using T = spp::BuiltinTypeOf<A>;
   constexpr int K = 3;
   std::unique_ptr<A> p[K];
   Con<T> c[K];
   for(int k = 0; k < K; ++k) {
      c[k] = gen<A>(s);
      if(k && s.coin()) {
         c[k].m = c[0].m, c[k].n = c[0].n;
         c[k].v.resize(c[0].v.size(), T(1));
      }
      p[k] = make<A>(c[k]);
      s.note("array ", k, " = ", show(c[k]));
   }
   auto rnd = [&] { return static_cast<int>(s.below(K)); };
   auto same_shape = [&](int i, int j) { return c[i].m == c[j].m && c[i].n == c[j].n; };
   auto by_value = [](A x) { return x; };
   auto dflt = [] { return [] { Con<T> z; if constexpr(fixed_<A>) z = read(A{}); else if constexpr(!two<A>) z.m = 1; return z; }(); };
   long steps = s.range(1, 8);
   bool interesting = false;
   for(long t = 0; t < steps; ++t) {
      int i = rnd(), j = rnd();
      bool ss = same_shape(i, j);
      // a moved-from array only has to be a valid array: its contents are read back
      auto moved = [&](int k) {
         c[k] = read(*p[k]);
         REQ(static_cast<long>(c[k].v.size()) == c[k].m * c[k].n, "moved-from array has inconsistent extents");
         if constexpr(fixed_<A>) {
            c[k] = gen<A>(s);
            auto B = make<A>(c[k]);
            *p[k] = *B;
         } else {
            REQ(c[k].n == 0 || !c[k].v.empty(), "moved-from array without contents has extents ", c[k].m, "x", c[k].n);
            if(s.coin()) {
               s.note("   then give the moved-from array ", k, " a new value");
               c[k] = gen<A>(s);
               auto B = make<A>(c[k]);
               p[k]->resize_and_assign(*B);
            }
         }
      };
      switch(s.below(21)) {
         case 0:
            s.note("write an element of ", i);
            if(!c[i].v.empty()) {
               auto q = s.below(c[i].v.size());
               T x = elem<T>(s);
               p[i]->un(static_cast<long>(q)) = mk(x);
               c[i].v[q] = x;
               interesting = true;
            }
            break;
         case 1:
            s.note(i, " = copy-constructed from ", j);
            if(i != j) {
               p[i] = std::make_unique<A>(*p[j]);
               c[i] = c[j];
            }
            break;
         case 2:
            if(!ss) break;
            s.note(i, " = ", j, " (copy assignment)");
            REQ(&(*p[i] = *p[j]) == p[i].get(), "assignment does not return its left operand");
            c[i] = c[j];
            interesting = true;
            break;
         case 3:
            if(i == j) break;
            s.note(i, " = move-constructed from ", j);
            p[i] = std::make_unique<A>(std::move(*p[j]));
            c[i] = c[j];
            moved(j);
            interesting = true;
            break;
         case 4:
            if(!ss) break;
            if(i == j) {
               s.note(i, " = move(", i, ") (self)");
               *p[i] = std::move(*p[i]);
               break;
            }
            s.note(i, " = move(", j, ")");
            REQ(&(*p[i] = std::move(*p[j])) == p[i].get(), "assignment does not return its left operand");
            c[i] = c[j];
            moved(j);
            interesting = true;
            break;
         case 5:
            // a dynamic array accepts a move only from an array of its own size, which rules out
            // std::swap and std::exchange (they assign to moved-from arrays)
            if constexpr(fixed_<A>) {
               s.note("std::swap ", i, " ", j);
               std::swap(*p[i], *p[j]);
               std::swap(c[i], c[j]);
            }
            break;
         case 6:
            if constexpr(!fixed_<A>) {
               s.note("member swap ", i, " ", j);
               p[i]->swap(*p[j]);
               std::swap(c[i], c[j]);
               interesting = interesting || i != j;
            }
            break;
         case 7:
            if constexpr(!fixed_<A>) {
               s.note("member swap of ", i, " with a temporary copy of ", j);
               p[i]->swap(A(*p[j]));
               c[i] = c[j];
            }
            break;
         case 8:
            if constexpr(!fixed_<A>) {
               s.note(i, ".resize_and_assign(", j, ")");
               p[i]->resize_and_assign(*p[j]);
               c[i] = c[j];
            }
            break;
         case 9:
            if constexpr(!fixed_<A>) {
               s.note(i, ".resize_and_assign(move(", j, "))");
               p[i]->resize_and_assign(std::move(*p[j]));
               if(i != j) {
                  c[i] = c[j];
                  moved(j);
                  interesting = true;
               }
            }
            break;
         case 10: {
            s.note("pass ", i, " by value and return it");
            A x = by_value(*p[i]);
            REQ(eq(read(x), c[i]), "argument passed by value arrives as ", show(read(x)));
            if(!c[i].v.empty()) x.un(0) = mk(T(0));
            break;
         }
         case 11: {
            s.note("a std::vector of the arrays grows and shrinks");
            std::vector<A> v;
            std::vector<Con<T>> cv;
            for(int k = 0; k < K; ++k) {
               v.push_back(*p[k]);
               cv.push_back(c[k]);
            }
            v.reserve(v.capacity() * 4);
            for(std::size_t k = 0; k < v.size(); ++k)
               REQ(eq(read(v[k]), cv[k]), "element ", k, " after reallocation is ", show(read(v[k])));
            std::vector<A> w(v);
            v.clear();
            for(std::size_t k = 0; k < w.size(); ++k) REQ(eq(read(w[k]), cv[k]), "element ", k, " of the copied vector is ", show(read(w[k])));
            break;
         }
         case 12: {
            s.note("std::optional holding ", i, " moved");
            std::optional<A> q(*p[i]), r(std::move(q));
            REQ(eq(read(*r), c[i]), "moved optional holds ", show(read(*r)));
            break;
         }
         case 13: {
            if(!fixed_<A> || i == j) break;
            s.note(i, " = std::exchange(", j, ", new value)");
            Con<T> z = c[j];
            for(auto&& e : z.v) e = elem<T>(s);
            auto Z = make<A>(z);
            *p[i] = std::exchange(*p[j], std::move(*Z));
            c[i] = c[j];
            c[j] = z;
            break;
         }
         case 14:
            s.note("destroy ", i);
            p[i].reset();
            c[i] = gen<A>(s);
            p[i] = make<A>(c[i]);
            break;
         case 15: {
            s.note("fill ", i);
            T x = elem<T>(s);
            *p[i] = mk(x);
            for(auto&& e : c[i].v) e = x;
            break;
         }
         case 16:
            s.note("self-assign ", i);
            *p[i] = *p[i];
            if(fixed_<A> && s.coin()) std::swap(*p[i], *p[i]);
            interesting = interesting || c[i].v.size() > 1;
            break;
         case 17: {
            s.note(i, " = temporary copy of ", j);
            if(!ss) break;
            *p[i] = A(*p[j]);
            c[i] = c[j];
            break;
         }
         case 18:
            if constexpr(!fixed_<A>) {
               s.note(i, ".resize_and_assign(temporary copy of ", j, ")");
               p[i]->resize_and_assign(A(*p[j]));
               c[i] = c[j];
            }
            break;
         case 19: {
            s.note("chained moves through temporaries of ", i);
            A x(std::move(*p[i])), y(std::move(x)), z(y);
            REQ(eq(read(y), c[i]), "moved array is ", show(read(y)));
            REQ(eq(read(z), c[i]), "copy of the moved array is ", show(read(z)));
            *p[i] = A(*make<A>(read(*p[i]))); // moved-from array stays assignable at its own size
            if constexpr(fixed_<A>) *p[i] = std::move(y);
            else p[i]->swap(y);
            break;
         }
         default: {
            s.note("assign between ", i, " and ", j, " through a view");
            if(!ss) break;
            if constexpr(two<A>) {
               auto V = p[i]->view2D(c[i].m, c[i].n);
               V = *p[j];
            } else {
               auto V = (*p[i])(spp::place::all);
               V = *p[j];
            }
            c[i] = c[j];
         }
      }
      for(int k = 0; k < K; ++k) {
         auto r = read(*p[k]);
         REQ(eq(r, c[k]), "array ", k, " holds ", show(r), ", expected ", show(c[k]));
         REQ((p[k]->data() == nullptr) == c[k].v.empty(), "data pointer of array ", k);
         for(int l = 0; l < k; ++l) {
            auto *a = p[k]->data(), *b = p[l]->data();
            REQ(c[k].v.empty() || c[l].v.empty() || a + c[k].v.size() <= b || b + c[l].v.size() <= a, "arrays ", k, " and ", l, " share storage");
         }
      }
   }
   s.label(fixed_<A> ? "history over fixed arrays" : "history over dynamic arrays");
   s.nontrivial(interesting && steps > 1);
}

// Two views of one type, of equal extents, over different bases.
template <class T, class V>
void assign_views(pbt::Src& s, V& X, V& Y, std::vector<long> mx, std::vector<long> my, T* px, long nx, T* py, long ny) {
   auto snap = [](T* p, long n) { return std::vector<T>(p, p + n); };
   auto bx = snap(px, nx), by = snap(py, ny);
   s.note("left base ", str(bx), " at ", str(mx));
   s.note("right base ", str(by), " at ", str(my));
   auto expect = bx;
   for(std::size_t i = 0; i < mx.size(); ++i) expect[static_cast<std::size_t>(mx[i])] = by[static_cast<std::size_t>(my[i])];
   switch(s.below(5)) {
      case 0: s.note("X = Y"); X = Y; break;
      case 1: s.note("X = move(Y)"); X = std::move(Y); break;
      case 2: {
         s.note("copy of X = Y");
         V Z(X);
         Z = Y;
         break;
      }
      case 3: {
         s.note("X = copy of Y");
         X = V(Y);
         break;
      }
      default: {
         s.note("X = X, then X = const Y");
         X = X;
         REQ(same(snap(px, nx), bx), "self-assignment of a view changed its base to ", str(snap(px, nx)));
         const V& cy = Y;
         X = cy;
      }
   }
   REQ(same(snap(px, nx), expect), "base of the left view is ", str(snap(px, nx)), ", expected ", str(expect));
   REQ(same(snap(py, ny), by), "base of the right view changed to ", str(snap(py, ny)));
   // X still refers to its own base, and a copy of a view is the same view
   if(!mx.empty()) {
      auto q = s.below(mx.size());
      T v = elem<T>(s);
      V Z(X);
      auto& W = s.coin() ? Z : X;
      W.un(static_cast<long>(q)) = mk(v);
      expect = snap(px, nx);
      REQ(same(px[mx[q]], v), "element ", q, " written through the view did not reach its base");
      REQ(same(snap(py, ny), by), "writing through the left view changed the right base to ", str(snap(py, ny)));
      py[my[q]] = elem<T>(s);
      REQ(same(snap(px, nx), expect), "the two views share storage");
   }
   s.label("assignment between views");
   s.nontrivial(mx.size() > 1);
}

template <class A>
auto ptr(A& a) {
   using T = spp::BuiltinTypeOf<A>;
   return reinterpret_cast<T*>(const_cast<Strict<T>*>(a.data()));
}

template <class T>
void views1(pbt::Src& s) {
   long n = s.range(1, 5);
   auto gen = [](pbt::Src& r) { return elem<T>(r); };
   // bases: 1D of length 2n+1, 2D of shape (n+1) x (n+2)
   long L = 2 * n + 1, M = n + 1, N = n + 2;
   spp::Array1D<T> A(L), B(L);
   spp::Array2D<T> C(M, N), D(M, N);
   o::fill(A, o::seqv<T>(s, L, gen));
   o::fill(B, o::seqv<T>(s, L, gen));
   o::fill(C, o::seqv<T>(s, M * N, gen));
   o::fill(D, o::seqv<T>(s, M * N, gen));
   auto par = [&](auto f) { auto a = f(s.below(2)), b = f(s.below(2)); return std::pair(a, b); };
   switch(s.below(9)) {
      case 0: {
         s.note("seqN slices");
         auto [x, y] = par([&](auto k) { return o::Sl{k ? 2 * n : s.range(0, n), n, k ? -1 : 1}; });
         auto X = A(x.get()), Y = B(y.get());
         return assign_views<T>(s, X, Y, x.map(), y.map(), ptr(A), L, ptr(B), L);
      }
      case 1: {
         s.note("index lists");
         auto x = s.perm(L), y = s.perm(L);
         x.resize(static_cast<std::size_t>(n));
         y.resize(static_cast<std::size_t>(n));
         auto X = A(o::il(x)), Y = B(o::il(y));
         return assign_views<T>(s, X, Y, x, y, ptr(A), L, ptr(B), L);
      }
      case 2: {
         s.note("nested slices");
         auto X = A(spp::place::odd)(spp::place::reverse), Y = B(spp::place::odd)(spp::place::reverse);
         std::vector<long> m;
         for(long i = n - 1; i >= 0; --i) m.push_back(2 * i + 1);
         return assign_views<T>(s, X, Y, m, m, ptr(A), L, ptr(B), L);
      }
      case 3: {
         long i = s.range(0, M - 1), j = s.range(0, M - 1);
         s.note("rows ", i, " and ", j);
         auto X = C.row(i), Y = D.row(j);
         auto x = o::iota(N), y = x;
         for(auto& e : x) e += i * N;
         for(auto& e : y) e += j * N;
         return assign_views<T>(s, X, Y, x, y, ptr(C), M * N, ptr(D), M * N);
      }
      case 4: {
         long i = s.range(0, N - 1), j = s.range(0, N - 1);
         s.note("columns ", i, " and ", j);
         auto X = C.col(i), Y = D.col(j);
         std::vector<long> x, y;
         for(long k = 0; k < M; ++k) x.push_back(k * N + i), y.push_back(k * N + j);
         return assign_views<T>(s, X, Y, x, y, ptr(C), M * N, ptr(D), M * N);
      }
      case 5: {
         s.note("diagonals");
         auto X = C.diag(), Y = D.diag();
         std::vector<long> x;
         for(long k = 0; k < M; ++k) x.push_back(k * N + k);
         return assign_views<T>(s, X, Y, x, x, ptr(C), M * N, ptr(D), M * N);
      }
      case 6: {
         s.note("1D views");
         auto X = C.view1D(), Y = D.view1D();
         auto x = o::iota(M * N);
         return assign_views<T>(s, X, Y, x, x, ptr(C), M * N, ptr(D), M * N);
      }
      case 7: {
         s.note("rows of one array");
         long i = s.range(0, M - 1), j = (i + s.range(1, M - 1)) % M;
         auto X = C.row(i), Y = C.row(j);
         auto b = std::vector<T>(ptr(C), ptr(C) + M * N);
         X = Y;
         for(long k = 0; k < N; ++k) b[static_cast<std::size_t>(i * N + k)] = b[static_cast<std::size_t>(j * N + k)];
         REQ(same(std::vector<T>(ptr(C), ptr(C) + M * N), b), "row ", i, " = row ", j, " gives ", str(vals2(C)));
         s.nontrivial(N > 1);
         return;
      }
      default: {
         s.note("attached memory");
         T* p = ptr(A) + 1;
         T* q = ptr(B) + n;
         auto X = spp::attach1D(p, n), Y = spp::attach1D(q, n);
         return assign_views<T>(s, X, Y, o::iota(n), o::iota(n), p, n, q, n);
      }
   }
}

template <class T>
void views2(pbt::Src& s) {
   long m = s.range(1, 3), n = s.range(1, 3);
   auto gen = [](pbt::Src& r) { return elem<T>(r); };
   long M = m + 1, N = n + 2;
   spp::Array2D<T> C(M, N), D(M, N);
   o::fill(C, o::seqv<T>(s, M * N, gen));
   o::fill(D, o::seqv<T>(s, M * N, gen));
   auto rect = [&](const std::vector<long>& r, const std::vector<long>& c) {
      std::vector<long> v;
      for(long i : r)
         for(long j : c) v.push_back(i * N + j);
      return v;
   };
   auto run = [&](auto X, auto Y, std::vector<long> x, std::vector<long> y) {
      assign_views<T>(s, X, Y, x, y, ptr(C), M * N, ptr(D), M * N);
   };
   auto from = [](long a, long k) {
      auto v = o::iota(k);
      for(auto& e : v) e += a;
      return v;
   };
   switch(s.below(6)) {
      case 0: {
         long i = s.range(0, 1), j = s.range(0, 2), k = s.range(0, 1), l = s.range(0, 2);
         s.note("seqN slices");
         return run(C(spp::seqN{i, m}, spp::seqN{j, n}), D(spp::seqN{k, m}, spp::seqN{l, n}), rect(from(i, m), from(j, n)), rect(from(k, m), from(l, n)));
      }
      case 1: {
         auto a = s.perm(M), b = s.perm(M), c = s.perm(N), d = s.perm(N);
         for(auto* v : {&a, &b}) v->resize(static_cast<std::size_t>(m));
         for(auto* v : {&c, &d}) v->resize(static_cast<std::size_t>(n));
         s.note("index lists");
         return run(C(o::il(a), o::il(c)), D(o::il(b), o::il(d)), rect(a, c), rect(b, d));
      }
      case 2: {
         s.note("2D views");
         auto x = o::iota(M * N);
         return run(C.view2D(N, M), D.view2D(N, M), x, x);
      }
      case 3: {
         s.note("row lists");
         auto a = s.perm(M), b = s.perm(M);
         for(auto* v : {&a, &b}) v->resize(static_cast<std::size_t>(m));
         return run(C.rows(o::il(a)), D.rows(o::il(b)), rect(a, o::iota(N)), rect(b, o::iota(N)));
      }
      case 4: {
         s.note("column lists");
         auto a = s.perm(N), b = s.perm(N);
         for(auto* v : {&a, &b}) v->resize(static_cast<std::size_t>(n));
         return run(C.cols(o::il(a)), D.cols(o::il(b)), rect(o::iota(M), a), rect(o::iota(M), b));
      }
      default: {
         s.note("attached memory");
         T *p = ptr(C), *q = ptr(D);
         auto x = o::iota(M * N);
         return run(spp::attach2D(p, M, N), spp::attach2D(q, M, N), x, x);
      }
   }
}

// A copy of any object (slice, view, expression) into an owning array is independent of it.
template <class T>
void detach1(pbt::Src& s) {
   o::any1<T>(s, 6, [](pbt::Src& r) { return elem<T>(r); }, [&](auto&& a, auto& in) {
      spp::Array1D<T> B(a);
      spp::Array1D<T, spp::Aligned> C = a;
      auto D = a.eval();
      s.note(in.kind, " ", str(in.v));
      for(long i = 0; i < in.reg.n; ++i) in.reg.p[i] = elem<T>(s);
      REQ(same(vals1(B), in.v), "array constructed from it became ", str(vals1(B)));
      REQ(same(vals1(C), in.v), "aligned array constructed from it became ", str(vals1(C)));
      REQ(same(vals1(D), in.v), "eval() became ", str(vals1(D)));
      auto snap = in.reg.n ? in.reg.get() : std::vector<T>{};
      for(long i = 0; i < static_cast<long>(in.v.size()); ++i) B.un(i) = C.un(i) = D.un(i) = mk(elem<T>(s));
      REQ(!in.reg.n || same(in.reg.get(), snap), "writing to the copies changed the source");
      s.label("copy of a view or expression");
      s.nontrivial(in.v.size() > 1);
   });
}
template <class T>
void detach2(pbt::Src& s) {
   o::any2<T>(s, 3, [](pbt::Src& r) { return elem<T>(r); }, [&](auto&& a, auto& in) {
      spp::Array2D<T> B(a);
      spp::Array2D<T, spp::Aligned> C = a;
      auto D = a.eval();
      s.note(in.kind, " ", str(in.v));
      for(long i = 0; i < in.reg.n; ++i) in.reg.p[i] = elem<T>(s);
      REQ(same(vals2(B), in.v), "array constructed from it became ", str(vals2(B)));
      REQ(same(vals2(C), in.v), "aligned array constructed from it became ", str(vals2(C)));
      REQ(same(vals2(D), in.v), "eval() became ", str(vals2(D)));
      auto snap = in.reg.n ? in.reg.get() : std::vector<T>{};
      for(long i = 0; i < static_cast<long>(in.v.v.size()); ++i) B.un(i) = C.un(i) = D.un(i) = mk(elem<T>(s));
      REQ(!in.reg.n || same(in.reg.get(), snap), "writing to the copies changed the source");
      s.label("copy of a view or expression");
      s.nontrivial(in.v.v.size() > 1);
   });
}

} // namespace vs
