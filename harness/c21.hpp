// C21: fixed-size arrays against dynamic arrays of the same shape; storage layout and alignment.
#pragma once
#include "objs.hpp"
#include <cstdint>
#include <memory>
#include <sstream>
#include <new>

namespace fx {

template <class T>
struct Out {
   bool rej = false;
   std::vector<T> v;
   std::vector<long> k;
   std::string text;
};
template <class T>
bool eq(const Out<T>& a, const Out<T>& b) {
   return a.rej == b.rej && same(a.v, b.v) && a.k == b.k && a.text == b.text;
}
template <class T>
std::string show(const Out<T>& a) {
   return std::string(a.rej ? "(rejected) " : "") + str(a.v) + " " + str(a.k) + " " + a.text;
}

template <class A>
long al(const A& a) {
   return static_cast<long>(reinterpret_cast<std::uintptr_t>(a.data()));
}
// Aligned arrays promise (at least) a 512-bit boundary, unaligned ones promise nothing.
template <class A, spp::AlignmentFlag AF>
void promise() {
   REQ(A::alignment() % 64 == 0 && (A::alignment() > 0) == (AF == spp::Aligned), "alignment() of an ", AF == spp::Aligned ? "aligned" : "unaligned", " array is ", A::alignment());
}

// Elements contiguous in row-major order from data(), on the promised boundary.
template <class A>
void layout(const A& a, const char* what) {
   if constexpr(spp::TwoDimBaseType<A>) {
      long m = a.rows().val(), n = a.cols().val();
      REQ(a.size().val() == m * n, what, ": size ", a.size().val(), " of ", m, "x", n);
      for(long i = 0; i < m; ++i)
         for(long j = 0; j < n; ++j) {
            REQ(&a(i, j) == a.data() + (i * n + j), what, ": element (", i, ",", j, ") is not at offset ", i * n + j);
            REQ(&a.un(i * n + j) == a.data() + (i * n + j), what, ": element ", i * n + j, " is not at its offset");
         }
   } else {
      for(long i = 0; i < a.size().val(); ++i) REQ(&a[i] == a.data() + i, what, ": element ", i, " is not at offset ", i);
   }
   REQ((a.size().val() == 0) == (a.data() == nullptr), what, ": data() of ", a.size().val(), " elements is ", a.data() ? "not null" : "null");
   using A0 = std::remove_cvref_t<A>;
   if(A0::alignment() > 0) REQ(al(a) % A0::alignment() == 0, what, ": data() ", al(a) % 4096, " (mod 4096) is not a multiple of ", A0::alignment());
   using T = spp::BuiltinTypeOf<A0>;
   REQ(a.bytes().val() == a.size().val() * static_cast<long>(sizeof(T)), what, ": bytes() ", a.bytes().val());
   REQ(same(a.kbytes().val(), static_cast<double>(a.bytes().val()) / 1024.0), what, ": kbytes() ", a.kbytes().val());
   REQ(same(a.mbytes().val(), static_cast<double>(a.bytes().val()) / 1048576.0), what, ": mbytes() ", a.mbytes().val());
   REQ(same(a.gbytes().val(), static_cast<double>(a.bytes().val()) / 1073741824.0), what, ": gbytes() ", a.gbytes().val());
}

template <class T>
T val(pbt::Src& s) {
   return any<T>(s);
}
template <class T>
std::vector<T> vec(pbt::Src& s, long n) {
   std::vector<T> v;
   for(long i = 0; i < n; ++i) v.push_back(val<T>(s));
   return v;
}
inline std::initializer_list<long> none() {
   return {};
}

// Array made of the list form for up to six elements.
template <class T, class F>
void with_list(const std::vector<T>& v, F&& f) {
   auto e = [&](std::size_t i) { return mk(static_cast<T>(v[i])); };
   switch(v.size()) {
      case 0: return f(std::initializer_list<Strict<T>>{});
      case 1: return f({e(0)});
      case 2: return f({e(0), e(1)});
      case 3: return f({e(0), e(1), e(2)});
      case 4: return f({e(0), e(1), e(2), e(3)});
      case 5: return f({e(0), e(1), e(2), e(3), e(4)});
      default: return f({e(0), e(1), e(2), e(3), e(4), e(5)});
   }
}

template <class A>
[[gnu::noinline]] A& alias(A& a) { // not recognised as the same object by the compiler
   return a;
}
// One operation applied to the fixed and to the dynamic array; `run` returns what is observable.
template <class F, class D, class Op>
void both(pbt::Src& s, F& f, D& d, const char* what, Op&& op) {
   using T = spp::BuiltinTypeOf<F>;
   s.note(what);
   auto one = [&](auto& a) {
      Out<T> r;
      try {
         op(a, r);
      } catch(const spp::StrictException&) {
         r = {};
         r.rej = true;
      }
      return r;
   };
   auto x = one(f), y = one(d);
   REQ(eq(x, y), what, ": fixed gives ", show(x), ", dynamic gives ", show(y));
   if constexpr(spp::TwoDimBaseType<F>) REQ(same(vals2(f), vals2(d)), what, ": afterwards fixed is ", str(vals2(f)), ", dynamic is ", str(vals2(d)));
   else REQ(same(vals1(f), vals1(d)), what, ": afterwards fixed is ", str(vals1(f)), ", dynamic is ", str(vals1(d)));
   layout(f, "fixed array");
   layout(d, "dynamic array");
   s.label(x.rej ? "rejected by both" : "accepted by both");
   if(x.rej || f.size().val() > 1) s.nontrivial();
}
template <class T, class A>
void put(Out<T>& r, const A& a) {
   if constexpr(spp::TwoDimBaseType<A>) {
      auto m = vals2(a);
      r.v.insert(r.v.end(), m.v.begin(), m.v.end());
      r.k.push_back(m.m);
      r.k.push_back(m.n);
   } else {
      auto v = vals1(a);
      r.v.insert(r.v.end(), v.begin(), v.end());
      r.k.push_back(static_cast<long>(v.size()));
   }
}

template <class T, long N, spp::AlignmentFlag AF>
void fixed1(pbt::Src& s) {
   using F = spp::FixedArray1D<T, N, AF>;
   using D = spp::Array1D<T, AF>;
   // fresh storage full of ones: default construction gives zeros
   promise<F, AF>();
   promise<D, AF>();
   alignas(64) unsigned char raw[sizeof(F)];
   std::memset(raw, 0xff, sizeof raw);
   F& z = *new(raw) F;
   for(long i = 0; i < N; ++i) REQ(same(z[i], mk(T{})), "default-constructed element ", i, " is ", str(z[i]));
   REQ(F::size().val() == N && z.empty().val() == (N == 0), "size of the fixed array");
   REQ(F::is_fixed().val() && !F::is_dynamic().val() && !D::is_fixed().val() && D::is_dynamic().val(), "is_fixed / is_dynamic");
   D zd(N);
   for(long i = 0; i < N; ++i) REQ(same(zd[i], mk(T{})), "default element ", i, " of a dynamic array is ", str(zd[i]));

   auto v = vec<T>(s, N);
   s.note("contents ", str(v));
   F f;
   D d(N);
   o::fill(f, v);
   o::fill(d, v);
   long steps = s.range(1, 3);
   for(long t = 0; t < steps; ++t) {
      switch(s.below(23)) {
         case 22: {
            int k = static_cast<int>(s.below(4));
            static const char* nm[] = {"move onto itself", "assign to itself", "swap with itself", "assign a view of itself"};
            both(s, f, d, nm[k], [&](auto& a, auto&) {
               auto& b = alias(a);
               switch(k) {
                  case 0: a = std::move(b); break;
                  case 1: a = b; break;
                  case 2: { using std::swap; if constexpr(requires { a.swap(b); }) a.swap(b); else swap(a, b); break; }
                  default: a = std::as_const(b)(spp::place::all);
               }
            });
            break;
         }
         case 0: {
            long i = s.range(0, N + 2) - 1;
            T x = val<T>(s);
            both(s, f, d, "A[i] = x", [&](auto& a, auto& r) { r.v.push_back(a[i].val()); a[i] = mk(x); });
            break;
         }
         case 1: {
            long i = s.range(0, N + 2) - 1;
            both(s, f, d, "at(i), at(last - i)", [&](auto& a, auto& r) {
               r.v.push_back(a.at(spp::place::last - spp::ImplicitInt{i}).val());
               r.v.push_back(std::as_const(a).at(i).val());
            });
            break;
         }
         case 2: {
            T x = val<T>(s);
            both(s, f, d, "A = x", [&](auto& a, auto&) { a = mk(x); });
            break;
         }
         case 3: {
            auto w = vec<T>(s, s.coin() ? std::min(N, 6L) : s.range(0, 5));
            both(s, f, d, "A = {list}", [&](auto& a, auto&) { with_list<T>(w, [&](std::initializer_list<Strict<T>> l) { a = l; }); });
            break;
         }
         case 4: {
            auto w = vec<T>(s, s.coin() ? N : s.range(0, N + 2));
            D b(static_cast<long>(w.size()));
            o::fill(b, w);
            int k = static_cast<int>(s.below(4));
            static const char* nm[] = {"A = array", "A = slice", "A = expression", "A = const slice"};
            both(s, f, d, nm[k], [&](auto& a, auto&) {
               switch(k) {
                  case 0: a = std::as_const(b); break;
                  case 1: a = b(spp::place::reverse); break;
                  case 2: a = generate(b, [](auto x) { return x; }); break;
                  default: a = std::as_const(b)(spp::place::all);
               }
            });
            break;
         }
         case 5: {
            auto w = vec<T>(s, s.coin() ? N : s.range(0, N + 2));
            s.note("construct a fixed array from ", str(w));
            D b(static_cast<long>(w.size()));
            o::fill(b, w);
            bool ok = static_cast<long>(w.size()) == N;
            int k = static_cast<int>(s.below(5));
            std::vector<T> got;
            bool rej = rejected([&] {
               switch(k) {
                  case 0: { F x(b); got = vals1(x); layout(x, "fixed array"); break; }
                  case 1: { F x = b(spp::place::all); got = vals1(x); break; }
                  case 2: { F x(b.begin(), b.end()); got = vals1(x); break; }
                  case 3: { F x = generate(b, [](auto e) { return e; }); got = vals1(x); break; }
                  default: {
                     if(w.size() > 6) { F x(b); got = vals1(x); break; }
                     with_list<T>(w, [&](std::initializer_list<Strict<T>> l) { F x = spp::use::List1D<Strict<T>>(l); got = vals1(x); });
                  }
               }
            });
            REQ(rej == !ok, "constructing from ", w.size(), " elements was ", rej ? "rejected" : "accepted");
            if(ok) REQ(same(got, w), "constructed fixed array is ", str(got));
            s.nontrivial();
            break;
         }
         case 6: {
            s.note("to dynamic arrays");
            auto w = vals1(f);
            D x(f);
            spp::Array1D<T, spp::Unaligned> y = f;
            spp::Array1D<T, spp::Aligned> w2 = f, e;
            auto ev = f.eval();
            e.resize_and_assign(f);
            D it(f.begin(), f.end());
            REQ(same(vals1(x), w) && same(vals1(y), w) && same(vals1(w2), w) && same(vals1(ev), w) && same(vals1(e), w) && same(vals1(it), w), "conversion to a dynamic array changes elements");
            bool nan = false;
            for(auto q : w) nan = nan || !(q == q);
            REQ(nan || (x == f && f == x && !(f != y)), "fixed and dynamic array of equal elements compare unequal");
            for(auto* q : {&w2, &e}) layout(*q, "aligned array");
            layout(x, "dynamic array");
            s.nontrivial(N > 1);
            break;
         }
         case 7: {
            auto sl = o::slice(s, N + static_cast<long>(s.below(2)));
            both(s, f, d, "slice", [&](auto& a, auto& r) { put(r, a(sl.get())); put(r, std::as_const(a)(sl.get())); });
            break;
         }
         case 8: {
            std::vector<long> ix;
            for(long i = s.range(0, 4); i > 0; --i) ix.push_back(s.range(0, N + 1) - (s.below(8) == 7));
            T x = val<T>(s);
            both(s, f, d, "index list", [&](auto& a, auto& r) { auto q = a(o::il(ix)); put(r, q); q = mk(x); });
            break;
         }
         case 9: {
            long m = s.range(0, 4), n = m ? (s.coin() && N % m == 0 ? N / m : s.range(0, 4)) : s.range(0, 1);
            both(s, f, d, "view2D", [&](auto& a, auto& r) { put(r, a.view2D(m, n)); });
            break;
         }
         case 10:
            if constexpr(!is_bool<T>) {
               both(s, f, d, "reductions", [&](auto& a, auto& r) {
                  r.v.push_back(min(a).val());
                  r.v.push_back(max(a).val());
                  r.k.push_back(min_index(a).first.val());
                  r.k.push_back(max_index(a).first.val());
                  if constexpr(is_fp<T>) {
                     r.v.push_back(sum(a).val());
                     r.v.push_back(prod(a).val());
                     r.v.push_back(dot_prod(a, a).val());
                     r.v.push_back(norm_inf(a).val());
                  }
               });
            }
            break;
         case 11:
            both(s, f, d, "sort, shuffled order", [&](auto& a, auto&) { if constexpr(!is_bool<T>) sort_increasing(a(spp::place::all)); });
            if constexpr(is_fp<T>) { // NaNs and signed zeros may be ordered differently
               o::fill(f, v);
               o::fill(d, v);
            }
            break;
         case 12:
            both(s, f, d, "text output", [&](auto& a, auto& r) {
               std::ostringstream os;
               os << a;
               r.text = os.str();
            });
            break;
         case 14: {
            auto w = vec<T>(s, N);
            F g;
            o::fill(g, w);
            both(s, f, d, "A = fixed array", [&](auto& a, auto& r) { a = g; put(r, g); r.k.push_back((a == g).val() || !same(w, w)); });
            break;
         }
         case 15: {
            s.note("copy and move the fixed array");
            auto w = vals1(f);
            F g(f);
            F h = std::move(g);
            REQ(same(vals1(h), w), "moved fixed array is ", str(vals1(h)));
            g = f;
            f = std::move(g);
            REQ(same(vals1(f), w), "move-assigned fixed array is ", str(vals1(f)));
            layout(h, "moved fixed array");
            break;
         }
         case 16:
            if constexpr(!is_bool<T>) {
               auto w = std::vector<T>();
               for(long i = 0, n = s.coin() ? N : s.range(0, N + 1); i < n; ++i) w.push_back(small<T>(s));
               D b(static_cast<long>(w.size()));
               o::fill(b, w);
               int k = static_cast<int>(s.below(4));
               o::fill(f, std::vector<T>(static_cast<std::size_t>(N), T(2)));
               o::fill(d, std::vector<T>(static_cast<std::size_t>(N), T(2)));
               both(s, f, d, "compound assignment", [&](auto& a, auto&) {
                  switch(k) {
                     case 0: a += b; break;
                     case 1: a -= b; break;
                     case 2: a *= b; break;
                     default: a += mk(T(1));
                  }
               });
            }
            break;
         case 17: {
            s.note("arrays of fixed arrays on the heap");
            auto p = std::make_unique<F[]>(3);
            std::vector<F> q(2, f);
            q.push_back(f);
            for(int k = 0; k < 3; ++k) {
               layout(p[static_cast<std::size_t>(k)], "fixed array on the heap");
               layout(q[static_cast<std::size_t>(k)], "fixed array in a vector");
               REQ(same(vals1(q[static_cast<std::size_t>(k)]), vals1(f)), "copy in a vector is ", str(vals1(q[static_cast<std::size_t>(k)])));
            }
            struct { char c; F g; } st;
            layout(st.g, "fixed array member");
            break;
         }
         case 18: {
            long i = s.range(0, N + 2) - 1, j = s.range(0, N + 2) - 1;
            both(s, f, d, "first_n, last_n, skip_n", [&](auto& a, auto& r) {
               put(r, a(spp::place::firstN(spp::ImplicitInt{i})));
               put(r, a(spp::place::lastN(spp::ImplicitInt{j})));
            });
            break;
         }
         case 19: {
            long i = s.range(0, N + 2) - 1;
            both(s, f, d, "exclude", [&](auto& a, auto& r) { put(r, exclude(a, i)); });
            break;
         }
         case 20: {
            long i = s.range(0, N + 2) - 1;
            both(s, f, d, "iterators", [&](auto& a, auto& r) {
               for(auto x : a) r.v.push_back(x.val());
               for(auto it = a.rbegin(); it != a.rend(); ++it) r.v.push_back((*it).val());
               r.v.push_back(a.begin()[i].val());
            });
            break;
         }
         default: {
            auto w = vec<T>(s, s.range(0, N));
            both(s, f, d, "merge and compare", [&](auto& a, auto& r) {
               D b(static_cast<long>(w.size()));
               o::fill(b, w);
               put(r, merge(a, b));
               put(r, merge(b, a, a));
               r.k.push_back((a == b).val());
               r.k.push_back((b != a).val());
            });
         }
      }
   }
}

template <class T, long M, long N, spp::AlignmentFlag AF>
void fixed2(pbt::Src& s) {
   using F = spp::FixedArray2D<T, M, N, AF>;
   using D = spp::Array2D<T, AF>;
   promise<F, AF>();
   promise<D, AF>();
   alignas(64) unsigned char raw[sizeof(F)];
   std::memset(raw, 0xff, sizeof raw);
   F& z = *new(raw) F;
   for(long i = 0; i < M * N; ++i) REQ(same(z.un(i), mk(T{})), "default-constructed element ", i, " is ", str(z.un(i)));
   REQ(F::rows().val() == M && F::cols().val() == N && F::size().val() == M * N, "extents of the fixed array");
   D zd(M, N);
   for(long i = 0; i < M * N; ++i) REQ(same(zd.un(i), mk(T{})), "default element ", i, " of a dynamic array is ", str(zd.un(i)));
   auto v = vec<T>(s, M * N);
   s.note("contents ", str(v));
   F f;
   D d(M, N);
   o::fill(f, v);
   o::fill(d, v);
   auto other = [&] {
      long m = M, n = N;
      if(s.coin()) {
         auto [a, b] = o::shape(s, 3);
         m = a, n = b;
         if(s.coin() && M && N) m = N, n = M;
      }
      Mat<T> w(m, n);
      w.v = vec<T>(s, m * n);
      return w;
   };
   long steps = s.range(1, 3);
   for(long t = 0; t < steps; ++t) {
      long i = s.range(0, M + 2) - 1, j = s.range(0, N + 2) - 1;
      switch(s.below(20)) {
         case 19: {
            int k = static_cast<int>(s.below(4));
            static const char* nm[] = {"move onto itself", "assign to itself", "swap with itself", "assign a view of itself"};
            both(s, f, d, nm[k], [&](auto& a, auto&) {
               auto& b = alias(a);
               switch(k) {
                  case 0: a = std::move(b); break;
                  case 1: a = b; break;
                  case 2: { using std::swap; if constexpr(requires { a.swap(b); }) a.swap(b); else swap(a, b); break; }
                  default: a = std::as_const(b)(spp::place::all, spp::place::all);
               }
            });
            break;
         }
         case 0: {
            T x = val<T>(s);
            both(s, f, d, "A(i, j) = x", [&](auto& a, auto& r) { r.v.push_back(a(i, j).val()); a(i, j) = mk(x); });
            break;
         }
         case 1:
            both(s, f, d, "at(i, j), at(last - i, last - j)", [&](auto& a, auto& r) {
               r.v.push_back(a.at(spp::place::last - spp::ImplicitInt{i}, spp::place::last - spp::ImplicitInt{j}).val());
               r.v.push_back(std::as_const(a).at(i, j).val());
            });
            break;
         case 2: {
            T x = val<T>(s);
            both(s, f, d, "A = x", [&](auto& a, auto&) { a = mk(x); });
            break;
         }
         case 3: {
            auto w = other();
            D b(w.m, w.n);
            o::fill(b, w.v);
            int k = static_cast<int>(s.below(3));
            both(s, f, d, "A = other", [&](auto& a, auto&) {
               switch(k) {
                  case 0: a = std::as_const(b); break;
                  case 1: a = b(spp::place::reverse, spp::place::all); break;
                  default: a = generate(b, [](auto x) { return x; });
               }
            });
            break;
         }
         case 4: {
            auto w = other();
            s.note("construct a fixed array from ", str(w));
            D b(w.m, w.n);
            o::fill(b, w.v);
            int k = static_cast<int>(s.below(3));
            Mat<T> got;
            bool rej = rejected([&] {
               switch(k) {
                  case 0: { F x(b); got = vals2(x); layout(x, "fixed array"); break; }
                  case 1: { F x = b(spp::place::all, spp::place::all); got = vals2(x); break; }
                  default: { F x = generate(b, [](auto e) { return e; }); got = vals2(x); }
               }
            });
            bool ok = w.m == M && w.n == N;
            REQ(rej == !ok, "constructing from ", w.m, "x", w.n, " was ", rej ? "rejected" : "accepted");
            if(ok) REQ(same(got, w), "constructed fixed array is ", str(got));
            s.nontrivial();
            break;
         }
         case 5: {
            s.note("to dynamic arrays");
            auto w = vals2(f);
            D x(f);
            spp::Array2D<T, spp::Unaligned> y = f;
            spp::Array2D<T, spp::Aligned> w2 = f, e;
            auto ev = f.eval();
            e.resize_and_assign(f);
            REQ(same(vals2(x), w) && same(vals2(y), w) && same(vals2(w2), w) && same(vals2(ev), w) && same(vals2(e), w), "conversion to a dynamic array changes elements");
            for(auto* q : {&w2, &e}) layout(*q, "aligned array");
            layout(x, "dynamic array");
            F back(x);
            REQ(same(vals2(back), w), "conversion back gives ", str(vals2(back)));
            s.nontrivial(M * N > 1);
            break;
         }
         case 6: both(s, f, d, "row", [&](auto& a, auto& r) { put(r, a.row(i)); put(r, std::as_const(a).row(i)); }); break;
         case 7: both(s, f, d, "column", [&](auto& a, auto& r) { put(r, a.col(j)); put(r, std::as_const(a).col(j)); }); break;
         case 8: both(s, f, d, "diagonal", [&](auto& a, auto& r) { put(r, a.diag(j - i)); }); break;
         case 9: {
            long k = s.range(0, M + 1), l = s.range(0, N + 1);
            both(s, f, d, "block", [&](auto& a, auto& r) { put(r, a.block(i, j, k, l)); });
            both(s, f, d, "blockN", [&](auto& a, auto& r) { put(r, a.blockN(i, j, k, l)); });
            break;
         }
         case 10: {
            auto r1 = o::slice(s, M + static_cast<long>(s.below(2))), c1 = o::slice(s, N);
            T x = val<T>(s);
            both(s, f, d, "slice", [&](auto& a, auto& r) { auto q = a(r1.get(), c1.get()); put(r, q); q = mk(x); });
            break;
         }
         case 11: both(s, f, d, "view1D, view2D", [&](auto& a, auto& r) { put(r, a.view1D()); put(r, a.view2D(N, M)); put(r, a.view2D(i, j)); }); break;
         case 12:
            if constexpr(!is_bool<T>)
               both(s, f, d, "reductions", [&](auto& a, auto& r) {
                  r.v.push_back(min(a).val());
                  r.v.push_back(max(a).val());
                  r.k.push_back(std::get<0>(min_index(a)).val());
                  r.k.push_back(std::get<1>(max_index(a)).val());
                  if constexpr(is_fp<T>) {
                     r.v.push_back(sum(a).val());
                     put(r, row_reduce(a, [](auto x) { return sum(x); }));
                     put(r, col_reduce(a, [](auto x) { return sum(x); }));
                  }
               });
            break;
         case 13:
            both(s, f, d, "text output", [&](auto& a, auto& r) {
               std::ostringstream os;
               os << a;
               r.text = os.str();
            });
            break;
         case 15: both(s, f, d, "transpose, exclude", [&](auto& a, auto& r) { put(r, transpose(a)); put(r, exclude(a.view1D(), spp::ImplicitInt{i})); }); break;
         case 16: {
            s.note("copy and move the fixed array");
            auto w = vals2(f);
            F g(f);
            F h = std::move(g);
            REQ(same(vals2(h), w), "moved fixed array is ", str(vals2(h)));
            g = f;
            f = std::move(g);
            REQ(same(vals2(f), w), "move-assigned fixed array is ", str(vals2(f)));
            layout(h, "moved fixed array");
            auto p = std::make_unique<F[]>(3);
            for(int k = 0; k < 3; ++k) layout(p[static_cast<std::size_t>(k)], "fixed array on the heap");
            break;
         }
         case 17:
            if constexpr(!is_bool<T>) {
               auto w = other();
               for(auto& e : w.v) e = small<T>(s);
               D b(w.m, w.n);
               o::fill(b, w.v);
               o::fill(f, std::vector<T>(static_cast<std::size_t>(M * N), T(2)));
               o::fill(d, std::vector<T>(static_cast<std::size_t>(M * N), T(2)));
               both(s, f, d, "compound assignment", [&](auto& a, auto&) { a *= b; });
            }
            break;
         default: {
            T x = val<T>(s), y = val<T>(s);
            both(s, f, d, "A = {{list}}", [&](auto& a, auto&) {
               switch(s.below(1)) {
                  default:
                     if(i < 0) a = {{mk(x), mk(y)}, {mk(y), mk(x)}};
                     else if(i == 0) a = {{mk(x), mk(y), mk(x)}, {mk(y), mk(x), mk(x)}};
                     else if(i == 1) a = {{mk(x)}, {mk(y)}, {mk(y)}};
                     else a = {{mk(x), mk(y)}, {mk(y)}};
               }
            });
         }
      }
   }
}

// Alignment and layout of dynamic arrays after any operation.
template <class T, spp::AlignmentFlag AF>
void align1(pbt::Src& s) {
   using D = spp::Array1D<T, AF>;
   std::vector<std::unique_ptr<char[]>> noise; // move the heap around
   D a(s.range(0, 9)), b(s.range(0, 40));
   long steps = s.range(1, 8);
   for(long t = 0; t < steps; ++t) {
      if(s.coin()) noise.push_back(std::make_unique<char[]>(static_cast<std::size_t>(s.range(1, 70))));
      long n = a.size().val();
      switch(s.below(14)) {
         case 0: a.resize(s.range(0, 40)); break;
         case 1: a.resize(s.range(0, 40), false); break;
         case 2: a.insert_back(mk(T(1))); break;
         case 3: a.insert(s.range(0, n), b); break;
         case 4: if(n) a.remove(s.range(0, n - 1)); break;
         case 5: a.swap(b); break;
         case 6: a.resize_and_assign(b(spp::place::reverse)); break;
         case 7: { D c(b); a.swap(c); break; }
         case 8: { D c(std::move(a)); a.resize_and_assign(std::move(c)); break; }
         case 9: a.resize_and_assign(b); break;
         case 10: a.insert_front(b(spp::place::all)); break;
         case 11: if(n > 1) a.remove(o::il({0, n - 1})); break;
         case 12: { spp::Array1D<T, AF == spp::Aligned ? spp::Unaligned : spp::Aligned> c(b); a.resize_and_assign(c); layout(c, "array of the other alignment"); break; }
         default: {
            std::stringstream x;
            for(long i = 0, k = s.range(0, 12); i < k; ++i) x << s.below(2) << ' ';
            x >> a;
         }
      }
      if(a.size().val() > 60) a.resize(3);
      layout(a, "dynamic array");
      layout(b, "dynamic array");
   }
   std::vector<D> v(3, a);
   v.push_back(a);
   for(auto& x : v) layout(x, "dynamic array in a vector");
   s.label("layout after a history");
   s.nontrivial(steps > 2);
}
template <class T, spp::AlignmentFlag AF>
void align2(pbt::Src& s) {
   using D = spp::Array2D<T, AF>;
   std::vector<std::unique_ptr<char[]>> noise;
   auto sh = [&] { return o::shape(s, 5); };
   auto [m0, n0] = sh();
   auto [m1, n1] = sh();
   D a(m0, n0), b(m1, n1);
   long steps = s.range(1, 8);
   for(long t = 0; t < steps; ++t) {
      if(s.coin()) noise.push_back(std::make_unique<char[]>(static_cast<std::size_t>(s.range(1, 70))));
      long m = a.rows().val(), n = a.cols().val();
      auto [p, q] = sh();
      switch(s.below(12)) {
         case 0: a.resize(p, q); break;
         case 1: a.resize(p, q, false); break;
         case 2: a.resize(n, m, false); break;
         case 3: if(m) a.insert_row(s.range(0, m), a.row(0)); break;
         case 4: if(n) a.insert_col(s.range(0, n), a.col(n - 1)); break;
         case 5: if(m) a.remove_row(s.range(0, m - 1)); break;
         case 6: if(n) a.remove_col(s.range(0, n - 1)); break;
         case 7: a.swap(b); break;
         case 8: a.resize_and_assign(b); break;
         case 9: { D c(std::move(a)); a.resize_and_assign(std::move(c)); break; }
         case 10: a.resize_and_assign(transpose(b)); break;
         default: { D c(b); a.swap(c); }
      }
      if(a.size().val() > 60) a.resize(2, 2);
      layout(a, "dynamic array");
      layout(b, "dynamic array");
   }
   s.label("layout after a history");
   s.nontrivial(steps > 2);
}

} // namespace fx
