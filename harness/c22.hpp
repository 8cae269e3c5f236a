// C22: attached arrays and raw data pointers.
#pragma once
#include "objs.hpp"
#include <array>
#include <cstdlib>
#include <functional>
#include <memory>
#include <numeric>

namespace at {

template <class T>
T val(pbt::Src& s) {
   return any<T>(s);
}

template <class T>
std::vector<T> vals(pbt::Src& s, long n) {
   std::vector<T> v;
   for(long i = 0; i < n; ++i) v.push_back(val<T>(s));
   return v;
}

// A block of memory of n elements of some provenance, exactly n long.
template <class T, class F>
void memory(pbt::Src& s, long n, F&& f) {
   auto gen = [](pbt::Src& r) { return val<T>(r); };
   auto v = o::seqv<T>(s, n, gen);
   auto put = [&](T* p) { std::copy(v.begin(), v.end(), p); };
   switch(s.below(7)) {
      case 0: {
         s.note("memory from new[]");
         std::unique_ptr<T[]> p(new T[static_cast<std::size_t>(n)]);
         put(p.get());
         return f(p.get(), v);
      }
      case 1: {
         s.note("memory from malloc");
         struct D { void operator()(T* q) const { std::free(q); } };
         std::unique_ptr<T, D> p(static_cast<T*>(std::malloc(static_cast<std::size_t>(n) * sizeof(T))));
         put(p.get());
         return f(p.get(), v);
      }
      case 2: {
         s.note("memory of an Array1D, through blas_data()");
         spp::Array1D<T> A(n);
         o::fill(A, v);
         f(A.blas_data(), v);
         REQ(same(vals1(A), v), "the array whose data were attached holds ", str(vals1(A)), ", expected ", str(v));
         return;
      }
      case 3: {
         s.note("memory of an aligned Array2D, through blas_data()");
         long k = n == 0 ? 0 : n % 2 == 0 ? 2 : 1;
         spp::Array2D<T, spp::Aligned> A(k, k ? n / k : 0);
         o::fill(A, v);
         f(A.blas_data(), v);
         REQ(same(vals2(A).v, v), "the array whose data were attached holds ", str(vals2(A)), ", expected ", str(v));
         return;
      }
      case 4: {
         s.note("memory of a FixedArray1D, through blas_data()");
         v.resize(6);
         spp::FixedArray1D<T, 6> A;
         o::fill(A, v);
         f(A.blas_data(), v);
         REQ(same(vals1(A), v), "the array whose data were attached holds ", str(vals1(A)), ", expected ", str(v));
         return;
      }
      case 5: {
         s.note("memory of a FixedArray2D, through blas_data()");
         v.resize(6);
         spp::FixedArray2D<T, 2, 3, spp::Aligned> A;
         o::fill(A, v);
         f(A.blas_data(), v);
         REQ(same(vals2(A).v, v), "the array whose data were attached holds ", str(vals2(A)), ", expected ", str(v));
         return;
      }
      default: {
         s.note("a C array");
         T p[6];
         v.resize(6);
         put(p);
         auto X = spp::attach1D(p, 6);
         auto Y = spp::attach2D(p, 3, 2);
         REQ(same(vals1(X), v) && same(vals2(Y).v, v), "attached C array reads ", str(vals1(X)), " and ", str(vals2(Y)));
         X[5] = mk(T(1));
         v[5] = T(1);
         Y(0, 1) = mk(T(1));
         v[1] = T(1);
         return f(&p[0], v);
      }
   }
}

template <class A>
constexpr bool writable = requires(A& a) { a.un(0) = a.un(0); a = a.un(0); };

template <class T>
struct Watch { // all live views of the memory are checked after each write
   std::vector<std::function<void(const std::vector<T>&)>> chk;
   T* p;
   long n;
   void all(const std::vector<T>& v) {
      std::vector<T> now(p, p + n);
      REQ(same(now, v), "memory is ", str(now), ", expected ", str(v));
      for(auto& c : chk) c(v);
   }
};

// One write (or read) through a view whose element k is memory element m[k].
template <class T, class A>
void touch(pbt::Src& s, A& a, const std::vector<long>& m, std::vector<T>& v) {
   long n = static_cast<long>(m.size());
   auto now = [&] { return o::at(v, m); };
   auto mem = [&](long k) -> T& { return v[static_cast<std::size_t>(m[static_cast<std::size_t>(k)])]; };
   if constexpr(spp::TwoDimBaseType<A>) {
      REQ(same(vals2(a).v, now()), "view reads ", str(vals2(a)));
      long C = a.cols().val(), R = a.rows().val();
      REQ(R * C == n, "extents ", R, "x", C, " of ", n, " elements");
      if constexpr(writable<A>) {
         switch(s.below(8)) {
            case 0:
               if(n) {
                  long i = s.range(0, R - 1), j = s.range(0, C - 1);
                  T x = val<T>(s);
                  s.note("write (", i, ",", j, ")");
                  s.coin() ? a(i, j) = mk(x) : a.at(i, j) = mk(x);
                  mem(i * C + j) = x;
               }
               return;
            case 1: {
               s.note("fill");
               T x = val<T>(s);
               a = mk(x);
               for(long k = 0; k < n; ++k) mem(k) = x;
               return;
            }
            case 2: {
               s.note("assign an array");
               spp::Array2D<T> B(R, C);
               auto w = vals<T>(s, n);
               o::fill(B, w);
               a = B;
               for(long k = 0; k < n; ++k) mem(k) = w[static_cast<std::size_t>(k)];
               return;
            }
            case 3:
               if(n) {
                  long i = s.range(0, R - 1);
                  T x = val<T>(s);
                  s.note("fill row ", i);
                  a.row(i) = mk(x);
                  for(long j = 0; j < C; ++j) mem(i * C + j) = x;
               }
               return;
            case 4:
               if(n) {
                  long j = s.range(0, C - 1);
                  T x = val<T>(s);
                  s.note("fill column ", j);
                  a.col(j) = mk(x);
                  for(long i = 0; i < R; ++i) mem(i * C + j) = x;
               }
               return;
            case 5: {
               s.note("write through iterators");
               long k = 0;
               for(auto& e : a) {
                  T x = val<T>(s);
                  e = mk(x);
                  mem(k++) = x;
               }
               REQ(k == n, "iteration visits ", k, " of ", n, " elements");
               return;
            }
            case 6:
               if constexpr(is_int<T>) {
                  s.note("a -= a, a += 1");
                  a -= a;
                  a += mk(T(1));
                  for(long k = 0; k < n; ++k) mem(k) = T(1);
               }
               return;
            default:
               if(n) {
                  s.note("block of the view");
                  long i = s.range(0, R - 1), j = s.range(0, C - 1);
                  T x = val<T>(s);
                  a.block(i, j, R - 1, C - 1) = mk(x);
                  for(long q = i; q < R; ++q)
                     for(long z = j; z < C; ++z) mem(q * C + z) = x;
               }
               return;
         }
      }
   } else {
      REQ(same(vals1(a), now()), "view reads ", str(vals1(a)));
      if constexpr(writable<A>) {
         switch(s.below(9)) {
            case 0:
               if(n) {
                  long i = s.range(0, n - 1);
                  T x = val<T>(s);
                  s.note("write [", i, "]");
                  switch(s.below(4)) {
                     case 0: a[i] = mk(x); break;
                     case 1: a.at(i) = mk(x); break;
                     case 2: a.un(i) = mk(x); break;
                     default: a[spp::last - (n - 1 - i)] = mk(x);
                  }
                  mem(i) = x;
               }
               return;
            case 1: {
               s.note("fill");
               T x = val<T>(s);
               a = mk(x);
               for(long k = 0; k < n; ++k) mem(k) = x;
               return;
            }
            case 2: {
               s.note("assign an array");
               spp::Array1D<T> B(n);
               auto w = vals<T>(s, n);
               o::fill(B, w);
               s.coin() ? a = B : a = B(spp::place::all);
               for(long k = 0; k < n; ++k) mem(k) = w[static_cast<std::size_t>(k)];
               return;
            }
            case 3: {
               s.note("write through iterators");
               long k = 0;
               for(auto it = a.begin(); it != a.end(); ++it) {
                  T x = val<T>(s);
                  *it = mk(x);
                  mem(k++) = x;
               }
               REQ(k == n, "iteration visits ", k, " of ", n, " elements");
               return;
            }
            case 4:
               if constexpr(is_int<T>) {
                  s.note("a -= a, a += 1");
                  a -= a;
                  a += mk(T(1));
                  for(long k = 0; k < n; ++k) mem(k) = T(1);
               }
               return;
            case 5: {
               s.note("every second element through a slice");
               T x = val<T>(s);
               a(spp::place::even) = mk(x);
               for(long k = 0; k < n; k += 2) mem(k) = x;
               return;
            }
            case 6:
               if constexpr(is_int<T>) {
                  s.note("sort");
                  sort_increasing(a);
                  auto w = now();
                  std::sort(w.begin(), w.end());
                  for(long k = 0; k < n; ++k) mem(k) = w[static_cast<std::size_t>(k)];
               }
               return;
            case 7:
               if(n == 2) {
                  s.note("assign a list");
                  T x = val<T>(s), y = val<T>(s);
                  a = {mk(x), mk(y)};
                  mem(0) = x;
                  mem(1) = y;
               }
               return;
            default: {
               s.note("out-of-range write and wrong size");
               auto b = v;
               REQ(rejected([&] { a[n] = mk(T(0)); }) && rejected([&] { a.at(-1) = mk(T(0)); }), "writing outside an attached array was accepted");
               REQ(rejected([&] { a = spp::Array1D<T>(n + 1); }), "assigning another size to an attached array was accepted");
               s.nontrivial();
               return;
            }
         }
      }
   }
}

template <class T>
void attached(pbt::Src& s) {
   memory<T>(s, s.range(0, 12), [&](T* p, std::vector<T>& v) {
      long N = static_cast<long>(v.size());
      Watch<T> w{{}, p, N};
      s.note("contents ", str(v));
      auto off = s.range(0, N), n = s.range(0, N - off);
      auto [m2, n2] = o::shape(s, 3);
      long off2 = 0;
      if(m2 * n2 > N) m2 = n2 = 0;
      else off2 = s.range(0, N - m2 * n2);
      T *p1 = p + off, *p2 = p + off2;
      const T *c1 = p1, *c2 = p2;
      auto range = [](long a, long k) {
         auto r = o::iota(k);
         for(auto& e : r) e += a;
         return r;
      };
      auto mp1 = range(off, n), mp2 = range(off2, m2 * n2);
      s.note("1D at ", off, " length ", n, ", 2D at ", off2, " shape ", m2, "x", n2);
      auto X = spp::attach1D(p1, n);
      auto CX = spp::attach1D(c1, n);
      auto Y = spp::attach2D(p2, m2, n2);
      auto CY = spp::attach2D(c2, m2, n2);
      static_assert(!writable<decltype(CX)> && !writable<decltype(CY)>, "an array attached to const memory is writable");
      p1 = p2 = nullptr; // the view keeps the address it was given
      c1 = c2 = nullptr;
      auto X2 = X;
      auto Y2 = Y;
      auto YV = Y.view1D();
      auto XV = X.view2D(n ? 1 : 0, n);
      auto XR = X(spp::place::reverse);
      auto rm = mp1;
      std::reverse(rm.begin(), rm.end());
      auto on1 = [&](auto& a, const std::vector<long>& m, const char* what) {
         w.chk.push_back([&a, m, what](const std::vector<T>& now) {
            REQ(a.size().val() == static_cast<long>(m.size()), what, " has ", a.size().val(), " elements");
            REQ(same(vals1(a), o::at(now, m)), what, " reads ", str(vals1(a)), ", memory holds ", str(o::at(now, m)));
         });
      };
      auto on2 = [&](auto& a, const std::vector<long>& m, const char* what) {
         w.chk.push_back([&a, m, what](const std::vector<T>& now) {
            REQ(same(vals2(a).v, o::at(now, m)), what, " reads ", str(vals2(a)), ", memory holds ", str(o::at(now, m)));
         });
      };
      on1(X, mp1, "attach1D");
      on1(CX, mp1, "attach1D of const memory");
      on1(X2, mp1, "copy of attach1D");
      on1(XR, rm, "reversed slice of attach1D");
      on1(YV, mp2, "view1D of attach2D");
      on2(Y, mp2, "attach2D");
      on2(CY, mp2, "attach2D of const memory");
      on2(Y2, mp2, "copy of attach2D");
      on2(XV, mp1, "view2D of attach1D");
      REQ(Y.rows().val() == m2 && Y.cols().val() == n2, "attach2D has extents ", Y.rows().val(), "x", Y.cols().val());
      for(long i = 0; i < n; ++i) REQ(reinterpret_cast<const T*>(&X[i]) == p + off + i && reinterpret_cast<const T*>(&CX[i]) == p + off + i, "element ", i, " of attach1D is not memory element ", off + i);
      for(long i = 0; i < m2; ++i)
         for(long j = 0; j < n2; ++j)
            REQ(reinterpret_cast<const T*>(&Y(i, j)) == p + off2 + i * n2 + j && reinterpret_cast<const T*>(&CY(i, j)) == p + off2 + i * n2 + j, "element (", i, ",", j, ") of attach2D is elsewhere");
      w.all(v);
      long steps = s.range(1, 5);
      for(long t = 0; t < steps; ++t) {
         switch(s.below(9)) {
            case 0: touch(s, X, mp1, v); break;
            case 1: touch(s, Y, mp2, v); break;
            case 2: touch(s, X2, mp1, v); break;
            case 3: touch(s, Y2, mp2, v); break;
            case 4: touch(s, XR, rm, v); break;
            case 5: touch(s, YV, mp2, v); break;
            case 6: touch(s, XV, mp1, v); break;
            case 7:
               touch(s, CX, mp1, v);
               touch(s, CY, mp2, v);
               break;
            default:
               if(N) {
                  long i = s.range(0, N - 1);
                  T x = val<T>(s);
                  s.note("write memory element ", i);
                  p[i] = x;
                  v[static_cast<std::size_t>(i)] = x;
               }
         }
         w.all(v);
      }
      if(s.coin()) { // views end before the memory does
         auto tmp = spp::attach1D(p, N);
         auto tmp2 = tmp(spp::place::all);
         REQ(same(vals1(tmp2), v), "second attachment reads ", str(vals1(tmp2)));
      }
      w.all(v);
      s.label("attached views of memory");
      s.nontrivial(n > 1 || m2 * n2 > 1);
   });
}

// data() and blas_data() of owning arrays along a history.
template <class A>
void pointers(pbt::Src& s) {
   using T = spp::BuiltinTypeOf<A>;
   constexpr bool two = spp::TwoDimBaseType<A>;
   A a;
   if constexpr(!A::is_fixed()) {
      auto [m, n] = o::shape(s, 4);
      if constexpr(two) a.resize(m, n);
      else a.resize(m * n);
   }
   auto all = [&] {
      if constexpr(two) return vals2(a).v;
      else return vals1(a);
   };
   auto v = vals<T>(s, a.size().val());
   o::fill(a, v);
   s.note("contents ", str(v));
   long steps = s.range(1, 5);
   for(long t = 0; t < steps; ++t) {
      long n = a.size().val();
      auto* d = a.data();
      T* b = a.blas_data();
      const auto* cd = std::as_const(a).data();
      const T* cb = std::as_const(a).blas_data();
      REQ(reinterpret_cast<T*>(d) == b && cd == d && cb == b, "data(), blas_data() and their const forms differ");
      REQ((d == nullptr) == (n == 0), "data() of ", n, " elements");
      for(long i = 0; i < n; ++i) {
         REQ(d + i == &a.un(i), "data() + ", i, " is not the address of element ", i);
         REQ(same(b[i], v[static_cast<std::size_t>(i)]) && same(cd[i].val(), v[static_cast<std::size_t>(i)]), "element ", i, " through the pointer is ", str(b[i]));
      }
      switch(s.below(6)) {
         case 0:
            if(n) {
               long i = s.range(0, n - 1);
               v[static_cast<std::size_t>(i)] = val<T>(s);
               b[i] = v[static_cast<std::size_t>(i)];
               s.note("write element ", i, " through blas_data()");
            }
            break;
         case 1:
            if(n) {
               long i = s.range(0, n - 1);
               v[static_cast<std::size_t>(i)] = val<T>(s);
               d[i] = mk(static_cast<T>(v[static_cast<std::size_t>(i)]));
               s.note("write element ", i, " through data()");
            }
            break;
         case 2:
            if(n) {
               long i = s.range(0, n - 1);
               v[static_cast<std::size_t>(i)] = val<T>(s);
               a.un(i) = mk(static_cast<T>(v[static_cast<std::size_t>(i)]));
               s.note("write element ", i, " of the array");
               REQ(same(b[i], v[static_cast<std::size_t>(i)]), "the pointer does not see the write");
            }
            break;
         case 3:
            s.note("memcpy into blas_data()");
            if(n) {
               auto w = vals<T>(s, n);
               std::copy(w.begin(), w.end(), b);
               v = w;
            }
            break;
         case 4:
            if constexpr(!A::is_fixed()) {
               auto [m, k] = o::shape(s, 4);
               s.note("resize to ", m, " x ", k);
               if constexpr(two) {
                  a.resize_and_assign(A(m, k, mk(T(1))));
               } else {
                  a.resize_and_assign(A(m * k, mk(T(1))));
               }
               v.assign(static_cast<std::size_t>(m * k), T(1));
            }
            break;
         default: {
            s.note("copy into another array through pointers");
            A c(a);
            if(n) {
               REQ(c.data() != a.data() && c.blas_data() != b, "a copy has the same data pointer");
               std::copy(b, b + n, c.blas_data());
               REQ(c.un(n - 1).val() == v.back() || v.back() != v.back(), "copied element");
            }
         }
      }
      REQ(same(all(), v), "array holds ", str(all()), ", expected ", str(v));
   }
   s.label("raw pointers of owning arrays");
   s.nontrivial(v.size() > 1);
}

} // namespace at
