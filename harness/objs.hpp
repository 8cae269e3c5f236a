// Objects of every kind (owning, fixed, sliced, attached, lazy) together with an ordinary sequence or
// matrix that says what they contain, and, for objects that refer to memory, where each element lives.
#pragma once
#include "sp.hpp"
using namespace g;
using spp::Strict;

namespace o {

inline std::vector<spp::ImplicitInt> il(const std::vector<long>& v) {
   std::vector<spp::ImplicitInt> r;
   for(auto x : v) r.push_back(spp::ImplicitInt{x});
   return r;
}

template <class T>
struct Region { // memory that the object may refer to
   T* p;
   long n;
   std::vector<T> get() const {
      return std::vector<T>(p, p + n);
   }
};

template <class T>
struct Info1 {
   std::vector<T> v;      // contents
   std::vector<long> map; // position in region of each element (empty: a lazy value)
   Region<T> reg{nullptr, 0};
   const char* kind = "";
   bool lvalue() const {
      return reg.p != nullptr || (v.empty() && map.empty());
   }
};

template <class T>
struct Info2 {
   Mat<T> v;
   std::vector<long> map;
   Region<T> reg{nullptr, 0};
   const char* kind = "";
};

template <class T, class Gen>
std::vector<T> seqv(pbt::Src& s, long n, Gen& gen) {
   std::vector<T> v;
   for(long i = 0; i < n; ++i) v.push_back(gen(s));
   return v;
}
template <class A, class T>
void fill(A& a, const std::vector<T>& v) {
   for(std::size_t i = 0; i < v.size(); ++i) a.un(static_cast<long>(i)) = mk(static_cast<T>(v[i]));
}
template <class A>
auto region(A& a) {
   using T = spp::BuiltinTypeOf<A>;
   return Region<T>{reinterpret_cast<T*>(const_cast<Strict<T>*>(a.data())), a.size().val()};
}
inline std::vector<long> iota(long n) {
   std::vector<long> r(static_cast<std::size_t>(n));
   for(long i = 0; i < n; ++i) r[static_cast<std::size_t>(i)] = i;
   return r;
}
template <class T>
std::vector<T> at(const std::vector<T>& v, const std::vector<long>& m) {
   std::vector<T> r;
   for(long i : m) r.push_back(v[static_cast<std::size_t>(i)]);
   return r;
}

struct Sl {
   long st, n, str;
   std::vector<long> map() const {
      std::vector<long> m;
      for(long i = 0; i < n; ++i) m.push_back(st + i * str);
      return m;
   }
   spp::seqN get() const {
      return spp::seqN{st, n, str};
   }
};
// A valid description start/size/stride for extent n.
inline Sl slice(pbt::Src& s, long n) {
   if(n == 0) return {s.range(0, 2), 0, s.range(0, 4) - 2};
   long str = s.pick({1L, -1L, 2L, -2L, 3L, -3L, 0L});
   long st = s.range(0, n - 1);
   long mx = str > 0 ? (n - 1 - st) / str + 1 : str < 0 ? st / -str + 1 : 4;
   return {st, s.range(0, mx), str};
}
inline std::vector<long> indexes(pbt::Src& s, long n) { // any list of valid indexes
   std::vector<long> v;
   if(n) {
      long k = s.range(0, n + 1);
      for(long i = 0; i < k; ++i) v.push_back(s.range(0, n - 1));
   }
   return v;
}
inline std::vector<long> sub(pbt::Src& s, long n) { // strictly increasing
   std::vector<long> v;
   for(long i = 0; i < n; ++i)
      if(s.coin()) v.push_back(i);
   return v;
}

constexpr int N1 = 18;
// f(object, Info1). `lv` true: only objects that refer to writable memory.
template <class T, class Gen, class F>
void any1(pbt::Src& s, long maxn, Gen gen, F&& f, bool lv = false, long fixn = -1) {
   Info1<T> in;
   auto len = [&] { return fixn >= 0 ? fixn : s.range(0, maxn); };
   auto call = [&](auto&& obj) { f(obj, in); };
   int k = static_cast<int>(s.below(lv ? 11 : N1));
   if(fixn >= 0 && (k == 2 || k == 3)) k = 0; // fixed sizes
   switch(k) {
      case 0: {
         in.kind = "Array1D";
         in.v = seqv<T>(s, len(), gen);
         spp::Array1D<T> A(static_cast<long>(in.v.size()));
         fill(A, in.v);
         in.map = iota(static_cast<long>(in.v.size()));
         in.reg = region(A);
         return call(A);
      }
      case 1: {
         in.kind = "aligned Array1D";
         in.v = seqv<T>(s, len(), gen);
         spp::Array1D<T, spp::Aligned> A(static_cast<long>(in.v.size()));
         fill(A, in.v);
         in.map = iota(static_cast<long>(in.v.size()));
         in.reg = region(A);
         return call(A);
      }
      case 2: {
         in.kind = "FixedArray1D 5";
         in.v = seqv<T>(s, 5, gen);
         spp::FixedArray1D<T, 5> A;
         fill(A, in.v);
         in.map = iota(5);
         in.reg = region(A);
         return call(A);
      }
      case 3: {
         in.kind = "aligned FixedArray1D 3";
         in.v = seqv<T>(s, 3, gen);
         spp::FixedArray1D<T, 3, spp::Aligned> A;
         fill(A, in.v);
         in.map = iota(3);
         in.reg = region(A);
         return call(A);
      }
      case 4: {
         in.kind = "seqN slice";
         long n = len();
         Sl sl;
         std::vector<T> b;
         if(fixn >= 0) {
            long g1 = s.range(0, 2), g2 = s.range(0, 2);
            b = seqv<T>(s, g1 + 2 * n + g2, gen);
            sl = s.coin() && n ? Sl{g1 + 2 * n - 1, n, -2} : Sl{g1, n, n ? s.range(1, 2) : 1};
         } else {
            b = seqv<T>(s, n, gen);
            sl = slice(s, n);
         }
         spp::Array1D<T> A(static_cast<long>(b.size()));
         fill(A, b);
         in.map = sl.map();
         in.v = at(b, in.map);
         in.reg = region(A);
         s.note("slice start ", sl.st, " size ", sl.n, " stride ", sl.str, " of ", str(b));
         return call(A(sl.get()));
      }
      case 5: {
         in.kind = "index list slice";
         long n = fixn >= 0 ? fixn + 2 : s.range(0, maxn);
         auto b = seqv<T>(s, n, gen);
         std::vector<long> m;
         if(fixn >= 0) {
            auto p = s.perm(n);
            m.assign(p.begin(), p.begin() + fixn);
         } else {
            m = s.perm(n);
            m.resize(static_cast<std::size_t>(s.range(0, n)));
         }
         spp::Array1D<T> A(n);
         fill(A, b);
         in.map = m;
         in.v = at(b, m);
         in.reg = region(A);
         s.note("indexes ", str(m), " of ", str(b));
         return call(A(il(m)));
      }
      case 6: {
         in.kind = "nested slice";
         long n = len();
         auto b = seqv<T>(s, 2 * n, gen);
         spp::Array1D<T> A(2 * n);
         fill(A, b);
         std::vector<long> m;
         for(long i = n - 1; i >= 0; --i) m.push_back(2 * i + 1);
         in.map = m;
         in.v = at(b, m);
         in.reg = region(A);
         return call(A(spp::place::odd)(spp::place::reverse));
      }
      case 7: {
         in.kind = "row of Array2D";
         long n = len(), m = s.range(1, 3);
         if(n == 0) m = 0;
         auto b = seqv<T>(s, n * m, gen);
         spp::Array2D<T> A(m, n);
         fill(A, b);
         in.reg = region(A);
         if(n == 0) {
            in.map = {};
            in.v = {};
            return call(A.view1D());
         }
         long r = s.range(0, m - 1);
         for(long j = 0; j < n; ++j) in.map.push_back(r * n + j);
         in.v = at(b, in.map);
         return call(A.row(r));
      }
      case 8: {
         in.kind = "column of Array2D";
         long n = len(), m = s.range(1, 3);
         if(n == 0) m = 0;
         auto b = seqv<T>(s, n * m, gen);
         spp::Array2D<T, spp::Aligned> A(n, m);
         fill(A, b);
         in.reg = region(A);
         if(n == 0) {
            in.map = {};
            in.v = {};
            return call(A.view1D());
         }
         long c = s.range(0, m - 1);
         for(long i = 0; i < n; ++i) in.map.push_back(i * m + c);
         in.v = at(b, in.map);
         return call(A.col(c));
      }
      case 9: {
         in.kind = "diagonal of Array2D";
         long n = len(), m = n + (n ? s.range(0, 2) : 0);
         auto b = seqv<T>(s, n * m, gen);
         spp::Array2D<T> A(n, m);
         fill(A, b);
         in.reg = region(A);
         for(long i = 0; i < n; ++i) in.map.push_back(i * m + i);
         in.v = at(b, in.map);
         return call(A.diag());
      }
      case 10: {
         in.kind = "attach1D";
         in.v = seqv<T>(s, len(), gen);
         long n = static_cast<long>(in.v.size());
         T* p = new T[static_cast<std::size_t>(n)];
         struct D {
            T* p;
            ~D() {
               delete[] p;
            }
         } d{p};
         std::copy(in.v.begin(), in.v.end(), p);
         in.map = iota(n);
         in.reg = {p, n};
         return call(spp::attach1D(p, n));
      }
      case 11: {
         in.kind = "const Array1D";
         in.v = seqv<T>(s, len(), gen);
         spp::Array1D<T> A0(static_cast<long>(in.v.size()));
         fill(A0, in.v);
         const spp::Array1D<T> A(A0);
         return call(A);
      }
      case 12: {
         in.kind = "const slice";
         long n = len();
         auto b = seqv<T>(s, 2 * n, gen);
         spp::Array1D<T> A0(2 * n);
         fill(A0, b);
         const auto& A = A0;
         std::vector<long> m;
         for(long i = 0; i < n; ++i) m.push_back(2 * i);
         in.v = at(b, m);
         return call(A(spp::place::even));
      }
      case 13: {
         in.kind = "generate expression";
         in.v = seqv<T>(s, len(), gen);
         spp::Array1D<T> A(static_cast<long>(in.v.size()));
         fill(A, in.v);
         return call(generate(A, [](auto x) { return x; }));
      }
      case 14: {
         in.kind = "merge expression";
         in.v = seqv<T>(s, len(), gen);
         long n = static_cast<long>(in.v.size()), c = s.range(0, n);
         spp::Array1D<T> A(c), B(n - c);
         fill(A, std::vector<T>(in.v.begin(), in.v.begin() + c));
         fill(B, std::vector<T>(in.v.begin() + c, in.v.end()));
         return call(merge(A, B));
      }
      case 15: {
         in.kind = "slice of expression";
         in.v = seqv<T>(s, len(), gen);
         spp::Array1D<T> A(static_cast<long>(in.v.size()));
         fill(A, std::vector<T>(in.v.rbegin(), in.v.rend()));
         auto E = generate(A, [](auto x) { return x; });
         return call(E(spp::place::reverse));
      }
      case 16: {
         in.kind = "binary expression";
         in.v = seqv<T>(s, len(), gen);
         spp::Array1D<T> A(static_cast<long>(in.v.size()));
         fill(A, in.v);
         return call(generate(A, A(spp::place::all), [](auto x, auto) { return x; }));
      }
      default: {
         in.kind = "constant expression";
         T x = gen(s);
         long n = len();
         in.v.assign(static_cast<std::size_t>(n), x);
         return call(spp::const1D<T>(n, mk(x)));
      }
   }
}

// Shapes: (0,0) or both positive.
inline std::pair<long, long> shape(pbt::Src& s, long maxn) {
   long m = s.range(0, maxn);
   return {m, m ? s.range(1, maxn) : 0};
}
constexpr int N2 = 15;
template <class T, class Gen, class F>
void any2(pbt::Src& s, long maxn, Gen gen, F&& f, bool lv = false, long fm = -1, long fn = -1) {
   Info2<T> in;
   auto call = [&](auto&& obj) { f(obj, in); };
   auto sh = [&] { return fm >= 0 ? std::pair{fm, fn} : shape(s, maxn); };
   int k = static_cast<int>(s.below(lv ? 9 : N2));
   if(fm >= 0 && (k == 2 || k == 3)) k = 0;
   auto base = [&](long m, long n) {
      Mat<T> r(m, n);
      r.v = seqv<T>(s, m * n, gen);
      return r;
   };
   auto pick = [&](const Mat<T>& b, std::vector<long> ri, std::vector<long> ci) {
      if(ri.empty() || ci.empty()) ri.clear(), ci.clear(); // a selection without elements is 0 x 0
      in.v = Mat<T>(static_cast<long>(ri.size()), static_cast<long>(ci.size()));
      in.map.clear();
      for(std::size_t i = 0; i < ri.size(); ++i)
         for(std::size_t j = 0; j < ci.size(); ++j) {
            in.v.set(static_cast<long>(i), static_cast<long>(j), b.get(ri[i], ci[j]));
            in.map.push_back(ri[i] * b.n + ci[j]);
         }
   };
   switch(k) {
      case 0: {
         in.kind = "Array2D";
         auto [m, n] = sh();
         auto b = base(m, n);
         spp::Array2D<T> A(m, n);
         fill(A, b.v);
         in.v = b;
         in.map = iota(m * n);
         in.reg = region(A);
         return call(A);
      }
      case 1: {
         in.kind = "aligned Array2D";
         auto [m, n] = sh();
         auto b = base(m, n);
         spp::Array2D<T, spp::Aligned> A(m, n);
         fill(A, b.v);
         in.v = b;
         in.map = iota(m * n);
         in.reg = region(A);
         return call(A);
      }
      case 2: {
         in.kind = "FixedArray2D 2x3";
         auto b = base(2, 3);
         spp::FixedArray2D<T, 2, 3> A;
         fill(A, b.v);
         in.v = b;
         in.map = iota(6);
         in.reg = region(A);
         return call(A);
      }
      case 3: {
         in.kind = "aligned FixedArray2D 3x1";
         auto b = base(3, 1);
         spp::FixedArray2D<T, 3, 1, spp::Aligned> A;
         fill(A, b.v);
         in.v = b;
         in.map = iota(3);
         in.reg = region(A);
         return call(A);
      }
      case 4: {
         in.kind = "seqN x seqN slice";
         if(fm >= 0) {
            long g1 = s.range(0, 1), g2 = s.range(0, 1);
            auto b = base(fm + 1, fn + 2);
            spp::Array2D<T> A(fm + 1, fn + 2);
            fill(A, b.v);
            Sl r{g1, fm, 1}, c{fn ? g2 + fn - 1 : 0, fn, -1};
            pick(b, r.map(), c.map());
            in.reg = region(A);
            return call(A(r.get(), c.get()));
         }
         auto [m, n] = sh();
         auto b = base(m, n);
         spp::Array2D<T> A(m, n);
         fill(A, b.v);
         Sl r = slice(s, m), c = slice(s, n);
         pick(b, r.map(), c.map());
         in.reg = region(A);
         s.note("rows ", r.st, ",", r.n, ",", r.str, " cols ", c.st, ",", c.n, ",", c.str, " of ", str(b));
         return call(A(r.get(), c.get()));
      }
      case 5: {
         in.kind = "index list x all slice";
         auto [m, n] = sh();
         auto b = base(m, n);
         spp::Array2D<T> A(m, n);
         fill(A, b.v);
         auto ri = s.perm(m);
         if(fm < 0) ri.resize(static_cast<std::size_t>(s.range(0, m)));
         pick(b, ri, iota(n));
         in.reg = region(A);
         s.note("rows ", str(ri), " of ", str(b));
         return call(A.rows(il(ri)));
      }
      case 6: {
         in.kind = "reverse x index list slice";
         auto [m, n] = sh();
         auto b = base(m, n);
         spp::Array2D<T, spp::Aligned> A(m, n);
         fill(A, b.v);
         auto ci = s.perm(n);
         if(fm < 0) ci.resize(static_cast<std::size_t>(s.range(0, n)));
         auto ri = iota(m);
         std::reverse(ri.begin(), ri.end());
         pick(b, ri, ci);
         in.reg = region(A);
         s.note("cols ", str(ci), " of ", str(b));
         return call(A(spp::place::reverse, il(ci)));
      }
      case 7: {
         in.kind = "view2D of Array1D";
         auto [m, n] = sh();
         auto b = base(m, n);
         spp::Array1D<T> A(m * n);
         fill(A, b.v);
         in.v = b;
         in.map = iota(m * n);
         in.reg = region(A);
         return call(A.view2D(m, n));
      }
      case 8: {
         in.kind = "attach2D";
         auto [m, n] = sh();
         auto b = base(m, n);
         T* p = new T[static_cast<std::size_t>(m * n)];
         struct D {
            T* p;
            ~D() {
               delete[] p;
            }
         } d{p};
         std::copy(b.v.begin(), b.v.end(), p);
         in.v = b;
         in.map = iota(m * n);
         in.reg = {p, m * n};
         return call(spp::attach2D(p, m, n));
      }
      case 9: {
         in.kind = "const Array2D";
         auto [m, n] = sh();
         in.v = base(m, n);
         spp::Array2D<T> A0(m, n);
         fill(A0, in.v.v);
         const spp::Array2D<T> A(A0);
         return call(A);
      }
      case 10: {
         in.kind = "const slice 2D";
         auto [m, n] = sh();
         in.v = base(m, n);
         spp::Array2D<T> A0(m, n);
         fill(A0, in.v.v);
         const auto& A = A0;
         return call(A(spp::place::all, spp::place::firstN{n}));
      }
      case 11: {
         in.kind = "generate expression 2D";
         auto [m, n] = sh();
         in.v = base(m, n);
         spp::Array2D<T> A(m, n);
         fill(A, in.v.v);
         return call(generate(A, [](auto x) { return x; }));
      }
      case 12: {
         in.kind = "transpose expression";
         auto [m, n] = sh();
         in.v = base(m, n);
         spp::Array2D<T> A(n, m);
         for(long i = 0; i < m; ++i)
            for(long j = 0; j < n; ++j) A.un(j, i) = mk(in.v.get(i, j));
         return call(transpose(A));
      }
      case 13: {
         in.kind = "slice of expression 2D";
         auto [m, n] = sh();
         in.v = base(m, n);
         spp::Array2D<T> A(m, n);
         for(long i = 0; i < m; ++i)
            for(long j = 0; j < n; ++j) A.un(m - 1 - i, j) = mk(in.v.get(i, j));
         auto E = generate(A, [](auto x) { return x; });
         return call(E(spp::place::reverse, spp::place::all));
      }
      default: {
         in.kind = "merge_vertical expression";
         auto [m, n] = sh();
         in.v = base(m, n);
         long c = m > 1 ? s.range(1, m - 1) : m;
         spp::Array2D<T> A(c, c ? n : 0), B(m - c, m - c ? n : 0);
         fill(A, std::vector<T>(in.v.v.begin(), in.v.v.begin() + c * n));
         fill(B, std::vector<T>(in.v.v.begin() + c * n, in.v.v.end()));
         return call(merge_vertical(A, B));
      }
   }
}

} // namespace o
