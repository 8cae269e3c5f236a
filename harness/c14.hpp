// C14: stable operations against exact dyadic arithmetic.
#pragma once
#include "exact.hpp"
#include "objs.hpp"

namespace sb {
using namespace o;
namespace x = exact;
using x::D;

// The leading digits of an exact value as a floating number.
template <class T>
T to(const D& a) {
   if(a.m == 0) return T(0);
   x::Z m = a.m < 0 ? x::Z(-a.m) : a.m;
   long bits = static_cast<long>(boost::multiprecision::msb(m)) + 1, e = a.e;
   if(bits > fpinfo<T>::digits) {
      m >>= static_cast<unsigned>(bits - fpinfo<T>::digits);
      e += bits - fpinfo<T>::digits;
   }
   T r = 0;
   for(int k = 3; k >= 0; --k) r = r * T(4294967296.0) + static_cast<T>(static_cast<long>(x::Z((m >> static_cast<unsigned>(32 * k)) & x::Z(0xffffffffl))));
   r = fpinfo<T>::ldexp(r, static_cast<int>(e));
   return a.m < 0 ? -r : r;
}

template <class T>
struct lim; // exponents for which nothing overflows or underflows
template <>
struct lim<float> {
   static constexpr int sum = 100, dot = 15, pol = 4, coef = 6;
};
template <>
struct lim<double> {
   static constexpr int sum = 900, dot = 200, pol = 30, coef = 60;
};
template <>
struct lim<long double> {
   static constexpr int sum = 900, dot = 400, pol = 30, coef = 60;
};
template <>
struct lim<f128> {
   static constexpr int sum = 900, dot = 400, pol = 30, coef = 60;
};

inline long count(pbt::Src& s) {
   switch(s.below(8)) {
      case 0: return s.range(0, 2);
      case 1: return s.range(62, 67);
      case 2: return s.range(126, 131);
      case 3: return s.range(0, 200);
      default: return s.range(1, 12);
   }
}

// |got - want| * 8 <= a u |want| + b u^2 |cond|
template <class T>
void bound(const char* what, const D& got, const D& want, long a, long b, const D& cond) {
   constexpr long d = fpinfo<T>::digits;
   auto lhs = x::mul(x::abs(x::sub(got, want)), x::ofz(8));
   auto rhs = x::add(x::mul(D{x::Z(a), -d}, x::abs(want)), x::mul(D{x::Z(b), -2 * d}, x::abs(cond)));
   REQ(x::cmp(lhs, rhs) <= 0, what, "<", tname<T>(), "> is ", x::approx(got), ", exact ", x::approx(want), ", relative error ", x::ratio(x::sub(got, want), want),
       ", allowed ", x::approx(rhs) / 8, " but off by ", x::approx(lhs) / 8);
}
template <class T>
void fin(const char* what, T y) {
   REQ(fpinfo<T>::isfinite(y), what, " is ", str(y));
}

// Objects holding v.
template <class T, class F>
void hold1(pbt::Src& s, const std::vector<T>& v, F&& f) {
   long n = static_cast<long>(v.size());
   switch(s.below(4)) {
      case 0: {
         spp::Array1D<T> A(n);
         fill(A, v);
         return f(A);
      }
      case 1: {
         spp::Array1D<T> A(2 * n);
         for(long i = 0; i < n; ++i) A.un(2 * i) = mk(v[static_cast<std::size_t>(n - 1 - i)]);
         return f(A(spp::place::even)(spp::place::reverse));
      }
      case 2: {
         spp::Array1D<T> A(n);
         fill(A, v);
         return f(generate(A, [](auto y) { return y; }));
      }
      default: {
         auto p = s.perm(n);
         spp::Array1D<T> A(n);
         for(long i = 0; i < n; ++i) A.un(p[static_cast<std::size_t>(i)]) = mk(v[static_cast<std::size_t>(i)]);
         return f(A(il(p)));
      }
   }
}
template <class T, class F>
void hold(pbt::Src& s, const std::vector<T>& v, F&& f) {
   long n = static_cast<long>(v.size());
   if(n && s.chance(1, 3)) {
      std::vector<long> ds;
      for(long k = 1; k <= n; ++k)
         if(n % k == 0) ds.push_back(k);
      long m = s.pick(ds);
      s.label("two dimensions");
      if(s.coin()) {
         spp::Array2D<T> A(m, n / m);
         fill(A, v);
         return f(A);
      }
      spp::Array2D<T> A(m, n / m);
      for(long i = 0; i < m; ++i)
         for(long j = 0; j < n / m; ++j) A.un(m - 1 - i, j) = mk(v[static_cast<std::size_t>(i * (n / m) + j)]);
      return f(A(spp::place::reverse, spp::place::all));
   }
   return hold1(s, v, f);
}

template <class T>
std::vector<T> terms(pbt::Src& s, long n, int emax) { // ill-conditioned: later terms cancel the sum of earlier ones
   std::vector<T> v;
   D sum;
   int mode = static_cast<int>(s.below(4));
   for(long i = 0; i < n; ++i) {
      T y;
      if(mode && i > 0 && (mode == 1 ? i > n / 2 : s.chance(1, 3))) {
         y = to<T>(x::neg(sum));
         if(mode == 3) y = y / 3 * s.range(1, 3);
      } else {
         y = mode == 1 && s.coin() ? small<T>(s) : finite<T>(s, emax);
      }
      v.push_back(y);
      sum = x::add(sum, x::of(y));
   }
   if(mode == 2 && n > 2) {
      auto p = s.perm(n);
      std::vector<T> w;
      for(long i : p) w.push_back(v[static_cast<std::size_t>(i)]);
      v = w;
   }
   return v;
}
template <class T>
D dsum(const std::vector<T>& v, bool abs) {
   D r;
   for(T y : v) r = x::add(r, abs ? x::abs(x::of(y)) : x::of(y));
   return r;
}
inline bool hard(const D& s, const D& c) { // cancellation of at least ten bits
   return c.m != 0 && x::cmp(x::mul(x::abs(s), x::ofz(1024)), c) < 0;
}

template <class T>
void sum(pbt::Src& s) {
   long n = count(s);
   auto v = terms<T>(s, n, lim<T>::sum);
   T d = small<T>(s);
   s.note("sum of ", str(v));
   hold(s, v, [&](const auto& A) {
      if(v.empty()) {
         s.label("empty");
         REQ(same(stable_sum(A), T(0)) && same(semi_stable_sum(A), T(0)) && same(stable_mean(A), T(0)) && same(stable_norm1(A), T(0)) && same(stable_norm1_scaled(A), T(0)));
         REQ(same(stable_sum(A, mk(d)), d) && same(semi_stable_sum(A, mk(d)), d) && same(stable_mean(A, mk(d)), d) && same(stable_norm1(A, mk(d)), d)
             && same(stable_norm1_scaled(A, mk(d)), d));
         return;
      }
      auto S = dsum(v, false), C = dsum(v, true), N = x::ofz(n);
      s.nontrivial(hard(S, C));
      if(hard(S, C)) s.label("cancelling sum");
      T r = (s.coin() ? stable_sum(A) : stable_sum(A, mk(d))).val();
      fin("stable_sum", r);
      bound<T>("stable_sum", x::of(r), S, 9, 16 * n * n, C);
      T m = (s.coin() ? stable_mean(A) : stable_mean(A, mk(d))).val();
      fin("stable_mean", m);
      bound<T>("n * stable_mean", x::mul(x::of(m), N), S, 18, 16 * n * n + 16, C);
      T q = (s.coin() ? semi_stable_sum(A) : semi_stable_sum(A, mk(d))).val();
      fin("semi_stable_sum", q);
      REQ(x::le_scaled(x::sub(x::of(q), S), std::min(n, 135L) + 4, -fpinfo<T>::digits, C), "semi_stable_sum<", tname<T>(), "> is ", str(q), ", exact ", x::approx(S));
      T a = (s.coin() ? stable_norm1(A) : stable_norm1(A, mk(d))).val();
      fin("stable_norm1", a);
      bound<T>("stable_norm1", x::of(a), C, 9, 16 * n * n, C);
      T b = (s.coin() ? stable_norm1_scaled(A) : stable_norm1_scaled(A, mk(d))).val();
      bound<T>("n * stable_norm1_scaled", x::mul(x::of(b), N), C, 18, 16 * n * n + 16, C);
   });
}

template <class T>
void prod(pbt::Src& s) {
   long n = s.range(0, 12);
   std::vector<T> v;
   for(long i = 0; i < n; ++i) v.push_back(finite<T>(s, n > 6 ? 3 : 5));
   T d = small<T>(s);
   s.note("product of ", str(v));
   s.nontrivial(n > 2);
   hold(s, v, [&](const auto& A) {
      if(v.empty()) {
         REQ(same(stable_prod(A), T(0)) && same(stable_prod(A, mk(d)), d));
         return;
      }
      D p = x::ofz(1);
      for(T y : v) p = x::mul(p, x::of(y));
      T r = (s.coin() ? stable_prod(A) : stable_prod(A, mk(d))).val();
      fin("stable_prod", r);
      bound<T>("stable_prod", x::of(r), p, 9, 64 * n * n, p);
   });
}

template <class T>
void dot(pbt::Src& s) {
   long n = s.chance(1, 6) ? count(s) : s.range(0, 14);
   std::vector<T> v, w;
   D S, C;
   int mode = static_cast<int>(s.below(3));
   for(long i = 0; i < n; ++i) {
      T a = finite<T>(s, lim<T>::dot), b = finite<T>(s, lim<T>::dot);
      if(mode && i > n / 2 && s.chance(2, 3)) {
         a = s.coin() ? T(1) : finite<T>(s, 2);
         if(a == T(0)) a = T(1);
         b = to<T>(x::neg(S)) / a;
      }
      if(s.chance(1, 8)) b = a;
      auto t = x::mul(x::of(a), x::of(b));
      S = x::add(S, t), C = x::add(C, x::abs(t));
      v.push_back(a), w.push_back(b);
   }
   T d = small<T>(s);
   s.note("dot of ", str(v), " and ", str(w));
   s.nontrivial(hard(S, C));
   if(hard(S, C)) s.label("cancelling dot product");
   auto run = [&](const auto& A, const auto& B) {
      if(v.empty()) {
         REQ(same(stable_dot_prod(A, B), T(0)) && same(stable_dot_prod(A, B, mk(d)), d) && same(semi_stable_dot_prod(A, B), T(0)) && same(semi_stable_dot_prod(A, B, mk(d)), d));
         return;
      }
      T r = (s.coin() ? stable_dot_prod(A, B) : stable_dot_prod(A, B, mk(d))).val();
      fin("stable_dot_prod", r);
      bound<T>("stable_dot_prod", x::of(r), S, 9, 16 * n * n, C);
      T q = (s.coin() ? semi_stable_dot_prod(A, B) : semi_stable_dot_prod(A, B, mk(d))).val();
      fin("semi_stable_dot_prod", q);
      REQ(x::le_scaled(x::sub(x::of(q), S), std::min(n, 135L) + 6, -fpinfo<T>::digits, C), "semi_stable_dot_prod<", tname<T>(), "> is ", str(q), ", exact ", x::approx(S));
   };
   if(s.chance(1, 4)) {
      std::vector<long> ds;
      for(long k = 1; k <= n; ++k)
         if(n % k == 0) ds.push_back(k);
      long m = n ? s.pick(ds) : 0, k = n ? n / m : 0;
      spp::Array2D<T> A(m, k), B(k, m);
      fill(A, v);
      for(long i = 0; i < m; ++i)
         for(long j = 0; j < k; ++j) B.un(j, i) = mk(w[static_cast<std::size_t>(i * k + j)]);
      run(A, transpose(B));
      if(m != k) REQ(rejected([&] { (void)stable_dot_prod(A, B); }) && rejected([&] { (void)semi_stable_dot_prod(A, B); }), "operands of different shape accepted");
      return;
   }
   hold1(s, v, [&](const auto& A) {
      spp::Array1D<T, spp::Aligned> B(n), B2(n + 1);
      fill(B, w);
      run(A, B);
      REQ(rejected([&] { (void)stable_dot_prod(A, B2); }) && rejected([&] { (void)stable_dot_prod(B2, A); }) && rejected([&] { (void)semi_stable_dot_prod(A, B2); }),
          "operands of different size accepted");
   });
}

template <class T>
void norms(pbt::Src& s) {
   long n = s.range(0, 12), lp = s.range(1, 8), bad = -s.range(0, 3);
   std::vector<T> v;
   for(long i = 0; i < n; ++i) v.push_back(finite<T>(s, 4));
   T d = small<T>(s);
   s.note("norms, power ", lp, " of ", str(v));
   s.nontrivial(n > 1);
   hold(s, v, [&](const auto& A) {
      if(v.empty()) {
         REQ(same(stable_norm2(A), T(0)) && same(stable_norm2_scaled(A), T(0)) && same(stable_norm_lp(A, lp), T(0)) && same(stable_norm_lp_scaled(A, lp), T(0)));
         REQ(same(stable_norm2(A, mk(d)), d) && same(stable_norm2_scaled(A, mk(d)), d) && same(stable_norm_lp(A, lp, mk(d)), d) && same(stable_norm_lp_scaled(A, lp, mk(d)), d));
         return;
      }
      REQ(rejected([&] { (void)stable_norm_lp(A, bad); }) && rejected([&] { (void)stable_norm_lp_scaled(A, bad); }), "exponent ", bad, " accepted");
      D s2, sp;
      for(T y : v) {
         auto a = x::abs(x::of(y));
         s2 = x::add(s2, x::mul(a, a)), sp = x::add(sp, x::pow(a, lp));
      }
      auto chk = [&](const char* what, T got, const D& factor, long p, const D& want, long k) {
         fin(what, got);
         REQ(got >= 0);
         bound<T>(what, x::mul(x::pow(x::of(got), p), factor), want, 8 * k, 64 * (n + p) * (n + p), want);
      };
      long lg = sp.m == 0 ? 0 : std::abs(static_cast<long>(boost::multiprecision::msb(sp.m)) + sp.e) + 1;
      chk("square of stable_norm2", (s.coin() ? stable_norm2(A) : stable_norm2(A, mk(d))).val(), x::ofz(1), 2, s2, 4);
      chk("n * square of stable_norm2_scaled", (s.coin() ? stable_norm2_scaled(A) : stable_norm2_scaled(A, mk(d))).val(), x::ofz(n), 2, s2, 9);
      chk("power of stable_norm_lp", (s.coin() ? stable_norm_lp(A, lp) : stable_norm_lp(A, lp, mk(d))).val(), x::ofz(1), lp, sp, 4 + 6 * lp + lg);
      chk("n * power of stable_norm_lp_scaled", (s.coin() ? stable_norm_lp_scaled(A, lp) : stable_norm_lp_scaled(A, lp, mk(d))).val(), x::ofz(n), lp, sp, 8 + 12 * lp + lg);
   });
}

template <class T>
void poly(pbt::Src& s) {
   long n = s.range(0, 9);
   T d = small<T>(s), x0 = finite<T>(s, lim<T>::pol / 2);
   std::vector<T> c;
   std::vector<long> p;
   bool wild = false;
   if(s.coin() && n) { // (t - 1)^(n-1) * scale near t = 1
      x0 = T(1) + fpinfo<T>::ldexp(static_cast<T>(s.range(0, 2000) - 1000), -static_cast<int>(s.range(8, fpinfo<T>::digits - 2)));
      long b = 1;
      T sc = s.coin() ? T(1) : T(3);
      for(long k = 0; k < n; ++k) {
         c.push_back(static_cast<T>((n - 1 - k) % 2 ? -b : b) * sc);
         b = b * (n - 1 - k) / (k + 1);
      }
   } else {
      for(long k = 0; k < n; ++k) c.push_back(finite<T>(s, lim<T>::coef));
      wild = true;
   }
   for(long k = 0; k < n; ++k) p.push_back(k);
   int form = static_cast<int>(s.below(3)); // polynomial, with powers, generalized
   std::vector<T> xs(static_cast<std::size_t>(n), x0);
   if(form > 0 && s.coin()) {
      auto q = s.perm(n);
      std::vector<T> c2;
      std::vector<long> p2;
      for(long i : q) c2.push_back(c[static_cast<std::size_t>(i)]), p2.push_back(p[static_cast<std::size_t>(i)]);
      c = c2, p = p2;
   }
   if(form == 2 && wild)
      for(auto& y : xs) y = finite<T>(s, lim<T>::pol / 2);
   long maxp = 0;
   D S, C;
   for(long i = 0; i < n; ++i) {
      auto k = static_cast<std::size_t>(i);
      auto t = x::mul(x::of(static_cast<T>(c[k])), x::pow(x::of(xs[k]), p[k]));
      S = x::add(S, t), C = x::add(C, x::abs(t));
      maxp = std::max(maxp, p[k]);
   }
   s.note("form ", form, " coefficients ", str(c), " at ", str(xs), " powers ", str(p));
   s.nontrivial(hard(S, C) || n > 2);
   if(hard(S, C)) s.label("cancelling polynomial");
   spp::Array1D<T> X(n);
   fill(X, xs);
   spp::Array1D<long> P(n), Pbad(n + 1), Pneg(n);
   for(long i = 0; i < n; ++i) P.un(i) = mk(p[static_cast<std::size_t>(i)]), Pneg.un(i) = P.un(i);
   if(n) Pneg.un(s.range(0, n - 1)) = mk(-s.range(1, 3));
   spp::Array1D<int> Q(P.size());
   for(long i = 0; i < n; ++i) Q.un(i) = P.un(i).si();
   hold1(s, c, [&](const auto& A) {
      T r;
      bool df = s.coin(), in = s.coin();
      if(form == 0) r = (df ? stable_polynomial(A, mk(x0), mk(d)) : stable_polynomial(A, mk(x0))).val();
      else if(form == 1) r = (df ? stable_polynomial(A, mk(x0), P, mk(d)) : in ? stable_polynomial(A, mk(x0), P) : stable_polynomial(A, mk(x0), Q)).val();
      else r = (df ? stable_gpolynomial(A, X, P, mk(d)) : in ? stable_gpolynomial(A, X(spp::place::all), P) : stable_gpolynomial(A, X, Q)).val();
      if(form > 0) REQ(rejected([&] { (void)stable_polynomial(A, mk(x0), Pbad); }) && rejected([&] { (void)stable_gpolynomial(A, X, Pbad); }), "powers of another size accepted");
      if(n) REQ(rejected([&] { (void)stable_polynomial(A, mk(x0), Pneg); }) && rejected([&] { (void)stable_gpolynomial(A, X, Pneg); }), "negative power accepted");
      if(!n) {
         REQ(same(r, df ? d : T(0)), "empty polynomial is ", str(r));
         return;
      }
      fin("polynomial", r);
      bound<T>(form == 0 ? "stable_polynomial" : form == 1 ? "stable_polynomial with powers" : "stable_gpolynomial", x::of(r), S, 9, 8 * (8 * n * n + 8 * maxp * maxp + 16), C);
   });
}
} // namespace sb
