// C13: reductions and queries against their definition on plain sequences and matrices.
#pragma once
#include "exact.hpp"
#include "objs.hpp"

namespace rd {
using namespace o;
namespace x = exact;

template <class T>
T gen_sum(pbt::Src& s) { // bounded values on which reductions neither overflow nor underflow
   if constexpr(is_fp<T>) return s.coin() ? small<T>(s) : finite<T>(s, 12);
   else return small<T>(s);
}
template <class T>
T gen_any(pbt::Src& s) { // everything that can be ordered
   T v = any<T>(s);
   if constexpr(is_fp<T>) {
      if(fpinfo<T>::isnan(v)) v = T(0);
   }
   return v;
}

// The exact value `want` with an absolute error of at most k * 2^-digits * scale.
template <class T>
void near(const char* what, T got, const x::D& want, long k, const x::D& scale) {
   REQ(fpinfo<T>::isfinite(got), what, " is ", str(got), ", expected about ", x::approx(want));
   REQ(x::le_scaled(x::sub(x::of(got), want), k, -fpinfo<T>::digits, scale), what, " is ", str(got), ", expected ", x::approx(want), " (error ",
       x::approx(x::sub(x::of(got), want)), ", allowed ", k, " ulps of ", x::approx(scale), ")");
}

template <class T>
struct P1 { // some predicate on elements
   int k;
   T a;
   bool operator()(T y) const {
      switch(k) {
         case 0: return y > a;
         case 1: return y == a;
         case 2: return y != a;
         default: return true;
      }
   }
   auto f() const {
      return [p = *this](auto y) { return spp::StrictBool{p(y.val())}; };
   }
};

// functions of every element type
template <class T, class X>
void predicates(pbt::Src& s, const X& A, const std::vector<T>& v) {
   const bool e = v.empty();
   const bool d = s.coin();
   const spp::StrictBool D{d};
   T x0 = e || s.coin() ? gen_any<T>(s) : s.pick(v);
   P1<T> p{static_cast<int>(s.below(4)), e || s.coin() ? gen_any<T>(s) : s.pick(v)};
   auto any = std::any_of(v.begin(), v.end(), p), all = std::all_of(v.begin(), v.end(), p);
   P1<T> q{1, x0};
   auto anyx = std::any_of(v.begin(), v.end(), q), allx = std::all_of(v.begin(), v.end(), q);
   auto want = [&](bool r, bool dflt) { return e ? dflt : r; };
   s.note("predicate ", p.k, " with ", str(p.a), ", value ", str(x0), ", default ", d);
   REQ(any_of(A, p.f()).val() == want(any, false), "any_of(A, f)");
   REQ(any_of(A, p.f(), D).val() == want(any, d), "any_of(A, f, default)");
   REQ(all_of(A, p.f()).val() == want(all, false), "all_of(A, f)");
   REQ(all_of(A, p.f(), D).val() == want(all, d), "all_of(A, f, default)");
   REQ(none_of(A, p.f()).val() == want(!any, false), "none_of(A, f)");
   REQ(none_of(A, p.f(), D).val() == want(!any, d), "none_of(A, f, default)");
   REQ(any_of(A, mk(x0)).val() == want(anyx, false), "any_of(A, x)");
   REQ(any_of(A, mk(x0), D).val() == want(anyx, d), "any_of(A, x, default)");
   REQ(all_of(A, mk(x0)).val() == want(allx, false), "all_of(A, x)");
   REQ(all_of(A, mk(x0), D).val() == want(allx, d), "all_of(A, x, default)");
   REQ(none_of(A, mk(x0)).val() == want(!anyx, false), "none_of(A, x)");
   REQ(none_of(A, mk(x0), D).val() == want(!anyx, d), "none_of(A, x, default)");
   if constexpr(!is_bool<T>) {
   REQ(any_of(A, spp::Value{mk(x0)}, D).val() == want(anyx, d), "any_of(A, Value, default)");
   REQ(all_of(A, spp::Value{mk(x0)}, D).val() == want(allx, d), "all_of(A, Value, default)");
   REQ(none_of(A, spp::Value{mk(x0)}, D).val() == want(!anyx, d), "none_of(A, Value, default)");
   }
}

template <class T, class X>
void signs(pbt::Src& s, const X& A, const std::vector<T>& v) {
   const bool e = v.empty();
   const bool d = s.coin();
   const spp::StrictBool D{d};
   auto all = [&](auto f) { return std::all_of(v.begin(), v.end(), f); };
   auto z = [](T y) { return y == T(0); };
#define RD_S(fn, want)                                                \
   REQ(fn(A).val() == (e ? false : (want)), #fn " of ", str(v));      \
   REQ(fn(A, D).val() == (e ? d : (want)), #fn " with default of ", str(v))
   RD_S(has_zero, std::any_of(v.begin(), v.end(), z));
   RD_S(all_zeros, all(z));
   RD_S(all_pos, all([](T y) { return y > T(0); }));
   RD_S(all_neg, all([](T y) { return y < T(0); }));
   RD_S(all_non_pos, all([](T y) { return y <= T(0); }));
   RD_S(all_non_neg, all([](T y) { return y >= T(0); }));
#undef RD_S
}

template <class T, class X>
void extrema(pbt::Src& s, const X& A, const std::vector<T>& v, long cols /* 0: 1D */) {
   T d = gen_any<T>(s);
   if(v.empty()) {
      REQ(min(A).val() == T(0) && max(A).val() == T(0), "extremum of an empty object");
      REQ(same(min(A, mk(d)), d) && same(max(A, mk(d)), d), "default of an empty object");
      if constexpr(X::dimension() == spp::index_t{1L}) {
         REQ(min_index(A).first.val() == -1 && max_index(A).first.val() == -1);
         REQ(same(min_index(A, {spp::index_t{7L}, mk(d)}).second, d) && max_index(A, {spp::index_t{7L}, mk(d)}).first.val() == 7);
      } else {
         REQ(std::get<0>(min_index(A)).val() == -1 && std::get<1>(max_index(A)).val() == -1);
         REQ(same(std::get<2>(min_index(A, {spp::index_t{7L}, spp::index_t{8L}, mk(d)})), d));
         REQ(std::get<1>(max_index(A, {spp::index_t{7L}, spp::index_t{8L}, mk(d)})).val() == 8);
      }
      return;
   }
   auto mn = std::min_element(v.begin(), v.end()), mx = std::max_element(v.begin(), v.end());
   REQ(min(A).val() == *mn, "min is ", str(min(A)), " of ", str(v));
   REQ(max(A).val() == *mx, "max is ", str(max(A)), " of ", str(v));
   REQ(min(A, mk(d)).val() == *mn && max(A, mk(d)).val() == *mx, "default used on a non-empty object");
   long in = mn - v.begin(), ix = mx - v.begin();
   if constexpr(X::dimension() == spp::index_t{1L}) {
      auto a = min_index(A), b = max_index(A);
      REQ(a.first.val() == in && a.second.val() == *mn, "min_index is ", a.first.val(), ", ", str(a.second), " of ", str(v));
      REQ(b.first.val() == ix && b.second.val() == *mx, "max_index is ", b.first.val(), ", ", str(b.second), " of ", str(v));
   } else {
      auto a = min_index(A), b = max_index(A);
      REQ(std::get<0>(a).val() == in / cols && std::get<1>(a).val() == in % cols && std::get<2>(a).val() == *mn, "min_index is ",
          std::get<0>(a).val(), ",", std::get<1>(a).val(), " of ", str(v), " with ", cols, " columns");
      REQ(std::get<0>(b).val() == ix / cols && std::get<1>(b).val() == ix % cols && std::get<2>(b).val() == *mx, "max_index is ",
          std::get<0>(b).val(), ",", std::get<1>(b).val(), " of ", str(v), " with ", cols, " columns");
   }
}

template <class T>
x::D dsum(const std::vector<T>& v, bool abs) {
   x::D r;
   for(T y : v) r = x::add(r, abs ? x::abs(x::of(y)) : x::of(y));
   return r;
}

template <class T, class X>
void sums(pbt::Src& s, const X& A, const std::vector<T>& v) {
   T d = small<T>(s);
   const long n = static_cast<long>(v.size());
   if(v.empty()) {
      REQ(same(sum(A), T(0)) && same(prod(A), T(0)), "sum or product of an empty object");
      REQ(same(sum(A, mk(d)), d) && same(prod(A, mk(d)), d), "default");
      return;
   }
   if constexpr(is_fp<T>) {
      near("sum", sum(A).val(), dsum(v, false), n + 1, dsum(v, true));
      near("sum with default", sum(A, mk(d)).val(), dsum(v, false), n + 1, dsum(v, true));
      x::D p = x::ofz(1);
      for(T y : v) p = x::mul(p, x::of(y));
      near("prod", prod(A).val(), p, n + 1, p);
      near("prod with default", prod(A, mk(d)).val(), p, n + 1, p);
   } else {
      T a = 0, p = 1;
      for(T y : v) a += y, p *= y;
      REQ(sum(A).val() == a && sum(A, mk(d)).val() == a, "sum is ", str(sum(A)), " of ", str(v));
      REQ(prod(A).val() == p && prod(A, mk(d)).val() == p, "prod is ", str(prod(A)), " of ", str(v));
   }
}

template <class T, class X, class Y>
void dots(pbt::Src& s, const X& A, const Y& B, const std::vector<T>& v, const std::vector<T>& w) {
   T d = small<T>(s);
   auto got = dot_prod(A, B).val(), got2 = dot_prod(A, B, mk(d)).val();
   if(v.empty()) {
      REQ(same(got, T(0)) && same(got2, d), "dot_prod of empty objects");
      return;
   }
   if constexpr(is_fp<T>) {
      x::D r, a;
      for(std::size_t i = 0; i < v.size(); ++i) {
         auto t = x::mul(x::of(static_cast<T>(v[i])), x::of(static_cast<T>(w[i])));
         r = x::add(r, t), a = x::add(a, x::abs(t));
      }
      near("dot_prod", got, r, static_cast<long>(v.size()) + 2, a);
      near("dot_prod with default", got2, r, static_cast<long>(v.size()) + 2, a);
   } else {
      T r = 0;
      for(std::size_t i = 0; i < v.size(); ++i) r += static_cast<T>(v[i] * w[i]);
      REQ(got == r && got2 == r, "dot_prod is ", str(got), ", expected ", str(r), " of ", str(v), " and ", str(w));
   }
}

template <class T, class X, class Y>
void pairs(pbt::Src& s, const X& A, const Y& B, const std::vector<T>& v, const std::vector<T>& w) {
   bool d = s.coin(), e = v.empty();
   spp::StrictBool D{d};
   int k = static_cast<int>(s.below(3));
   auto f0 = [k](T a, T b) { return k == 0 ? a == b : k == 1 ? a != b : a < b; };
   auto f = [f0](auto a, auto b) { return spp::StrictBool{f0(a.val(), b.val())}; };
   bool any = false, all = true;
   for(std::size_t i = 0; i < v.size(); ++i) {
      bool r = f0(v[i], w[i]);
      any = any || r, all = all && r;
   }
   REQ(spp::any_of(A, B, f).val() == (e ? false : any), "any_of(A, B, f)");
   REQ(spp::any_of(A, B, f, D).val() == (e ? d : any), "any_of(A, B, f, default)");
   REQ(spp::all_of(A, B, f).val() == (e ? false : all), "all_of(A, B, f)");
   REQ(spp::all_of(A, B, f, D).val() == (e ? d : all), "all_of(A, B, f, default)");
   REQ(spp::none_of(A, B, f).val() == (e ? false : !any), "none_of(A, B, f)");
   REQ(spp::none_of(A, B, f, D).val() == (e ? d : !any), "none_of(A, B, f, default)");
}
template <class X, class Y>
void pairs_rejected(const X& A, const Y& B) {
   auto f = [](auto, auto) { return spp::true_sb; };
   REQ(rejected([&] { (void)spp::any_of(A, B, f); }), "any_of of different sizes accepted");
   REQ(rejected([&] { (void)spp::all_of(A, B, f); }), "all_of of different sizes accepted");
   REQ(rejected([&] { (void)spp::none_of(A, B, f); }), "none_of of different sizes accepted");
   using T = spp::BuiltinTypeOf<X>;
   if constexpr(!is_bool<T>) {
      REQ(rejected([&] { (void)dot_prod(A, B); }), "dot_prod of different sizes accepted");
      REQ(rejected([&] { (void)dot_prod(B, A); }), "dot_prod of different sizes accepted");
   }
}

template <class T, class X>
void finiteness(pbt::Src& s, const X& A, const std::vector<T>& v) {
   const bool e = v.empty(), d = s.coin();
   const spp::StrictBool D{d};
   bool fin = true, inf = false, nan = false;
   for(T y : v) {
      bool n = fpinfo<T>::isnan(y), f = fpinfo<T>::isfinite(y);
      fin = fin && f, nan = nan || n, inf = inf || (!n && !f);
   }
   REQ(all_finite(A).val() == (e ? true : fin) && all_finite(A, D).val() == (e ? d : fin), "all_finite of ", str(v));
   REQ(has_inf(A).val() == (e ? false : inf) && has_inf(A, D).val() == (e ? d : inf), "has_inf of ", str(v));
   REQ(has_nan(A).val() == (e ? false : nan) && has_nan(A, D).val() == (e ? d : nan), "has_nan of ", str(v));
}

template <class T, class X>
void norms(pbt::Src& s, const X& A, const std::vector<T>& v) {
   T d = small<T>(s);
   auto D = mk(d);
   long lp = s.range(1, 6);
   const long n = static_cast<long>(v.size());
   long bad = -s.range(0, 2);
   if(v.empty()) {
      T z(0);
      REQ(same(mean(A), z) && same(norm_inf(A), z) && same(norm1(A), z) && same(norm1_scaled(A), z) && same(norm2(A), z) && same(norm2_scaled(A), z)
             && same(norm_lp(A, lp), z) && same(norm_lp_scaled(A, lp), z),
          "empty object without default");
      REQ(same(mean(A, D), d) && same(norm_inf(A, D), d) && same(norm1(A, D), d) && same(norm1_scaled(A, D), d) && same(norm2(A, D), d)
             && same(norm2_scaled(A, D), d) && same(norm_lp(A, lp, D), d) && same(norm_lp_scaled(A, lp, D), d),
          "empty object with default");
      return;
   }
   REQ(rejected([&] { (void)norm_lp(A, bad); }), "norm_lp with exponent ", bad, " accepted");
   REQ(rejected([&] { (void)norm_lp_scaled(A, bad); }), "norm_lp_scaled with exponent ", bad, " accepted");
   auto as = dsum(v, true), nd = x::ofz(n);
   T mx = 0;
   for(T y : v) mx = std::max<T>(mx, y < 0 ? -y : y);
   REQ(norm_inf(A).val() == mx && norm_inf(A, D).val() == mx, "norm_inf is ", str(norm_inf(A)), " of ", str(v));
   near("norm1", norm1(A).val(), as, n + 1, as);
   near("norm1 with default", norm1(A, D).val(), as, n + 1, as);
   auto chk = [&](const char* what, T got, const x::D& factor, long p, const x::D& want, long k, const x::D& scale) { // got^p * factor == want
      REQ(fpinfo<T>::isfinite(got), what, " is ", str(got));
      auto g = x::mul(x::pow(x::of(got), p), factor);
      REQ(x::le_scaled(x::sub(g, want), k, -fpinfo<T>::digits, scale), what, " is ", str(got), " of ", str(v), " (power ", p, ": ", x::approx(g), ", expected ",
          x::approx(want), ")");
      if(p > 1) REQ(got >= 0, what, " is negative");
   };
   chk("mean", mean(A).val(), nd, 1, dsum(v, false), n + 4, as);
   chk("mean with default", mean(A, D).val(), nd, 1, dsum(v, false), n + 4, as);
   chk("norm1_scaled", norm1_scaled(A).val(), nd, 1, as, n + 4, as);
   chk("norm1_scaled with default", norm1_scaled(A, D).val(), nd, 1, as, n + 4, as);
   x::D s2, sp;
   for(T y : v) {
      auto a = x::abs(x::of(y));
      s2 = x::add(s2, x::mul(a, a)), sp = x::add(sp, x::pow(a, lp));
   }
   chk("norm2", norm2(A).val(), x::ofz(1), 2, s2, n + 8, s2);
   chk("norm2 with default", norm2(A, D).val(), x::ofz(1), 2, s2, n + 8, s2);
   chk("norm2_scaled", norm2_scaled(A).val(), nd, 2, s2, n + 16, s2);
   chk("norm2_scaled with default", norm2_scaled(A, D).val(), nd, 2, s2, n + 16, s2);
   long lg = sp.m == 0 ? 0 : std::abs(static_cast<long>(boost::multiprecision::msb(sp.m)) + sp.e) + 1;
   long k = 2 * n + 16 * lp + 2 * lg + 16;
   chk("norm_lp", norm_lp(A, lp).val(), x::ofz(1), lp, sp, k, sp);
   chk("norm_lp with default", norm_lp(A, lp, D).val(), x::ofz(1), lp, sp, k, sp);
   chk("norm_lp_scaled", norm_lp_scaled(A, lp).val(), nd, lp, sp, k + 16 * lp, sp);
   chk("norm_lp_scaled with default", norm_lp_scaled(A, lp, D).val(), nd, lp, sp, k + 16 * lp, sp);
}

template <class T>
T ipow(T b, long p) {
   T r = 1;
   for(long i = 0; i < p; ++i) r *= b;
   return r;
}
// Sum of c_i x_i^p_i, its absolute version and comparison.
template <class T>
void polyval(const char* what, T got, const std::vector<T>& c, const std::vector<T>& xs, const std::vector<long>& p, long k) {
   if constexpr(is_fp<T>) {
      x::D r, a;
      for(std::size_t i = 0; i < c.size(); ++i) {
         auto t = x::mul(x::of(static_cast<T>(c[i])), x::pow(x::of(static_cast<T>(xs[i])), p[i]));
         r = x::add(r, t), a = x::add(a, x::abs(t));
      }
      near(what, got, r, k, a);
   } else {
      T r = 0;
      for(std::size_t i = 0; i < c.size(); ++i) r += static_cast<T>(c[i] * ipow<T>(xs[i], p[i]));
      REQ(got == r, what, " is ", str(got), ", expected ", str(r), " coefficients ", str(c), " arguments ", str(xs), " powers ", str(p));
   }
}

template <class T, class X>
void polys(pbt::Src& s, const X& A, const std::vector<T>& c) {
   T d = small<T>(s), x0;
   long n = static_cast<long>(c.size());
   if constexpr(is_fp<T>) x0 = s.coin() ? small<T>(s) : finite<T>(s, 3);
   else x0 = static_cast<T>(small<T>(s) / 3);
   std::vector<T> xs(c.size(), x0);
   s.note("x ", str(x0));
   T g = polynomial(A, mk(x0)).val(), gd = polynomial(A, mk(x0), mk(d)).val();
   if(c.empty()) {
      REQ(same(g, T(0)) && same(gd, d), "polynomial without coefficients");
   } else {
      polyval("polynomial", g, c, xs, iota(n), 2 * n + 2);
      polyval("polynomial with default", gd, c, xs, iota(n), 2 * n + 2);
   }
}
template <class T, class X>
void gpolys(pbt::Src& s, const X& A, const std::vector<T>& c) {
   T d = small<T>(s), x0;
   long n = static_cast<long>(c.size());
   if constexpr(is_fp<T>) x0 = s.coin() ? small<T>(s) : finite<T>(s, 3);
   else x0 = static_cast<T>(small<T>(s) / 3);
   std::vector<T> xs(c.size(), x0);
   long m = s.chance(1, 8) ? n + 1 - s.range(0, 1) * (n ? 2 : 0) : n;
   std::vector<long> p;
   bool neg = s.chance(1, 8);
   for(long i = 0; i < m; ++i) p.push_back(s.range(0, 6));
   if(neg && m) p[s.below(static_cast<std::uint64_t>(m))] = -s.range(1, 3);
   else neg = false;
   spp::Array1D<long> P(m);
   spp::Array1D<int> Q0(m);
   for(long i = 0; i < m; ++i) P.un(m - 1 - i) = mk(p[static_cast<std::size_t>(i)]), Q0.un(i) = mk(static_cast<int>(p[static_cast<std::size_t>(i)]));
   auto PR = P(spp::place::reverse);
   s.note("x ", str(x0), " powers ", str(p));
   bool bad = m != n || (neg && n);
   auto run = [&](const auto& W) {
      if(bad) {
         REQ(rejected([&] { (void)polynomial(A, mk(x0), W); }), "polynomial with powers ", str(p), " and ", n, " coefficients accepted");
         REQ(rejected([&] { (void)gpolynomial(A, A, W); }), "gpolynomial with powers ", str(p), " and ", n, " coefficients accepted");
         return;
      }
      T g = polynomial(A, mk(x0), W).val(), gd = polynomial(A, mk(x0), W, mk(d)).val();
      std::vector<T> ys;
      for(long i = 0; i < n; ++i) {
         if constexpr(is_fp<T>) ys.push_back(s.coin() ? small<T>(s) : finite<T>(s, 3));
         else ys.push_back(static_cast<T>(small<T>(s) / 3));
      }
      spp::Array1D<T> Y(n);
      fill(Y, ys);
      T h = gpolynomial(A, Y, W).val(), hd = gpolynomial(A, Y, W, mk(d)).val();
      if(c.empty()) {
         REQ(same(g, T(0)) && same(gd, d) && same(h, T(0)) && same(hd, d), "polynomial without coefficients");
         return;
      }
      polyval("polynomial with powers", g, c, xs, p, 2 * n + 16);
      polyval("polynomial with powers and default", gd, c, xs, p, 2 * n + 16);
      polyval("gpolynomial", h, c, ys, p, 2 * n + 16);
      polyval("gpolynomial with default", hd, c, ys, p, 2 * n + 16);
      spp::Array1D<T> Y2(n + 1);
      REQ(rejected([&] { (void)gpolynomial(A, Y2, W); }), "gpolynomial with ", n + 1, " arguments for ", n, " coefficients accepted");
   };
   if(s.coin()) run(PR);
   else run(Q0);
}

template <class T, class X>
void raw_copy(pbt::Src&, const X& A, const std::vector<T>& v) {
   auto p = blas_array(A);
   if(v.empty()) {
      REQ(p == nullptr, "blas_array of an empty object");
      return;
   }
   for(std::size_t i = 0; i < v.size(); ++i) REQ(same(p[i], v[i]), "blas_array element ", i, " is ", str(p[i]), " of ", str(v));
}

// A second operand holding w.
template <class T, class F>
void second1(pbt::Src& s, const std::vector<T>& w, F&& f) {
   long n = static_cast<long>(w.size());
   if(s.coin()) {
      spp::Array1D<T> B(n);
      fill(B, w);
      return f(B);
   }
   spp::Array1D<T> B(n);
   fill(B, std::vector<T>(w.rbegin(), w.rend()));
   std::vector<long> m;
   for(long i = n - 1; i >= 0; --i) m.push_back(i);
   return f(B(il(m)));
}
template <class T, class F>
void second2(pbt::Src& s, const Mat<T>& w, F&& f) {
   spp::Array2D<T> B(w.m, w.n);
   if(s.coin()) {
      fill(B, w.v);
      return f(B);
   }
   std::vector<long> m;
   for(long i = w.m - 1; i >= 0; --i) m.push_back(i);
   for(long i = 0; i < w.m; ++i)
      for(long j = 0; j < w.n; ++j) B.un(w.m - 1 - i, j) = mk(w.get(i, j));
   return f(B.rows(il(m)));
}
template <class T>
std::vector<T> vary(pbt::Src& s, const std::vector<T>& v, T (*gen)(pbt::Src&)) {
   auto w = v;
   int k = static_cast<int>(s.below(3));
   if(k == 0 || w.empty()) return w;
   if(k == 1) {
      w[s.below(w.size())] = gen(s);
      return w;
   }
   for(std::size_t i = 0; i < w.size(); ++i) w[i] = gen(s);
   return w;
}

template <class T>
bool eqv(const std::vector<T>& v, const std::vector<T>& w) {
   if(v.size() != w.size()) return false;
   for(std::size_t i = 0; i < v.size(); ++i)
      if(!(v[i] == w[i])) return false;
   return true;
}

// Equality of two 1D objects; sizes may differ.
template <class T, class X>
void equality1(pbt::Src& s, const X& A, const std::vector<T>& v) {
   auto w = vary(s, v, &any<T>);
   if(s.chance(1, 3)) s.coin() || w.empty() ? w.push_back(small<T>(s)) : w.pop_back();
   bool r = eqv(v, w);
   second1<T>(s, w, [&](const auto& B) {
      REQ((A == B).val() == r && (B == A).val() == r, "== of ", str(v), " and ", str(w));
      REQ((A != B).val() == !r && (B != A).val() == !r, "!= of ", str(v), " and ", str(w));
      REQ(spp::equal(A, B).val() == r && spp::equal(B, A).val() == r, "equal of ", str(v), " and ", str(w));
      REQ(same_size(A, B).val() == (v.size() == w.size()) && same_size(B, A, B).val() == (v.size() == w.size()) && same_size(A, A, B).val() == (v.size() == w.size()), "same_size");
   });
   auto st = [&](std::size_t i) { return mk(static_cast<T>(w[i])); };
   if(w.size() == 1) REQ(equal(A, {st(0)}).val() == r && equal({st(0)}, A).val() == r, "equal with list of ", str(v), " and ", str(w));
   if(w.size() == 2) REQ(equal(A, {st(0), st(1)}).val() == r && equal({st(0), st(1)}, A).val() == r, "equal with list of ", str(v), " and ", str(w));
   if(w.size() == 3) REQ(equal(A, {st(0), st(1), st(2)}).val() == r, "equal with list of ", str(v), " and ", str(w));
}
template <class T, class X>
void equality2(pbt::Src& s, const X& A, const Mat<T>& v) {
   Mat<T> w = v;
   w.v = vary(s, v.v, &any<T>);
   if(s.chance(1, 3)) {
      auto [m, n] = shape(s, 3);
      if(s.coin()) m = v.n, n = v.m; // same number of elements, other shape
      Mat<T> z(m, n);
      for(std::size_t i = 0; i < z.v.size(); ++i) z.v[i] = i < v.v.size() ? static_cast<T>(v.v[i]) : T(0);
      w = z;
   }
   bool ss = v.m == w.m && v.n == w.n, r = ss && eqv(v.v, w.v);
   second2<T>(s, w, [&](const auto& B) {
      REQ((A == B).val() == r && (B == A).val() == r, "== of ", str(v), " and ", str(w));
      REQ((A != B).val() == !r && (B != A).val() == !r, "!= of ", str(v), " and ", str(w));
      REQ(spp::equal(A, B).val() == r && spp::equal(B, A).val() == r, "equal of ", str(v), " and ", str(w));
      REQ(same_size(A, B).val() == ss && same_size(B, A, B).val() == ss && same_size(A, A, B).val() == ss, "same_size");
   });
   auto st = [&](long i, long j) { return mk(w.get(i, j)); };
   if(w.m == 1 && w.n == 2) REQ(equal(A, {{st(0, 0), st(0, 1)}}).val() == r, "equal with list of ", str(v), " and ", str(w));
   if(w.m == 2 && w.n == 1) REQ(equal(A, {{st(0, 0)}, {st(1, 0)}}).val() == r && equal({{st(0, 0)}, {st(1, 0)}}, A).val() == r, "equal with list of ", str(v), " and ", str(w));
   if(w.m == 2 && w.n == 2) REQ(equal(A, {{st(0, 0), st(0, 1)}, {st(1, 0), st(1, 1)}}).val() == r, "equal with list of ", str(v), " and ", str(w));
}

template <bool Full, class T, class G, class F>
void obj1(pbt::Src& s, long maxn, G gen, F&& f) {
   auto h = [&](auto&& A, Info1<T>& in) {
      s.note(in.kind, " ", str(in.v));
      s.nontrivial(in.v.size() > 1);
      if(in.v.empty()) s.label("empty");
      const auto before = in.reg.p ? in.reg.get() : std::vector<T>{};
      f(A, in.v);
      if(in.reg.p) REQ(same(in.reg.get(), before), "operand changed");
   };
   if constexpr(Full) return any1<T>(s, maxn, gen, h);
   else {
      Info1<T> in;
      long n = s.range(0, maxn);
      spp::Array1D<T> A(n);
      auto b = seqv<T>(s, n, gen);
      fill(A, b);
      in.v = b, in.map = iota(n), in.reg = region(A), in.kind = "Array1D";
      if(s.coin()) return h(A, in);
      std::reverse(in.v.begin(), in.v.end());
      in.kind = "reversed";
      return h(A(spp::place::reverse), in);
   }
}
template <bool Full, class T, class G, class F>
void obj2(pbt::Src& s, long maxn, G gen, F&& f) {
   auto h = [&](auto&& A, Info2<T>& in) {
      s.note(in.kind, " ", str(in.v));
      s.nontrivial(in.v.v.size() > 1);
      if(in.v.v.empty()) s.label("empty");
      const auto before = in.reg.p ? in.reg.get() : std::vector<T>{};
      f(A, in.v);
      if(in.reg.p) REQ(same(in.reg.get(), before), "operand changed");
   };
   if constexpr(Full) return any2<T>(s, maxn, gen, h);
   else {
      Info2<T> in;
      auto [m, n] = shape(s, maxn);
      spp::Array2D<T> A(m, n);
      in.v = Mat<T>(m, n);
      in.v.v = seqv<T>(s, m * n, gen);
      fill(A, in.v.v);
      in.reg = region(A);
      in.kind = "Array2D";
      if(s.coin()) return h(A, in);
      Mat<T> r(m, n);
      for(long i = 0; i < m; ++i)
         for(long j = 0; j < n; ++j) r.set(i, j, in.v.get(m - 1 - i, j));
      in.v = r;
      in.kind = "reversed rows";
      return h(A(spp::place::reverse, spp::place::all), in);
   }
}

template <class T, bool Full>
void sums1(pbt::Src& s) {
   obj1<Full, T>(s, is_fp<T> && s.chance(1, 4) ? 40 : 6, &gen_sum<T>, [&](auto& A, const std::vector<T>& v0) {
      std::vector<T> v = v0;
      if constexpr(is_sint<T>) {
         if(v.size() > 7) return;
      }
      sums<T>(s, A, v);
   });
}
template <class T, bool Full>
void sums2(pbt::Src& s) {
   obj2<Full, T>(s, is_fp<T> ? 4 : 2, &gen_sum<T>, [&](auto& A, const Mat<T>& v) { sums<T>(s, A, v.v); });
}
template <class T, bool Full>
void ext1(pbt::Src& s) {
   auto g = s.coin() ? &gen_any<T> : &small<T>;
   obj1<Full, T>(s, 7, g, [&](auto& A, const std::vector<T>& v) { extrema<T>(s, A, v, 0); });
}
template <class T, bool Full>
void ext2(pbt::Src& s) {
   auto g = s.coin() ? &gen_any<T> : &small<T>;
   obj2<Full, T>(s, 4, g, [&](auto& A, const Mat<T>& v) { extrema<T>(s, A, v.v, v.n); });
}
template <class T>
T gen_nan(pbt::Src& s) { // unordered values too
   if constexpr(is_fp<T>) {
      if(s.chance(1, 6)) return fpinfo<T>::nan();
   }
   return s.coin() ? gen_any<T>(s) : small<T>(s);
}
template <class T, bool Full>
void pred1(pbt::Src& s) {
   auto g = s.coin() ? &gen_any<T> : s.coin() ? &gen_nan<T> : &small<T>;
   obj1<Full, T>(s, 5, g, [&](auto& A, const std::vector<T>& v) { predicates<T>(s, A, v); });
}
template <class T, bool Full>
void pred2(pbt::Src& s) {
   auto g = s.coin() ? &gen_any<T> : s.coin() ? &gen_nan<T> : &small<T>;
   obj2<Full, T>(s, 3, g, [&](auto& A, const Mat<T>& v) { predicates<T>(s, A, v.v); });
}
template <class T>
T gen_sign(pbt::Src& s) {
   if constexpr(is_fp<T>) {
      if(s.chance(1, 12)) return fpinfo<T>::nan();
   }
   return s.coin() ? T(0) : s.coin() ? small<T>(s) : gen_any<T>(s);
}
template <class T, bool Full>
void sign1(pbt::Src& s) {
   int k = static_cast<int>(s.below(4));
   bool nans = s.chance(1, 3);
   auto g = [k, nans](pbt::Src& q) {
      if constexpr(is_fp<T>) {
         if(nans && q.chance(1, 5)) return fpinfo<T>::nan();
      }
      T a = gen_sign<T>(q);
      if(k == 0) return a;
      if constexpr(!is_uint<T>) {
         if constexpr(is_sint<T>) {
            if(a == std::numeric_limits<T>::min()) return T(-1);
         }
         if(k == 2 && a > T(0)) return T(-a);
         if(k == 1 && a < T(0)) return T(-a);
      }
      return k == 3 ? T(0) : a;
   };
   obj1<Full, T>(s, 5, g, [&](auto& A, const std::vector<T>& v) { signs<T>(s, A, v); });
}
template <class T, bool Full>
void sign2(pbt::Src& s) {
   obj2<Full, T>(s, 2, &gen_sign<T>, [&](auto& A, const Mat<T>& v) { signs<T>(s, A, v.v); });
}
template <class T, bool Full>
void dot1(pbt::Src& s) {
   obj1<Full, T>(s, 6, &gen_sum<T>, [&](auto& A, const std::vector<T>& v) {
      if(s.chance(1, 6)) {
         long n = static_cast<long>(v.size()) + (v.empty() || s.coin() ? 1 : -1);
         spp::Array1D<T> B(n);
         return pairs_rejected(A, B);
      }
      auto w = vary(s, v, &gen_sum<T>);
      second1<T>(s, w, [&](const auto& B) {
         pairs<T>(s, A, B, v, w);
         if constexpr(!is_bool<T>) {
            dots<T>(s, A, B, v, w);
            dots<T>(s, B, A, w, v);
            dots<T>(s, A, A, v, v);
         }
      });
      pairs<T>(s, A, A, v, v);
   });
}
template <class T, bool Full>
void dot2(pbt::Src& s) {
   obj2<Full, T>(s, 3, &gen_sum<T>, [&](auto& A, const Mat<T>& v) {
      if(s.chance(1, 5)) {
         long m = v.n, n = v.m;
         if(m == n) m = 3, n = v.n + 1;
         spp::Array2D<T> B(m, n);
         return pairs_rejected(A, B);
      }
      auto w = v;
      w.v = vary(s, v.v, &gen_sum<T>);
      second2<T>(s, w, [&](const auto& B) {
         pairs<T>(s, A, B, v.v, w.v);
         if constexpr(!is_bool<T>) {
            dots<T>(s, A, B, v.v, w.v);
            dots<T>(s, B, A, w.v, v.v);
         }
      });
      pairs<T>(s, A, A, v.v, v.v);
   });
}
template <class T, bool Full>
void eq1(pbt::Src& s) {
   obj1<Full, T>(s, 4, &any<T>, [&](auto& A, const std::vector<T>& v) { equality1<T>(s, A, v); });
}
template <class T, bool Full>
void eq2(pbt::Src& s) {
   obj2<Full, T>(s, 3, &any<T>, [&](auto& A, const Mat<T>& v) { equality2<T>(s, A, v); });
}
template <class T, bool Full>
void fin1(pbt::Src& s) {
   auto g = s.coin() ? &any<T> : &small<T>;
   obj1<Full, T>(s, 5, g, [&](auto& A, const std::vector<T>& v) { finiteness<T>(s, A, v); });
}
template <class T, bool Full>
void fin2(pbt::Src& s) {
   auto g = s.coin() ? &any<T> : &small<T>;
   obj2<Full, T>(s, 3, g, [&](auto& A, const Mat<T>& v) { finiteness<T>(s, A, v.v); });
}
template <class T, bool Full>
void norm_1(pbt::Src& s) {
   obj1<Full, T>(s, 8, &gen_sum<T>, [&](auto& A, const std::vector<T>& v) { norms<T>(s, A, v); });
}
template <class T, bool Full>
void norm_2(pbt::Src& s) {
   obj2<Full, T>(s, 3, &gen_sum<T>, [&](auto& A, const Mat<T>& v) { norms<T>(s, A, v.v); });
}
template <class T, bool Full>
void poly1(pbt::Src& s) {
   obj1<Full, T>(s, 6, &gen_sum<T>, [&](auto& A, const std::vector<T>& v) { polys<T>(s, A, v); });
}
template <class T, bool Full>
void gpoly1(pbt::Src& s) {
   obj1<Full, T>(s, 5, &gen_sum<T>, [&](auto& A, const std::vector<T>& v) { gpolys<T>(s, A, v); });
}
template <class T, bool Full>
void raw1(pbt::Src& s) {
   obj1<Full, T>(s, 6, &any<T>, [&](auto& A, const std::vector<T>& v) { raw_copy<T>(s, A, v); });
}
template <class T, bool Full>
void raw2(pbt::Src& s) {
   obj2<Full, T>(s, 3, &any<T>, [&](auto& A, const Mat<T>& v) { raw_copy<T>(s, A, v.v); });
}
} // namespace rd
