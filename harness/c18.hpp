// C18: error-measuring tools.
#pragma once
#include "objs.hpp"
#include <optional>

namespace er {
using namespace o;

template <class T>
T ab(T x) {
   return fpinfo<T>::signbit(x) ? -x : x;
}
template <class T>
bool eq(T a, T b) { // the sign of a zero error is not claimed
   return a == b || same(a, b);
}
template <class T>
T eps() {
   return fpinfo<T>::ldexp(T(1), 1 - fpinfo<T>::digits);
}
template <class T>
bool w_abs(T x, T y, T tol) {
   return ab<T>(x - y) <= tol;
}
template <class T>
T scale(T x, T y) {
   return ab(x) > ab(y) ? ab(x) : ab(y);
}
template <class T>
bool w_rel(T x, T y, T tol, T nz) {
   if(fpinfo<T>::isnan(x) || fpinfo<T>::isnan(y)) return false;
   if(scale(x, y) <= nz) return true;
   return ab<T>(x - y) / scale(x, y) <= tol;
}
template <class T>
T ulps(T x, long k) {
   T r = x;
   for(; k > 0; --k) {
      if constexpr(is_quad<T>) r = nextafterq(r, fpinfo<T>::inf());
      else r = std::nextafter(r, fpinfo<T>::inf());
   }
   for(; k < 0; ++k) {
      if constexpr(is_quad<T>) r = nextafterq(r, -fpinfo<T>::inf());
      else r = std::nextafter(r, -fpinfo<T>::inf());
   }
   return r;
}
template <class T>
T val(pbt::Src& s) {
   T v;
   switch(s.below(4)) {
      case 0: v = small<T>(s); break;
      case 1: v = any<T>(s); break;
      default: v = finite<T>(s, 6);
   }
   return v;
}
template <class T>
T noninf(pbt::Src& s) { // for arrays: no NaN or infinity, no overflow of differences
   T v = s.coin() ? small<T>(s) : finite<T>(s, s.coin() ? 3 : fpinfo<T>::max_exp / 4);
   return s.chance(1, 5) ? T(0) : v;
}
template <class T>
T anyv(pbt::Src& s) { // for predicates on arrays: now and then a NaN or an infinity
   return s.chance(1, 8) ? s.pick({fpinfo<T>::nan(), fpinfo<T>::nan(), fpinfo<T>::inf(), -fpinfo<T>::inf()}) : noninf<T>(s);
}
template <class T>
T near(pbt::Src& s, T x, bool fin) { // a second value related to the first
   T y;
   switch(s.below(6)) {
      case 0: y = x; break;
      case 1: y = ulps(x, s.range(-3, 3)); break;
      case 2: y = -x; break;
      case 3: y = x * (T(1) + eps<T>() * static_cast<T>(s.range(-200, 200))); break;
      case 4: y = x + static_cast<T>(small<T>(s)); break;
      default: y = fin ? noninf<T>(s) : val<T>(s);
   }
   return y;
}
// A tolerance at or next to the error itself, a usual one, zero, or an invalid one.
template <class T>
T tolerance(pbt::Src& s, T err, bool allow_neg) {
   T t;
   switch(s.below(allow_neg ? 7 : 6)) {
      case 0: t = err; break;
      case 1: t = ulps(err, 1); break;
      case 2: t = ulps(err, -1); break;
      case 3: t = T(0); break;
      case 4: t = T(100) * eps<T>(); break;
      case 5: t = finite<T>(s, 10); break;
      default: t = s.pick({T(-1), -fpinfo<T>::denorm(), -eps<T>(), -fpinfo<T>::inf()});
   }
   if(!allow_neg || s.chance(7, 8)) t = t < T(0) ? -t : t;
   if(fpinfo<T>::isnan(t)) t = T(1);
   return t;
}

template <class T>
void scalar(pbt::Src& s) {
   T x = val<T>(s), y = near<T>(s, x, false);
   if(s.coin()) std::swap(x, y);
   auto X = mk(x), Y = mk(y);
   s.note(tname<T>(), " x ", str(x), " y ", str(y));
   s.nontrivial(!same(x, y));
   switch(s.below(4)) {
      case 0: {
         T tol = tolerance<T>(s, ab<T>(x - y), true);
         s.note("absolute tolerance ", str(tol));
         if(tol < T(0)) {
            REQ(rejected([&] { (void)spp::within_tol_abs(X, Y, mk(tol)); }), "negative tolerance accepted");
            return;
         }
         REQ(spp::within_tol_abs(X, Y, mk(tol)).val() == w_abs(x, y, tol), "within_tol_abs");
         REQ(spp::within_tol_abs(X, Y).val() == w_abs(x, y, T(100) * eps<T>()), "within_tol_abs, default tolerance");
         break;
      }
      case 1: {
         T sc = scale(x, y);
         T nz = tolerance<T>(s, sc, true);
         T tol = tolerance<T>(s, sc > T(0) ? ab<T>(x - y) / sc : T(1), true);
         s.note("relative tolerance ", str(tol), " near zero ", str(nz));
         if(tol < T(0) || nz < T(0)) {
            REQ(rejected([&] { (void)spp::within_tol_rel(X, Y, mk(tol), mk(nz)); }), "negative tolerance accepted");
            if(tol < T(0)) REQ(rejected([&] { (void)spp::within_tol_rel(X, Y, mk(tol)); }), "negative tolerance accepted");
            return;
         }
         REQ(spp::within_tol_rel(X, Y, mk(tol), mk(nz)).val() == w_rel(x, y, tol, nz), "within_tol_rel");
         T d = T(100) * eps<T>();
         REQ(spp::within_tol_rel(X, Y, mk(tol)).val() == w_rel(x, y, tol, d), "within_tol_rel, default near_zero");
         REQ(spp::within_tol_rel(X, Y).val() == w_rel(x, y, d, d), "within_tol_rel, defaults");
         break;
      }
      case 2: REQ(eq(spp::abs_error(X, Y).val(), ab<T>(x - y)), "abs_error ", str(spp::abs_error(X, Y))); break;
      default: {
         auto r = spp::rel_error(X, Y);
         bool none = x == T(0) || y == T(0);
         REQ(r.has_value() == !none, "rel_error has a value: ", r.has_value());
         if(r) REQ(eq(r->val(), ab<T>((x - y) / y)), "rel_error ", str(*r), ", expected ", str(ab<T>((x - y) / y)));
      }
   }
}

template <class T, class A, class B>
void arrays(pbt::Src& s, const A& a, const std::vector<T>& u, const B& b, const std::vector<T>& v) {
   s.note("a ", str(u), " b ", str(v));
   if(u.size() != v.size()) {
      s.nontrivial();
      s.label("sizes differ");
      REQ(rejected([&] { (void)within_tol_abs(a, b); }) && rejected([&] { (void)within_tol_rel(a, b); }) && rejected([&] { (void)max_abs_error(a, b); })
             && rejected([&] { (void)max_rel_error(a, b); }) && rejected([&] { (void)within_tol_abs(b, a); }) && rejected([&] { (void)max_rel_error(b, a); }),
          "arrays of different sizes accepted");
      return;
   }
   s.nontrivial(u.size() > 1);
   T ea = 0, er = 0;
   T mx = 0;
   bool zero = false;
   for(std::size_t i = 0; i < u.size(); ++i) {
      ea = std::max<T>(ea, ab<T>(u[i] - v[i]));
      if(scale(u[i], v[i]) > T(0)) er = std::max<T>(er, ab<T>(u[i] - v[i]) / scale(u[i], v[i]));
      if(u[i] == T(0) || v[i] == T(0)) zero = true;
      else mx = std::max<T>(mx, ab<T>((u[i] - v[i]) / v[i]));
   }
   bool empty = u.empty();
   auto check = [&](auto pred, auto f) {
      bool all = true;
      for(std::size_t i = 0; i < u.size(); ++i) all = all && pred(static_cast<T>(u[i]), static_cast<T>(v[i]));
      if(empty) all = false;
      bool got = f();
      REQ(got == all, "predicate is ", got);
   };
   T d = T(100) * eps<T>();
   bool fin = true;
   for(std::size_t i = 0; i < u.size(); ++i) fin = fin && fpinfo<T>::isfinite(u[i]) && fpinfo<T>::isfinite(v[i]);
   if(!fin) s.label("unordered or infinite elements");
   switch(s.below(fin ? 4 : 2)) {
      case 0: {
         T tol = tolerance<T>(s, ea, !empty);
         s.note("absolute tolerance ", str(tol));
         if(tol < T(0)) {
            REQ(rejected([&] { (void)within_tol_abs(a, b, mk(tol)); }), "negative tolerance accepted");
            return;
         }
         check([&](T x, T y) { return w_abs(x, y, tol); }, [&] { return within_tol_abs(a, b, mk(tol)).val(); });
         check([&](T x, T y) { return w_abs(x, y, d); }, [&] { return within_tol_abs(a, b).val(); });
         if(empty) REQ(within_tol_abs(a, b, mk(tol), spp::StrictBool{true}).val() && !within_tol_abs(a, b, mk(tol), spp::StrictBool{false}).val(), "default for empty arrays");
         break;
      }
      case 1: {
         T tol = tolerance<T>(s, er, !empty), nz = tolerance<T>(s, s.coin() && !empty ? scale(u[0], v[0]) : d, !empty);
         s.note("relative tolerance ", str(tol), " near zero ", str(nz));
         if(tol < T(0) || nz < T(0)) {
            REQ(rejected([&] { (void)within_tol_rel(a, b, mk(tol), mk(nz)); }), "negative tolerance accepted");
            return;
         }
         check([&](T x, T y) { return w_rel(x, y, tol, nz); }, [&] { return within_tol_rel(a, b, mk(tol), mk(nz)).val(); });
         check([&](T x, T y) { return w_rel(x, y, tol, d); }, [&] { return within_tol_rel(a, b, mk(tol)).val(); });
         check([&](T x, T y) { return w_rel(x, y, d, d); }, [&] { return within_tol_rel(a, b).val(); });
         if(empty) REQ(within_tol_rel(a, b, mk(tol), mk(nz), spp::StrictBool{true}).val() && !within_tol_rel(a, b, mk(tol), mk(nz), spp::StrictBool{false}).val(), "default for empty arrays");
         break;
      }
      case 2: {
         auto r = max_abs_error(a, b);
         REQ(r.val() == (empty ? T(1) : ea), "max_abs_error ", str(r), ", expected ", str(empty ? T(1) : ea));
         T e = small<T>(s);
         r = max_abs_error(a, b, mk(e));
         REQ(r.val() == (empty ? e : ea), "max_abs_error ", str(r));
         break;
      }
      default: {
         auto r = max_rel_error(a, b);
         T e = small<T>(s);
         auto q = max_rel_error(a, b, mk(e));
         if(empty) {
            REQ(r && r->val() == T(1) && q && q->val() == e, "max_rel_error of empty arrays");
            return;
         }
         REQ(r.has_value() == !zero && q.has_value() == !zero, "max_rel_error has a value: ", r.has_value());
         if(r) REQ(r->val() == mx && q->val() == mx, "max_rel_error ", str(*r), ", expected ", str(mx));
      }
   }
}

template <class T>
std::vector<T> other(pbt::Src& s, const std::vector<T>& u, bool vary) {
   std::vector<T> v;
   bool close = s.coin();
   for(T x : u) v.push_back(close ? (s.chance(1, 6) ? near<T>(s, x, true) : x) : near<T>(s, x, true));
   if(vary && s.chance(1, 8)) {
      if(s.coin() || v.empty()) v.push_back(T(1));
      else v.pop_back();
   }
   return v;
}
template <bool Full, class T>
void one(pbt::Src& s) {
   auto with = [&](auto& A, const std::vector<T>& u) {
      auto v = other<T>(s, u, true);
      spp::Array1D<T> B(static_cast<long>(v.size()));
      if(s.coin()) {
         fill(B, v);
         return s.coin() ? arrays<T>(s, A, u, B, v) : arrays<T>(s, B, v, A, u);
      }
      fill(B, std::vector<T>(v.rbegin(), v.rend()));
      arrays<T>(s, A, u, B(spp::place::reverse), v);
   };
   if constexpr(Full) {
      any1<T>(s, 5, s.chance(1, 3) ? &anyv<T> : &noninf<T>, [&](auto&& A, auto& in) {
         s.note(in.kind);
         with(A, in.v);
      });
   } else {
      auto u = seqv<T>(s, s.range(0, 5), s.chance(1, 3) ? *anyv<T> : *noninf<T>);
      spp::Array1D<T> A(static_cast<long>(u.size()));
      fill(A, u);
      with(A, u);
   }
}
template <bool Full, class T>
void two(pbt::Src& s) {
   auto with = [&](auto& A, const Mat<T>& u) {
      auto v = other<T>(s, u.v, false);
      long m = u.m, n = u.n;
      if(m != n && s.chance(1, 8)) { // same number of elements, other shape
         spp::Array2D<T> B(n, m);
         fill(B, v);
         s.nontrivial();
         s.label("shapes differ");
         REQ(rejected([&] { (void)within_tol_abs(A, B); }) && rejected([&] { (void)within_tol_rel(B, A); }) && rejected([&] { (void)max_abs_error(A, B); }) && rejected([&] { (void)max_rel_error(A, B); }), "arrays of different shapes accepted");
         return;
      }
      spp::Array2D<T> B(m, n);
      fill(B, v);
      if(s.coin()) arrays<T>(s, A, u.v, B, v);
      else arrays<T>(s, B, v, A, u.v);
   };
   if constexpr(Full) {
      any2<T>(s, 3, s.chance(1, 3) ? &anyv<T> : &noninf<T>, [&](auto&& A, auto& in) {
         s.note(in.kind);
         with(A, in.v);
      });
   } else {
      auto [m, n] = shape(s, 3);
      Mat<T> u(m, n);
      u.v = seqv<T>(s, m * n, s.chance(1, 3) ? *anyv<T> : *noninf<T>);
      spp::Array2D<T> A(m, n);
      fill(A, u.v);
      with(A, u);
   }
}

// Lists on either side mean the same as arrays.
template <class T>
void lists(pbt::Src& s) {
   std::vector<T> u = seqv<T>(s, 6, *noninf<T>), v = other<T>(s, u, false);
   auto U = [&](int i) { return mk(static_cast<T>(u[static_cast<std::size_t>(i)])); };
   long n = s.range(1, 3);
   s.note("array ", str(v), " list ", str(u), " of ", n);
   s.nontrivial();
   T d = T(100) * eps<T>();
   T nz = s.coin() ? d : tolerance<T>(s, scale(u[0], v[0]), false);
   bool two = s.coin();
   long cnt = two ? 2 * n : n;
   T e = 0, r = 0;
   for(std::size_t i = 0; i < static_cast<std::size_t>(cnt); ++i) {
      e = std::max<T>(e, ab<T>(u[i] - v[i]));
      if(scale(u[i], v[i]) > nz) r = std::max<T>(r, ab<T>(u[i] - v[i]) / scale(u[i], v[i]));
   }
   T ta = tolerance<T>(s, e, false), tr = tolerance<T>(s, r, false);
   s.note("tolerances ", str(ta), " ", str(tr), " near zero ", str(nz));
   auto all = [&](auto f) {
      bool x = true;
      for(std::size_t i = 0; i < static_cast<std::size_t>(cnt); ++i) x = x && f(static_cast<T>(u[i]), static_cast<T>(v[i]));
      return x;
   };
   bool wa = all([&](T x, T y) { return w_abs(x, y, ta); }), wd = all([&](T x, T y) { return w_rel(x, y, tr, d); });
   bool wn = all([&](T x, T y) { return w_rel(x, y, tr, nz); });
   bool ad = all([&](T x, T y) { return w_abs(x, y, d); }), rd = all([&](T x, T y) { return w_rel(x, y, d, d); });
   bool bad = false;
   auto go = [&](bool want, const char* what, auto f) {
      if(bad) REQ(rejected([&] { (void)f(); }), "list of another size accepted by ", what);
      else REQ(f().val() == want, what, " with a list, expected ", want);
   };
   auto check = [&](const auto& B, const auto& l) {
      go(wa, "within_tol_abs(A, list)", [&] { return within_tol_abs(B, l, mk(ta)); });
      go(wa, "within_tol_abs(list, A)", [&] { return within_tol_abs(l, B, mk(ta)); });
      go(ad, "within_tol_abs(A, list)", [&] { return within_tol_abs(B, l); });
      go(ad, "within_tol_abs(list, A)", [&] { return within_tol_abs(l, B); });
      go(wd, "within_tol_rel(A, list, tol)", [&] { return within_tol_rel(B, l, mk(tr)); });
      go(wd, "within_tol_rel(list, A, tol)", [&] { return within_tol_rel(l, B, mk(tr)); });
      go(wn, "within_tol_rel(A, list, tol, near_zero)", [&] { return within_tol_rel(B, l, mk(tr), mk(nz)); });
      go(wn, "within_tol_rel(list, A, tol, near_zero)", [&] { return within_tol_rel(l, B, mk(tr), mk(nz)); });
      go(rd, "within_tol_rel(A, list)", [&] { return within_tol_rel(B, l); });
      go(rd, "within_tol_rel(list, A)", [&] { return within_tol_rel(l, B); });
   };
   auto B = [&](auto& A) {
      for(long i = 0; i < A.size().val(); ++i) A.un(i) = mk(static_cast<T>(v[static_cast<std::size_t>(i)]));
   };
   if(s.chance(1, 20)) {
      spp::Array1D<T> A;
      std::initializer_list<Strict<T>> l{};
      for(bool df : {false, true}) {
         spp::StrictBool D{df};
         REQ(within_tol_abs(A, l, mk(ta), D).val() == df && within_tol_abs(l, A, mk(ta), D).val() == df && within_tol_rel(A, l, mk(ta), mk(nz), D).val() == df && within_tol_rel(l, A, mk(ta), mk(nz), D).val() == df,
             "default for empty lists");
      }
      REQ(!within_tol_abs(A, l).val() && !within_tol_abs(l, A).val() && !within_tol_rel(A, l).val() && !within_tol_rel(l, A).val(), "default for empty lists");
   } else if(!two) {
      spp::Array1D<T> A(s.chance(1, 8) ? n + 1 : n);
      bad = A.size().val() != n;
      B(A);
      std::initializer_list<Strict<T>> l1{U(0)}, l2{U(0), U(1)}, l3{U(0), U(1), U(2)};
      check(A, n == 1 ? l1 : n == 2 ? l2 : l3);
   } else {
      spp::Array2D<T> A(2, n);
      B(A);
      using L = std::initializer_list<std::initializer_list<Strict<T>>>;
      if(n == 1) {
         L l{{U(0)}, {U(1)}};
         check(A, l);
      } else if(n == 2) {
         L l{{U(0), U(1)}, {U(2), U(3)}};
         check(A, l);
      } else {
         L l{{U(0), U(1), U(2)}, {U(3), U(4), U(5)}};
         check(A, l);
      }
   }
}
} // namespace er
