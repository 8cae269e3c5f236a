// C12: sequences, ranges, constants, unit vectors and identities.
#include "c12.hpp"
namespace {
using namespace st;
template <class T>
void sequences(pbt::Src& s) {
   long n = s.range(0, 9) - 1;
   T a = small<T>(s), d = small<T>(s);
   int form = static_cast<int>(s.below(4));
   s.note("sequence<", tname<T>(), "> size ", n, " start ", str(a), " incr ", str(d), " form ", form);
   if(n < 0) {
      REQ(rejected([&] { (void)spp::sequence<T>(n, mk(a), mk(d)); }), "negative size accepted");
      s.nontrivial();
      return;
   }
   if(form >= 2) a = T(0), d = form == 3 ? d : T(1);
   std::vector<T> w;
   for(long i = 0; i < n; ++i) w.push_back(static_cast<T>(a + d * static_cast<T>(i)));
   s.nontrivial(n > 1);
   switch(form) {
      case 0: return chk1(s, "sequence", spp::sequence(n, mk(a), mk(d)), w);
      case 1: return chk1(s, "sequence(Size, Start, Incr)", spp::sequence(spp::Size{n}, spp::Start{mk(a)}, spp::Incr{mk(d)}), w);
      case 2: return chk1(s, "sequence(n)", spp::sequence<T>(n), w);
      default: return chk1(s, "sequence(n, 0, d)", spp::sequence<T>(n, mk(a), mk(d)), w);
   }
}
template <class T>
void linspaces(pbt::Src& s) {
   long n = s.chance(1, 8) ? s.range(0, 3) - 3 : s.range(1, s.coin() ? 6 : 40);
   T a = s.coin() ? small<T>(s) : finite<T>(s, 12), b = s.chance(1, 6) ? a : s.coin() ? small<T>(s) : finite<T>(s, 12);
   s.note("linspace<", tname<T>(), "> size ", n, " from ", str(a), " to ", str(b));
   if(n < 1) {
      REQ(rejected([&] { (void)spp::linspace(n, mk(a), mk(b)); }), "size ", n, " accepted");
      s.nontrivial();
      return;
   }
   auto check = [&](const auto& e) {
      REQ(e.size().val() == n, "size");
      REQ(e[0].val() == a, "first value ", str(e[0]));
      T mag = std::max<T>(a < 0 ? -a : a, b < 0 ? -b : b);
      T eps = fpinfo<T>::ldexp(T(1), 1 - fpinfo<T>::digits);
      for(long i = 0; i < n; ++i) {
         T want = n == 1 ? a : a + (b - a) * (static_cast<T>(i) / static_cast<T>(n - 1));
         T d = e[i].val() - want;
         d = d < 0 ? -d : d;
         REQ(d <= 8 * eps * mag, "value ", i, " is ", str(e[i]), " instead of ", str(want));
      }
      if(n > 1) {
         T d = e[spp::place::last].val() - b;
         d = d < 0 ? -d : d;
         REQ(d <= 4 * eps * mag, "last value is ", str(e[spp::place::last]), " instead of ", str(b));
      }
   };
   s.nontrivial(n > 1);
   if(s.coin()) check(spp::linspace(n, mk(a), mk(b)));
   else check(spp::linspace(spp::Size{n}, spp::Start{mk(a)}, spp::End{mk(b)}));
}
template <class T>
void constants(pbt::Src& s) {
   T c = any<T>(s);
   long m = s.range(0, 5) - 1, n = s.range(0, 5) - 1;
   int form = static_cast<int>(s.below(4));
   s.note("const ", m, "x", n, " ", str(c), " form ", form);
   s.nontrivial();
   if(form < 2) {
      if(n < 0) {
         REQ(rejected([&] { (void)spp::const1D(n, mk(c)); }), "negative size accepted");
         return;
      }
      std::vector<T> w(static_cast<std::size_t>(n), c);
      if(form) chk1(s, "const1D", spp::const1D(n, mk(c)), w);
      else chk1(s, "const1D(Size, Value)", spp::const1D(spp::Size{n}, spp::Value{mk(c)}), w);
      return;
   }
   if(m < 0 || n < 0 || (m == 0) != (n == 0)) {
      REQ(rejected([&] { (void)spp::const2D(m, n, mk(c)); }), m, "x", n, " accepted");
      return;
   }
   Mat<T> w(m, n);
   w.v.assign(static_cast<std::size_t>(m * n), c);
   if(form == 3) chk2(s, "const2D", spp::const2D(m, n, mk(c)), w);
   else chk2(s, "const2D(Rows, Cols, Value)", spp::const2D(spp::Rows{m}, spp::Cols{n}, spp::Value{mk(c)}), w);
}
template <class T>
void units(pbt::Src& s) {
   long n = s.range(0, 6) - 1, k = s.range(0, 7) - 1;
   s.note(tname<T>(), " n ", n, " k ", k);
   s.nontrivial();
   if(s.coin()) {
      if(n < 0) {
         REQ(rejected([&] { (void)spp::identity<T>(n); }), "negative identity accepted");
         return;
      }
      Mat<T> w(n, n);
      for(long i = 0; i < n; ++i) w.set(i, i, T(1));
      chk2(s, "identity", spp::identity<T>(n), w);
   } else {
      if(k < 0 || k >= n) {
         REQ(rejected([&] { (void)spp::e_unit<T>(k, n); }), "unit vector ", k, " of ", n, " accepted");
         return;
      }
      std::vector<T> w(static_cast<std::size_t>(n));
      w[static_cast<std::size_t>(k)] = T(1);
      if(s.coin()) chk1(s, "e_unit", spp::e_unit<T>(k, n), w);
      else chk1(s, "e_unit(Index, Size)", spp::e_unit<T>(spp::Index{k}, spp::Size{n}), w);
   }
}
void ranges(pbt::Src& s) {
   auto upto = [](long n) { return iota(n); };
   int form = static_cast<int>(s.below(3));
   s.nontrivial();
   if(form == 0) {
      long n = s.range(0, 9) - 2;
      s.note("irange(", n, ")");
      if(n < 0) REQ(rejected([&] { (void)spp::irange(n); }), "negative range accepted");
      else chk1(s, "irange", spp::irange(n), upto(n));
   } else if(form == 1) {
      any1<int>(s, 5, [](pbt::Src& q) { return small<int>(q); }, [&](auto& X, Info1<int>& in) {
         long n = static_cast<long>(in.v.size());
         s.note(in.kind, " of size ", n);
         chk1(s, "irange", irange(X), upto(n));
         if(n) chk1(s, "irange_m1", irange_m1(X), upto(n - 1));
         else REQ(rejected([&] { (void)irange_m1(X); }), "irange_m1 of an empty array accepted");
      });
   } else {
      any2<int>(s, 4, [](pbt::Src& q) { return small<int>(q); }, [&](auto& X, Info2<int>& in) {
         s.note(in.kind, " ", in.v.m, "x", in.v.n);
         switch(s.below(4)) {
            case 0: return chk1(s, "irange_row", irange_row(X), upto(in.v.m));
            case 1: return chk1(s, "irange_col", irange_col(X), upto(in.v.n));
            case 2:
               if(in.v.m) chk1(s, "irange_row_m1", irange_row_m1(X), upto(in.v.m - 1));
               else REQ(rejected([&] { (void)irange_row_m1(X); }));
               return;
            default:
               if(in.v.n) chk1(s, "irange_col_m1", irange_col_m1(X), upto(in.v.n - 1));
               else REQ(rejected([&] { (void)irange_col_m1(X); }));
         }
      });
   }
}
} // namespace
#define REALS(f)                                 \
   switch(s.below(8)) {                          \
      case 0: return f<int>(s);                  \
      case 1: return f<long>(s);                 \
      case 2: return f<unsigned>(s);             \
      case 3: return f<unsigned long>(s);        \
      case 4: return f<float>(s);                \
      case 5: return f<double>(s);               \
      case 6: return f<long double>(s);          \
      default: return f<f128>(s);                \
   }
PROP(c12_sequence, 2) { REALS(sequences) }
PROP(c12_unit_identity, 2) { REALS(units) }
PROP(c12_constant, 2) {
   switch(s.below(5)) {
      case 0: return constants<bool>(s);
      case 1: return constants<int>(s);
      case 2: return constants<double>(s);
      case 3: return constants<unsigned long>(s);
      default: return constants<f128>(s);
   }
}
PROP(c12_linspace, 2) {
   switch(s.below(4)) {
      case 0: return linspaces<float>(s);
      case 1: return linspaces<double>(s);
      case 2: return linspaces<long double>(s);
      default: return linspaces<f128>(s);
   }
}
PROP(c12_irange, 2) { ranges(s); }
