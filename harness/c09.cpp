// C09: 1D slices, nested up to three deep, against lists of positions.
#include "leaf.hpp"

namespace {
template <class T>
struct Run : leaf::Mem<T> {
   using leaf::Mem<T>::s;
   using leaf::Mem<T>::leaf;
   template <int D, class A>
   void level(A& a, const std::vector<long>& map) {
      long n = static_cast<long>(map.size());
      d::Desc x = d::draw(s, n);
      std::vector<long> sel;
      bool valid = x.select(n, sel);
      s.note("slice ", x.str(), valid ? "" : " (outside)");
      s.nontrivial(!valid || n > 1);
      s.label(valid ? "valid description" : "description outside");
      std::vector<long> m2;
      for(long i : sel) m2.push_back(map[static_cast<std::size_t>(i)]);
      bool rej = rejected([&] {
         auto next = [&](auto&& sub) {
            REQ(valid, x.str(), " of size ", n, " accepted");
            if constexpr(D > 1) {
               if(s.chance(2, 3)) return level<D - 1>(sub, m2);
            }
            leaf(sub, m2);
         };
         if(x.linear()) d::lin(x, [&](auto sl) { auto sub = a(sl); next(sub); });
         else if(x.k == d::ILIST && x.l.size() == 3) {
            auto sub = a({spp::ImplicitInt{x.l[0]}, spp::ImplicitInt{x.l[1]}, spp::ImplicitInt{x.l[2]}});
            next(sub);
         } else d::lst(x, [&](auto sl) { auto sub = a(sl); next(sub); });
      });
      REQ(rej == !valid, x.str(), " of size ", n, rej ? " rejected" : " accepted");
   }
};

template <int D, class T, class A>
void go(pbt::Src& s, A& arr, bool cst) {
   long n = arr.size().val();
   Run<T> r{{s, {}, {}, {}}};
   for(long i = 0; i < n; ++i) {
      T v = static_cast<T>(100 + i);
      arr.un(i) = mk(v);
      r.base.push_back(v);
   }
   r.mem = [&] {
      std::vector<T> v;
      for(long i = 0; i < n; ++i) v.push_back(arr.un(i).val());
      return v;
   };
   r.poke = [&](long i, T v) { arr.un(i) = mk(v); };
   s.note("array of ", n);
   if(cst) {
      const A& c = arr;
      r.template level<D>(c, o::iota(n));
   } else {
      r.template level<D>(arr, o::iota(n));
   }
}
template <int D, class T, class A>
void go1(pbt::Src& s, A& arr) { // writable only
   long n = arr.size().val();
   Run<T> r{{s, {}, {}, {}}};
   for(long i = 0; i < n; ++i) {
      T v = static_cast<T>(100 + i);
      arr.un(i) = mk(v);
      r.base.push_back(v);
   }
   r.mem = [&] {
      std::vector<T> v;
      for(long i = 0; i < n; ++i) v.push_back(arr.un(i).val());
      return v;
   };
   r.poke = [&](long i, T v) { arr.un(i) = mk(v); };
   s.note("array of ", n);
   r.template level<D>(arr, o::iota(n));
}
long len(pbt::Src& s) {
   return s.chance(1, 20) ? s.range(0, 60) : s.range(0, 9);
}
} // namespace

#ifndef PART
PROP(c09_array, 4) {
   spp::Array1D<int> A(len(s));
   go<2, int>(s, A, false);
}
#elif PART == 1
PROP(c09_const_array, 2) {
   spp::Array1D<int, spp::Aligned> A(len(s));
   go<2, int>(s, A, true);
}
PROP(c09_sequence, 1) { // index lists made by the library
   long n = s.range(0, 8) - 1, st = s.range(0, 20) - 10, inc = s.range(0, 8) - 4;
   s.nontrivial(n > 1);
   s.note("implicit_vector_sequence ", n, " ", st, " ", inc);
   bool w = s.coin();
   bool rej = rejected([&] {
      std::vector<spp::ImplicitInt> v =
         w ? spp::implicit_vector_sequence(spp::Size{n}, spp::Start<long>{st}, spp::Incr<long>{inc}) : spp::implicit_vector_sequence(n, st, inc);
      REQ(n >= 0 && static_cast<long>(v.size()) == n);
      for(long i = 0; i < n; ++i) REQ(v[static_cast<std::size_t>(i)].get().val() == st + i * inc);
   });
   REQ(rej == (n < 0));
}
#elif PART == 2
PROP(c09_deep, 2) {
   spp::Array1D<double> A(len(s));
   go1<3, double>(s, A);
}
#elif PART == 3
PROP(c09_fixed, 2) {
   spp::FixedArray1D<long, 7> A;
   go1<2, long>(s, A);
}
PROP(c09_attached, 1) {
   std::vector<unsigned> v(static_cast<std::size_t>(s.range(1, 8)));
   auto* p = v.data();
   auto A = spp::attach1D(p, static_cast<long>(v.size()));
   go1<1, unsigned>(s, A);
}
#else
PROP(c09_view_of_2d, 2) {
   auto [m, n] = o::shape(s, 4);
   spp::Array2D<int> M(m, n);
   auto A = M.view1D();
   go1<2, int>(s, A);
}
#endif
