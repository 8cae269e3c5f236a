// C37: support for generated calls with positional and with named arguments.
#pragma once
#include "sp.hpp"
#include <cstring>
#include <string>
#include <utility>

namespace c37 {
struct Args {
   long n[3], x[3], a[12];
   long size, rows, cols;
   unsigned u;
   bool b;
};
template <class T>
spp::Strict<T> mk(long v) {
   return spp::Strict<T>{static_cast<T>(v)};
}
template <class T>
auto one(const Args& a) {
   spp::Array1D<T> r(a.size);
   for(long i = 0; i < a.size; ++i) r.un(i) = mk<T>(a.a[i]);
   return r;
}
template <class T>
auto two(const Args& a) {
   spp::Array2D<T> r(a.rows, a.cols);
   for(long i = 0; i < a.rows * a.cols; ++i) r.un(i) = mk<T>(a.a[i]);
   return r;
}
template <class T>
spp::Strict<bool> in(spp::Strict<T> x, spp::Strict<T> lo, spp::Strict<T> hi) {
   return spp::Strict<bool>{x.val() >= lo.val() && x.val() <= hi.val()};
}
struct Out {
   std::string text;
   template <class T>
   void operator()(spp::Strict<T> x) {
      text += g::str(x.val()) + " ";
   }
   template <class A>
      requires requires(const A& a) { a.un(0); }
   void operator()(const A& a) {
      if constexpr(requires { a.rows(); }) text += std::to_string(a.rows().val()) + "x" + std::to_string(a.cols().val()) + ": ";
      else text += std::to_string(a.size().val()) + ": ";
      for(long i = 0; i < a.size().val(); ++i) {
         const auto x = a.un(i);
         (*this)(x);
      }
   }
};
struct Shape {
   Out& out;
   template <class A, class T>
   void operator()(const A& a, spp::Strict<T> lo, spp::Strict<T> hi, bool ranged) {
      if constexpr(requires { a.rows(); }) out.text += std::to_string(a.rows().val()) + "x" + std::to_string(a.cols().val());
      else out.text += std::to_string(a.size().val());
      if(ranged)
         for(long i = 0; i < a.size().val(); ++i) {
            spp::Strict<T> x = a.un(i);
            if(!in(x, lo, hi).val()) out.text += " out of range: " + g::str(x.val());
         }
   }
};
using Call = void (*)(const Args&, Out&, Shape&);
struct Pair {
   const char *positional, *named;
   Call p, q;
   int stride; // which of the index arguments is a stride
   bool range; // the first two values are bounds
};
inline std::string run(Call f, const Args& a) {
   Out o;
   Shape sh{o};
   try {
      f(a, o, sh);
   } catch(const spp::StrictException&) {
      return "rejected";
   }
   return o.text;
}
inline void compare(pbt::Src& s, const Pair* table, long n) {
   const Pair& t = table[s.below(static_cast<std::uint64_t>(n))];
   Args a;
   a.size = s.range(1, 9);
   a.rows = s.range(2, 3);
   a.cols = s.range(2, 4);
   for(long& v : a.a) v = s.range(0, 50);
   int k = 0;
   for(long& v : a.n) {
      v = s.chance(1, 10) ? s.range(-2, 12) : s.range(0, 4);
      if(k++ == t.stride) v = s.chance(1, 3) ? -s.range(1, 4) : s.range(1, 4);
   }
   for(long& v : a.x) v = s.range(0, 100);
   if(t.range && a.x[0] > a.x[1]) std::swap(a.x[0], a.x[1]);
   if(t.range && a.x[0] == a.x[1]) ++a.x[1];
   a.u = static_cast<unsigned>(s.below(1u << 20));
   a.b = s.coin();
   s.note("positional: ", t.positional);
   s.note("named: ", t.named);
   s.note("n = ", a.n[0], " ", a.n[1], " ", a.n[2], ", x = ", a.x[0], " ", a.x[1], " ", a.x[2], ", seed ", a.u, ", switch ", a.b, ", sizes ", a.size, ", ", a.rows, "x", a.cols);
   std::string p = run(t.p, a), q = run(t.q, a);
   s.label(p == "rejected" ? "rejected by both" : "carried out by both");
   s.nontrivial(p != "rejected");
   REQ(p == q, t.named, " gives ", q, " but ", t.positional, " gives ", p);
   REQ(p.find("out of range") == std::string::npos, t.positional, " leaves the range: ", p);
}
} // namespace c37
