// C35: support for generated expressions whose leaves count their evaluations.
// Every leaf element has a random number; evaluating it adds the number to the probe. All operations are additive, so the sum of
// the evaluated numbers has to equal the sum of the values that were asked for (modulo 2^64).
#pragma once
#include "c20.hpp"

namespace c35 {
using T = unsigned long;
struct Probe {
   std::shared_ptr<T> acc = std::make_shared<T>(0);
   struct F {
      T* a;
      Strict<T> operator()(Strict<T> x) const {
         *a += x.val();
         return x;
      }
   } f{acc.get()};
   T take() {
      T x = *acc;
      *acc = 0;
      return x;
   }
   void none(const char* what) {
      REQ(take() == 0, what, " evaluated elements");
   }
   void is(T want, const char* what) {
      T got = take();
      REQ(got == want, what, got == 2 * want ? " evaluated every element twice" : " did not evaluate every element exactly once", " (evaluated ", got, ", needed ", want, ")");
   }
};
template <class A>
void ids(pbt::Src& s, A& a) {
   for(long i = 0; i < a.size().val(); ++i) a.un(i) = mk(static_cast<T>(s.below(1ull << 40) + (1ull << 40)));
}
template <class A>
void zero(A& a) {
   for(long i = 0; i < a.size().val(); ++i) a.un(i) = mk(T{0});
}
template <class A>
T total(Probe& p, const A& a) {
   T t = 0;
   for(long i = 0; i < a.size().val(); ++i) t += a.un(i).val();
   p.take();
   return t;
}
template <bool Two, class E>
auto like(const E& e, long more = 0) {
   if constexpr(Two) return spp::Array2D<T>(e.rows().val() + more, e.cols().val());
   else return spp::Array1D<T>(e.size().val() + more);
}

// Functions that look at every element, or at elements until the answer is known.
template <bool Two, class E>
void reductions(pbt::Src& s, Probe& p, const E& e, T all) {
   using A = std::conditional_t<Two, spp::Array2D<T>, spp::Array1D<T>>;
   A r = e.eval();
   p.is(all, "eval");
   T lo = ~T{0}, hi = 0, dot = 0;
   for(long i = 0; i < r.size().val(); ++i) {
      T x = r.un(i).val();
      lo = x < lo ? x : lo;
      hi = x > hi ? x : hi;
      dot += x * x;
   }
   auto known = [&](T got, T want, const char* what) {
      p.is(all, what);
      REQ(got == want, what, " is ", got, " instead of ", want);
   };
   switch(s.range(0, 7)) {
      case 0: (void)prod(e), p.is(all, "prod"); break;
      case 1: known(spp::min(e).val(), lo, "min"); break;
      case 2: known(spp::max(e).val(), hi, "max"); break;
      case 3:
         if constexpr(!Two) {
            if(s.coin()) known(min_index(e).second.val(), lo, "min_index");
            else known(max_index(e).second.val(), hi, "max_index");
         }
         break;
      case 4:
         if(s.coin()) known(dot_prod(e, r).val(), dot, "dot_prod with the expression first");
         else known(dot_prod(r, e).val(), dot, "dot_prod with the expression second");
         break;
      case 5: {
         auto b = blas_array(e);
         p.is(all, "blas_array");
         break;
      }
      case 6: {
         T seen = 0;
         for_each(e, [&](auto x) { seen += x.val(); });
         known(seen, all, "for_each");
         break;
      }
      default: { // the elements shown to the predicate are those evaluated
         T seen = 0, stop = r.un(s.range(0, r.size().val() - 1)).val();
         auto f = [&](auto x) { return seen += x.val(), spp::StrictBool{x.val() == stop}; };
         auto g = [&](auto x) { return seen += x.val(), spp::StrictBool{x.val() != stop}; };
         switch(s.range(0, 2)) {
            case 0: REQ(any_of(e, f).val(), "any_of"); break;
            case 1: REQ(!none_of(e, f).val(), "none_of"); break;
            default: REQ(!all_of(e, g).val(), "all_of");
         }
         p.is(seen, "a quantifier");
         s.label(seen != all ? "stopped early" : "looked at all elements");
      }
   }
}

// The ways to use an expression.
template <bool Two, class E>
void use(pbt::Src& s, Probe& p, const E& e) {
   using A = std::conditional_t<Two, spp::Array2D<T>, spp::Array1D<T>>;
   T all = total(p, e);
   long n = e.size().val();
   s.nontrivial(all != 0 && n > 1);
   {
      auto c = e;
      (void)c.size();
      if constexpr(Two) (void)c.rows(), (void)c.cols(), (void)transpose(c), (void)c.row(0), (void)c.view1D();
      else (void)c(spp::place::reverse), (void)merge(c, c), (void)c.view2D(1, n);
      p.none("copying or wrapping the expression");
   }
   {
      long i = s.range(0, n - 1);
      T v;
      if constexpr(Two) v = e(i / e.cols().val(), i % e.cols().val()).val();
      else v = e[i].val();
      p.is(v, "reading one element");
      v = e.un(i).val();
      p.is(v, "reading one element unchecked");
   }
   for(int k = 0; k < 3; ++k) switch(s.range(0, Two ? 12 : 11)) {
         case 11: reductions<Two>(s, p, e, all); break;
         case 10: { // insertion of the expression's elements
            if constexpr(Two) {
               spp::Array2D<T> r(2, e.cols().val());
               if(s.coin()) {
                  r.insert_rows(s.range(0, 2), e);
                  p.is(all, "insertion of rows");
               } else {
                  spp::Array2D<T> q(e.rows().val(), 2);
                  q.insert_cols(s.range(0, 2), e);
                  p.is(all, "insertion of columns");
               }
            } else {
               spp::Array1D<T> r(3);
               spp::Array2D<T> q(1, n), w(n, 2);
               switch(s.range(0, 2)) {
                  case 0: r.insert(s.range(0, 3), e); break;
                  case 1: q.insert_row(s.range(0, 1), e); break;
                  default: w.insert_col(s.range(0, 2), e); break;
               }
               p.is(all, "insertion");
            }
            break;
         }
         case 9: { // assignment to memory the expression reads, element by element
            A r(e);
            p.take();
            auto x = generate(r, p.f);
            p.none("building the expression");
            bool twice = s.coin();
            T want = total(p, r);
            if(twice) {
               r = x + x;
               want += want;
            } else {
               r += x;
            }
            p.is(want, "assignment to the operand");
            REQ(total(p, r) == 2 * all, "the operand after the assignment");
            break;
         }
         case 0: {
            A r(e);
            p.is(all, "construction");
            REQ(total(p, r) == all, "sum of the constructed array");
            break;
         }
         case 1: {
            A r = like<Two>(e);
            r = e;
            p.is(all, "assignment");
            break;
         }
         case 2: {
            A r;
            r.resize_and_assign(e);
            p.is(all, "assignment that resizes");
            break;
         }
         case 3: {
            A r = like<Two>(e);
            r += e;
            p.is(all, "compound assignment");
            break;
         }
         case 4: {
            A r = like<Two>(e);
            if constexpr(Two) r(spp::place::all, spp::place::reverse) = e;
            else r(spp::place::reverse) = e;
            p.is(all, "assignment to a view");
            break;
         }
         case 5: {
            A r = like<Two>(e, 1);
            bool refused;
            if constexpr(Two) refused = rejected([&] { r(spp::place::all, spp::place::all) = e; });
            else refused = rejected([&] { r(spp::place::all) = e; });
            REQ(refused, "sizes differ");
            p.none("a rejected assignment");
            s.label("rejected before evaluation");
            break;
         }
         case 6: {
            T x = sum(e).val();
            p.is(x, "sum");
            break;
         }
         case 7: {
            T x = 0;
            for(auto v : e) x += v.val();
            p.is(x, "iteration");
            REQ(x == all, "iteration visits every element");
            break;
         }
         case 8: {
            long m = s.range(0, n);
            if constexpr(Two) {
               m = s.range(0, e.rows().val() - 1);
               spp::Array1D<T> r(e.row(m));
               T got = p.take();
               REQ(got == total(p, r), "taking row ", m, " evaluated others");
            } else {
               spp::Array1D<T> r(e(spp::place::firstN{m}));
               T got = p.take();
               REQ(got == total(p, r), "taking the first ", m, " elements evaluated others");
            }
            break;
         }
         default:
            if constexpr(Two) {
               spp::Array2D<T> r(transpose(e));
               p.is(all, "constructing the transposed array");
            }
      }
}
} // namespace c35
