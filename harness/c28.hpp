// C28: allocation failures injected at every allocation of an operation.
#pragma once
#include "objs.hpp"
#include <optional>

namespace al {
extern long live, countdown, allocs;
extern bool hit;

struct Armed {
   explicit Armed(long k) {
      hit = false;
      allocs = 0;
      countdown = k;
   }
   ~Armed() {
      countdown = -1;
   }
};

template <class A>
auto contents(const A& a) {
   if constexpr(spp::TwoDimBaseType<A>) return vals2(a);
   else {
      Mat<spp::BuiltinTypeOf<A>> m(1, 0);
      m.v = vals1(a);
      m.n = static_cast<long>(m.v.size());
      return m;
   }
}

// op(target) is run without a failure, then with the k-th allocation failing, for every k.
template <class A, class Op, class Chk>
void inject(pbt::Src& s, const char* what, const A& start, Op&& op, Chk&& operands) {
   auto before = contents(start);
   s.note(what, " on ", str(before));
   std::optional<A> ref(std::in_place, start);
   long live0 = live;
   bool rej = false;
   long n = 0;
   {
      try {
         Armed g(-1);
         op(*ref);
         n = allocs;
      } catch(const spp::StrictException&) {
         n = allocs;
         rej = true;
      }
   }
   operands();
   REQ(!rej || same(contents(*ref), before), what, " was rejected and left ", str(contents(*ref)));
   ref.reset();
   REQ(live <= live0, what, " leaks ", live - live0, " blocks");
   for(long k = 0; k < n && k < 40; ++k) {
      std::optional<A> t(std::in_place, start);
      bool thrown = false, other = false;
      long l0 = live, l1 = 0;
      try {
         Armed g(k);
         op(*t);
      } catch(const std::bad_alloc&) {
         thrown = true;
      } catch(const spp::StrictException&) {
         other = true;
      }
      l1 = live;
      REQ(hit, what, ": allocation ", k, " of ", n, " was not made again");
      REQ(thrown, what, ": failure of allocation ", k, " of ", n, other ? " was turned into another error" : " was swallowed");
      REQ(same(contents(*t), before), what, ": failure of allocation ", k, " of ", n, " leaves ", str(contents(*t)), ", was ", str(before));
      REQ(l1 == l0, what, ": failure of allocation ", k, " of ", n, " leaks ", l1 - l0, " blocks");
      operands();
      // still usable
      if constexpr(!A::is_fixed()) {
         t->resize_and_assign(start);
         REQ(same(contents(*t), before), "the array is not usable afterwards");
      }
      t.reset();
      REQ(live < l0 || before.v.empty() || A::is_fixed(), "the array's memory is not released");
   }
   s.label(n == 0 ? "no allocation" : n == 1 ? "one allocation" : n < 4 ? "2-3 allocations" : "4 or more allocations");
   s.nontrivial(n > 0);
}

template <class T>
T elem(pbt::Src& s) {
   if constexpr(is_bool<T>) return s.coin();
   else return static_cast<T>(s.below(100));
}
template <class T>
std::vector<T> vec(pbt::Src& s, long n) {
   std::vector<T> v;
   for(long i = 0; i < n; ++i) v.push_back(elem<T>(s));
   return v;
}
template <class A, class T>
A mk1(const std::vector<T>& v) {
   A a(static_cast<long>(v.size()));
   o::fill(a, v);
   return a;
}

template <class T, spp::AlignmentFlag AF>
void one(pbt::Src& s) {
   using A = spp::Array1D<T, AF>;
   using B = spp::Array1D<T, AF == spp::Aligned ? spp::Unaligned : spp::Aligned>;
   A start = mk1<A>(vec<T>(s, s.range(0, 6)));
   long n = start.size().val();
   o::any1<T>(s, 6, [](pbt::Src& r) { return elem<T>(r); }, [&](auto&& x, auto& in) {
      s.note("operand ", in.kind, " ", str(in.v));
      long xn = static_cast<long>(in.v.size());
      auto chk = [&] { REQ(same(vals1(x), in.v), "the operand changed to ", str(vals1(x))); };
      auto go = [&](const char* w, auto op) { inject(s, w, start, op, chk); };
      auto list = o::il(o::sub(s, n));
      auto some = o::il(o::indexes(s, xn));
      long pos = s.range(0, n + 1), cnt = s.range(0, 3);
      auto v = mk(elem<T>(s));
      switch(s.below(24)) {
         case 0: return go("construct an array", [&](A&) { A b(x); });
         case 1: return go("construct an array of the other alignment", [&](A&) { B b(x); });
         case 2: return go("resize_and_assign", [&](A& a) { a.resize_and_assign(x); });
         case 3: return go("insert", [&](A& a) { a.insert(pos, x); });
         case 4: return go("insert_front", [&](A& a) { a.insert_front(x); });
         case 5: return go("insert_back", [&](A& a) { a.insert_back(x); });
         case 6: return go("insert of an element", [&](A& a) { a.insert(pos, v); });
         case 7: return go("remove", [&](A& a) { a.remove(pos, cnt); });
         case 8: return go("remove a list", [&](A& a) { a.remove(list); });
         case 9: return go("remove_front, then insert_back", [&](A& a) { auto c(a); c.remove_front(1); c.insert_back(v); a.swap(c); });
         case 10: return go("resize", [&](A& a) { a.resize(pos + cnt); });
         case 11: return go("resize without preserving", [&](A& a) { a.resize(pos + cnt, false); });
         case 12: return go("copy", [&](A& a) { A c(a), d(c); });
         case 13: return go("eval", [&](A&) { auto e = x.eval(); auto f = e.eval(); });
         case 14: return go("resize_and_assign of an expression", [&](A& a) { a.resize_and_assign(generate(x, [](auto e) { return e; })); });
         case 15: return go("resize_and_assign of a merge", [&](A& a) { a.resize_and_assign(merge(x, start, x)); });
         case 16: return go("resize_and_assign of a selection", [&](A& a) { a.resize_and_assign(x(some)); });
         case 17: return go("assign of the same size", [&](A& a) { A c(x); c = x; a = start(spp::place::reverse); });
         case 18: return go("assign a selection to a selection", [&](A& a) { a(list) = start(list); });
         case 19: return go("insert a selection of itself", [&](A& a) { a.insert(pos, a(list)); });
         case 20: return go("resize_and_assign of a temporary", [&](A& a) { a.resize_and_assign(A(x)); });
         case 21: return go("construct with a value, from iterators and a list", [&](A& a) {
            A c(3, v), d(x.begin(), x.end()), e{v, v};
            a.resize_and_assign(merge(c, d, e));
         });
         case 22: return go("an std::vector of arrays", [&](A& a) {
            std::vector<A> w;
            w.push_back(a);
            w.push_back(start);
            w.push_back(A(x));
            a.swap(w.back());
         });
         default: return go("nested expression", [&](A& a) { a.resize_and_assign(exclude(merge(x(some), start), 0)(spp::place::reverse)); });
      }
   });
}

template <class T, spp::AlignmentFlag AF>
void two(pbt::Src& s) {
   using A = spp::Array2D<T, AF>;
   using B = spp::Array2D<T, AF == spp::Aligned ? spp::Unaligned : spp::Aligned>;
   auto [m, n] = o::shape(s, 3);
   A start(m, n);
   o::fill(start, vec<T>(s, m * n));
   long fm = -1, fn = -1;
   int op = static_cast<int>(s.below(26));
   bool vertical = op < 6, horizontal = op >= 6 && op < 9;
   if((vertical || horizontal) && m && s.chance(4, 5)) {
      fm = vertical ? s.range(1, 3) : m;
      fn = vertical ? n : s.range(1, 3);
   }
   o::any2<T>(s, 3, [](pbt::Src& r) { return elem<T>(r); }, [&](auto&& x, auto& in) {
      s.note("operand ", in.kind, " ", str(in.v));
      auto chk = [&] { REQ(same(vals2(x), in.v), "the operand changed to ", str(vals2(x))); };
      auto go = [&](const char* w, auto f) { inject(s, w, start, f, chk); };
      auto rl = o::il(o::sub(s, m)), cl = o::il(o::sub(s, n));
      auto xr = o::il(o::indexes(s, in.v.m)), xc = o::il(o::indexes(s, in.v.n));
      long pos = s.range(0, m + 1), cpos = s.range(0, n + 1), cnt = s.range(0, 2);
      auto v = mk(elem<T>(s));
      switch(op) {
         case 0: return go("insert_rows", [&](A& a) { a.insert_rows(pos, x); });
         case 1: return go("insert_row", [&](A& a) { a.insert_row(pos, x.row(0)); });
         case 2: return go("insert_row of a selection", [&](A& a) { a.insert_row(pos, x.row(0)(spp::place::reverse)); });
         case 3: return go("insert_rows of an expression", [&](A& a) { a.insert_rows(pos, generate(x, [](auto e) { return e; })); });
         case 4: return go("merge_vertical", [&](A& a) { a.resize_and_assign(merge_vertical(x, start)); });
         case 5: return go("insert_rows of itself", [&](A& a) { a.insert_rows(pos, a); });
         case 6: return go("insert_cols", [&](A& a) { a.insert_cols(cpos, x); });
         case 7: return go("insert_col", [&](A& a) { a.insert_col(cpos, x.col(0)); });
         case 8: return go("merge_horizontal", [&](A& a) { a.resize_and_assign(merge_horizontal(start, x)); });
         case 9: return go("remove_row", [&](A& a) { a.remove_row(pos); });
         case 10: return go("remove_col", [&](A& a) { a.remove_col(cpos); });
         case 11: return go("remove_rows", [&](A& a) { a.remove_rows(pos, cnt); });
         case 12: return go("remove_cols", [&](A& a) { a.remove_cols(cpos, cnt); });
         case 13: return go("remove_rows of a list", [&](A& a) { a.remove_rows(rl); });
         case 14: return go("remove_cols of a list", [&](A& a) { a.remove_cols(cl); });
         case 15: return go("resize", [&](A& a) { a.resize(pos, pos ? cpos + 1 : 0); });
         case 16: return go("resize without preserving", [&](A& a) { a.resize(pos, pos ? cpos + 1 : 0, false); });
         case 17: return go("construct", [&](A&) { A b(x); B c(x); });
         case 18: return go("copy", [&](A& a) { A c(a), d(c); });
         case 19: return go("eval", [&](A&) { auto e = x.eval(); auto f = e.eval(); });
         case 20: return go("resize_and_assign", [&](A& a) { a.resize_and_assign(x); });
         case 21: return go("resize_and_assign of a transpose", [&](A& a) { a.resize_and_assign(transpose(x)); });
         case 22: return go("resize_and_assign of a selection", [&](A& a) { a.resize_and_assign(x(xr, xc)); });
         case 23: return go("resize_and_assign of a temporary", [&](A& a) { a.resize_and_assign(A(x)); });
         case 24: return go("assign of the same size", [&](A& a) { A c(2, 1); c = {{v}, {v}}; a = start(spp::place::reverse, spp::place::all); });
         default: return go("assign a selection to a selection", [&](A& a) { a(rl, cl) = start(rl, cl); a.rows(rl) = start.rows(rl); });
      }
   }, false, fm, fn);
}

// Reductions, sorting, products and text: no lasting memory.
template <class T>
void misc(pbt::Src& s) {
   using A = spp::Array1D<T>;
   A start = mk1<A>(vec<T>(s, s.range(0, 8)));
   long n = start.size().val();
   spp::Array2D<T> M(2, n ? n : 1);
   o::fill(M, vec<T>(s, 2 * (n ? n : 1)));
   auto mv = vals2(M);
   auto chk = [&] { REQ(same(vals2(M), mv), "the operand changed"); };
   auto go = [&](const char* w, auto f) { inject(s, w, start, f, chk); };
   switch(s.below(7)) {
      case 0: return go("matvec_prod", [&](A& a) { a.resize_and_assign(matvec_prod(M, a)); });
      case 1: return go("tensor_prod", [&](A& a) { spp::Array2D<T> t(tensor_prod(a, a)); a.resize_and_assign(t.view1D()); });
      case 2: return go("row_reduce, col_reduce", [&](A& a) { a.resize_and_assign(merge(row_reduce(M, [](auto r) { return sum(r); }), col_reduce(M, [](auto r) { return sum(r); }))); });
      case 3: return go("sort a copy", [&](A& a) { A c(a); sort_increasing(c); a.swap(c); });
      case 4: return go("text output", [&](A& a) { std::ostringstream os; os.exceptions(std::ios::badbit); os << a; });
      case 5: return go("index queries", [&](A& a) { auto r = in_closed_range(a, spp::Low{T(0)}, spp::High{T(50)}); a.resize_and_assign(r); });
      default: return go("attached view of a copy", [&](A& a) { A c(a); T* p = c.blas_data(); auto w = spp::attach1D(p, n); a.resize_and_assign(w(spp::place::reverse)); });
   }
}

// Without failures every history returns all memory.
template <class T, spp::AlignmentFlag AF>
void history(pbt::Src& s) {
   long steps = s.range(1, 8);
   std::vector<int> ops;
   std::vector<long> arg;
   for(long t = 0; t < steps; ++t) {
      ops.push_back(static_cast<int>(s.below(12)));
      arg.push_back(s.range(0, 5));
   }
   auto contents = vec<T>(s, 4);
   std::vector<spp::ImplicitInt> ix = o::il({0});
   long l0 = live;
   {
      using A = spp::Array1D<T, AF>;
      using M = spp::Array2D<T, AF>;
      A a = mk1<A>(contents), b;
      M m(2, 2), k;
      for(std::size_t t = 0; t < ops.size(); ++t) {
         long q = arg[t];
         try {
            switch(ops[t]) {
               case 0: a.resize(q); break;
               case 1: a.insert_back(b); break;
               case 2: b.resize_and_assign(A(a)); break;
               case 3: b.resize_and_assign(a(spp::place::reverse)); break;
               case 4: b.resize_and_assign(std::move(a)); break;
               case 5: a.remove(ix); break;
               case 6: m.resize(q, q); break;
               case 7: k.resize_and_assign(std::move(m)); break;
               case 8: m.resize_and_assign(merge_vertical(m, k)); break;
               case 9: m.insert_rows(q, k); break;
               case 10: m.remove_row(q); break;
               default: a.swap(b); m.swap(k);
            }
         } catch(const spp::StrictException&) {
         }
      }
   }
   REQ(live == l0, live - l0, " blocks are not released after a history");
   s.label("history without failures");
   s.nontrivial(steps > 1);
}

} // namespace al
