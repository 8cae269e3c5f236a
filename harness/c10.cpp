// C10: views and slices of 2D objects against matrices of positions.
#include "leaf.hpp"

namespace {
struct PM { // positions of a 2D object in the memory
   long m = 0, n = 0;
   std::vector<long> v;
   long at(long i, long j) const {
      return v[static_cast<std::size_t>(i * n + j)];
   }
};

// Only a few forms, to be combined with every form on the other axis.
template <class F>
void few(const d::Desc& x, F&& f) {
   if(x.k == d::SEQN) return f(spp::seqN{x.a, x.b, x.c});
   if(x.k == d::LAST) return f(spp::place::lastN{x.a});
   if(x.k == d::LIST) return f(o::il(x.l));
   f(spp::place::reverse);
}
d::Desc draw_few(pbt::Src& s, long n) {
   for(;;) {
      auto x = d::draw(s, n);
      if(x.k == d::SEQN || x.k == d::LAST || x.k == d::LIST || x.k == d::REVERSE) return x;
      if(s.coin()) {
         x = d::Desc{};
         x.k = d::REVERSE;
         return x;
      }
   }
}

template <class T>
struct Run : leaf::Mem<T> {
   using B = leaf::Mem<T>;
   using B::base;
   using B::s;

   bool ok(long i, long n) const {
      return i >= 0 && i < n;
   }
   std::vector<T> expect2(const PM& p) {
      return this->expect(p.v);
   }
   template <class A>
   void check2(const A& a, const PM& p, const char* when) {
      REQ(a.rows().val() == p.m && a.cols().val() == p.n && a.size().val() == p.m * p.n, when, ": shape ", a.rows().val(), "x", a.cols().val(), ", expected ",
          p.m, "x", p.n);
      auto x = vals2(a);
      REQ(same(x.v, expect2(p)), when, ": view is ", str(x), ", expected ", str(expect2(p)), ", positions ", str(p.v));
      for(long k = 0; k < p.m * p.n; ++k)
         REQ(same(a.un(k), base[static_cast<std::size_t>(p.v[static_cast<std::size_t>(k)])]), when, ": un(", k, ")");
      auto mm = this->mem();
      REQ(same(mm, base), when, ": memory is ", str(mm), ", expected ", str(base));
   }
   template <class A>
   void leaf2(A& a, const PM& p) {
      check2(a, p, "fresh view");
      spp::Array2D<T> C(a);
      REQ(same(vals2(C).v, expect2(p)) && C.rows().val() == p.m && C.cols().val() == p.n, "array made from the view");
      if(!base.empty()) {
         long i = s.range(0, static_cast<long>(base.size()) - 1);
         T v = this->val();
         this->poke(i, v);
         base[static_cast<std::size_t>(i)] = v;
         check2(a, p, "after a change of the array");
      }
      auto t = p.v;
      std::sort(t.begin(), t.end());
      bool unique = std::adjacent_find(t.begin(), t.end()) == t.end();
      if constexpr(spp::detail::NonConstBaseType<A>) {
         int op = static_cast<int>(s.below(7));
         s.note("write ", op);
         auto put = [&](long i, long j, T v) { base[static_cast<std::size_t>(p.at(i, j))] = v; };
         auto all = [&](auto f) {
            for(long i = 0; i < p.m; ++i)
               for(long j = 0; j < p.n; ++j) f(i, j);
         };
         switch(op) {
            case 0:
               if(p.m && p.n) {
                  long i = s.range(0, p.m - 1), j = s.range(0, p.n - 1);
                  T v = this->val();
                  if(s.coin()) a(i, j) = mk(v);
                  else a(spp::last - (p.m - 1 - i), j) = mk(v);
                  put(i, j, v);
               }
               break;
            case 1: {
               T v = this->val();
               a = mk(v);
               all([&](long i, long j) { put(i, j, v); });
               break;
            }
            case 2: {
               spp::Array2D<T> X(p.m, p.n);
               all([&](long i, long j) {
                  X(i, j) = mk(this->val());
                  put(i, j, X(i, j).val());
               });
               a = X;
               break;
            }
            case 3: {
               if(!unique) return;
               spp::Array2D<T> X(p.m, p.n);
               all([&](long i, long j) {
                  X(i, j) = mk(this->val());
                  put(i, j, static_cast<T>(C(i, j).val()));
               });
               // C has the values before the change above
               auto now = expect2(p);
               a = C;
               a += X(spp::place::all, spp::place::all);
               all([&](long i, long j) { put(i, j, static_cast<T>(C(i, j).val() + X(i, j).val())); });
               break;
            }
            case 4: {
               long k = 0;
               for(auto& e : a) {
                  T v = this->val();
                  e = mk(v);
                  put(k / p.n, k % p.n, v);
                  ++k;
               }
               REQ(k == p.m * p.n);
               break;
            }
            case 5:
               if(p.m == 2 && p.n == 2) {
                  T w[4];
                  for(auto& x : w) x = this->val();
                  a = {{mk(w[0]), mk(w[1])}, {mk(w[2]), mk(w[3])}};
                  for(long k = 0; k < 4; ++k) put(k / 2, k % 2, w[k]);
               } else {
                  REQ(rejected([&] { a = {{mk(T{1}), mk(T{2})}, {mk(T{1}), mk(T{2})}}; }), "2x2 list assigned to ", p.m, "x", p.n);
               }
               break;
            default: {
               if(!unique) return;
               a = generate(C, [](auto x) { return x + x; });
               all([&](long i, long j) { put(i, j, static_cast<T>(C(i, j).val() + C(i, j).val())); });
               break;
            }
         }
         check2(a, p, "after writing through the view");
      }
   }
   static PM cross(const PM& p, const std::vector<long>& r, const std::vector<long>& c) {
      PM q;
      if(r.empty() || c.empty()) return q;
      q.m = static_cast<long>(r.size()), q.n = static_cast<long>(c.size());
      for(long i : r)
         for(long j : c) q.v.push_back(p.at(i, j));
      return q;
   }
   template <class A>
   void level(A& a, const PM& p) {
      int op = static_cast<int>(s.below(12));
      auto res = [&](bool valid, bool rej, auto... w) {
         s.nontrivial(!valid || p.m * p.n > 1);
         s.label(valid ? "valid description" : "description outside");
         REQ(rej == !valid, pbt::cat(w...), " of ", p.m, "x", p.n, rej ? " rejected" : " accepted");
      };
      auto chk = [&](bool valid) { REQ(valid, "invalid view accepted"); };
      switch(op) {
         case 0: {
            long i = d::around(s, p.m);
            bool valid = ok(i, p.m);
            std::vector<long> m;
            for(long j = 0; valid && j < p.n; ++j) m.push_back(p.at(i, j));
            bool fromend = s.coin();
            s.note(fromend ? "row from the end " : "row ", i);
            bool rej = rejected([&] {
               if(fromend) {
                  auto v = a.row(spp::last - (p.m - 1 - i));
                  chk(valid);
                  this->leaf(v, m);
               } else {
                  auto v = a.row(i);
                  chk(valid);
                  this->leaf(v, m);
               }
            });
            return res(valid, rej, "row ", i);
         }
         case 1: {
            long i = d::around(s, p.n);
            bool valid = ok(i, p.n);
            std::vector<long> m;
            for(long j = 0; valid && j < p.m; ++j) m.push_back(p.at(j, i));
            bool fromend = s.coin();
            s.note(fromend ? "column from the end " : "column ", i);
            bool rej = rejected([&] {
               if(fromend) {
                  auto v = a.col(spp::last - (p.n - 1 - i));
                  chk(valid);
                  this->leaf(v, m);
               } else {
                  auto v = a.col(i);
                  chk(valid);
                  this->leaf(v, m);
               }
            });
            return res(valid, rej, "column ", i);
         }
         case 2: {
            bool main = s.coin();
            long k = main ? 0 : s.coin() ? d::around(s, p.n) : -d::around(s, p.m);
            bool valid = main || (k >= 0 ? k < p.n : -k < p.m);
            std::vector<long> m;
            if(valid)
               for(long i = k < 0 ? -k : 0, j = k > 0 ? k : 0; i < p.m && j < p.n; ++i, ++j) m.push_back(p.at(i, j));
            s.note("diagonal ", k, main ? " (main)" : "");
            bool rej = rejected([&] {
               if(main) {
                  auto v = a.diag();
                  this->leaf(v, m);
               } else {
                  auto v = a.diag(k);
                  chk(valid);
                  this->leaf(v, m);
               }
            });
            return res(valid, rej, "diagonal ", k);
         }
         case 3: {
            auto v = a.view1D();
            s.note("view1D");
            this->leaf(v, p.v);
            return res(true, false);
         }
         case 4: {
            long sz = p.m * p.n, m, n;
            if(s.chance(3, 4) && sz) {
               m = s.range(1, sz);
               while(sz % m) --m;
               n = sz / m;
               if(s.chance(1, 4)) m += s.range(0, 2) - 1;
               if(s.chance(1, 8)) m = -m, n = -n;
            } else {
               m = d::around(s, p.m), n = d::around(s, p.n);
            }
            bool valid = m >= 0 && n >= 0 && static_cast<__int128>(m) * n == sz;
            s.note("view2D ", m, "x", n);
            PM q{sz ? m : 0, sz ? n : 0, p.v};
            bool rej = rejected([&] {
               auto v = a.view2D(m, n);
               chk(valid);
               leaf2(v, q);
            });
            return res(valid, rej, "view2D ", m, ",", n);
         }
         case 5: {
            long i = s.range(0, p.m + 2) - 1, j = s.range(0, p.n + 2) - 1, k = s.range(0, p.m + 2) - 1, l = s.range(0, p.n + 2) - 1;
            if(s.coin() && p.m) { // mostly valid
               i = s.range(0, p.m - 1), k = s.range(i, p.m - 1);
               j = s.range(0, p.n - 1), l = s.range(j, p.n - 1);
            }
            bool valid = ok(i, p.m) && ok(k, p.m) && ok(j, p.n) && ok(l, p.n) && i <= k && j <= l;
            std::vector<long> r, c;
            for(long x = i; valid && x <= k; ++x) r.push_back(x);
            for(long x = j; valid && x <= l; ++x) c.push_back(x);
            s.note("block ", i, " ", j, " ", k, " ", l);
            bool rej = rejected([&] {
               if(s.coin()) {
                  auto v = a.block(i, j, k, l);
                  chk(valid);
                  leaf2(v, cross(p, r, c));
               } else {
                  auto v = a.block(i, spp::last - (p.n - 1 - j), spp::last - (p.m - 1 - k), l);
                  chk(valid);
                  leaf2(v, cross(p, r, c));
               }
            });
            return res(valid, rej, "block");
         }
         case 6: {
            long i = s.range(0, p.m + 2) - 1, j = s.range(0, p.n + 2) - 1, k = s.range(0, p.m + 2) - 1, l = s.range(0, p.n + 2) - 1;
            auto axis = [&](long st, long cnt, long n) { return st >= 0 && cnt >= 0 && (cnt == 0 || st + cnt <= n); };
            bool valid = axis(i, k, p.m) && axis(j, l, p.n);
            std::vector<long> r, c;
            for(long x = 0; valid && x < k; ++x) r.push_back(i + x);
            for(long x = 0; valid && x < l; ++x) c.push_back(j + x);
            s.note("blockN ", i, " ", j, " ", k, " ", l);
            bool rej = rejected([&] {
               auto v = a.blockN(i, j, k, l);
               chk(valid);
               leaf2(v, cross(p, r, c));
            });
            return res(valid, rej, "blockN");
         }
         default: return slices(a, p, op);
      }
   }
   template <class A>
   void slices(A& a, const PM& p, int op) {
      auto x = op == 8 || op == 10 ? draw_few(s, p.m) : d::draw(s, p.m);
      auto y = op == 8 || op == 10 ? d::draw(s, p.n) : op == 9 ? d::draw(s, p.n) : draw_few(s, p.n);
      std::vector<long> r, c;
      // op 7: every row form; 8: every column form; 9: rows or cols; 10/11: as 8/7 through braces for lists
      if(op == 9) {
         bool rows = s.coin();
         auto& z = rows ? x : y;
         bool valid = z.select(rows ? p.m : p.n, r);
         s.note(rows ? "rows " : "cols ", z.str());
         s.nontrivial(!valid || p.m * p.n > 1);
         s.label(valid ? "valid description" : "description outside");
         PM q = valid ? (rows ? cross(p, r, o::iota(p.n)) : cross(p, o::iota(p.m), r)) : PM{};
         bool rej = rejected([&] {
            auto next = [&](auto&& v) {
               REQ(valid, "invalid rows/cols accepted");
               leaf2(v, q);
            };
            auto form = [&](auto sl) {
               if(rows) {
                  auto v = a.rows(sl);
                  next(v);
               } else {
                  auto v = a.cols(sl);
                  next(v);
               }
            };
            if(z.linear()) d::lin(z, form);
            else if(z.k == d::ILIST) {
               using I = spp::ImplicitInt;
               if(rows) {
                  auto v = a.rows({I{z.l[0]}, I{z.l[1]}, I{z.l[2]}});
                  next(v);
               } else {
                  auto v = a.cols({I{z.l[0]}, I{z.l[1]}, I{z.l[2]}});
                  next(v);
               }
            } else d::lst(z, form);
         });
         REQ(rej == !valid, (rows ? "rows " : "cols "), z.str(), " of ", p.m, "x", p.n, rej ? " rejected" : " accepted");
         return;
      }
      bool valid = x.select(p.m, r);
      valid = y.select(p.n, c) && valid;
      s.note("slice ", x.str(), " , ", y.str(), valid ? "" : " (outside)");
      s.nontrivial(!valid || p.m * p.n > 1);
      s.label(valid ? "valid description" : "description outside");
      PM q = valid ? cross(p, r, c) : PM{};
      auto next = [&](auto&& v) {
         REQ(valid, "invalid slice accepted");
         leaf2(v, q);
      };
      bool first = op == 7 || op == 11;
      bool rej = rejected([&] {
         few(first ? y : x, [&](auto f) {
            auto form = [&](auto g) {
               if(first) {
                  auto v = a(g, f);
                  next(v);
               } else {
                  auto v = a(f, g);
                  next(v);
               }
            };
            auto& z = first ? x : y;
            if(z.linear()) d::lin(z, form);
            else if(z.k == d::ILIST) {
               using I = spp::ImplicitInt;
               if(first) {
                  auto v = a({I{z.l[0]}, I{z.l[1]}, I{z.l[2]}}, f);
                  next(v);
               } else {
                  auto v = a(f, {I{z.l[0]}, I{z.l[1]}, I{z.l[2]}});
                  next(v);
               }
            } else d::lst(z, form);
         });
      });
      REQ(rej == !valid, x.str(), " , ", y.str(), " of ", p.m, "x", p.n, rej ? " rejected" : " accepted");
   }
};

std::pair<long, long> shp(pbt::Src& s) {
   return o::shape(s, s.chance(1, 20) ? 9 : 5);
}

template <class T, class O, class F>
void go(pbt::Src& s, O& owner, F&& f) { // owner: the array that owns the memory; f calls level
   long n = owner.size().val();
   Run<T> r{{s, {}, {}, {}}};
   for(long i = 0; i < n; ++i) {
      T v = static_cast<T>(100 + i);
      owner.un(i) = mk(v);
      r.base.push_back(v);
   }
   r.mem = [&owner, n] {
      std::vector<T> v;
      for(long i = 0; i < n; ++i) v.push_back(owner.un(i).val());
      return v;
   };
   r.poke = [&owner](long i, T v) { owner.un(i) = mk(v); };
   f(r);
}
[[maybe_unused]] PM full(long m, long n) {
   return PM{m, n, o::iota(m * n)};
}
} // namespace

#ifndef PART
PROP(c10_array, 3) {
   auto [m, n] = shp(s);
   spp::Array2D<int> A(m, n);
   s.note("array ", m, "x", n);
   go<int>(s, A, [&](auto& r) { r.level(A, full(m, n)); });
}
#elif PART == 1
PROP(c10_const_array, 2) {
   auto [m, n] = shp(s);
   spp::Array2D<int, spp::Aligned> A(m, n);
   const auto& C = A;
   s.note("const array ", m, "x", n);
   go<int>(s, A, [&](auto& r) { r.level(C, full(m, n)); });
}
#elif PART == 2
PROP(c10_fixed, 1) {
   spp::FixedArray2D<double, 3, 4> A;
   go<double>(s, A, [&](auto& r) { r.level(A, full(3, 4)); });
}
#elif PART == 3
PROP(c10_attached, 1) {
   auto [m, n] = shp(s);
   std::vector<long> v(static_cast<std::size_t>(m * n) + 1);
   auto* p = v.data();
   auto A = spp::attach2D(p, m, n);
   s.note("attached ", m, "x", n);
   go<long>(s, A, [&](auto& r) { r.level(A, full(m, n)); });
}
#elif PART == 4
PROP(c10_slice, 2) { // views of strided slices
   auto [m, n] = shp(s);
   spp::Array2D<int> A(m, n);
   auto x = o::slice(s, m), y = o::slice(s, n);
   s.note("rows ", x.st, ",", x.n, ",", x.str, " cols ", y.st, ",", y.n, ",", y.str, " of ", m, "x", n);
   auto V = A(x.get(), y.get());
   auto p = Run<int>::cross(full(m, n), x.map(), y.map());
   go<int>(s, A, [&](auto& r) { r.level(V, p); });
}
#elif PART == 5
PROP(c10_list_slice, 2) {
   auto [m, n] = shp(s);
   spp::Array2D<int> A(m, n);
   auto x = o::indexes(s, m);
   auto y = o::indexes(s, n);
   s.note("rows ", str(x), " cols ", str(y), " of ", m, "x", n);
   auto V = A(o::il(x), o::il(y));
   auto p = Run<int>::cross(full(m, n), x, y);
   go<int>(s, A, [&](auto& r) { r.level(V, p); });
}
#elif PART == 6
PROP(c10_view2d_of_1d, 2) { // a 2D view of a slice of a 1D array
   long sz = s.range(0, 12);
   spp::Array1D<unsigned> A(sz);
   auto x = o::slice(s, sz);
   long m = x.n ? s.range(1, x.n) : 0;
   while(m && x.n % m) --m;
   long n = m ? x.n / m : 0;
   s.note("start ", x.st, " size ", x.n, " stride ", x.str, " of ", sz, " as ", m, "x", n);
   auto S = A(x.get());
   auto V = S.view2D(m, n);
   go<unsigned>(s, A, [&](auto& r) {
      if(s.chance(1, 4)) { // shapes of the 1D array itself
         long k = d::around(s, sz), l = s.coin() && k > 0 ? sz / k : d::around(s, 3);
         bool valid = k >= 0 && l >= 0 && static_cast<__int128>(k) * l == sz;
         s.note("view2D ", k, "x", l);
         s.nontrivial(!valid || sz > 1);
         PM q{sz ? k : 0, sz ? l : 0, o::iota(sz)};
         bool rej = rejected([&] {
            if(s.coin()) {
               auto W = A.view2D(k, l);
               REQ(valid);
               r.leaf2(W, q);
            } else {
               const auto& C = A;
               auto W = C.view2D(k, l);
               REQ(valid);
               r.leaf2(W, q);
            }
         });
         REQ(rej == !valid, "view2D ", k, ",", l, " of ", sz, rej ? " rejected" : " accepted");
         return;
      }
      r.level(V, PM{m, n, x.map()});
   });
}
#else
PROP(c10_view1d_roundtrip, 1) { // mixed chain: slice, 1D view, slice, 2D view
   auto [m, n] = shp(s);
   spp::Array2D<int> A(m, n);
   auto x = o::slice(s, m);
   auto V = A.rows(x.get());
   auto p = Run<int>::cross(full(m, n), x.map(), o::iota(n));
   auto y = o::slice(s, p.m * p.n);
   auto W = V.view1D()(y.get());
   std::vector<long> q;
   for(long i : y.map()) q.push_back(p.v[static_cast<std::size_t>(i)]);
   long k = y.n ? s.range(1, y.n) : 0;
   while(k && y.n % k) --k;
   long l = k ? y.n / k : 0;
   s.note("rows ", x.st, ",", x.n, ",", x.str, " of ", m, "x", n, " then ", y.st, ",", y.n, ",", y.str, " as ", k, "x", l);
   s.nontrivial(y.n > 1);
   go<int>(s, A, [&](auto& r) {
      if(s.coin()) return r.leaf(W, q);
      auto Z = W.view2D(k, l);
      PM z{k, l, q};
      if(s.coin()) return r.leaf2(Z, z);
      auto U = Z.view1D()(spp::place::reverse);
      std::reverse(q.begin(), q.end());
      r.leaf(U, q);
   });
}
#endif
