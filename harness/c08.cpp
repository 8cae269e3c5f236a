// C08: indexes outside are rejected, indexes inside designate that very element.
#include "objs.hpp"
#include <functional>

namespace {
#ifdef STRICT_DEBUG_OFF
constexpr bool CHECKED = false;
#else
constexpr bool CHECKED = true;
#endif

long around(pbt::Src& s, long n) {
   if(s.chance(1, 10)) return s.pick({1L << 40, -(1L << 40), 1L << 61, -(1L << 61), 1L << 32, (1L << 32) + 1, 1L << 31, -(1L << 31), (1L << 32) - 1, -(1L << 32)});
   return s.range(0, n + 5) - 3;
}

// Calls f with the index in one of the accepted forms; designated index is i.
template <class F>
auto as_index(pbt::Src& s, long i, long n, F&& f) {
   switch(s.below(6)) {
      case 0: return f(i);
      case 1:
         if(i >= INT_MIN && i <= INT_MAX) return f(static_cast<int>(i));
         return f(i);
      case 2: return f(spp::index_t{i});
      case 3:
         if(i >= INT_MIN && i <= INT_MAX) return f(Strict<int>{static_cast<int>(i)});
         return f(spp::index_t{i});
      case 4: return f(spp::ImplicitInt{i});
      default: {
         long k = n - 1 - i; // last - k
         switch(s.below(3)) {
            case 0: return f(spp::last - spp::ImplicitInt{k});
            case 1: return f(spp::last + spp::ImplicitInt{-k});
            default: return f(spp::ImplicitInt{-k - 1} + (spp::last - 1 + 2));
         }
      }
   }
}

template <class F>
void as_index2(pbt::Src& s, long i, long n, F&& f) { // fewer forms
   if(s.coin()) f(i);
   else f(spp::last - spp::ImplicitInt{n - 1 - i});
}

template <class T>
T distinct(pbt::Src&) {
   static long c = 0;
   c = (c + 1) % 100;
   return static_cast<T>(c + 1);
}

// What an access gave: the value and, if it is a writable reference, where it refers to.
template <class T>
struct Got {
   T val{};
   Strict<T>* ref = nullptr;
};
template <class T>
Got<T> grab(Strict<T>& r) {
   return {r.val(), &r};
}
template <class T>
Got<T> grab(const Strict<T>& r) {
   return {r.val(), nullptr};
}

template <class T, class In>
void judge(pbt::Src& s, const In& in, const std::vector<T>& v, bool valid, std::size_t flat, auto&& access) {
   auto before = in.reg.p ? in.reg.get() : std::vector<T>{};
   Got<T> r;
   bool rej = rejected([&] { r = access(); });
   REQ(rej == !valid, rej ? "rejected" : "accepted");
   if(valid) {
      REQ(same(r.val, static_cast<T>(v[flat])), "read ", str(r.val), ", expected ", str(static_cast<T>(v[flat])));
      if(r.ref && in.reg.p) {
         REQ(reinterpret_cast<const T*>(r.ref) == in.reg.p + in.map[flat], "reference to another element");
         T x = static_cast<T>(T(1) + v[flat]);
         *r.ref = mk(x);
         before[static_cast<std::size_t>(in.map[flat])] = x;
      }
   }
   if(in.reg.p) REQ(same(in.reg.get(), before), "memory is ", str(in.reg.get()), ", expected ", str(before));
   s.nontrivial(!valid || flat != 0);
}

template <class T>
void p1(pbt::Src& s) {
   o::any1<T>(s, 7, distinct<T>, [&](auto&& a, const o::Info1<T>& in) {
      long n = static_cast<long>(in.v.size());
      REQ(a.size().val() == n, in.kind, " has size ", a.size().val());
      s.label(in.kind);
      using A = std::remove_reference_t<decltype(a)>;
      for(int rep = 0; rep < 3; ++rep) {
         bool use_at = s.coin(), cst = s.coin();
         long i = around(s, n);
         bool valid = i >= 0 && i < n;
         if(!CHECKED && !use_at && !valid) continue;
         s.note(in.kind, " of size ", n, use_at ? " at " : " [] ", i, cst ? " const" : "");
         const A& c = a;
         judge<T>(s, in, in.v, valid, valid ? static_cast<std::size_t>(i) : 0, [&] {
            return as_index(s, i, n, [&](auto ix) {
               return cst ? (use_at ? grab<T>(c.at(ix)) : grab<T>(c[ix])) : (use_at ? grab<T>(a.at(ix)) : grab<T>(a[ix]));
            });
         });
         if(in.reg.p && !cst && valid) break; // contents may have changed
      }
   });
}

template <class T>
void p2(pbt::Src& s) {
   o::any2<T>(s, 4, distinct<T>, [&](auto&& a, const o::Info2<T>& in) {
      long m = in.v.m, n = in.v.n;
      REQ(a.rows().val() == m && a.cols().val() == n, in.kind, " has shape ", a.rows().val(), "x", a.cols().val(), ", expected ", m, "x", n);
      REQ(a.size().val() == m * n);
      s.label(in.kind);
      using A = std::remove_reference_t<decltype(a)>;
      for(int rep = 0; rep < 3; ++rep) {
         bool use_at = s.coin(), cst = s.coin();
         long i = around(s, m), j = around(s, n);
         if(s.coin() && m) i = s.range(0, m - 1);
         else if(s.coin() && n) j = s.range(0, n - 1);
         bool valid = i >= 0 && i < m && j >= 0 && j < n;
         if(!CHECKED && !use_at && !valid) continue;
         s.note(in.kind, " ", m, "x", n, use_at ? " at " : " () ", i, ",", j, cst ? " const" : "");
         const A& c = a;
         judge<T>(s, in, in.v.v, valid, valid ? static_cast<std::size_t>(i * n + j) : 0, [&] {
            if(s.coin())
               return as_index(s, i, m, [&](auto ix) {
                  return cst ? (use_at ? grab<T>(c.at(ix, j)) : grab<T>(c(ix, j))) : (use_at ? grab<T>(a.at(ix, j)) : grab<T>(a(ix, j)));
               });
            return as_index(s, j, n, [&](auto jx) {
               return cst ? (use_at ? grab<T>(c.at(i, jx)) : grab<T>(c(i, jx))) : (use_at ? grab<T>(a.at(i, jx)) : grab<T>(a(i, jx)));
            });
         });
         if(in.reg.p && !cst && valid) break;
      }
   });
}

// Rows, columns, diagonals, blocks: accepted exactly for indexes inside.
template <class T, int FROM, int N>
void views(pbt::Src& s) {
   if(!CHECKED) return;
   o::any2<T>(s, 4, distinct<T>, [&](auto&& a, const o::Info2<T>& in) {
      long m = in.v.m, n = in.v.n;
      s.label(in.kind);
      using A = std::remove_reference_t<decltype(a)>;
      const A& c = a;
      bool cst = s.coin();
      auto exp = [&](bool valid, std::function<std::vector<T>()> f, const std::vector<T>& want, const std::string& what) {
         s.note(in.kind, " ", m, "x", n, " ", what, valid ? " (valid)" : " (invalid)");
         bool r = rejected([&] {
            auto v = f();
            REQ(valid, what, " accepted");
            REQ(same(v, want), what, " is ", str(v), ", expected ", str(want));
         });
         REQ(r == !valid, what, r ? " rejected" : " accepted");
         s.nontrivial();
      };
      auto exp2 = [&](bool valid, std::function<Mat<T>()> f, long r0, long c0, long r1, long c1, const std::string& what) {
         s.note(in.kind, " ", m, "x", n, " ", what, valid ? " (valid)" : " (invalid)");
         bool r = rejected([&] {
            auto v = f();
            REQ(valid, what, " accepted");
            REQ(v.m == r1 - r0 && v.n == c1 - c0, what, " has shape ", v.m, "x", v.n);
            for(long i = r0; i < r1; ++i)
               for(long j = c0; j < c1; ++j)
                  REQ(same(v.get(i - r0, j - c0), in.v.get(i, j)), what, " element ", i - r0, ",", j - c0);
         });
         REQ(r == !valid, what, r ? " rejected" : " accepted");
         s.nontrivial();
      };
      std::vector<T> want;
      int op = FROM + static_cast<int>(s.below(N));
      if constexpr(FROM == 0) switch(op) {
         case 0: {
            long i = around(s, m);
            bool valid = i >= 0 && i < m && n > 0;
            if(i >= 0 && i < m && n == 0) return; // a row of no columns is not claimed
            if(valid)
               for(long j = 0; j < n; ++j) want.push_back(in.v.get(i, j));
            return as_index2(s, i, m, [&](auto ix) {
               if(cst) exp(valid, [&] { return vals1(c.row(ix)); }, want, pbt::cat("row ", i));
               else exp(valid, [&] { return vals1(a.row(ix)); }, want, pbt::cat("row ", i));
            });
         }
         case 1: {
            long j = around(s, n);
            bool valid = j >= 0 && j < n && m > 0;
            if(j >= 0 && j < n && m == 0) return;
            if(valid)
               for(long i = 0; i < m; ++i) want.push_back(in.v.get(i, j));
            return as_index2(s, j, n, [&](auto jx) {
               if(cst) exp(valid, [&] { return vals1(c.col(jx)); }, want, pbt::cat("col ", j));
               else exp(valid, [&] { return vals1(a.col(jx)); }, want, pbt::cat("col ", j));
            });
         }
         case 2: {
            long d = around(s, m + n) - m;
            if(s.chance(1, 3)) d = s.pick({0L, n - 1, n, -(m - 1), -m});
            bool valid = d >= 0 ? d < n : -d < m;
            if(valid)
               for(long i = 0; i < m; ++i)
                  if(i + d >= 0 && i + d < n) want.push_back(in.v.get(i, i + d));
            if(valid && want.empty()) return;
            if(cst) return exp(valid, [&] { return vals1(c.diag(d)); }, want, pbt::cat("diag ", d));
            return exp(valid, [&] { return vals1(a.diag(d)); }, want, pbt::cat("diag ", d));
         }
      }
      else switch(op) {
         case 3: {
            long r0 = around(s, m), r1 = around(s, m), c0 = around(s, n), c1 = around(s, n);
            if(s.chance(3, 4) && m && n) {
               r0 = s.range(0, m - 1), r1 = s.range(r0, m - 1), c0 = s.range(0, n - 1), c1 = s.range(c0, n - 1);
               switch(s.below(6)) {
                  case 0: r0 = around(s, m); break;
                  case 1: r1 = around(s, m); break;
                  case 2: c0 = around(s, n); break;
                  case 3: c1 = around(s, n); break;
                  default: break;
               }
            }
            bool valid = r0 >= 0 && r0 <= r1 && r1 < m && c0 >= 0 && c0 <= c1 && c1 < n;
            auto w = pbt::cat("block ", r0, ",", c0, ",", r1, ",", c1);
            if(cst) return exp2(valid, [&] { return vals2(c.block(r0, c0, r1, spp::last - spp::ImplicitInt{n - 1 - c1})); }, r0, c0, r1 + 1, c1 + 1, w);
            return exp2(valid, [&] { return vals2(a.block(r0, spp::ImplicitInt{c0}, spp::index_t{r1}, c1)); }, r0, c0, r1 + 1, c1 + 1, w);
         }
         case 4: {
            long r0 = around(s, m), rn = around(s, m), c0 = around(s, n), cn = around(s, n);
            if(s.chance(3, 4) && m && n) {
               r0 = s.range(0, m - 1), rn = s.range(1, m - r0), c0 = s.range(0, n - 1), cn = s.range(1, n - c0);
               switch(s.below(6)) {
                  case 0: r0 = around(s, m); break;
                  case 1: rn = around(s, m); break;
                  case 2: c0 = around(s, n); break;
                  case 3: cn = around(s, n); break;
                  default: break;
               }
            }
            if(rn == 0 || cn == 0) return; // empty blocks need no valid start
            bool valid = r0 >= 0 && rn > 0 && r0 < m && rn <= m - r0 && c0 >= 0 && cn > 0 && c0 < n && cn <= n - c0;
            auto w = pbt::cat("blockN ", r0, ",", c0, ",", rn, ",", cn);
            if(cst) return exp2(valid, [&] { return vals2(c.blockN(spp::last - spp::ImplicitInt{m - 1 - r0}, c0, rn, cn)); }, r0, c0, r0 + rn, c0 + cn, w);
            return exp2(valid, [&] { return vals2(a.blockN(r0, c0, rn, cn)); }, r0, c0, r0 + rn, c0 + cn, w);
         }
         default: { // rows/cols by index list
            bool rows = s.coin();
            long ext = rows ? m : n;
            std::vector<long> l;
            long k = s.range(0, 3);
            bool valid = true;
            for(long i = 0; i < k; ++i) {
               l.push_back(ext && s.chance(2, 3) ? s.range(0, ext - 1) : around(s, ext));
               valid = valid && l.back() >= 0 && l.back() < ext;
            }
            s.note(in.kind, " ", m, "x", n, rows ? " rows " : " cols ", str(l));
            bool r = rejected([&] {
               auto look = [&](const auto& v) {
                  REQ(valid, "index list accepted");
                  REQ(k == 0 ? v.rows().val() == 0 && v.cols().val() == 0 : v.rows().val() == (rows ? k : m) && v.cols().val() == (rows ? n : k));
                  for(long i = 0; i < v.rows().val(); ++i)
                     for(long j = 0; j < v.cols().val(); ++j)
                        REQ(same(static_cast<T>(v(i, j).val()), rows ? in.v.get(l[static_cast<std::size_t>(i)], j) : in.v.get(i, l[static_cast<std::size_t>(j)])));
               };
               if(rows) look(a.rows(o::il(l)));
               else look(c.cols(o::il(l)));
            });
            REQ(r == !valid, r ? "rejected" : "accepted");
            s.nontrivial(k > 0);
         }
      }
   });
}

// The always-on checks of view shapes.
template <class T>
void shapes(pbt::Src& s) {
   o::any1<T>(s, 12, distinct<T>, [&](auto&& a, const o::Info1<T>& in) {
      long n = static_cast<long>(in.v.size());
      long p = s.range(0, 7) - 1, q = s.range(0, 7) - 1;
      if(s.coin() && n) {
         p = s.range(1, n);
         q = n / p;
      }
      if((p < 0 || q < 0) && !CHECKED) return;
      bool valid = p >= 0 && q >= 0 && p * q == n;
      s.note(in.kind, " of size ", n, " view2D ", p, "x", q);
      bool r = rejected([&] {
         auto v = a.view2D(p, q);
         REQ(valid, "accepted");
         REQ(p * q == 0 ? v.rows().val() == 0 && v.cols().val() == 0 : v.rows().val() == p && v.cols().val() == q);
         for(long i = 0; i < p; ++i)
            for(long j = 0; j < q; ++j) REQ(same(static_cast<T>(v.at(i, j).val()), in.v[static_cast<std::size_t>(i * q + j)]));
      });
      REQ(r == !valid, r ? "rejected" : "accepted");
      s.nontrivial(!valid || n > 1);
   });
}

// Whole-array assignment: sizes must agree.
template <class T>
void assign(pbt::Src& s) {
   if(!CHECKED) return;
   if(s.coin()) {
      o::any1<T>(s, 4, distinct<T>, [&](auto&& a, const o::Info1<T>& ia) {
         using AT = std::remove_cvref_t<decltype(a)>;
         if constexpr(spp::detail::NonConstBaseType<std::remove_reference_t<decltype(a)>>) {
            spp::Array1D<T> B(s.range(0, 6), mk(T{77 % 2}));
            long n = static_cast<long>(ia.v.size());
            bool valid = B.size().val() == n;
            auto before = ia.reg.get();
            int how = static_cast<int>(s.below(4));
            s.note(ia.kind, " of size ", n, " = object of size ", B.size().val(), ", form ", how);
            bool r = rejected([&] {
               switch(how) {
                  case 0: a = B; break;
                  case 1: a = B(spp::place::all); break;
                  case 2: a = generate(B, [](auto x) { return x; }); break;
                  default: {
                     const spp::Array1D<T, spp::Aligned> Y(B);
                     a = Y;
                  }
               }
            });
            REQ(r == !valid, r ? "rejected" : "accepted");
            if(!valid) REQ(same(ia.reg.get(), before), "contents changed");
            s.nontrivial(!valid);
            s.label(ia.kind);
         }
         (void)sizeof(AT);
      }, true);
   } else {
      o::any2<T>(s, 3, distinct<T>, [&](auto&& a, const o::Info2<T>& ia) {
         if constexpr(spp::detail::NonConstBaseType<std::remove_reference_t<decltype(a)>>) {
            auto [m, n] = s.coin() ? std::pair{ia.v.m, ia.v.n} : s.coin() ? std::pair{ia.v.n, ia.v.m} : o::shape(s, 3);
            if((m == 0) != (n == 0)) m = n = 0;
            spp::Array2D<T> B(m, n);
            bool valid = m == ia.v.m && n == ia.v.n;
            auto before = ia.reg.get();
            int how = static_cast<int>(s.below(3));
            s.note(ia.kind, " ", ia.v.m, "x", ia.v.n, " = object ", m, "x", n, ", form ", how);
            bool r = rejected([&] {
               switch(how) {
                  case 0: a = B; break;
                  case 1: a = B(spp::place::all, spp::place::all); break;
                  default: a = generate(B, [](auto x) { return x; });
               }
            });
            REQ(r == !valid, r ? "rejected" : "accepted");
            if(!valid) REQ(same(ia.reg.get(), before), "contents changed");
            s.nontrivial(!valid);
            s.label(ia.kind);
         }
      }, true);
   }
}
} // namespace

#ifndef PART
PROP(c08_elements_1d, 4) { p1<int>(s); }
PROP(c08_shapes, 1) { shapes<int>(s); }
#elif PART == 1
PROP(c08_elements_2d, 4) { p2<double>(s); }
#elif PART == 2
PROP(c08_lines, 3) { views<int, 0, 3>(s); }
#elif PART == 4
PROP(c08_blocks, 3) { views<int, 3, 3>(s); }
#else
PROP(c08_assign, 2) { assign<double>(s); }
#endif
