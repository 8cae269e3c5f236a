// C12: structural expressions against their definition on plain vectors and matrices.
#pragma once
#include "objs.hpp"

namespace st {
using namespace o;

template <class T, class E>
void chk1(pbt::Src& s, const char* what, const E& e, const std::vector<T>& w) {
   const long n = static_cast<long>(w.size());
   REQ(e.size().val() == n, what, ": size ", e.size().val(), ", expected ", n);
   REQ(e.empty().val() == (n == 0));
   std::vector<T> a, b, c;
   for(long i = 0; i < n; ++i) a.push_back(e[i].val()), b.push_back(e.un(i).val());
   REQ(same(a, w), what, ": got ", str(a), ", expected ", str(w));
   REQ(same(b, w), what, ": unchecked access gives ", str(b), ", expected ", str(w));
   switch(s.below(4)) {
      case 0:
         for(auto x : e) c.push_back(x.val());
         REQ(same(c, w), what, ": iteration gives ", str(c), ", expected ", str(w));
         break;
      case 1: {
         auto v = e.eval();
         REQ(same(vals1(v), w), what, ": eval gives ", str(vals1(v)), ", expected ", str(w));
         break;
      }
      case 2: {
         spp::Array1D<T> v;
         v.resize_and_assign(e);
         REQ(same(vals1(v), w), what, ": assignment gives ", str(vals1(v)), ", expected ", str(w));
         break;
      }
      default:
         REQ(rejected([&] { (void)e[n]; }), what, ": index ", n, " accepted");
         REQ(rejected([&] { (void)e[-1]; }), what, ": index -1 accepted");
   }
}
template <class T, class E>
void chk2(pbt::Src& s, const char* what, const E& e, const Mat<T>& w) {
   REQ(e.rows().val() == w.m && e.cols().val() == w.n, what, ": shape ", e.rows().val(), "x", e.cols().val(), ", expected ", w.m, "x", w.n);
   REQ(e.size().val() == w.m * w.n, what, ": size");
   auto a = vals2(e);
   REQ(same(a, w), what, ": got ", str(a), ", expected ", str(w));
   std::vector<T> b;
   for(long i = 0; i < w.m * w.n; ++i) b.push_back(e.un(i).val());
   REQ(same(b, w.v), what, ": linear access gives ", str(b), ", expected ", str(w));
   for(long i = 0; i < w.m; ++i)
      for(long j = 0; j < w.n; ++j) REQ(same(e.un(i, j), w.get(i, j)), what, ": unchecked access at ", i, ",", j);
   switch(s.below(5)) {
      case 0: {
         std::vector<T> c;
         for(auto x : e) c.push_back(x.val());
         REQ(same(c, w.v), what, ": iteration gives ", str(c));
         break;
      }
      case 1: {
         auto v = e.eval();
         REQ(same(vals2(v), w), what, ": eval gives ", str(vals2(v)));
         break;
      }
      case 2: {
         spp::Array2D<T> v;
         v.resize_and_assign(e);
         REQ(same(vals2(v), w), what, ": assignment gives ", str(vals2(v)));
         break;
      }
      case 3: {
         if(!w.m) break;
         long i = s.range(0, w.m - 1), j = s.range(0, w.n - 1);
         auto r = e.row(i);
         auto c = e.col(j);
         for(long k = 0; k < w.n; ++k) REQ(same(r[k], w.get(i, k)), what, ": row ", i);
         for(long k = 0; k < w.m; ++k) REQ(same(c[k], w.get(k, j)), what, ": col ", j);
         break;
      }
      default:
         REQ(rejected([&] { (void)e(w.m, 0); }), what, ": row ", w.m, " accepted");
         REQ(rejected([&] { (void)e(0, w.n); }), what, ": column ", w.n, " accepted");
         REQ(rejected([&] { (void)e(-1, 0); }), what, ": row -1 accepted");
   }
}

template <class T>
constexpr bool full = std::is_same_v<T, int>;

// operands: every kind for the main types, four kinds for the others
template <class T, class F>
void op1(pbt::Src& s, long maxn, F&& f) {
   auto gen = [](pbt::Src& q) { return small<T>(q); };
   if constexpr(full<T>) {
      return any1<T>(s, maxn, gen, f);
   } else {
      Info1<T> in;
      long n = s.range(0, maxn);
      spp::Array1D<T> A(2 * n);
      auto b = seqv<T>(s, 2 * n, gen);
      fill(A, b);
      in.reg = region(A);
      if(s.coin()) {
         for(long i = 0; i < n; ++i) in.map.push_back(2 * n - 1 - 2 * i);
         in.v = at(b, in.map);
         in.kind = "nested slice";
         auto S = A(spp::place::odd)(spp::place::reverse);
         return f(S, in);
      }
      in.map = iota(2 * n);
      in.v = b;
      in.kind = "Array1D";
      return f(A, in);
   }
}
template <class T, class F>
void op2(pbt::Src& s, long maxn, F&& f, long fm = -1, long fn = -1) {
   auto gen = [](pbt::Src& q) { return small<T>(q); };
   if constexpr(full<T>) {
      return any2<T>(s, maxn, gen, f, false, fm, fn);
   } else {
      Info2<T> in;
      auto [m, n] = fm >= 0 ? std::pair{fm, fn} : shape(s, maxn);
      spp::Array2D<T> A(m, n);
      in.v = Mat<T>(m, n);
      in.v.v = seqv<T>(s, m * n, gen);
      fill(A, in.v.v);
      in.reg = region(A);
      in.kind = "Array2D";
      if(s.coin() || !m) {
         in.map = iota(m * n);
         return f(A, in);
      }
      Mat<T> r(m, n);
      for(long i = 0; i < m; ++i)
         for(long j = 0; j < n; ++j) r.set(i, j, in.v.get(m - 1 - i, j)), in.map.push_back((m - 1 - i) * n + j);
      in.v = r;
      in.kind = "reversed rows";
      auto S = A(spp::place::reverse, spp::place::all);
      return f(S, in);
   }
}

// Changes the memory the object refers to, if any, and its expected contents with it.
template <class T>
bool alter(pbt::Src& s, std::vector<T>& v, const std::vector<long>& map, const Region<T>& reg) {
   if(!reg.p || !reg.n || v.empty() || s.chance(1, 2)) return false;
   for(long i = 0; i < reg.n; ++i)
      if(s.coin()) reg.p[i] = small<T>(s);
   for(std::size_t i = 0; i < v.size(); ++i) v[i] = reg.p[map[i]];
   s.label("operand changed after the expression was built");
   return true;
}

template <class T>
std::vector<T> cat(const std::vector<T>& a, const std::vector<T>& b) {
   auto r = a;
   for(T x : b) r.push_back(x);
   return r;
}

// Builds with `mk_`, checks against `want`, changes the operand, checks again.
template <class T, class In, class B, class W>
void live1(pbt::Src& s, const char* what, In& in, B build, W want) {
   auto e = build();
   chk1(s, what, e, want());
   bool ch;
   if constexpr(requires { in.v.m; }) ch = alter(s, in.v.v, in.map, in.reg);
   else ch = alter(s, in.v, in.map, in.reg);
   if(ch) chk1(s, what, e, want());
   s.nontrivial(want().size() > 1);
}
template <class T, class In, class B, class W>
void live2(pbt::Src& s, const char* what, In& in, B build, W want) {
   auto e = build();
   chk2(s, what, e, want());
   bool ch;
   if constexpr(requires { in.v.m; }) ch = alter(s, in.v.v, in.map, in.reg);
   else ch = alter(s, in.v, in.map, in.reg);
   if(ch) chk2(s, what, e, want());
   s.nontrivial(want().v.size() > 1);
}

template <class T>
void merge1(pbt::Src& s) {
   op1<T>(s, 4, [&](auto& X, Info1<T>& in) {
      auto gen = [](pbt::Src& q) { return small<T>(q); };
      auto b = seqv<T>(s, s.range(0, 3), gen), c = seqv<T>(s, s.range(0, 3), gen);
      spp::Array1D<T> B(static_cast<long>(b.size()));
      spp::Array1D<T, spp::Aligned> C(static_cast<long>(c.size()));
      fill(B, b), fill(C, c);
      T x = small<T>(s), y = small<T>(s), z = small<T>(s);
      std::vector<T> vx{x}, vy{y}, vz{z};
      s.note(in.kind, " ", str(in.v), " B ", str(b), " C ", str(c), " x ", str(x), " y ", str(y), " z ", str(z));
      auto Cs = C(spp::place::reverse);
      auto cr = c;
      std::reverse(cr.begin(), cr.end());
      auto& v = in.v;
      switch(s.below(12)) {
         case 0: return live1<T>(s, "merge(X, B)", in, [&] { return merge(X, B); }, [&] { return cat(v, b); });
         case 1: return live1<T>(s, "merge(B, X)", in, [&] { return merge(B, X); }, [&] { return cat(b, v); });
         case 2: return live1<T>(s, "merge(X, B, C)", in, [&] { return merge(X, B, Cs); }, [&] { return cat(cat(v, b), cr); });
         case 3: return live1<T>(s, "merge(B, C, X)", in, [&] { return merge(B, C, X); }, [&] { return cat(cat(b, c), v); });
         case 4: return live1<T>(s, "merge(B, X, C, B)", in, [&] { return merge(B, X, Cs, B); }, [&] { return cat(cat(cat(b, v), cr), b); });
         case 5: return live1<T>(s, "merge(X, X)", in, [&] { return merge(X, X); }, [&] { return cat(v, v); });
         case 6: return live1<T>(s, "merge(X, x)", in, [&] { return merge(X, mk(x)); }, [&] { return cat(v, vx); });
         case 7: return live1<T>(s, "merge(X, x, y, z)", in, [&] { return merge(X, mk(x), mk(y), mk(z)); }, [&] { return cat(cat(cat(v, vx), vy), vz); });
         case 8: return live1<T>(s, "merge(x, X)", in, [&] { return merge(mk(x), X); }, [&] { return cat(vx, v); });
         case 9: return live1<T>(s, "merge(x, y, X)", in, [&] { return merge(mk(x), mk(y), X); }, [&] { return cat(cat(vx, vy), v); });
         case 10: return live1<T>(s, "merge(x, y, z, X)", in, [&] { return merge(mk(x), mk(y), mk(z), X); }, [&] { return cat(cat(cat(vx, vy), vz), v); });
         default: return live1<T>(s, "merge(merge(x, X), merge(B, y))", in, [&] { return merge(merge(mk(x), X), merge(B, mk(y))); }, [&] { return cat(cat(vx, v), cat(b, vy)); });
      }
   });
}

template <class T>
void exclude1(pbt::Src& s) {
   op1<T>(s, 6, [&](auto& X, Info1<T>& in) {
      long n = static_cast<long>(in.v.size());
      long pos, cnt = 1;
      if(s.chance(1, 4)) pos = s.range(0, 2 * n + 6) - n - 3, cnt = s.range(0, n + 4) - 1;
      else pos = n ? s.range(0, n - 1) : 0, cnt = n ? s.range(1, n - pos) : 1;
      int form = static_cast<int>(s.below(4));
      if(form >= 2) cnt = 1;
      bool ok = pos >= 0 && cnt >= 1 && pos + cnt <= n;
      s.note(in.kind, " ", str(in.v), " exclude pos ", pos, " count ", cnt, " form ", form);
      auto without = [&] {
         std::vector<T> w;
         for(long i = 0; i < n; ++i)
            if(i < pos || i >= pos + cnt) w.push_back(in.v[static_cast<std::size_t>(i)]);
         return w;
      };
      auto run = [&](auto build) {
         if(!ok) {
            bool rej = rejected([&] { auto e = build(); (void)e.size(); });
            REQ(rej, "exclusion outside the array accepted");
            s.nontrivial();
            s.label("exclude rejected");
            return;
         }
         live1<T>(s, "exclude", in, build, without);
      };
      switch(form) {
         case 0: return run([&] { return exclude(X, pos, cnt); });
         case 1:
            if(pos < 0 || cnt < 0) return; // the wrappers themselves reject
            return run([&] { return exclude(X, spp::Pos{pos}, spp::Count{cnt}); });
         case 2: return run([&] { return exclude(X, pos); });
         default:
            if(n - 1 - pos < 0) return;
            return run([&] { return exclude(X, spp::place::last - (n - 1 - pos)); });
      }
   });
}

template <class T>
void broadcast(pbt::Src& s) {
   op1<T>(s, 4, [&](auto& X, Info1<T>& in) {
      s.note(in.kind, " ", str(in.v));
      long n = static_cast<long>(in.v.size());
      bool rows = s.coin();
      auto want = [&] {
         Mat<T> w(n, n);
         for(long i = 0; i < n; ++i)
            for(long j = 0; j < n; ++j) w.set(i, j, in.v[static_cast<std::size_t>(rows ? j : i)]);
         return w;
      };
      if(rows) live2<T>(s, "row_broadcast", in, [&] { return row_broadcast(X); }, want);
      else live2<T>(s, "col_broadcast", in, [&] { return col_broadcast(X); }, want);
   });
}

template <class T>
void tensor(pbt::Src& s) {
   op1<T>(s, 4, [&](auto& X, Info1<T>& in) {
      auto gen = [](pbt::Src& q) { return small<T>(q); };
      auto b = seqv<T>(s, s.range(0, 4), gen);
      if(in.v.empty() != b.empty()) return;
      spp::Array1D<T> B(static_cast<long>(b.size()));
      fill(B, b);
      s.note(in.kind, " ", str(in.v), " B ", str(b));
      auto prod = [&](const std::vector<T>& p, const std::vector<T>& q) {
         Mat<T> w(static_cast<long>(p.size()), static_cast<long>(q.size()));
         for(long i = 0; i < w.m; ++i)
            for(long j = 0; j < w.n; ++j) w.set(i, j, static_cast<T>(p[static_cast<std::size_t>(i)] * q[static_cast<std::size_t>(j)]));
         return w;
      };
      switch(s.below(3)) {
         case 0: return live2<T>(s, "tensor_prod(X, B)", in, [&] { return tensor_prod(X, B); }, [&] { return prod(in.v, b); });
         case 1: {
            auto br = b;
            std::reverse(br.begin(), br.end());
            return live2<T>(s, "tensor_prod(B(reverse), X)", in, [&] { return tensor_prod(B(spp::place::reverse), X); }, [&] { return prod(br, in.v); });
         }
         default: return live2<T>(s, "tensor_prod(X, X)", in, [&] { return tensor_prod(X, X); }, [&] { return prod(in.v, in.v); });
      }
   });
}

// Changing the type of the elements, and functions of the index or of two operands.
template <class T>
void generators(pbt::Src& s) {
   op1<T>(s, 5, [&](auto& X, Info1<T>& in) {
      T x = small<T>(s);
      s.note(in.kind, " ", str(in.v), " x ", str(x));
      auto& v = in.v;
      switch(s.below(4)) {
         case 0:
            return live1<T>(s, "generate to bool", in, [&] { return generate(X, [x](auto e) { return e == mk(x); }); }, [&] {
               std::vector<bool> w;
               for(T e : v) w.push_back(e == x);
               return w;
            });
         case 1:
            return live1<T>(s, "generate to long", in, [&] { return generate(X, [x](auto e) { return e == mk(x) ? spp::index_t{5L} : spp::index_t{-7L}; }); }, [&] {
               std::vector<long> w;
               for(T e : v) w.push_back(e == x ? 5 : -7);
               return w;
            });
         case 2:
            return live1<T>(s, "generate(irange(X), f)", in, [&] { return generate(irange(X), [&X](auto i) { return X.un(X.size() - i - spp::index_t{1L}); }); }, [&] {
               auto w = v;
               std::reverse(w.begin(), w.end());
               return w;
            });
         default:
            return live1<T>(s, "generate(X, irange(X), f)", in, [&] { return generate(X, irange(X), [x](auto e, auto i) { return i.val() % 2 ? mk(x) : e; }); }, [&] {
               auto w = v;
               for(std::size_t i = 1; i < w.size(); i += 2) w[i] = x;
               return w;
            });
      }
   });
}

template <class T>
Mat<T> flip(const Mat<T>& a) {
   Mat<T> w(a.n, a.m);
   for(long i = 0; i < a.m; ++i)
      for(long j = 0; j < a.n; ++j) w.set(j, i, a.get(i, j));
   return w;
}
template <class T>
Mat<T> side(const Mat<T>& a, const Mat<T>& b) {
   if(a.v.empty()) return b;
   if(b.v.empty()) return a;
   Mat<T> w(a.m, a.n + b.n);
   for(long i = 0; i < a.m; ++i) {
      for(long j = 0; j < a.n; ++j) w.set(i, j, a.get(i, j));
      for(long j = 0; j < b.n; ++j) w.set(i, a.n + j, b.get(i, j));
   }
   return w;
}
template <class T>
Mat<T> below(const Mat<T>& a, const Mat<T>& b) {
   if(a.v.empty()) return b;
   if(b.v.empty()) return a;
   Mat<T> w(a.m + b.m, a.n);
   w.v = cat(a.v, b.v);
   return w;
}

template <class T>
void transposes(pbt::Src& s) {
   op2<T>(s, 4, [&](auto& X, Info2<T>& in) {
      s.note(in.kind, " ", str(in.v));
      switch(s.below(4)) {
         case 0: return live2<T>(s, "transpose", in, [&] { return transpose(X); }, [&] { return flip(in.v); });
         case 1: return live2<T>(s, "transpose(transpose)", in, [&] { return transpose(transpose(X)); }, [&] { return in.v; });
         case 2:
            return live1<T>(s, "view1D(transpose)", in, [&] { return transpose(X).view1D(); }, [&] { return flip(in.v).v; });
         default:
            return live2<T>(s, "transpose of reversed rows", in, [&] { return transpose(X(spp::place::reverse, spp::place::all)); }, [&] {
               Mat<T> r(in.v.m, in.v.n);
               for(long i = 0; i < r.m; ++i)
                  for(long j = 0; j < r.n; ++j) r.set(i, j, in.v.get(r.m - 1 - i, j));
               return flip(r);
            });
      }
   });
}

template <class T, bool hor>
void merge2(pbt::Src& s) {
   auto gen = [](pbt::Src& q) { return small<T>(q); };
   op2<T>(s, 3, [&](auto& X, Info2<T>& in) {
      auto other = [&](bool conform) {
         long common = in.v.v.empty() ? s.range(1, 3) : hor ? in.v.m : in.v.n;
         long free = s.range(conform ? 0 : 1, 3);
         if(!conform) common += s.coin() ? 1 : (common > 1 ? -1 : 1);
         Mat<T> b(hor ? common : free, hor ? free : common);
         if(!free) b = Mat<T>(0, 0);
         b.v = seqv<T>(s, b.m * b.n, gen);
         return b;
      };
      bool conform = in.v.v.empty() || !s.chance(1, 6);
      auto b = other(conform);
      spp::Array2D<T> B(b.m, b.n);
      fill(B, b.v);
      s.note(hor ? "horizontal " : "vertical ", in.kind, " ", str(in.v), " B ", str(b));
      auto j = [&](const Mat<T>& p, const Mat<T>& q) { return hor ? side(p, q) : below(p, q); };
      if(!conform) {
         bool rej;
         switch(s.below(3)) {
            case 0: rej = rejected([&] { if constexpr(hor) (void)merge_horizontal(X, B); else (void)merge_vertical(X, B); }); break;
            case 1: rej = rejected([&] { if constexpr(hor) (void)merge_horizontal(B, X); else (void)merge_vertical(B, X); }); break;
            default: rej = rejected([&] { if constexpr(hor) (void)merge_horizontal(X, X, B); else (void)merge_vertical(X, X, B); });
         }
         REQ(rej, "merging non-conforming operands accepted");
         s.nontrivial();
         s.label("merge rejected");
         return;
      }
      auto br = B(spp::place::reverse, spp::place::all);
      Mat<T> rb(b.m, b.n);
      for(long r = 0; r < b.m; ++r)
         for(long c = 0; c < b.n; ++c) rb.set(r, c, b.get(b.m - 1 - r, c));
#define RUN(W, ...)                                                                             \
   if constexpr(hor) return live2<T>(s, "merge_horizontal(" #__VA_ARGS__ ")", in, [&] { return merge_horizontal(__VA_ARGS__); }, [&] { return W; }); \
   else return live2<T>(s, "merge_vertical(" #__VA_ARGS__ ")", in, [&] { return merge_vertical(__VA_ARGS__); }, [&] { return W; });
      // later parts may all be empty, or all but the last
      Mat<T> e(0, 0);
      spp::Array2D<T> E;
      switch(s.below(12)) {
         case 7: RUN(j(j(in.v, b), rb), X, B, br)
         case 8: RUN(j(j(b, rb), in.v), B, br, X)
         case 9: RUN(j(j(j(in.v, b), e), rb), X, B, E, br)
         case 10: RUN(j(j(in.v, e), e), X, E, E)
         case 11: RUN(j(j(j(e, e), in.v), e), E, E, X, E)
         case 0: RUN(j(in.v, b), X, B)
         case 1: RUN(j(b, in.v), B, X)
         case 2: RUN(j(j(in.v, b), in.v), X, B, X)
         case 3: RUN(j(j(b, in.v), rb), B, X, br)
         case 4: RUN(j(j(j(in.v, rb), b), in.v), X, br, B, X)
         case 5: RUN(j(in.v, in.v), X, X)
         default:
            if constexpr(hor) return live2<T>(s, "transpose of merge", in, [&] { return transpose(merge_horizontal(X, br)); }, [&] { return flip(j(in.v, rb)); });
            else return live2<T>(s, "transpose of merge", in, [&] { return transpose(merge_vertical(X, br)); }, [&] { return flip(j(in.v, rb)); });
      }
   });
}

template <class T>
void reduces(pbt::Src& s) {
   op2<T>(s, 4, [&](auto& X, Info2<T>& in) {
      bool rows = s.coin();
      s.note(rows ? "row_reduce " : "col_reduce ", in.kind, " ", str(in.v));
      auto lines = [&] {
         std::vector<std::vector<T>> r;
         for(long i = 0; i < (rows ? in.v.m : in.v.n); ++i) {
            r.emplace_back();
            for(long j = 0; j < (rows ? in.v.n : in.v.m); ++j) r.back().push_back(rows ? in.v.get(i, j) : in.v.get(j, i));
         }
         return r;
      };
      auto f = [](const auto& line) { // position-dependent
         Strict<T> a{};
         for(long k = 0; k < line.size().val(); ++k) a = mk(static_cast<T>(a.val() + static_cast<T>(k + 1) * line[k].val()));
         return a;
      };
      auto wf = [&] {
         std::vector<T> w;
         for(auto& l : lines()) {
            T a{};
            for(std::size_t k = 0; k < l.size(); ++k) a = static_cast<T>(a + static_cast<T>(static_cast<long>(k) + 1) * l[k]);
            w.push_back(a);
         }
         return w;
      };
      switch(s.below(3)) {
         case 0:
            if(rows) return live1<T>(s, "row_reduce", in, [&] { return row_reduce(X, f); }, wf);
            else return live1<T>(s, "col_reduce", in, [&] { return col_reduce(X, f); }, wf);
         case 1: {
            auto sz = [](const auto& line) { return line.size(); };
            auto ws = [&] { return std::vector<long>(static_cast<std::size_t>(rows ? in.v.m : in.v.n), rows ? in.v.n : in.v.m); };
            if(rows) return live1<T>(s, "row_reduce to size", in, [&] { return row_reduce(X, sz); }, ws);
            else return live1<T>(s, "col_reduce to size", in, [&] { return col_reduce(X, sz); }, ws);
         }
         default: {
            auto lst = [](const auto& line) { return line[spp::place::last]; };
            auto wl = [&] {
               std::vector<T> w;
               for(auto& l : lines()) w.push_back(l.back());
               return w;
            };
            if(rows) return live1<T>(s, "row_reduce to last", in, [&] { return row_reduce(X, lst); }, wl);
            else return live1<T>(s, "col_reduce to last", in, [&] { return col_reduce(X, lst); }, wl);
         }
      }
   });
}

template <class T>
void matvec(pbt::Src& s) {
   auto gen = [](pbt::Src& q) { return small<T>(q); };
   op2<T>(s, 4, [&](auto& X, Info2<T>& in) {
      bool conform = !s.chance(1, 6);
      long n = conform ? in.v.n : in.v.n + (in.v.n > 1 && s.coin() ? -1 : 1);
      auto b = seqv<T>(s, n, gen);
      spp::Array1D<T> B(n);
      fill(B, b);
      int form = static_cast<int>(s.below(3));
      s.note(in.kind, " ", str(in.v), " x ", str(b), " form ", form);
      auto run = [&](const auto& x) {
         if(!conform) {
            bool rej = rejected([&] { (void)matvec_prod(X, x).size(); });
            REQ(rej, "non-conforming product accepted");
            s.nontrivial();
            s.label("matvec rejected");
            return;
         }
         auto want = [&] {
            std::vector<T> w;
            for(long i = 0; i < in.v.m; ++i) {
               T a{};
               for(long j = 0; j < in.v.n; ++j) a = static_cast<T>(a + in.v.get(i, j) * x.un(j).val());
               w.push_back(a);
            }
            return w;
         };
         live1<T>(s, "matvec_prod", in, [&] { return matvec_prod(X, x); }, want);
      };
      if(form == 0) run(B);
      else if(form == 1) run(B(spp::place::reverse));
      else run(spp::merge(B(spp::place::reverse), spp::const1D(0, mk(T{}))));
   });
}
} // namespace st
