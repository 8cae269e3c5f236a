// Checks of a live 1D view: contents against positions of an underlying memory, and writes through it.
#pragma once
#include "desc.hpp"

namespace leaf {
template <class T>
struct Mem {
   pbt::Src& s;
   std::vector<T> base; // expected memory
   std::function<std::vector<T>()> mem;
   std::function<void(long, T)> poke; // changes an element of the underlying array directly

   T val() {
      return o_val(s);
   }
   static T o_val(pbt::Src& s) {
      return static_cast<T>(s.range(1, 500));
   }

   std::vector<T> expect(const std::vector<long>& m) const {
      std::vector<T> r;
      for(long i : m) r.push_back(base[static_cast<std::size_t>(i)]);
      return r;
   }
   template <class A>
   void check(const A& a, const std::vector<long>& m, const char* when) {
      REQ(a.size().val() == static_cast<long>(m.size()), when, ": size ", a.size().val(), ", expected ", m.size());
      REQ(same(vals1(a), expect(m)), when, ": slice is ", str(vals1(a)), ", expected ", str(expect(m)), ", positions ", str(m));
      auto mm = mem();
      REQ(same(mm, base), when, ": array is ", str(mm), ", expected ", str(base));
   }
   template <class A>
   void leaf(A& a, const std::vector<long>& m) {
      check(a, m, "fresh slice");
      spp::Array1D<T> C(a);
      REQ(same(vals1(C), expect(m)), "array made from the slice");
      if(!base.empty()) { // the slice is a live view
         long i = s.range(0, static_cast<long>(base.size()) - 1);
         T v = val();
         poke(i, v);
         base[static_cast<std::size_t>(i)] = v;
         check(a, m, "after a change of the array");
      }
      bool unique = true;
      auto t = m;
      std::sort(t.begin(), t.end());
      unique = std::adjacent_find(t.begin(), t.end()) == t.end();
      if constexpr(spp::detail::NonConstBaseType<A>) {
         long n = static_cast<long>(m.size());
         int op = static_cast<int>(s.below(8));
         s.note("write ", op);
         auto put = [&](long k, T v) { base[static_cast<std::size_t>(m[static_cast<std::size_t>(k)])] = v; };
         auto get = [&](long k) { return base[static_cast<std::size_t>(m[static_cast<std::size_t>(k)])]; };
         switch(op) {
            case 0:
               if(n) {
                  long k = s.range(0, n - 1);
                  T v = val();
                  if(s.coin()) a[k] = mk(v);
                  else a[spp::last - (n - 1 - k)] = mk(v);
                  put(k, v);
               }
               break;
            case 1: {
               T v = val();
               a = mk(v);
               for(long k = 0; k < n; ++k) put(k, v);
               break;
            }
            case 2: {
               spp::Array1D<T> B(n);
               for(long k = 0; k < n; ++k) {
                  B[k] = mk(val());
                  put(k, B[k].val());
               }
               a = B;
               break;
            }
            case 3: {
               if(!unique) return;
               T v = val();
               a += mk(v);
               for(long k = 0; k < n; ++k) put(k, static_cast<T>(get(k) + v));
               break;
            }
            case 4: {
               if(!unique) return;
               spp::Array1D<T> B(n);
               for(long k = 0; k < n; ++k) {
                  B[k] = mk(val());
                  put(k, static_cast<T>(get(k) - B[k].val()));
               }
               a -= B(spp::place::all);
               break;
            }
            case 5: {
               for(long k = 0; auto& e : a) {
                  T v = val();
                  e = mk(v);
                  put(k++, v);
               }
               break;
            }
            case 6:
               if(n == 2) {
                  T v = val(), w = val();
                  a = {mk(v), mk(w)};
                  put(0, v);
                  put(1, w);
               } else {
                  REQ(rejected([&] { a = {mk(T{1}), mk(T{2})}; }), "assignment of two values to ", n, " accepted");
               }
               break;
            default: {
               if(!unique) return;
               std::vector<T> old = expect(m);
               a = generate(C, [](auto x) { return x + x; });
               for(long k = 0; k < n; ++k) put(k, static_cast<T>(C[k].val() + C[k].val()));
               break;
            }
         }
         check(a, m, "after writing through the slice");
      }
   }
};


} // namespace leaf
