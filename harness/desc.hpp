// Descriptions of slices with an independent statement of what they select.
#pragma once
#include "objs.hpp"
#include <functional>

namespace d {
enum Kind { SEQN, SEQ, ALL, EVEN, ODD, REVERSE, SKIP, FIRST, LAST, COMPL, LIST, ILIST, NK };

struct Desc {
   Kind k{};
   long a = 0, b = 0, c = 1;
   std::vector<long> l;
   bool wrap = false; // use the named wrappers (First, Size, ...)

   std::string str() const {
      static const char* nm[] = {"seqN", "seq", "all", "even", "odd", "reverse", "skipN", "firstN", "lastN", "complement", "list", "{list}"};
      std::string r = nm[k];
      if(k == SEQN || k == SEQ) r += pbt::cat("{", a, ",", b, ",", c, "}");
      if(k == SKIP || k == FIRST || k == LAST) r += pbt::cat("{", a, "}");
      if(k >= COMPL) r += g::str(l);
      return r;
   }
   // Selected positions for an extent n; nothing if the description is outside.
   bool select(long n, std::vector<long>& out) const {
      out.clear();
      auto in = [&](long i) { return i >= 0 && i < n; };
      switch(k) {
         case SEQN: {
            if(a < 0 || b < 0) return false;
            if(b > 10000) return false; // the harness uses it only with in-range strides 0 excluded
            __int128 p = a;
            for(long i = 0; i < b; ++i, p += c) {
               if(p < 0 || p >= n) return false;
               out.push_back(static_cast<long>(p));
            }
            return true;
         }
         case SEQ: {
            if(a < 0 || b < 0 || !in(a) || !in(b)) return false;
            if(c == 0) {
               if(a != b) return false;
               out.push_back(a);
               return true;
            }
            if(c > 0 ? a > b : a < b) return false;
            for(__int128 p = a; c > 0 ? p <= b : p >= b; p += c) out.push_back(static_cast<long>(p));
            return true;
         }
         case ALL:
            for(long i = 0; i < n; ++i) out.push_back(i);
            return true;
         case EVEN:
            for(long i = 0; i < n; i += 2) out.push_back(i);
            return true;
         case ODD:
            for(long i = 1; i < n; i += 2) out.push_back(i);
            return true;
         case REVERSE:
            for(long i = n - 1; i >= 0; --i) out.push_back(i);
            return true;
         case SKIP:
            if(a <= 0) return false;
            for(__int128 i = 0; i < n; i += a) out.push_back(static_cast<long>(i));
            return true;
         case FIRST:
            if(a < 0 || a > n) return false;
            for(long i = 0; i < a; ++i) out.push_back(i);
            return true;
         case LAST:
            if(a < 0 || a > n) return false;
            for(long i = n - a; i < n; ++i) out.push_back(i);
            return true;
         case COMPL:
            for(std::size_t i = 0; i < l.size(); ++i)
               if(!in(l[i]) || (i && l[i] <= l[i - 1])) return false;
            for(long i = 0; i < n; ++i)
               if(std::find(l.begin(), l.end(), i) == l.end()) out.push_back(i);
            return true;
         default:
            for(long i : l)
               if(!in(i)) return false;
            out = l;
            return true;
      }
   }
   bool linear() const {
      return k < COMPL;
   }
};

inline long around(pbt::Src& s, long n) {
   if(s.chance(1, 16)) return s.pick({1L << 40, -(1L << 40), 1L << 61, -(1L << 61), 1L << 32, (1L << 32) + 1, 1L << 31, -(1L << 31), (1L << 32) - 1});
   return s.range(0, n + 4) - 2;
}
// `lin`: only descriptions that do not carry a list.
inline Desc draw(pbt::Src& s, long n, int lin = 0) {
   Desc r;
   r.k = static_cast<Kind>(lin == 1 ? s.below(COMPL) : lin == 2 ? COMPL + s.below(3) : s.below(NK));
   r.wrap = s.coin();
   bool valid = s.chance(3, 4);
   switch(r.k) {
      case SEQN:
         if(valid) {
            auto x = o::slice(s, n);
            r.a = x.st, r.b = x.n, r.c = x.str;
         } else {
            r.a = around(s, n), r.c = s.chance(1, 8) ? s.pick({1L << 62, -(1L << 62), 1L << 61, 1L << 32, -(1L << 32), std::numeric_limits<long>::max(), std::numeric_limits<long>::min() + 1}) : s.range(0, 8) - 4;
            r.b = s.range(0, n + 3) - 1;
            if(r.c != 0 && r.b > 0 && s.chance(1, 8)) r.b = s.pick({1L << 32, 1L << 61, (1L << 62) + 1, 1L << 62});
            if(r.c != 0 && s.chance(1, 8)) { // start + (size - 1) * stride is representable only modulo 2^64
               r.a = n ? s.range(0, n - 1) : 0;
               r.c = s.pick({1L << 62, -(1L << 62), 1L << 61});
               r.b = s.pick({5L, 9L, 3L});
            }
         }
         break;
      case SEQ:
         if(valid && n) {
            r.a = s.range(0, n - 1), r.b = s.range(0, n - 1);
            r.c = r.a == r.b ? s.range(0, 4) - 2 : r.a < r.b ? s.range(1, 4) : -s.range(1, 4);
            if(s.chance(1, 10)) r.c = r.c > 0 ? std::numeric_limits<long>::max() : r.c < 0 ? std::numeric_limits<long>::min() + 1 : 0;
         } else {
            r.a = around(s, n), r.b = around(s, n), r.c = s.range(0, 6) - 3;
         }
         break;
      case SKIP: r.a = valid ? s.range(1, n + 2) : around(s, n); break;
      case FIRST:
      case LAST: r.a = valid ? s.range(0, n) : around(s, n); break;
      case COMPL:
         r.l = o::sub(s, n);
         if(!valid && s.coin()) r.l.push_back(n);
         else if(!valid && s.coin()) r.l.insert(r.l.begin(), -1);
         else if(!valid && r.l.size() > 1) std::swap(r.l[0], r.l[s.below(r.l.size())]);
         else if(!valid && !r.l.empty()) r.l.push_back(r.l.back());
         break;
      case LIST:
         r.l = o::indexes(s, n);
         if(!valid) r.l.insert(r.l.begin() + static_cast<long>(s.below(r.l.size() + 1)), around(s, n));
         break;
      case ILIST:
         for(int i = 0; i < 3; ++i) r.l.push_back(n && (valid || s.coin()) ? s.range(0, n - 1) : around(s, n));
         break;
      default: break;
   }
   return r;
}

// Calls f with the library's description object.
template <class F>
void lin(const Desc& x, F&& f) {
   switch(x.k) {
      case SEQN:
         if(x.wrap) return f(spp::seqN{spp::First{x.a}, spp::Size{x.b}, spp::Stride{x.c}});
         return f(x.c == 1 ? spp::seqN{x.a, x.b} : spp::seqN{x.a, x.b, x.c});
      case SEQ:
         if(x.wrap) return f(spp::seq{spp::First{x.a}, spp::Endmost{x.b}, spp::Stride{x.c}});
         return f(x.c == 1 ? spp::seq{x.a, x.b} : spp::seq{x.a, x.b, x.c});
      case ALL: return f(spp::place::all);
      case EVEN: return f(spp::place::even);
      case ODD: return f(spp::place::odd);
      case REVERSE: return f(spp::place::reverse);
      case SKIP: return f(x.wrap ? spp::place::skipN{spp::Stride{x.a}} : spp::place::skipN{x.a});
      case FIRST: return f(x.wrap ? spp::place::firstN{spp::Count{x.a}} : spp::place::firstN{x.a});
      default: return f(x.wrap ? spp::place::lastN{spp::Count{x.a}} : spp::place::lastN{x.a});
   }
}
template <class F>
void lst(const Desc& x, F&& f) {
   if(x.k == COMPL) {
      if(x.wrap && x.l.size() == 2) return f(spp::place::complement{spp::ImplicitInt{x.l[0]}, spp::ImplicitInt{x.l[1]}});
      return f(spp::place::complement{o::il(x.l)});
   }
   f(o::il(x.l));
}
} // namespace d
