// Exact dyadic rationals: the oracle for rounding-error claims.
#pragma once
#include "sp.hpp"
#include <boost/multiprecision/cpp_int.hpp>

namespace exact {
using Z = boost::multiprecision::cpp_int;

struct D { // m * 2^e
   Z m;
   long e = 0;
};

template <class T>
D of(T x) {
   using F = g::fpinfo<T>;
   D r;
   if(x == 0) return r;
   bool neg = x < 0;
   if(neg) x = -x;
   int e;
   x = F::frexp(x, &e);
   long sh = 0;
   while(x != 0) {
      x = F::ldexp(x, 32);
      auto c = static_cast<unsigned long>(static_cast<long>(x)); // floor, < 2^32
      r.m = (r.m << 32) + c;
      x -= static_cast<T>(static_cast<long>(c));
      sh += 32;
   }
   r.e = e - sh;
   if(neg) r.m = -r.m;
   return r;
}
inline D ofz(long x) {
   return D{Z(x), 0};
}
inline void align(D& a, D& b) {
   if(a.m == 0) { a.e = b.e; return; }
   if(b.m == 0) { b.e = a.e; return; }
   if(a.e > b.e) { a.m <<= static_cast<unsigned>(a.e - b.e); a.e = b.e; }
   else if(b.e > a.e) { b.m <<= static_cast<unsigned>(b.e - a.e); b.e = a.e; }
}
inline D add(D a, D b) {
   align(a, b);
   return D{a.m + b.m, a.e};
}
inline D neg(D a) {
   a.m = -a.m;
   return a;
}
inline D sub(const D& a, const D& b) {
   return add(a, neg(b));
}
inline D mul(const D& a, const D& b) {
   return D{a.m * b.m, a.e + b.e};
}
inline D abs(D a) {
   if(a.m < 0) a.m = -a.m;
   return a;
}
inline int cmp(D a, D b) {
   align(a, b);
   return a.m < b.m ? -1 : a.m > b.m ? 1 : 0;
}
inline bool eq(const D& a, const D& b) {
   return cmp(a, b) == 0;
}
inline D pow2(long k) {
   return D{Z(1), k};
}
inline D pow(D a, long p) {
   D r = ofz(1);
   for(long i = 0; i < p; ++i) r = mul(r, a);
   return r;
}
// |a| <= k * 2^s * |b|
inline bool le_scaled(const D& a, long k, long s, const D& b) {
   return cmp(abs(a), mul(D{Z(k), s}, abs(b))) <= 0;
}
inline double approx(const D& a) {
   if(a.m == 0) return 0;
   Z m = a.m < 0 ? Z(-a.m) : a.m;
   long bits = static_cast<long>(boost::multiprecision::msb(m));
   long sh = bits > 60 ? bits - 60 : 0;
   double d = static_cast<double>(static_cast<long>(Z(m >> static_cast<unsigned>(sh))));
   d = std::ldexp(d, static_cast<int>(std::clamp(a.e + sh, -2000L, 2000L)));
   return a.m < 0 ? -d : d;
}
// a / b as a double (for messages).
inline double ratio(D a, D b) {
   if(b.m == 0) return a.m == 0 ? 0 : 1e308;
   a.m <<= 200;
   a.e -= 200;
   return approx(D{a.m / b.m, a.e - b.e});
}
} // namespace exact
