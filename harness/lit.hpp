// C32: support for generated literals and constants.
#pragma once
#include "sp.hpp"
#include <cstring>
#include <string>

namespace c32 {
using namespace spp::literals;
template <class T>
inline constexpr int bytes = std::is_same_v<T, long double> ? 10 : static_cast<int>(sizeof(T));

struct Entry {
   std::string text;
   bool type_ok = true; // the literal is a Strict of the documented type
   bool same = true, neg_same = true;
   std::string got, want;
};
template <class T>
std::string show(T x) {
   return g::str(x);
}
template <class T>
bool same_bits(spp::Strict<T> x, T y) {
   T a = x.val();
   return std::memcmp(&a, &y, bytes<T>) == 0;
}
// x the literal, y its negation (for unsigned types: the literal again).
template <class T, class X, class Y>
Entry make(const char* text, const X& x, const Y& y, T want) {
   Entry e;
   e.text = text;
   e.type_ok = std::is_same_v<std::remove_cvref_t<X>, spp::Strict<T>> && std::is_same_v<std::remove_cvref_t<Y>, spp::Strict<T>>;
   if constexpr(std::is_same_v<X, spp::Strict<T>> && std::is_same_v<Y, spp::Strict<T>>) {
      e.same = same_bits<T>(x, want);
      e.neg_same = same_bits<T>(y, std::is_unsigned_v<T> ? want : static_cast<T>(-want));
      e.got = show(x.val());
   }
   e.want = show(want);
   return e;
}
// Quadruple-precision literals written in binary or octal are rejected when they are evaluated.
template <class F>
Entry refused(const char* text, F f) {
   Entry e;
   e.text = text;
   e.want = "a rejection";
   try {
      e.got = show(f().val());
      e.same = false;
   } catch(const spp::StrictException&) {
   }
   return e;
}
inline void literal(pbt::Src& s, Entry (*const* table)(), long n) {
   auto k = s.below(static_cast<std::uint64_t>(n));
   Entry e = table[k]();
   s.note("literal ", e.text);
   s.label(e.text.find('\'') != std::string::npos ? "with digit separators" : "plain");
   for(const char* suffix : {"_si", "_sl", "_sui", "_sul", "_sf", "_sd", "_sq"}) {
      std::string t = e.text.substr(e.text.find('_'));
      for(char& c : t) c = static_cast<char>(c | (c == '_' ? 0 : 32));
      if(t == suffix) s.label(suffix);
   }
   s.nontrivial();
   REQ(e.type_ok, e.text, " has another type");
   REQ(e.same, e.text, " is ", e.got, " instead of ", e.want);
   REQ(e.neg_same, "-", e.text, " is not the negated value");
}
struct Const {
   const char* text;
   bool (*ok)();
};
inline void constant(pbt::Src& s, const Const* table, long n) {
   const Const& c = table[s.below(static_cast<std::uint64_t>(n))];
   s.note("constant ", c.text);
   s.label("constants");
   s.nontrivial();
   REQ(c.ok(), c.text, " is not the nearest value of its type");
}
} // namespace c32
