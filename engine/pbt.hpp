// Choice-sequence property-based testing engine.
//
// A property is a function of a `Src`.  Every random decision is a call of Src::below(n), whose result
// is recorded on a tape.  A case is therefore a pure function of its tape: generating, replaying and
// shrinking a failure are all "run the property on a tape".
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <sstream>
#include <vector>
#include <initializer_list>
#include <type_traits>
#include <utility>

namespace pbt {

struct Fail {
   std::string msg;
};

class Src {
public:
   // Uniform in [0, n). 0 is the "simplest" answer; shrinking moves choices towards it.
   std::uint64_t below(std::uint64_t n);
   // Inclusive range, simplest value lo.
   long range(long lo, long hi) {
      return lo + static_cast<long>(below(static_cast<std::uint64_t>(hi - lo) + 1u));
   }
   bool chance(unsigned num, unsigned den) { // simplest: false
      return below(den) >= den - num;
   }
   bool coin() {
      return below(2) == 1;
   }
   template <class T>
   T pick(std::initializer_list<T> l) {
      return *(l.begin() + below(l.size()));
   }
   template <class T>
   T pick(const std::vector<T>& l) {
      return static_cast<T>(l[below(l.size())]);
   }
   std::uint64_t word() { // any 64-bit pattern
      return below(0);
   }
   // Fisher-Yates permutation of 0..n-1.
   std::vector<long> perm(long n) {
      std::vector<long> p(static_cast<std::size_t>(n));
      for(long i = 0; i < n; ++i) p[static_cast<std::size_t>(i)] = i;
      for(long i = n - 1; i > 0; --i) std::swap(p[static_cast<std::size_t>(i)], p[below(static_cast<std::uint64_t>(i) + 1u)]);
      return p;
   }

   // Classification of the case (printed in the evidence file).
   void label(const char* s);
   // Marks the case as non-trivial according to the rule of its property.
   void nontrivial(bool b = true) {
      nontrivial_ = nontrivial_ || b;
   }

   bool verbose() const {
      return verbose_;
   }
   template <class... A>
   void note(const A&... a) {
      if(verbose_) {
         std::ostringstream o;
         (o << ... << a);
         note_str(o.str());
      }
   }
   void note_str(const std::string& s);

   // engine side
   bool verbose_ = false;
   bool nontrivial_ = false;
};

using Fn = void (*)(Src&);

struct Reg {
   Reg(const char* name, unsigned weight, Fn fn);
};

[[noreturn]] inline void fail(std::string m) {
   throw Fail{std::move(m)};
}

template <class... A>
std::string cat(const A&... a) {
   std::ostringstream o;
   o.precision(40);
   (o << ... << a);
   return o.str();
}

} // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PROP(name, weight) { body using `s` }
#define PROP_FN(name, weight, fn) static pbt::Reg PBT_CAT(pbt_reg_, __COUNTER__){name, weight, fn}
#define PROP(ident, weight)                                            \
   static void ident(pbt::Src& s);                                     \
   static pbt::Reg PBT_CAT(pbt_reg_, ident){#ident, weight, &ident};   \
   static void ident([[maybe_unused]] pbt::Src& s)

#define REQ(cond, ...)                                                                            \
   do {                                                                                           \
      if(!(cond)) pbt::fail(pbt::cat("check `" #cond "` failed, line ", __LINE__, ": " __VA_OPT__(, ) __VA_ARGS__)); \
   } while(0)
