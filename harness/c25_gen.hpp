// Draws programs for the interpreter (C25, C30, C31).
#pragma once
#include "c25_prog.hpp"
#include "pbt.hpp"

namespace c25 {
inline std::string show(const Step& p) {
   std::string l, t = p.text;
   for(auto i : p.list) l += std::to_string(i) + ' ';
   return pbt::cat("op ", p.op, " (", p.a, ", ", p.b, ", ", p.c, ", ", p.d, ") x=", p.x, " y=", p.y, " list {", l, "} text \"", t, "\"");
}
inline std::string text(pbt::Src& s, bool fl) {
   std::string t;
   long lines = s.range(1, 3), w = s.range(1, 3);
   for(long i = 0; i < lines; ++i) {
      if(i) t += '\n';
      for(long j = 0; j < w; ++j) {
         if(j) t += ' ';
         t += std::to_string(s.range(-20, 20));
         if(fl && s.chance(1, 3)) t += ".25";
      }
   }
   if(s.chance(1, 5)) t += s.pick({" x", ".5.5", " 7", "\n1 2 3 4 5", "\n", "\n\n", " -"});
   return t;
}
inline double value(pbt::Src& s, bool fl) {
   double v = static_cast<double>(s.range(-9, 9));
   if(fl && s.coin()) v += s.pick({0.5, 0.125, 0.1, 1e-3, 0.7});
   if(fl && s.chance(1, 30)) v *= s.pick({1e20, 1e-20, 1e3});
   return v;
}

// invalid: one argument in this many lies outside the usual range
inline Prog program(pbt::Src& s, int group, bool fl, int count, std::uint64_t invalid = 20) {
   Prog q;
   q.n = s.range(0, 6);
   q.k = s.chance(1, 2) ? q.n : s.range(0, 5);
   q.m = s.range(0, 4);
   if(q.k == 0) q.m = 0;
   long ni = s.range(1, 12);
   for(long i = 0; i < ni; ++i) q.init.push_back(value(s, fl));
   long steps = s.range(1, 7);
   for(long i = 0; i < steps; ++i) {
      Step p;
      p.op = static_cast<int>(s.below(static_cast<std::uint64_t>(count)));
      auto idx = [&] { return s.chance(1, invalid) ? s.range(-2, 12) : s.range(0, 4); };
      p.a = idx(); p.b = idx(); p.c = idx(); p.d = idx();
      p.x = value(s, fl);
      p.y = value(s, fl);
      long ln = s.range(0, 3), at = 0;
      bool sorted = s.chance(2, 3); // as removals and complements need it
      for(long j = 0; j < ln; ++j) {
         at = sorted ? at + s.range(j ? 1 : 0, 2) : s.range(0, 4);
         p.list.push_back(at);
      }
      if(group == 5) p.text = text(s, fl);
      q.steps.push_back(p);
      s.note(show(p));
   }
   return q;
}
} // namespace c25
