// The same programs built by other compilers, for other language standards and optimisation levels.
#include "c25_gen.hpp"

namespace c25 {
struct AssertFailed {};
#define R(c, g, T) Out run_##c##_##g##_##T(const Prog&, const std::vector<char>*);
#define RR(g, T) R(base, g, T) R(clg, g, T) R(clx, g, T) R(g23, g, T) R(g20, g, T)
RR(1, int) RR(1, double) RR(2, int) RR(2, double) RR(3, int) RR(3, double) RR(3, float) RR(4, int) RR(4, double) RR(4, float) RR(6, int) RR(6, double) RR(6, float) RR(5, int) RR(5, double)
#undef R

void check31(pbt::Src& s, int group, bool fl, int count, Run base, std::initializer_list<std::pair<const char*, Run>> others) {
   Prog q = program(s, group, fl, count);
   auto r = base(q, nullptr);
   long ran = 0, rej = 0;
   for(std::size_t i = 0; i < q.steps.size(); ++i) {
      s.note("step ", i, ": ", r.log[i]);
      r.rejected[i] == 0 ? ++ran : ++rej;
   }
   for(auto& [name, run] : others) {
      auto w = run(q, nullptr);
      for(std::size_t i = 0; i < q.steps.size(); ++i)
         REQ(w.log[i] == r.log[i], "step ", i, " (", show(q.steps[i]), ")\n  g++ -std=gnu++20 -O0: ", r.log[i], "\n  ", name, ": ", w.log[i]);
   }
   if(rej) s.label("a rejected step");
   s.label(ran > 2 ? "more than two valid steps" : ran ? "one or two valid steps" : "no valid step");
   s.nontrivial(ran > 0);
}
#define C(g, T, n) PROP(c31_##g##_##T, 2) { check31(s, g, T(0.5) != 0, n, run_base_##g##_##T, {{"clang++ -std=c++20 -O1", run_clg_##g##_##T}, {"clang++ -std=c++26 -O2", run_clx_##g##_##T}, \
   {"g++ -std=gnu++23 -O2", run_g23_##g##_##T}, {"g++ -std=c++20 -O3 -march=native", run_g20_##g##_##T}}); }
C(1, int, 62) C(1, double, 62) C(2, int, 64) C(2, double, 64) C(3, int, 52) C(3, double, 52) C(3, float, 52) C(4, int, 44) C(4, double, 44) C(4, float, 44) C(6, int, 42) C(6, double, 42) C(6, float, 42) C(5, int, 14) C(5, double, 14)
} // namespace c25
