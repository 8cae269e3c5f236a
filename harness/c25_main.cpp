// Generates programs and compares what the configurations make of them.
#include "c25_gen.hpp"

namespace c25 {
struct AssertFailed {};
[[noreturn]] void assertion_failed();
#define R(g, T) Out run_ref_##g##_##T(const Prog&, const std::vector<char>*); Out run_off_##g##_##T(const Prog&, const std::vector<char>*); \
   Out run_asrt_##g##_##T(const Prog&, const std::vector<char>*); Out run_rel_##g##_##T(const Prog&, const std::vector<char>*); \
   Out run_ndbg_##g##_##T(const Prog&, const std::vector<char>*);
R(1, int) R(1, double) R(2, int) R(2, double) R(3, int) R(3, double) R(3, float) R(4, int) R(4, double) R(4, float) R(6, int) R(6, double) R(6, float) R(5, int) R(5, double)
#undef R

void check(pbt::Src& s, int group, bool fl, int count, Run ref, Run off, Run asrt, Run rel, Run ndbg) {
   Prog q = program(s, group, fl, count);
   auto r = ref(q, nullptr);
   long ran = 0, rej = 0, always = 0;
   for(std::size_t i = 0; i < q.steps.size(); ++i) {
      s.note("step ", i, ": ", r.log[i]);
      r.rejected[i] == 0 ? ++ran : r.rejected[i] == 1 ? ++rej : ++always;
   }
   auto same = [&](const char* name, const Out& w, bool dbg, bool alw) {
      for(std::size_t i = 0; i < q.steps.size(); ++i) {
         bool expect = r.rejected[i] == 0 || (r.rejected[i] == 1 && dbg) || (r.rejected[i] == 2 && alw);
         if(!expect) continue;
         REQ(w.log[i] == r.log[i], "step ", i, " (", show(q.steps[i]), ")\n  in the reference configuration: ", r.log[i], "\n  ", name, ": ", w.log[i]);
      }
   };
   same("with assertions", asrt(q, nullptr), true, true);
   same("with exceptions and NDEBUG", ndbg(q, nullptr), true, true);
   same("with debug checks off", off(q, &r.rejected), false, true);
   auto all = r.rejected;
   for(auto&& c : all) c = c ? 1 : 0; // nothing is checked in this one
   same("with debug checks, assertions and NDEBUG off", rel(q, &all), false, false);
   if(rej) s.label("a step rejected by a debug check");
   if(always) s.label("a step rejected by an always-on check");
   s.label(ran > 2 ? "more than two valid steps" : ran ? "one or two valid steps" : "no valid step");
   s.nontrivial(ran > 0 || always > 0);
}
#define C(g, T, n) PROP(c25_##g##_##T, 2) { check(s, g, T(0.5) != 0, n, run_ref_##g##_##T, run_off_##g##_##T, run_asrt_##g##_##T, run_rel_##g##_##T, run_ndbg_##g##_##T); }
C(1, int, 62) C(1, double, 62) C(2, int, 64) C(2, double, 64) C(3, int, 52) C(3, double, 52) C(3, float, 52) C(4, int, 44) C(4, double, 44) C(4, float, 44) C(6, int, 42) C(6, double, 42) C(6, float, 42) C(5, int, 14) C(5, double, 14)
} // namespace c25

// See c25inc/assert.h.
[[noreturn]] void c25::assertion_failed() {
   throw AssertFailed{};
}
