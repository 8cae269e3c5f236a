// Draws what every thread does, runs it thread by thread and then at once.
#include "c29.hpp"
#include <barrier>
#include <memory>
#include <thread>

extern "C" const char* __tsan_default_options() {
   return "halt_on_error=1:exitcode=75:die_after_fork=0:report_signal_unsafe=0:atexit_sleep_ms=0";
}
namespace c25 {
#define R(g, T) Out run_tsn_##g##_##T(const Prog&, const std::vector<char>*);
R(1, int) R(1, double) R(2, int) R(2, double) R(3, int) R(3, double) R(4, int) R(4, double) R(5, int) R(5, double) R(6, int) R(6, double)
#undef R
} // namespace c25
namespace c29 {
using namespace c25;

std::string show(const Step& p) {
   std::string l;
   for(auto i : p.list) l += std::to_string(i) + ' ';
   return pbt::cat("op ", p.op, " (", p.a, ", ", p.b, ", ", p.c, ", ", p.d, ") x=", p.x, " list {", l, "} text \"", p.text, "\"");
}
Job private_job(pbt::Src& s) { // a program on the thread's own objects
   static const Run runs[] = {run_tsn_1_int, run_tsn_1_double, run_tsn_2_int, run_tsn_2_double, run_tsn_3_int, run_tsn_3_double, run_tsn_4_int, run_tsn_4_double, run_tsn_5_int, run_tsn_5_double, run_tsn_6_int, run_tsn_6_double};
   static const int counts[] = {62, 64, 52, 44, 14, 42};
   auto r = s.below(12);
   Prog q;
   q.n = s.range(0, 6);
   q.k = s.coin() ? q.n : s.range(0, 5);
   q.m = q.k ? s.range(0, 4) : 0;
   long ni = s.range(1, 8);
   for(long i = 0; i < ni; ++i) q.init.push_back(static_cast<double>(s.range(-9, 9)) + (r % 2 && s.coin() ? 0.25 : 0));
   long steps = s.range(1, 4);
   std::string text = pbt::cat("program of group ", r / 2 + 1, r % 2 ? " (double)" : " (int)");
   for(long i = 0; i < steps; ++i) {
      Step p;
      p.op = static_cast<int>(s.below(static_cast<std::uint64_t>(counts[r / 2])));
      p.a = s.range(0, 4), p.b = s.range(0, 4), p.c = s.range(0, 4), p.d = s.range(0, 4);
      p.x = static_cast<double>(s.range(-9, 9)), p.y = static_cast<double>(s.range(-9, 9));
      long ln = s.range(0, 2);
      for(long j = 0; j < ln; ++j) p.list.push_back(j + s.range(0, 1));
      if(r / 2 == 4) p.text = s.pick({"1 2 3", "4 5\n6 7", "1.5 2", "x", "1 2\n3"});
      text += "; " + show(p);
      q.steps.push_back(p);
   }
   s.note(text);
   return [q, run = runs[r]] {
      std::string o;
      for(auto& l : run(q, nullptr).log) o += l + '\n';
      return o;
   };
}
void check(pbt::Src& s) {
   std::vector<std::unique_ptr<Shared>> sh;
   auto n = s.range(0, 6), m = s.range(0, 3), k = s.range(1, 4);
   std::vector<double> init;
   long ni = s.range(1, 8);
   for(long i = 0; i < ni; ++i) init.push_back(static_cast<double>(s.range(-9, 9)));
   std::string t;
   for(auto x : init) t += pbt::cat(x, ' ');
   s.note("shared objects: ", n, " elements, ", m, "x", k, " contents ", t);
   sh.emplace_back(shared_int(init, n, m, k));
   sh.emplace_back(shared_double(init, n, m, k));
   sh.emplace_back(shared_quad(init, n, m, k));
   long threads = s.range(2, 4);
   std::vector<Job> jobs;
   auto which = s.below(4); // three: any
   bool readers = false;
   std::vector<int> ops;
   if(s.coin()) { // every thread does the same few things
      long c = s.range(1, 3);
      for(long i = 0; i < c; ++i) ops.push_back(static_cast<int>(s.below(54)));
   }
   for(long i = 0; i < threads; ++i) {
      std::vector<Job> parts;
      long np = ops.empty() ? s.range(1, 3) : static_cast<long>(ops.size());
      for(long j = 0; j < np; ++j) {
         if(ops.empty() && s.coin()) {
            s.note("thread ", i, ":");
            parts.push_back(private_job(s));
            continue;
         }
         readers = true;
         auto t = which < 3 ? which : s.below(3);
         auto o = sh[t].get();
         int op = ops.empty() ? static_cast<int>(s.below(54)) : ops[static_cast<std::size_t>(j)];
         long a = s.range(0, 4), b = s.range(0, 4);
         double x = static_cast<double>(s.range(-9, 9));
         s.note("thread ", i, ": reads, operation ", op, " of type ", t, " (", a, ", ", b, ", ", x, ")");
         parts.push_back([=] { return o->read(op, a, b, x); });
      }
      jobs.push_back([parts] {
         std::string r;
         for(auto& p : parts) r += p() + '\n';
         return r;
      });
   }
   std::vector<std::string> alone, together(jobs.size());
   for(auto& j : jobs) alone.push_back(j());
   std::barrier start(static_cast<std::ptrdiff_t>(jobs.size()));
   std::vector<std::thread> ts;
   for(std::size_t i = 0; i < jobs.size(); ++i)
      ts.emplace_back([&, i] {
         start.arrive_and_wait();
         together[i] = jobs[i]();
      });
   for(auto& x : ts) x.join();
   for(std::size_t i = 0; i < jobs.size(); ++i) REQ(alone[i] == together[i], "thread ", i, " alone: ", alone[i], "\n  with the others: ", together[i]);
   s.label(readers ? "shared objects are read" : "separate objects");
   s.nontrivial();
}
PROP(c29_threads, 1) { check(s); }
} // namespace c29
