// Rejected calls: what the exception says, and that without exceptions the program stops there.
#include "c25_gen.hpp"
#include "c30_shim.hpp"
#include <csignal>
#include <iostream>
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace c25 {
struct AssertFailed {};
[[noreturn]] void assertion_failed();
#define R(c, g, T) Out run_##c##_##g##_##T(const Prog&, const std::vector<char>*);
#define RR(g, T) R(ref, g, T) R(dflt, g, T)
RR(1, int) RR(1, double) RR(2, int) RR(2, double) RR(3, int) RR(3, double) RR(3, float) RR(4, int) RR(4, double) RR(4, float) RR(6, int) RR(6, double) RR(6, float) RR(5, int) RR(5, double)
R(trace, 1, int) R(trace, 1, double) R(trace, 3, int) R(trace, 3, double)
#undef R

// Steps completed by the child, as consecutive zero-terminated strings.
static char* area;
static constexpr std::size_t area_size = 1 << 20;
static std::size_t used;
void step_done(const std::string& log) {
   if(used + log.size() + 2 > area_size) _exit(91);
   std::memcpy(area + used + 1, log.c_str(), log.size() + 1);
   area[used] = 1;
   used += log.size() + 2;
}
} // namespace c25
[[noreturn]] void c25::assertion_failed() { throw AssertFailed{}; }

namespace c30 {
using namespace c25;
std::string squeeze(const std::string& s) {
   std::string r;
   for(char c : s)
      if(!std::isspace(static_cast<unsigned char>(c)) && c != '\\') r += c;
   return r;
}
// The lines of a file of the library (empty: no such file).
const std::vector<std::string>& lines_of(const std::string& file) {
   static std::map<std::string, std::vector<std::string>> m;
   auto it = m.find(file);
   if(it == m.end()) {
      it = m.emplace(file, std::vector<std::string>{}).first;
      std::ifstream f(file);
      for(std::string l; std::getline(f, l);) it->second.push_back(l);
   }
   return it->second;
}
// A report designates a line of the library where the condition is checked.
void place(const std::string& file, long line, const std::string& func, const std::string& cond, const std::string& all) {
   REQ(file.find("strictpp/") != std::string::npos, "no file of the library is named: ", all);
   REQ(!func.empty() && !cond.empty(), "function or condition missing: ", all);
   auto& l = lines_of(file);
   REQ(!l.empty(), "the file named does not exist: ", all);
   REQ(line >= 1 && line <= static_cast<long>(l.size()), "line ", line, " of a file of ", l.size(), ": ", all);
   std::string near;
   for(long k = std::max(0L, line - 9); k < std::min(static_cast<long>(l.size()), line + 8); ++k) near += l[static_cast<std::size_t>(k)];
   // written there as it stands, or through a macro
   bool macro = false;
   long upper = 0;
   for(char c : near) {
      if(c == '(' && upper > 3) macro = true;
      upper = std::isupper(static_cast<unsigned char>(c)) || c == '_' ? upper + 1 : 0;
   }
   REQ(squeeze(near).find(squeeze(cond)) != std::string::npos || (macro && near.find("ASSERT_STRICT") == std::string::npos), "the condition is not checked near the line named: ", all);
}
// "<what> File: F, function: f, line: n:\n<condition> failed, exception thrown."
void message(const std::string& w) {
   auto f = w.find("File: "), fn = w.find(", function: "), ln = w.find(", line: "), e = w.rfind(" failed, exception thrown.");
   REQ(f != std::string::npos && fn != std::string::npos && ln != std::string::npos && e != std::string::npos && f < fn && fn < ln && ln < e, "incomplete message: ", w);
   auto c = w.find(":\n", ln);
   REQ(c != std::string::npos && c < e, "no condition in the message: ", w);
   place(w.substr(f + 6, fn - f - 6), std::atol(w.c_str() + ln + 8), w.substr(fn + 12, ln - fn - 12), w.substr(c + 2, e - c - 2), w);
}
std::string contents(int fd) {
   std::string s;
   char b[4096];
   lseek(fd, 0, SEEK_SET);
   for(ssize_t n; (n = read(fd, b, sizeof b)) > 0;) s.append(b, static_cast<std::size_t>(n));
   return s;
}
// Runs a program without exceptions in a child and compares it with the run that had them.
void stops(pbt::Src& s, const Prog& q, const Out& r, Run run, bool trace) {
   if(!area) {
      area = static_cast<char*>(mmap(nullptr, area_size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
      if(area == MAP_FAILED) std::abort();
   }
   std::memset(area, 0, 4096);
   int out = memfd_create("out", 0), err = memfd_create("err", 0);
   pid_t p = fork();
   if(p == 0) {
      rlimit none{0, 0};
      setrlimit(RLIMIT_CORE, &none);
      std::signal(SIGABRT, SIG_DFL);
      dup2(out, 1), dup2(err, 2);
      used = 0;
      int rc = 0;
      try {
         run(q, nullptr);
      } catch(...) { rc = 92; }
      area[used] = 0;
      std::cout.flush();
      _exit(rc);
   }
   int st = 0;
   waitpid(p, &st, 0);
   std::string o = contents(out), e = contents(err);
   close(out), close(err);
   std::size_t bad = 0, at = 0;
   while(bad < r.rejected.size() && !r.rejected[bad]) ++bad;
   for(std::size_t i = 0; i < bad; ++i) {
      REQ(area[at] == 1, "without exceptions the program ended in step ", i, " (", show(q.steps[i]), "), which is accepted with them: ", e);
      std::string l = area + at + 1;
      REQ(l == r.log[i], "step ", i, " (", show(q.steps[i]), ")\n  with exceptions: ", r.log[i], "\n  without: ", l);
      at += l.size() + 2;
   }
   if(bad == r.rejected.size()) {
      REQ(WIFEXITED(st) && WEXITSTATUS(st) == 0, "a valid program ended with status ", st, ": ", e);
      REQ(o.empty() && e.empty(), "a valid program wrote: ", o, e);
      s.label("valid program");
      return;
   }
   REQ(!(WIFEXITED(st) && WEXITSTATUS(st) == 0), "step ", bad, " (", show(q.steps[bad]), ") is rejected with exceptions and passes without");
   REQ(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "step ", bad, " (", show(q.steps[bad]), "): status ", st, " instead of an abort: ", e);
   // prog: file:line: function: Assertion `condition' failed.
   auto a = e.find(": Assertion `"), z = e.rfind("' failed.");
   REQ(a != std::string::npos && z != std::string::npos && a < z, "no diagnostic on the error stream: ", e);
   auto f = e.find(": ");
   auto l = e.find(':', f + 2), m = e.find(": ", l + 1);
   REQ(f < l && l < m && m < a, "incomplete diagnostic: ", e);
   std::string cond = e.substr(a + 13, z - a - 13);
   auto amp = cond.rfind(") && "); // (condition) && "message"
   if(amp != std::string::npos && cond[0] == '(') cond = cond.substr(1, amp - 1);
   auto& w = r.what[bad];
   auto wc = w.find(":\n", w.find(", line: "));
   REQ(cond.find(w.substr(wc + 2, w.rfind(" failed, exception thrown.") - wc - 2)) != std::string::npos, "different conditions: ", e, " / ", w);
   place(e.substr(f + 2, l - f - 2), std::atol(e.c_str() + l + 1), e.substr(m + 2, a - m - 2), cond, e);
   // the same check reports in both cases
   auto wl = w.find(", line: ");
   REQ(std::atol(e.c_str() + l + 1) == std::atol(w.c_str() + wl + 8), "different checks: ", e, " / ", w);
   if(trace) REQ(o.find("\n...") != std::string::npos, "no stack trace: ", o);
   else REQ(o.empty(), "output before the stop: ", o);
   s.label(bad ? "stops after valid steps" : "stops at once");
}
void check(pbt::Src& s, int group, bool fl, int count, Run ref, Run run, bool trace) {
   Prog q = program(s, group, fl, count, 6);
   auto r = ref(q, nullptr);
   bool any = false;
   for(std::size_t i = 0; i < r.what.size(); ++i) {
      s.note("step ", i, ": ", r.log[i]);
      if(!r.rejected[i]) continue;
      any = true;
      message(r.what[i]);
      try {
         std::rethrow_exception(r.thrown[i]);
      } catch(const std::exception& e) { // the message outlives the throw and later steps
         REQ(r.what[i] == e.what(), "the message changed: ", r.what[i], " / ", e.what());
      }
      s.label("message of a rejection");
   }
   if(s.chance(1, 4)) stops(s, q, r, run, trace);
   s.nontrivial(any);
}
#define C(g, T, n) PROP(c30_##g##_##T, 2) { check(s, g, T(0.5) != 0, n, run_ref_##g##_##T, run_dflt_##g##_##T, false); }
C(1, int, 62) C(1, double, 62) C(2, int, 64) C(2, double, 64) C(3, int, 52) C(3, double, 52) C(3, float, 52) C(4, int, 44) C(4, double, 44) C(4, float, 44) C(6, int, 42) C(6, double, 42) C(6, float, 42) C(5, int, 14) C(5, double, 14)
#define X(g, T, n) PROP(c30_trace_##g##_##T, 1) { check(s, g, T(0.5) != 0, n, run_ref_##g##_##T, run_trace_##g##_##T, true); }
X(1, int, 62) X(1, double, 62) X(3, int, 52) X(3, double, 52)
// What was violated is named first.
PROP(c30_categories, 1) {
   auto [category, w] = violate(s);
   s.note(category, ": ", w);
   REQ(w.substr(0, category.size()) == category, "the message does not say what is wrong (", category, "): ", w);
   message(w);
   s.nontrivial();
}
} // namespace c30
