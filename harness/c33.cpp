// C33: the timer and STRICT_TIME against a simulated clock; the configuration report.
#include "sp.hpp"
#include <cerrno>
#include <cstring>
#include <ctime>
#include <iostream>
#include <sstream>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
using namespace g;

// The clocks the library can read: real ones, or simulated ones while a property runs.
namespace {
bool simulated = false;
long long mono = 0, offset = 0; // nanoseconds
struct Clock {
   explicit Clock(pbt::Src& s) {
      mono = s.range(0, 2) == 0 ? 0 : static_cast<long long>(s.below(4'000'000'000'000'000'000ull));
      offset = s.range(0, 1) == 0 ? 0 : static_cast<long long>(s.below(2'000'000'000'000'000'000ull));
      simulated = true;
   }
   ~Clock() {
      simulated = false;
   }
};
long long duration(pbt::Src& s) {
   switch(s.range(0, 5)) {
      case 0: return 0;
      case 1: return s.range(1, 9);
      case 2: return s.range(1, 999'999);
      case 3: return static_cast<long long>(s.below(1'000'000'000ull));
      case 4: return 1'000'000'000ll * s.range(1, 1000) + s.pick({0l, 1l, 999'999'999l});
      default: return static_cast<long long>(s.below(1'000'000'000'000'000ull));
   }
}
bool close(double x, long long ns) {
   double w = static_cast<double>(ns) / 1e9;
   return std::abs(x - w) <= 4 * std::numeric_limits<double>::epsilon() * w;
}
struct Capture {
   std::ostringstream out;
   std::streambuf* old = std::cout.rdbuf(out.rdbuf());
   ~Capture() {
      std::cout.rdbuf(old);
   }
};
} // namespace
extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept {
   if(!simulated) return static_cast<int>(syscall(SYS_clock_gettime, id, t));
   long long x = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? mono + offset : mono;
   t->tv_sec = x / 1'000'000'000;
   t->tv_nsec = x % 1'000'000'000;
   return 0;
}

PROP(timer_history, 4) {
   Clock c(s);
   struct T {
      spp::timer t;
      long long from;
   };
   std::vector<T> ts;
   ts.push_back({spp::timer(), mono});
   long n = s.range(1, 12), moved = 0, reads = 0;
   for(long i = 0; i < n; ++i) {
      switch(s.range(0, 5)) {
         case 0: {
            auto d = duration(s);
            s.note("the clocks advance by ", d, " ns");
            mono += d;
            moved += d > 0;
            break;
         }
         case 1: {
            auto& x = ts[s.below(ts.size())];
            s.note("restart timer ", &x - ts.data());
            x.t.restart();
            x.from = mono;
            s.label("restart");
            break;
         }
         case 2:
            s.note("timer ", ts.size(), " starts");
            ts.push_back({spp::timer(), mono});
            break;
         case 3: { // a copy measures from the same start
            auto x = ts[s.below(ts.size())];
            s.note("timer ", ts.size(), " copies one");
            ts.push_back(x);
            break;
         }
         case 4: { // somebody sets the time of day
            auto d = duration(s);
            if(s.coin() && d <= mono + offset) d = -d;
            s.note("the time of day is set by ", d, " ns");
            if(mono + offset + d >= 0) offset += d;
            s.label("time of day set");
            break;
         }
         default: break;
      }
      for(std::size_t k = 0; k < ts.size(); ++k) {
         const auto& x = ts[k];
         spp::Strict<double> w = x.t.wall_time();
         reads += mono > x.from;
         REQ(close(w.val(), mono - x.from), "timer ", k, " shows ", w.val(), " s after ", mono - x.from, " ns");
      }
   }
   s.nontrivial(moved && reads);
}

// Statements timed by the macro; every one advances the clock and leaves a trace in `ran`.
namespace {
long ran;
long work(long long ns) {
   mono += ns;
   ++ran;
   return ran;
}
struct Obj {
   long v = 0;
   Obj& run(long long ns) {
      v = work(ns);
      return *this;
   }
   Obj& restart() {
      work(1000);
      return *this;
   }
   long wall_time() {
      return work(3000);
   }
};
struct Stop {};
[[maybe_unused]] Obj& operator<<(Obj& o, long d) {
   return o.run(d);
}
} // namespace
#define CASE(k, total, ...)                  \
   case k:                                   \
      text = #__VA_ARGS__;                   \
      took = total;                          \
      STRICT_TIME(__VA_ARGS__);              \
      break

PROP(timed_statement, 3) {
   Clock c(s);
   Capture cap;
   std::string text;
   long long took = 0, before = ran = 0;
   auto d = duration(s);
   auto e = duration(s);
   Obj t, stream, timer, a;
   long x = 0;
   long k = s.range(0, 14);
   if(s.coin()) std::cout << std::hex << std::setprecision(17) << std::showpos, s.label("other stream format");
   auto flags = std::cout.flags();
   auto prec = std::cout.precision();
   bool thrown = false;
   long runs = 1, want = 1;
   try {
      switch(k) {
         CASE(0, d, work(d));
         CASE(1, d, x = work(d));
         CASE(2, d, t.run(d));
         CASE(3, d, stream.run(d));
         CASE(4, d, timer.run(d));
         CASE(5, d, a.run(d));
         CASE(6, 1000, t.restart());
         CASE(7, 3000, x = t.wall_time());
         CASE(8, d, stream << d);
         CASE(9, d + e, work(d); work(e); runs = 2);
         CASE(10, d, if(d > 0) t.run(d); else stream.run(d));
         CASE(11, 3 * (d / 3), for(int i = 0; i < 3; ++i) t.run(d / 3); runs = 3);
         case 12: { // nested in other control flow without braces
            text = "work(d)";
            took = d;
            if(d % 2 == 0)
               STRICT_TIME(work(d));
            else
               STRICT_TIME(work(d));
            break;
         }
         CASE(13, d, t = stream.run(d));
         default:
            text = "";
            STRICT_TIME((work(d), throw Stop()));
      }
   } catch(const Stop&) {
      thrown = true;
   }
   want = runs;
   s.note("statement ", text, " taking ", took, " ns, printed ", cap.out.str());
   s.nontrivial(took > 0);
   REQ(std::cout.flags() == flags && std::cout.precision() == prec, "the format of the stream changed");
   std::cout.flags(std::ios::dec | std::ios::skipws);
   std::cout.precision(6);
   REQ(ran - before == want, "the statement `", text, "` ran ", ran - before, " times");
   std::string o = cap.out.str();
   if(k == 14) {
      s.label("statement throws");
      REQ(thrown && o.empty(), "a statement that failed was reported: ", o);
      return;
   }
   std::string head = text + " took: ", tail = " seconds\n";
   REQ(o.size() > head.size() + tail.size() && o.compare(0, head.size(), head) == 0 && o.compare(o.size() - tail.size(), tail.size(), tail) == 0,
       "`", text, "` was reported as `", o, "`");
   std::string num = o.substr(head.size(), o.size() - head.size() - tail.size());
   char* end = nullptr;
   double v = std::strtod(num.c_str(), &end), w = static_cast<double>(took) / 1e9;
   REQ(*end == 0 && num.size() >= 10 && num[1] == '.' && num[6] == 'e', "the time is printed as ", num);
   double ulp = std::pow(10.0, std::atof(num.c_str() + 7) - 4);
   REQ(std::abs(v - w) <= 0.5000001 * ulp, "`", text, "` took ", took, " ns, reported ", num);
   if(k == 1 || k == 7) REQ(x == 1, "the statement was not carried out");
   if(k == 2 || k == 10) REQ(k == 10 ? (d > 0 ? t.v : stream.v) == 1 : t.v == 1, "the statement was not carried out on the user's object");
}

PROP(configuration_report, 1) {
   long n = s.range(1, 2);
   std::string want;
#ifdef STRICT_DEBUG_OFF
   want += "compute mode: RELEASE\n";
#else
   want += "compute mode: DEBUG\n";
#endif
#ifdef STRICT_ERROR_EXCEPTIONS
   want += "error handling: EXCEPTIONS\n";
#else
   want += "error handling: ASSERTIONS\n";
#endif
#ifdef STRICT_QUAD_PRECISION
   want += "quadruple precision: ON\n";
#else
   want += "quadruple precision: OFF\n";
#endif
#ifdef STRICT_STACKTRACE
   want += "C++23 stacktrace: ON\n";
#else
   want += "C++23 stacktrace: OFF\n";
#endif
   s.nontrivial();
   for(long i = 0; i < n; ++i) {
      Capture c;
      spp::print_config_info();
      REQ(c.out.str() == want, "reported ", c.out.str());
   }
   // What is reported is what happens.
   spp::Array1D<int> a(3);
#ifdef STRICT_ERROR_EXCEPTIONS
   bool rejected = false;
   try {
      (void)a.at(3 + s.range(0, 5));
   } catch(const spp::StrictException&) {
      rejected = true;
   }
   REQ(rejected, "errors are not reported as exceptions");
#ifndef STRICT_DEBUG_OFF
   rejected = false;
   try {
      (void)a[3 + s.range(0, 5)];
   } catch(const spp::StrictException&) {
      rejected = true;
   }
   REQ(rejected, "debug checks are not active");
#endif
#endif
}
