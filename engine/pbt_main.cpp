// Driver of the choice-sequence engine: parallel exploration in forked workers, crash / hang
// isolation, shrinking, replay, evidence counters.  Deterministic in --seed: case i of check c is a
// pure function of (seed, c, i).
#include "pbt.hpp"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <poll.h>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" const char* __asan_default_options() {
   return "detect_leaks=0:exitcode=77:allocator_may_return_null=0:max_allocation_size_mb=1024:"
          "detect_stack_use_after_return=1:quarantine_size_mb=16:malloc_context_size=8:"
          "handle_abort=0:allow_user_segv_handler=0:symbolize=1:alloc_dealloc_mismatch=0";
}
extern "C" const char* __ubsan_default_options() {
   return "print_stacktrace=1:halt_on_error=1:exitcode=76";
}

namespace pbt {
namespace {

struct Check {
   std::string name;
   unsigned weight;
   Fn fn;
};

std::vector<Check>& checks() {
   static std::vector<Check> c;
   return c;
}

constexpr std::size_t TAPE_MAX = 1u << 16;
constexpr std::size_t MSG_MAX = 1u << 13;
constexpr std::size_t NOTE_MAX = 1u << 15;

enum Status { RUNNING = 0, PASS = 1, FAILED = 2, OVERRUN = 3 };

struct Shared { // one per worker / trial
   std::atomic<std::uint64_t> done;
   std::atomic<std::uint64_t> cur; // index of the case under way
   std::atomic<int> status;
   std::atomic<int> timed_out;
   std::uint32_t ntape;
   std::uint64_t tape[TAPE_MAX];
   std::uint64_t bound[TAPE_MAX];
   char msg[MSG_MAX];
   std::uint32_t nnote;
   char note[NOTE_MAX];
   bool nontrivial;
};

Shared* g_sh = nullptr;                  // where the running case records itself
const std::vector<std::uint64_t>* g_replay = nullptr;
std::size_t g_replay_pos = 0;
std::uint64_t g_rng = 0;
std::map<const char*, std::uint64_t>* g_labels = nullptr;

std::uint64_t splitmix(std::uint64_t& x) {
   std::uint64_t z = (x += 0x9e3779b97f4a7c15ull);
   z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
   z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
   return z ^ (z >> 31);
}

std::uint64_t hash_str(const std::string& s) {
   std::uint64_t h = 1469598103934665603ull;
   for(unsigned char c : s) h = (h ^ c) * 1099511628211ull;
   return h;
}

struct Overrun {};

template <class T>
T* shared_alloc(std::size_t n = 1) {
   void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   if(p == MAP_FAILED) {
      std::perror("mmap");
      std::exit(3);
   }
   return static_cast<T*>(p);
}

void on_timer(int) {
   if(g_sh) g_sh->timed_out = 1;
   _exit(78);
}

void arm(double sec) {
   itimerval tv{};
   tv.it_value.tv_sec = static_cast<long>(sec);
   tv.it_value.tv_usec = static_cast<long>((sec - static_cast<double>(static_cast<long>(sec))) * 1e6);
   setitimer(ITIMER_PROF, &tv, nullptr);
}

void set_msg(Shared* sh, const std::string& m) {
   std::size_t n = std::min(m.size(), MSG_MAX - 1);
   std::memcpy(sh->msg, m.data(), n);
   sh->msg[n] = 0;
}

double g_case_cpu = 20.0;

// Runs one case in this process. The tape is recorded in *sh.
void run_case(const Check& c, Shared* sh, const std::vector<std::uint64_t>* replay, std::uint64_t rng,
              bool verbose) {
   g_sh = sh;
   g_replay = replay;
   g_replay_pos = 0;
   g_rng = rng;
   sh->ntape = 0;
   sh->nnote = 0;
   sh->note[0] = 0;
   sh->msg[0] = 0;
   sh->timed_out = 0;
   sh->nontrivial = false;
   sh->status = RUNNING;
   Src s;
   s.verbose_ = verbose;
   int st = PASS;
   try {
      c.fn(s);
   } catch(const Fail& f) {
      set_msg(sh, f.msg);
      st = FAILED;
   } catch(const Overrun&) {
      st = OVERRUN;
   } catch(const std::exception& e) {
      set_msg(sh, std::string("unexpected exception escaped: ") + e.what());
      st = FAILED;
   } catch(...) {
      set_msg(sh, "unexpected exception of unknown type");
      st = FAILED;
   }
   sh->nontrivial = s.nontrivial_;
   sh->status = st;
}

struct Outcome {
   bool failed = false;
   std::string msg;
   std::vector<std::uint64_t> tape, bound;
   std::string notes;
   std::string err;
};

std::string read_file(const std::string& p) {
   std::ifstream f(p, std::ios::binary);
   std::ostringstream o;
   o << f.rdbuf();
   return o.str();
}

std::string g_tmp;

std::string describe_exit(int wst, const Shared* sh) {
   if(sh->timed_out) return "case did not terminate within its CPU-time limit";
   if(WIFSIGNALED(wst)) return std::string("killed by signal ") + strsignal(WTERMSIG(wst));
   if(WEXITSTATUS(wst) == 77) return "AddressSanitizer report";
   if(WEXITSTATUS(wst) == 76) return "UndefinedBehaviorSanitizer report";
   return "process exited with status " + std::to_string(WEXITSTATUS(wst));
}

// Runs a tape in a forked child.
Outcome trial(const Check& c, const std::vector<std::uint64_t>& tape, bool verbose, Shared* sh) {
   std::string errf = g_tmp + "/trial.err";
   sh->status = RUNNING;
   sh->ntape = 0;
   std::fflush(nullptr);
   pid_t p = fork();
   if(p == 0) {
      int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
      dup2(fd, 2);
      dup2(fd, 1);
      std::signal(SIGPROF, on_timer);
      arm(g_case_cpu);
      run_case(c, sh, &tape, 0, verbose);
      _exit(0);
   }
   int wst = 0;
   waitpid(p, &wst, 0);
   Outcome o;
   bool crashed = !(WIFEXITED(wst) && WEXITSTATUS(wst) == 0) || sh->status == RUNNING;
   o.failed = crashed || sh->status == FAILED;
   if(o.failed) {
      o.msg = crashed ? describe_exit(wst, sh) : std::string(sh->msg);
      o.tape.assign(sh->tape, sh->tape + sh->ntape);
      o.bound.assign(sh->bound, sh->bound + sh->ntape);
      o.notes.assign(sh->note, sh->nnote);
      if(crashed) {
         o.err = read_file(errf);
         if(o.err.size() > 6000) o.err.resize(6000);
      }
   }
   return o;
}

double now() {
   return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

bool simpler(const std::vector<std::uint64_t>& a, const std::vector<std::uint64_t>& b) {
   if(a.size() != b.size()) return a.size() < b.size();
   return a < b;
}

Outcome shrink(const Check& c, Outcome best, Shared* sh, double budget) {
   double t0 = now();
   int tries = 0;
   auto attempt = [&](const std::vector<std::uint64_t>& t) {
      if(now() - t0 > budget || tries > 4000) return false;
      ++tries;
      Outcome o = trial(c, t, false, sh);
      if(o.failed && simpler(o.tape, best.tape)) {
         best = std::move(o);
         return true;
      }
      return false;
   };
   bool progress = true;
   while(progress && now() - t0 < budget && tries < 4000) {
      progress = false;
      // delete chunks
      for(std::size_t k = std::max<std::size_t>(best.tape.size() / 2, 1); k >= 1; k /= 2) {
         for(std::size_t i = best.tape.size(); i >= k && i > 0;) {
            if(best.tape.size() < i) {
               i = best.tape.size();
               continue;
            }
            std::size_t b = i - k;
            auto t = best.tape;
            t.erase(t.begin() + static_cast<long>(b), t.begin() + static_cast<long>(b + k));
            if(attempt(t)) {
               progress = true;
               if(i > best.tape.size()) i = best.tape.size();
            } else {
               // Deletion with a decrement of an earlier count.
               bool ok = false;
               if(k <= 8) {
                  for(std::size_t d = 1; d <= 3 && b >= d && !ok; ++d) {
                     auto t2 = t;
                     if(t2[b - d] > 0) {
                        --t2[b - d];
                        ok = attempt(t2);
                     }
                  }
               }
               progress = progress || ok;
               if(!ok) --i;
            }
            if(now() - t0 > budget) break;
            if(i < k) break;
         }
         if(k == 1) break;
      }
      // zero / halve / decrement values
      for(std::size_t i = 0; i < best.tape.size(); ++i) {
         if(best.tape[i] == 0) continue;
         auto t = best.tape;
         t[i] = 0;
         if(attempt(t)) {
            progress = true;
            continue;
         }
         // binary search for the smallest failing value
         while(i < best.tape.size() && best.tape[i] > 1) {
            auto t2 = best.tape;
            t2[i] /= 2;
            if(!attempt(t2)) break;
            progress = true;
         }
         if(i < best.tape.size() && best.tape[i] > 0) {
            auto t2 = best.tape;
            --t2[i];
            if(attempt(t2)) progress = true;
         }
         if(now() - t0 > budget) break;
      }
   }
   std::fprintf(stderr, "shrink: %d attempts, tape length %zu\n", tries, best.tape.size());
   return best;
}

std::string json_str(const std::string& s) {
   std::string o = "\"";
   for(unsigned char ch : s) {
      switch(ch) {
         case '"': o += "\\\""; break;
         case '\\': o += "\\\\"; break;
         case '\n': o += "\\n"; break;
         case '\t': o += "\\t"; break;
         default:
            if(ch < 0x20 || ch >= 0x7f) {
               char b[8];
               std::snprintf(b, sizeof b, "\\u%04x", ch);
               o += b;
            } else {
               o += static_cast<char>(ch);
            }
      }
   }
   return o + "\"";
}

const Check* find_check(const std::string& n) {
   for(auto& c : checks())
      if(c.name == n) return &c;
   return nullptr;
}

void write_replay(const std::string& path, const Check& c, const Outcome& o, const std::string& flag) {
   std::ofstream f(path);
   f << "check " << c.name << "\n";
   f << "tape " << o.tape.size();
   for(auto v : o.tape) f << " " << v;
   f << "\n";
   f << "repeat " << flag << "\n";
   f << "--- what failed\n" << o.msg << "\n";
   f << "--- the case\n" << o.notes << "\n";
   if(!o.err.empty()) f << "--- output\n" << o.err << "\n";
}

bool load_replay(const std::string& path, std::string& name, std::vector<std::uint64_t>& tape) {
   std::ifstream f(path);
   std::string w;
   std::size_t n = 0;
   if(!(f >> w >> name) || w != "check") return false;
   if(!(f >> w >> n) || w != "tape") return false;
   tape.resize(n);
   for(auto& v : tape)
      if(!(f >> v)) return false;
   return true;
}

} // namespace

Reg::Reg(const char* name, unsigned weight, Fn fn) {
   checks().push_back({name, weight, fn});
}

std::uint64_t Src::below(std::uint64_t n) {
   std::uint64_t v;
   if(g_replay) {
      v = g_replay_pos < g_replay->size() ? (*g_replay)[g_replay_pos++] : 0;
   } else {
      v = splitmix(g_rng);
      if(n > 0 && n < (1ull << 32)) v >>= 32;
   }
   if(n) v %= n;
   if(g_sh->ntape >= TAPE_MAX) throw Overrun{};
   g_sh->tape[g_sh->ntape] = v;
   g_sh->bound[g_sh->ntape] = n;
   ++g_sh->ntape;
   return v;
}

void Src::label(const char* l) {
   if(g_labels) ++(*g_labels)[l];
}

void Src::note_str(const std::string& str) {
   std::size_t n = std::min<std::size_t>(str.size() + 1, NOTE_MAX - 1 - g_sh->nnote);
   if(n == 0) return;
   std::memcpy(g_sh->note + g_sh->nnote, str.data(), n - 1);
   g_sh->note[g_sh->nnote + n - 1] = '\n';
   g_sh->nnote += static_cast<std::uint32_t>(n);
   g_sh->note[g_sh->nnote] = 0;
}

} // namespace pbt

#ifdef PBT_FUZZ
// Coverage-guided variant: bytes are decoded into choices; the first one selects the check.
namespace {
std::vector<std::uint64_t> decode(const std::uint8_t* d, std::size_t n) {
   std::vector<std::uint64_t> t;
   std::size_t i = 0;
   while(i < n) {
      std::uint64_t v = 0;
      // one byte per choice; 0xff introduces an 8-byte choice.
      if(d[i] == 0xff && i + 8 < n) {
         for(int k = 1; k <= 8; ++k) v = (v << 8) | d[i + static_cast<std::size_t>(k)];
         i += 9;
      } else {
         v = d[i++];
      }
      t.push_back(v);
   }
   return t;
}
} // namespace
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* d, std::size_t n) {
   using namespace pbt;
   static Shared* sh = shared_alloc<Shared>();
   static const char* out = std::getenv("PBT_FUZZ_OUT");
   if(n < 2) return 0;
   const Check& c = checks()[d[0] % checks().size()];
   static std::vector<std::uint64_t> tape;
   tape = decode(d + 1, n - 1);
   if(out) { // remember the case in case it crashes
      static int fd = open((std::string(out) + "/last_case").c_str(), O_CREAT | O_RDWR, 0600);
      std::string s = "check " + c.name + "\ntape " + std::to_string(tape.size());
      for(auto v : tape) s += " " + std::to_string(v);
      s += "\n";
      if(ftruncate(fd, 0) == 0 && pwrite(fd, s.data(), s.size(), 0) < 0) std::perror("pwrite");
   }
   run_case(c, sh, &tape, 0, false);
   if(sh->status == FAILED) {
      std::fprintf(stderr, "PBT FAIL %s: %s\n", c.name.c_str(), sh->msg);
      std::abort();
   }
   return 0;
}
#else

int main(int argc, char** argv) {
   using namespace pbt;
   std::uint64_t seed = 1, cases = 1000;
   unsigned workers = 8;
   std::string replay, out = ".", prop = "X", only, regress;
   double cap = 300, shrink_budget = 40;
   bool list = false;
   for(int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
      if(a == "--seed") seed = std::stoull(val());
      else if(a == "--cases") cases = std::stoull(val());
      else if(a == "--workers") workers = static_cast<unsigned>(std::stoul(val()));
      else if(a == "--cap") cap = std::stod(val());
      else if(a == "--shrink") shrink_budget = std::stod(val());
      else if(a == "--case-cpu") g_case_cpu = std::stod(val());
      else if(a == "--replay") replay = val();
      else if(a == "--regress") regress = val();
      else if(a == "--out") out = val();
      else if(a == "--prop") prop = val();
      else if(a == "--only") only = val();
      else if(a == "--list") list = true;
      else { std::fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
   }
   auto& cs = checks();
   std::sort(cs.begin(), cs.end(), [](const Check& a, const Check& b) { return a.name < b.name; });
   if(!only.empty()) {
      cs.erase(std::remove_if(cs.begin(), cs.end(), [&](const Check& c) { return c.name.find(only) == std::string::npos; }),
               cs.end());
   }
   if(list) {
      for(auto& c : cs) std::printf("%s %u\n", c.name.c_str(), c.weight);
      return 0;
   }
   if(cs.empty()) {
      std::fprintf(stderr, "no checks registered\n");
      return 3;
   }
   char tmpl[] = "/tmp/pbtXXXXXX";
   if(!mkdtemp(tmpl)) return 3;
   g_tmp = tmpl;
   struct Cleanup {
      ~Cleanup() {
         std::remove((g_tmp + "/trial.err").c_str());
         for(int i = 0; i < 64; ++i) {
            std::remove((g_tmp + "/w" + std::to_string(i)).c_str());
            std::remove((g_tmp + "/e" + std::to_string(i)).c_str());
         }
         rmdir(g_tmp.c_str());
      }
   } cleanup;
   Shared* tsh = shared_alloc<Shared>();

   auto report = [&](const Check& c, Outcome o, bool do_shrink) -> int {
      // Confirm.
      int ok = 0;
      for(int i = 0; i < 3; ++i) ok += trial(c, o.tape, false, tsh).failed ? 1 : 0;
      std::string flag = "deterministic";
      if(ok < 3) {
         flag = "nondeterministic";
         for(int i = 0; i < 200 && ok == 0; ++i) ok += trial(c, o.tape, false, tsh).failed ? 1 : 0;
         if(ok == 0) {
            std::fprintf(stderr, "failure of %s did not reproduce: %s\n", c.name.c_str(), o.msg.c_str());
            return 3;
         }
         do_shrink = false;
      }
      if(do_shrink) o = shrink(c, o, tsh, shrink_budget);
      for(int i = 0; i < 200; ++i) {
         Outcome v = trial(c, o.tape, true, tsh);
         if(v.failed) {
            o = v;
            break;
         }
      }
      std::string path = out + "/replay-" + prop + ".txt";
      write_replay(path, c, o, flag);
      std::printf("FAILURE check=%s replay=%s\n%s\n%s\n", c.name.c_str(), path.c_str(), o.msg.c_str(), o.notes.c_str());
      if(!o.err.empty()) std::printf("%s\n", o.err.substr(0, 1500).c_str());
      return 1;
   };

   if(!replay.empty()) {
      std::string name;
      std::vector<std::uint64_t> tape;
      if(!load_replay(replay, name, tape) || !find_check(name)) {
         std::fprintf(stderr, "cannot load replay\n");
         return 3;
      }
      Outcome o = trial(*find_check(name), tape, true, tsh);
      std::printf("%s\n%s\n%s\n%s\n", o.failed ? "FAILS" : "PASSES", o.msg.c_str(),
                  o.failed ? o.notes.c_str() : tsh->note, o.err.c_str());
      return o.failed ? 1 : 0;
   }

   // Regression tapes first.
   std::uint64_t nregress = 0;
   if(!regress.empty()) {
      std::ifstream f(regress);
      std::string line;
      while(std::getline(f, line)) {
         if(line.empty()) continue;
         std::string name;
         std::vector<std::uint64_t> tape;
         if(!load_replay(line, name, tape)) continue;
         const Check* c = find_check(name);
         if(!c) continue;
         ++nregress;
         Outcome o = trial(*c, tape, true, tsh);
         if(o.failed) return report(*c, o, false);
      }
   }

   // Cumulative weights, deterministic assignment of indices to checks.
   std::vector<const Check*> wheel;
   {
      unsigned maxw = 0;
      for(auto& c : cs) maxw = std::max(maxw, c.weight);
      for(unsigned r = 0; r < maxw; ++r)
         for(auto& c : cs)
            if(c.weight > r) wheel.push_back(&c);
   }
   constexpr std::size_t NSET = 1u << 24;
   auto* set = shared_alloc<std::atomic<std::uint64_t>>(NSET);
   auto* nset = shared_alloc<std::atomic<std::uint64_t>>(3); // distinct, nontrivial total, overruns
   auto* stop = shared_alloc<std::atomic<int>>();
   auto* next = shared_alloc<std::atomic<std::uint64_t>>();
   Shared* sh = shared_alloc<Shared>(workers);
   std::vector<pid_t> pid(workers);
   double t0 = now();
   auto rng_of = [&](const Check& c, std::uint64_t i) {
      std::uint64_t x = seed * 0x9e3779b97f4a7c15ull + hash_str(c.name);
      (void)splitmix(x);
      x ^= i * 0xd1342543de82ef95ull;
      (void)splitmix(x);
      return x;
   };
   std::fflush(nullptr);
   for(unsigned w = 0; w < workers; ++w) {
      pid[w] = fork();
      if(pid[w] == 0) {
         int fd = open((g_tmp + "/e" + std::to_string(w)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
         dup2(fd, 2);
         dup2(fd, 1);
         std::signal(SIGPROF, on_timer);
         std::map<const char*, std::uint64_t> labels;
         std::map<std::string, std::uint64_t> per;
         g_labels = &labels;
         int rc = 0;
         for(;;) {
            if(*stop) break;
            std::uint64_t i = (*next)++;
            if(i >= cases) break;
            if(now() - t0 > cap) break;
            const Check& c = *wheel[i % wheel.size()];
            sh[w].cur = i;
            arm(g_case_cpu);
            run_case(c, &sh[w], nullptr, rng_of(c, i), false);
            ++sh[w].done;
            ++per[c.name];
            if(sh[w].status == FAILED) {
               *stop = 1;
               rc = 79;
               break;
            }
            if(sh[w].status == OVERRUN) ++nset[2];
            if(sh[w].nontrivial) {
               ++nset[1];
               std::uint64_t h = hash_str(c.name);
               for(std::uint32_t k = 0; k < sh[w].ntape; ++k) {
                  h ^= sh[w].tape[k] + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
                  h *= 0xff51afd7ed558ccdull;
                  h ^= h >> 33;
               }
               if(h == 0) h = 1;
               for(std::size_t k = h % NSET, tr = 0; tr < 64; k = (k + 1) % NSET, ++tr) {
                  std::uint64_t e = 0;
                  if(set[k].compare_exchange_strong(e, h)) {
                     ++nset[0];
                     break;
                  }
                  if(e == h) break;
               }
            }
         }
         arm(0);
         std::ofstream f(g_tmp + "/w" + std::to_string(w));
         for(auto& [k, v] : per) f << "C " << k << "\t" << v << "\n";
         std::map<std::string, std::uint64_t> m;
         for(auto& [k, v] : labels) m[k] += v;
         for(auto& [k, v] : m) f << "L " << k << "\t" << v << "\n";
         f.close();
         _exit(rc);
      }
   }
   int bad = -1;
   std::uint64_t bad_idx = ~0ull;
   int bad_wst = 0;
   for(unsigned n = 0; n < workers; ++n) {
      int wst = 0;
      pid_t p = wait(&wst);
      unsigned w = static_cast<unsigned>(std::find(pid.begin(), pid.end(), p) - pid.begin());
      if(WIFEXITED(wst) && WEXITSTATUS(wst) == 0) continue;
      *stop = 1;
      if(sh[w].cur < bad_idx) {
         bad_idx = sh[w].cur;
         bad = static_cast<int>(w);
         bad_wst = wst;
      }
   }
   double t1 = now();
   std::map<std::string, std::uint64_t> per, labels;
   for(unsigned w = 0; w < workers; ++w) {
      std::ifstream f(g_tmp + "/w" + std::to_string(w));
      std::string line;
      while(std::getline(f, line)) {
         auto tab = line.rfind('\t');
         (line[0] == 'C' ? per : labels)[line.substr(2, tab - 2)] += std::stoull(line.substr(tab + 1));
      }
   }
   std::uint64_t done = 0;
   for(unsigned w = 0; w < workers; ++w) done += sh[w].done;
   int rc = 0;
   if(bad >= 0) {
      const Check& c = *wheel[bad_idx % wheel.size()];
      Outcome o;
      o.failed = true;
      o.tape.assign(sh[bad].tape, sh[bad].tape + sh[bad].ntape);
      o.msg = WIFEXITED(bad_wst) && WEXITSTATUS(bad_wst) == 79 ? std::string(sh[bad].msg) : describe_exit(bad_wst, &sh[bad]);
      std::fprintf(stderr, "case %llu of %s failed: %s\n", static_cast<unsigned long long>(bad_idx), c.name.c_str(), o.msg.c_str());
      rc = report(c, o, true);
   }
   // Samples: the first non-trivial cases of each check.
   std::vector<std::string> samples;
   if(bad < 0) {
      std::size_t per_check = std::max<std::size_t>(1, 12 / cs.size());
      for(auto& c : cs) {
         if(samples.size() >= 24) break;
         std::size_t got = 0;
         std::uint64_t tried = 0;
         for(std::uint64_t i = done / 2; i < done && tried < 40 && got < per_check; ++i) {
            if(wheel[i % wheel.size()] != &c) continue;
            ++tried;
            // Same generator as in the exploration; run verbosely, in a child for isolation.
            std::fflush(nullptr);
            pid_t p = fork();
            if(p == 0) {
               int fd = open("/dev/null", O_WRONLY);
               dup2(fd, 1);
               dup2(fd, 2);
               run_case(c, tsh, nullptr, rng_of(c, i), true);
               _exit(0);
            }
            int wst;
            waitpid(p, &wst, 0);
            if(tsh->nontrivial && tsh->nnote) {
               std::string t(tsh->note, std::min<std::uint32_t>(tsh->nnote, 700));
               samples.push_back(c.name + ": " + t);
               ++got;
            }
         }
      }
   }
   std::ofstream f(out + "/stats.json");
   f << "{\"evaluations\": " << done << ", \"planned\": " << cases << ", \"distinct_nontrivial\": " << nset[0].load()
     << ", \"nontrivial\": " << nset[1].load() << ", \"overrun\": " << nset[2].load() << ", \"regression_tapes\": " << nregress
     << ", \"explore_s\": " << (t1 - t0) << ", \"per_check\": {";
   bool first = true;
   for(auto& [k, v] : per) {
      f << (first ? "" : ", ") << json_str(k) << ": " << v;
      first = false;
   }
   f << "}, \"labels\": {";
   first = true;
   for(auto& [k, v] : labels) {
      f << (first ? "" : ", ") << json_str(k) << ": " << v;
      first = false;
   }
   f << "}, \"samples\": [";
   first = true;
   for(auto& v : samples) {
      f << (first ? "" : ", ") << json_str(v);
      first = false;
   }
   f << "]}\n";
   f.close();
   std::printf("explored %llu/%llu cases in %.1f s, %llu distinct non-trivial\n", static_cast<unsigned long long>(done),
               static_cast<unsigned long long>(cases), t1 - t0, static_cast<unsigned long long>(nset[0].load()));
   if(rc) return rc;
   if(done < cases / 4) {
      std::fprintf(stderr, "exploration too slow: inconclusive\n");
      return 3;
   }
   return 0;
}
#endif
