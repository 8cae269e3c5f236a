// C25: programs as plain data, run by the same interpreter compiled in different configurations.
#pragma once
#include <exception>
#include <string>
#include <vector>

namespace c25 {
struct Step {
   int op = 0;
   long a = 0, b = 0, c = 0, d = 0; // small indexes and counts
   double x = 0, y = 0;
   std::vector<long> list;
   std::string text;
};
struct Prog {
   std::vector<double> init; // contents of the arrays
   long n = 0, m = 0, k = 0;
   std::vector<Step> steps;
};
struct Out {
   std::vector<std::string> log;
   std::vector<char> rejected; // 1: by a debug check, 2: by one that is always on
   std::vector<std::string> what; // the message of each rejection by exception
   std::vector<std::exception_ptr> thrown;
};
// mask: steps not to be run (their debug checks reject them)
using Run = Out (*)(const Prog&, const std::vector<char>* mask);
// told about every completed step in the configurations that stream (C30)
void step_done(const std::string& log);
} // namespace c25
