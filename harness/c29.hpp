// C29: threads working on their own objects, or only reading shared ones.
#pragma once
#include "c25_prog.hpp"
#include "pbt.hpp"
#include <functional>
#include <string>
#include <vector>

namespace c29 {
// What one thread does: returns everything it observes.
using Job = std::function<std::string()>;
// Jobs that read a shared object; the object lives as long as the maker's result.
struct Shared {
   virtual ~Shared() = default;
   virtual std::string read(int op, long a, long b, double x) const = 0;
   virtual int count() const = 0;
};
Shared* shared_int(const std::vector<double>& init, long n, long m, long k);
Shared* shared_double(const std::vector<double>& init, long n, long m, long k);
Shared* shared_quad(const std::vector<double>& init, long n, long m, long k);
} // namespace c29
