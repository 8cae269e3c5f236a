#define STRICT_ERROR_EXCEPTIONS
#define STRICT_REMOVE_NODISCARD
#define STRICT_QUAD_PRECISION
#include <strictpp/strict.hpp>
#include "c30_shim.hpp"
namespace c30 {
using namespace spp;
template <class F>
std::string what(F f) {
   try {
      f();
   } catch(const StrictException& e) {
      StrictException copy(e);
      std::string a = e.what();
      REQ(a == copy.what(), "a copy of the exception says something else");
      return a;
   }
   pbt::fail("accepted");
}
template <class T>
std::pair<std::string, std::string> ints(pbt::Src& s) {
   Strict<T> x{static_cast<T>(s.range(0, 100))}, z{}, neg{static_cast<T>(-s.range(1, 100))}, y{static_cast<T>(s.range(0, 5))};
   constexpr bool narrow = sizeof(T) < sizeof(int);
   Array1D<T> a(s.range(1, 4));
   a = x;
   switch(s.below(narrow ? 2 : 10)) {
      case 0: return {"INTEGER DIVISION BY 0!", what([&] { auto r = x; r /= z; })};
      case 1: return {"MODULO DIVISION BY 0!", what([&] { auto r = x; r %= z; })};
      case 2: return {"INTEGER DIVISION BY 0!", what([&] { auto r = x / z; })};
      case 3: return {"MODULO DIVISION BY 0!", what([&] { auto r = x % z; })};
      case 4: return {"FIRST SHIFT OPERAND HAS A NEGATIVE VALUE!", what([&] { auto r = neg; s.coin() ? void(r << y) : void(r <<= y); })};
      case 5: return {"FIRST SHIFT OPERAND HAS A NEGATIVE VALUE!", what([&] { auto r = neg; s.coin() ? void(r >> y) : void(r >>= y); })};
      case 6: return {"SECOND SHIFT OPERAND HAS A NEGATIVE VALUE!", what([&] { auto r = x; s.coin() ? void(r << neg) : void(r <<= neg); })};
      case 7: return {"SECOND SHIFT OPERAND HAS A NEGATIVE VALUE!", what([&] { auto r = x; s.coin() ? void(r >> neg) : void(r >>= neg); })};
      case 8: return {"INTEGER DIVISION BY 0!", what([&] { s.coin() ? void(a /= z) : void((a / z).eval()); })};
      default: return {"MODULO DIVISION BY 0!", what([&] { s.coin() ? void(a %= z) : void((a % z).eval()); })};
   }
}
template <class T>
std::pair<std::string, std::string> ranges(pbt::Src& s) {
   long n = s.range(0, 4), m = s.range(1, 3), k = s.range(1, 3);
   Array1D<T> a(n);
   const Array1D<T>& c = a;
   Array2D<T> w(m, k);
   FixedArray1D<T, 3> f;
   FixedArray2D<T, 2, 2> g;
   long i = s.coin() ? n + s.range(0, 3) : -s.range(1, 3), r = s.coin() ? m + s.range(0, 3) : -s.range(1, 3);
   long j = s.range(0, k - 1), i3 = s.coin() ? 3 + s.range(0, 3) : -s.range(1, 3);
   std::string R = "OUT OF RANGE!";
   switch(s.below(16)) {
      case 0: return {R, what([&] { a[i]; })};
      case 1: return {R, what([&] { c[i]; })};
      case 2: return {R, what([&] { a.at(i); })};
      case 3: return {R, what([&] { c.at(i); })};
      case 4: return {R, what([&] { w(r, j); })};
      case 5: return {R, what([&] { w.at(r, j); })};
      case 6: return {R, what([&] { f[i3]; })};
      case 7: return {R, what([&] { f.at(i3); })};
      case 8: return {R, what([&] { g(i3, 0); })};
      case 9: return {R, what([&] { g.at(0, i3); })};
      case 10: return {R, what([&] { a(place::reverse)[i]; })};
      case 11: return {R, what([&] { (a + a)[i]; })};
      case 12: return {R, what([&] { *a.end(); })};
      case 13: return {R, what([&] { a.begin()[i]; })};
      case 14: return {R, what([&] { *w.cend(); })};
      default: return {R, what([&] { *(a.crbegin() - 1); })};
   }
}
std::pair<std::string, std::string> violate(pbt::Src& s) {
   switch(s.below(6)) {
      case 0: return ints<int>(s);
      case 1: return ints<long>(s);
      case 2: return ints<index_t::value_type>(s);
      case 3: return ranges<double>(s);
      case 4: return ranges<int>(s);
      default: return ranges<unsigned>(s);
   }
}
} // namespace c30
