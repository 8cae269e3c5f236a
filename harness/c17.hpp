// C17: text output reads back; malformed text is rejected whole.
#pragma once
#include "objs.hpp"
#include <cerrno>
#include <fstream>
#include <iostream>
#include <optional>
#include <sstream>
#include <streambuf>
#include <filesystem>
#include <unistd.h>
#include <cstdlib>

namespace tx {
using namespace o;

struct Restore { // global formatting state of the library
   ~Restore() {
      spp::format.reset();
      spp::array_format.reset();
   }
};

struct Dir {
   std::string path;
   Dir() {
      char b[] = "/tmp/verif_c17_XXXXXX";
      path = mkdtemp(b);
   }
   ~Dir() {
      std::error_code ec;
      std::filesystem::remove_all(path, ec);
   }
};
inline const std::string& dir() {
   static Dir d;
   return d.path;
}

struct Cout { // captures standard output
   std::ostringstream o;
   std::streambuf* old = std::cout.rdbuf(o.rdbuf());
   ~Cout() {
      std::cout.rdbuf(old);
   }
};

// A stream whose source fails (throws) when byte `at` is requested.
struct Faulty : std::streambuf {
   std::string t;
   std::size_t at, pos = 0;
   char c = 0;
   Faulty(std::string t_, std::size_t a) : t{std::move(t_)}, at{a} {
   }
   int_type underflow() override {
      if(pos == at) throw std::runtime_error("read error");
      if(pos == t.size()) return traits_type::eof();
      c = t[pos++];
      setg(&c, &c, &c + 1);
      return traits_type::to_int_type(c);
   }
};

inline std::string quote(const std::string& t) {
   std::string r = "\"";
   for(char ch : t) {
      if(ch == '\n') r += "\\n";
      else if(ch >= 32 && ch < 127) r += ch;
      else {
         char b[8];
         std::snprintf(b, sizeof b, "\\x%02x", static_cast<unsigned char>(ch));
         r += b;
      }
   }
   return r + "\"";
}

template <class T>
constexpr int enough = 0;
template <>
constexpr int enough<float> = 9;
template <>
constexpr int enough<double> = 17;
template <>
constexpr int enough<long double> = 21;
template <>
constexpr int enough<f128> = 36;

// Chooses an output format with enough digits and says how large exponents may be.
template <class T>
int setup_format(pbt::Src& s) {
   int emax = 0;
   if constexpr(is_fp<T>) {
      bool sci = !s.chance(1, 3);
      if constexpr(is_quad<T>)
         if(!sci && s.coin()) sci = true;
      int extra = static_cast<int>(s.below(6));
      int p = sci ? enough<T> - 1 + extra : enough<T> + 10 + extra;
      emax = sci ? fpinfo<T>::max_exp - 2 : 20;
      if(s.coin()) {
         spp::format.precision(p);
      } else if constexpr(std::is_same_v<T, float>) {
         spp::format.precision(2).precision_float(p);
      } else if constexpr(std::is_same_v<T, double>) {
         spp::format.precision(2).precision_double(p);
      } else if constexpr(std::is_same_v<T, long double>) {
         spp::format.precision(2).precision_long_double(p);
      } else {
         spp::format.precision(2).precision_quad(p);
      }
      if(std::is_same_v<T, double> && s.chance(1, 4) && sci) spp::format.reset(); // default is enough for double
      spp::format.scientific(sci);
      s.note(sci ? "scientific" : "fixed", " precision ", p);
   }
   return emax;
}

template <class T>
T tval(pbt::Src& s, int emax) {
   if constexpr(is_fp<T>) {
      if(emax > 20) {
         T v = any<T>(s);
         if constexpr(!is_quad<T>)
            if(!fpinfo<T>::isfinite(v)) v = T(1);
         return v;
      }
      return s.chance(1, 8) ? T(-0.0) : finite<T>(s, emax);
   } else {
      return any<T>(s);
   }
}

// ---- reference reader: what the standard stream (strtoflt128 for float128) says about the text ----
template <class T>
std::optional<std::vector<T>> parse(const std::string& t) {
   std::istringstream is{t};
   std::vector<T> r;
   if constexpr(is_quad<T>) {
      for(std::string w; is >> w;) {
         char* e;
         errno = 0;
         T x = strtoflt128(w.c_str(), &e);
         if(e != w.c_str() + w.size() || (errno == ERANGE && isinfq(x))) return {};
         r.push_back(x);
      }
   } else if constexpr(is_bool<T>) {
      for(;;) {
         is >> std::ws;
         if(is.eof()) break;
         auto at = static_cast<std::size_t>(is.tellg());
         bool v;
         if(t.compare(at, 4, "true") == 0) v = true, is.ignore(4);
         else if(t.compare(at, 5, "false") == 0) v = false, is.ignore(5);
         else if(!(is >> v)) return {};
         r.push_back(v);
      }
   } else {
      for(;;) {
         is >> std::ws;
         if(is.eof()) break;
         T x;
         if(!(is >> x)) return {};
         r.push_back(x);
      }
   }
   return r;
}
struct Unclaimed {};
inline bool blank(const std::string& l) {
   return l.find_first_not_of(" \t\r\v\f") == std::string::npos;
}
// Throws Unclaimed for text whose meaning is not claimed: whitespace-only lines between or after rows.
template <class T>
std::optional<Mat<T>> parse2(const std::string& t) {
   Mat<T> r(0, 0);
   std::istringstream is{t};
   for(std::string l; std::getline(is, l);) {
      if(l.empty()) continue;
      if(blank(l)) {
         if(r.m) throw Unclaimed{};
         continue;
      }
      auto v = parse<T>(l);
      if(!v) return {};
      long n = static_cast<long>(v->size());
      if(r.m && n != r.n) return {};
      r.n = n;
      ++r.m;
      r.v.insert(r.v.end(), v->begin(), v->end());
   }
   return r;
}

template <class A>
A prefilled1(pbt::Src& s) {
   using T = spp::BuiltinTypeOf<A>;
   A B(s.range(0, 3));
   for(long i = 0; i < B.size().val(); ++i) B.un(i) = mk(small<T>(s));
   return B;
}
template <class A>
A prefilled2(pbt::Src& s) {
   using T = spp::BuiltinTypeOf<A>;
   auto [m, n] = shape(s, 2);
   A B(m, n);
   for(long i = 0; i < B.size().val(); ++i) B.un(i) = mk(small<T>(s));
   return B;
}

inline std::string write_file(const std::string& t) {
   std::string p = dir() + "/in.txt";
   std::ofstream{p, std::ios::binary} << t;
   return p;
}
inline std::string slurp(const std::string& p) {
   std::ifstream f{p, std::ios::binary};
   std::ostringstream o;
   o << f.rdbuf();
   return o.str();
}

template <class A>
void check_same(const A& a, const std::vector<spp::BuiltinTypeOf<A>>& v, const std::string& t) {
   REQ(same(vals1(a), v), "read ", str(vals1(a)), " from ", quote(t), ", expected ", str(v));
}
template <class A>
void check_same(const A& a, const Mat<spp::BuiltinTypeOf<A>>& v, const std::string& t) {
   REQ(same(vals2(a), v), "read ", str(vals2(a)), " from ", quote(t), ", expected ", str(v));
}
template <class A>
auto values(const A& a) {
   if constexpr(spp::OneDimBaseType<A>) return vals1(a);
   else return vals2(a);
}

// Reads text t into an array that already has contents and compares with what the reference reader says.
template <class A, class V>
void reads(pbt::Src& s, A B, const std::string& t, const std::optional<V>& want) {
   auto before = values(B);
   s.note("text ", quote(t), want ? "" : " (malformed)");
   int how = static_cast<int>(s.below(6));
   bool rej;
   if(how == 0) {
      auto p = write_file(t);
      rej = rejected([&] { spp::read_from_file(p, B); });
   } else if(how == 1 && s.coin()) { // the source fails before the end
      Faulty fb(t, s.below(t.size() + 1));
      std::istream is(&fb);
      s.label("read error injected");
      s.note("read error at byte ", fb.at);
      s.nontrivial();
      bool failed = false;
      try {
         is >> B;
      } catch(const std::exception&) {
         failed = true;
      }
      REQ(failed, "a read error at byte ", fb.at, " went unnoticed, read ", str(values(B)));
      check_same(B, before, t);
      return;
   } else if(how == 1) { // byte by byte
      Faulty fb(t, t.size() + 1);
      std::istream is(&fb);
      rej = rejected([&] { is >> B; });
   } else {
      std::istringstream is{t};
      rej = rejected([&] { is >> B; });
      if(!rej) REQ(is.good(), "the stream is not usable after a successful read");
   }
   if(!want) {
      s.label("malformed");
      s.nontrivial();
      REQ(rej, "malformed text accepted, read ", str(values(B)));
      check_same(B, before, t);
   } else {
      REQ(!rej, "well-formed text rejected: ", quote(t));
      check_same(B, *want, t);
   }
   B.resize_and_assign(B); // still a usable array
   if(!rej) check_same(B, *want, t);
}

template <class T>
void style(pbt::Src& s, bool& row) {
   row = s.chance(1, 3);
   if(row) spp::array_format.row_style();
   else if(s.coin()) spp::array_format.col_style();
}

// Text of an object in one of the ways the library offers.
template <class A>
std::string text_of(pbt::Src& s, const A& a) {
   std::string name = s.pick({"", "A", "some name"});
   switch(s.below(5)) {
      case 0: {
         std::string p = dir() + "/out.txt";
         spp::print_to_file(p, a, name);
         auto t = slurp(p);
         std::string head = name.empty() ? "" : name + ":\n";
         REQ(t.compare(0, head.size(), head) == 0, "file does not start with the name: ", quote(t));
         return t.substr(head.size());
      }
      case 1: {
         Cout c;
         bool n = s.coin();
         if(n) spp::printn(a, name);
         else spp::print(a, name);
         auto t = c.o.str();
         std::string head = name.empty() ? "" : name + ":\n";
         REQ(t.compare(0, head.size(), head) == 0, "output does not start with the name: ", quote(t));
         return t.substr(head.size());
      }
      case 2: {
         Cout c;
         if(s.coin()) spp::print(a);
         else spp::printn(a);
         return c.o.str();
      }
      default: {
         std::ostringstream o;
         o << a;
         return o.str();
      }
   }
}

template <class T>
void detailed1(pbt::Src& s, const std::string& t, const std::vector<T>& v, bool row) {
   // Entries "[i] = value", numbered from 0.
   s.label("detailed");
   if(v.empty()) {
      REQ(t.find("[]") == 0, "empty array printed as ", quote(t));
      return;
   }
   std::string flat = t;
   std::size_t at = 0;
   for(std::size_t i = 0; i < v.size(); ++i) {
      std::string h = "[" + std::to_string(i) + "] =";
      REQ(flat.compare(at, h.size(), h) == 0, "entry ", i, " missing in ", quote(t));
      at += h.size();
      auto e = flat.find('[', at);
      if(e == std::string::npos) e = flat.size();
      auto x = parse<T>(flat.substr(at, e - at));
      REQ(x && x->size() == 1 && same(static_cast<T>((*x)[0]), static_cast<T>(v[i])), "entry ", i, " is ", quote(flat.substr(at, e - at)), ", expected ", str(static_cast<T>(v[i])));
      bool nl = flat.substr(at, e - at).find('\n') != std::string::npos;
      REQ(nl == (!row || i + 1 == v.size()), "line break after entry ", i, " in ", quote(t));
      at = e;
   }
}
template <class T>
void detailed2(const std::string& t, const Mat<T>& v) {
   if(v.m == 0) {
      REQ(t.find("[]") == 0, "empty array printed as ", quote(t));
      return;
   }
   std::size_t at = 0;
   for(long i = 0; i < v.m; ++i)
      for(long j = 0; j < v.n; ++j) {
         std::string h = "[" + std::to_string(i) + ", " + std::to_string(j) + "] =";
         REQ(t.compare(at, h.size(), h) == 0, "entry ", i, ",", j, " missing in ", quote(t));
         at += h.size();
         auto e = t.find('[', at);
         if(e == std::string::npos) e = t.size();
         auto x = parse<T>(t.substr(at, e - at));
         REQ(x && x->size() == 1 && same(static_cast<T>((*x)[0]), v.get(i, j)), "entry ", i, ",", j, " is ", quote(t.substr(at, e - at)), ", expected ", str(v.get(i, j)));
         at = e;
      }
}

template <class T, class A>
void round1(pbt::Src& s, A& a, const std::vector<T>& v) {
   bool row;
   style<T>(s, row);
   s.nontrivial(v.size() > 1);
   if(s.chance(1, 6)) {
      spp::array_format.detailed(true);
      std::ostringstream o;
      o << a;
      return detailed1<T>(s, o.str(), v, row);
   }
   auto t = text_of(s, a);
   if(!s.chance(1, 3)) {
      if(s.coin()) reads(s, prefilled1<spp::Array1D<T>>(s), t, std::optional{v});
      else reads(s, prefilled1<spp::Array1D<T, spp::Aligned>>(s), t, std::optional{v});
   } else { // as a matrix: a row or a column
      long n = static_cast<long>(v.size());
      Mat<T> m(n == 0 ? 0 : row ? 1 : n, n == 0 ? 0 : row ? n : 1);
      m.v = v;
      if(s.coin()) reads(s, prefilled2<spp::Array2D<T>>(s), t, std::optional{m});
      else reads(s, prefilled2<spp::Array2D<T, spp::Aligned>>(s), t, std::optional{m});
   }
}
template <class T, class A>
void round2(pbt::Src& s, A& a, const Mat<T>& v) {
   s.nontrivial(v.v.size() > 1);
   if(s.chance(1, 6)) {
      spp::array_format.detailed(true);
      std::ostringstream o;
      o << a;
      return detailed2<T>(o.str(), v);
   }
   auto t = text_of(s, a);
   if(s.chance(1, 4)) reads(s, prefilled1<spp::Array1D<T>>(s), t, std::optional{v.v});
   else if(s.coin()) reads(s, prefilled2<spp::Array2D<T>>(s), t, std::optional{v});
   else reads(s, prefilled2<spp::Array2D<T, spp::Aligned>>(s), t, std::optional{v});
}

template <bool Full, class T>
void rt1(pbt::Src& s) {
   Restore r;
   int emax = setup_format<T>(s);
   auto gen = [emax](pbt::Src& q) { return tval<T>(q, emax); };
   long mx = s.chance(1, 8) ? 40 : 6;
   if constexpr(Full) {
      any1<T>(s, mx, gen, [&](auto&& A, auto& in) {
         s.note(in.kind, " ", str(in.v));
         round1<T>(s, A, in.v);
      });
   } else {
      auto v = seqv<T>(s, s.range(0, mx), gen);
      spp::Array1D<T> A(static_cast<long>(v.size()));
      fill(A, v);
      s.note(str(v));
      if(s.coin()) return round1<T>(s, A, v);
      std::reverse(v.begin(), v.end());
      auto R = A(spp::place::reverse);
      round1<T>(s, R, v);
   }
}
template <bool Full, class T>
void rt2(pbt::Src& s) {
   Restore r;
   int emax = setup_format<T>(s);
   auto gen = [emax](pbt::Src& q) { return tval<T>(q, emax); };
   long mx = s.chance(1, 6) ? 11 : 3;
   if constexpr(Full) {
      any2<T>(s, mx, gen, [&](auto&& A, auto& in) {
         s.note(in.kind, " ", str(in.v));
         round2<T>(s, A, in.v);
      });
   } else {
      auto [m, n] = shape(s, mx);
      Mat<T> v(m, n);
      v.v = seqv<T>(s, m * n, gen);
      spp::Array2D<T> A(m, n);
      fill(A, v.v);
      s.note(str(v));
      round2<T>(s, A, v);
   }
}

template <class T>
std::string number(pbt::Src& s) {
   std::ostringstream o;
   if constexpr(is_fp<T>) {
      static const std::vector<const char*> l = {"0",    "-0",   "+1.5", ".5",    "1.",    "1e3",    "1E-3",   "-2.25e+2", "1e-5000", "0x1p3", "123456789012345678901234567890",
                                                 "1e30", "3e38", "1e308", "4e-46", "5e-324", "1.7e308", "1e4931"};
      if(s.coin()) return l[s.below(l.size())];
      o.precision(s.coin() ? 3 : 40);
      if(s.coin()) o << std::showpos;
      if constexpr(is_quad<T>) return g::str(tval<T>(s, fpinfo<T>::max_exp));
      else o << tval<T>(s, fpinfo<T>::max_exp);
      return o.str();
   } else if constexpr(is_bool<T>) {
      return s.pick({"0", "1", "true", "false", "+1", "-0", "00", "01"});
   } else {
      if(s.coin()) o << std::showpos;
      o << any<T>(s);
      return o.str();
   }
}
inline std::string bad(pbt::Src& s) {
   static const std::vector<const char*> l = {"x", "-", "+", ".", "e", "1e", "1e+", "--1", "+-1", "1x", "0x", "0xg", "1,2", "1;", "nan", "inf", "+inf", "-NAN", "infinity", "tru", "truee", "True", "fals", "2", "1e99999", "-1e99999",
                                              "99999999999999999999999999", "-99999999999999999999999999", "2147483648", "-2147483649", "9223372036854775808", "-9223372036854775809", "18446744073709551616", "4294967296", "1.5.5", "1-2",
                                              "1_000", "'1'", "[0] = 1", "#", "1e400", "4e38", "0.1f", "1u", "1l", "\xff", "1\xc2\xa0" "2", "[]"};
   if(s.chance(1, 10)) return std::string("1\0" "2", 3);
   if(s.chance(1, 10)) return std::string("\0", 1);
   return l[s.below(l.size())];
}
template <class T>
std::string text(pbt::Src& s, bool two) {
   std::string t;
   if(s.chance(1, 5)) { // any bytes out of a small alphabet
      static const char al_[] = "0123456789 \n+-.eExnafitrus\t\r,\0\v\f";
      static const std::string al(al_, sizeof al_ - 1);
      long n = s.range(0, 12);
      for(long i = 0; i < n; ++i) t += s.chance(1, 40) ? static_cast<char>(s.below(256)) : al[s.below(al.size())];
      return t;
   }
   long m = s.chance(1, 8) ? s.range(0, 18) : s.range(0, 4), n = s.chance(1, 8) ? s.range(1, 18) : s.range(1, 3);
   long odd = s.chance(1, 2) ? s.range(0, m * n - 1 < 0 ? 0 : m * n - 1) : -1;
   int kind = static_cast<int>(s.below(4));
   static const std::vector<const char*> sep = {" ", "  ", "\t", " \t "}, nl = {"\n", "\r\n", " \n", "\n\n"};
   if(s.chance(1, 5)) t += s.pick({"\n", " ", " \n", "\n\n \n", "\t"});
   for(long i = 0; i < m; ++i) {
      for(long j = 0; j < n; ++j) {
         bool here = odd == i * n + j;
         if(here && kind == 0 && two) { // ragged
            if(s.coin()) continue;
            t += number<T>(s) + " ";
         }
         if(here && kind == 1) t += s.pick({"\n", " \n", "\n\n", " "});
         if(j) t += sep[s.below(sep.size())];
         t += here && kind >= 2 ? bad(s) : number<T>(s);
      }
      if(i + 1 < m || !s.chance(1, 4)) t += nl[s.chance(1, 3) ? s.below(nl.size()) : 0];
   }
   if(odd >= 0 && s.chance(1, 6) && !t.empty()) t.resize(s.below(t.size())); // truncated
   return t;
}

template <class T>
void mal1(pbt::Src& s) {
   auto t = text<T>(s, false);
   auto w = parse<T>(t);
   s.nontrivial(w && w->size() > 1);
   if(s.coin()) reads(s, prefilled1<spp::Array1D<T>>(s), t, w);
   else reads(s, prefilled1<spp::Array1D<T, spp::Aligned>>(s), t, w);
}
template <class T>
void mal2(pbt::Src& s) {
   auto t = text<T>(s, true);
   std::optional<Mat<T>> w;
   try {
      w = parse2<T>(t);
   } catch(Unclaimed) {
      return;
   }
   s.nontrivial(w && w->v.size() > 1);
   if(s.coin()) reads(s, prefilled2<spp::Array2D<T>>(s), t, w);
   else reads(s, prefilled2<spp::Array2D<T, spp::Aligned>>(s), t, w);
}

// Scalars.
template <class T>
void scalar(pbt::Src& s) {
   Restore r;
   int emax = setup_format<T>(s);
   if(s.coin()) {
      T v = tval<T>(s, emax);
      s.note("value ", str(v));
      s.nontrivial();
      std::string t;
      switch(s.below(4)) {
         case 0: {
            Cout c;
            spp::print(mk(v), "name");
            t = c.o.str();
            REQ(t.compare(0, 6, "name:\n") == 0, "output is ", quote(t));
            t.erase(0, 6);
            break;
         }
         case 1: {
            Cout c;
            if(s.coin()) spp::print(mk(v));
            else spp::printn(mk(v));
            t = c.o.str();
            break;
         }
         case 2: {
            std::ostringstream o;
            o << mk(v) << ' ' << mk(v);
            t = o.str();
            break;
         }
         default: {
            std::ostringstream o;
            o << mk(v);
            t = o.str();
         }
      }
      std::istringstream is{t};
      auto x = mk(small<T>(s));
      is >> x;
      REQ(same(x, v), "read ", str(x), " from ", quote(t), ", written ", str(v));
   } else {
      std::string t = s.chance(1, 8) ? "" : s.coin() ? number<T>(s) : bad(s);
      if(s.chance(1, 5)) t = " " + t;
      if(s.chance(1, 3)) t += s.pick({" ", "\n", " 1", "\t"});
      auto tok = t;
      // What the standard stream makes of the first number.
      std::optional<T> w;
      if constexpr(is_quad<T>) {
         std::istringstream is{t};
         std::string k;
         if(is >> k) {
            auto v = parse<T>(k);
            if(v && v->size() == 1) w = (*v)[0];
         }
      } else if constexpr(is_bool<T>) {
         auto at = t.find_first_not_of(" ");
         if(at != std::string::npos) {
            std::istringstream is{t};
            bool v;
            if(t.compare(at, 4, "true") == 0) w = true;
            else if(t.compare(at, 5, "false") == 0) w = false;
            else if(is >> v) w = v;
         }
      } else {
         std::istringstream is{t};
         T v;
         if(is >> v) w = v;
      }
      s.note("text ", quote(t), w ? "" : " (malformed)");
      s.nontrivial(!w);
      std::istringstream is{t};
      T b = small<T>(s);
      auto x = mk(b);
      bool rej = rejected([&] { is >> x; });
      REQ(rej == !w.has_value(), rej ? "well-formed text rejected" : "malformed text accepted: ", quote(t), ", read ", str(x));
      REQ(same(x, w ? *w : b), "value is ", str(x));
      if constexpr(is_quad<T>) {
         std::istringstream is2{t};
         T y = b;
         using spp::operator>>;
         rej = rejected([&] { is2 >> y; });
         REQ(rej == !w.has_value(), rej ? "well-formed text rejected" : "malformed text accepted: ", quote(t));
         if(w) REQ(same(y, *w), "value is ", str(y));
      }
   }
}

inline void files(pbt::Src& s) {
   s.nontrivial();
   spp::Array1D<double> A{mk(1.), mk(2.)};
   spp::Array2D<int> B(1, 2);
   B = mk(3);
   std::string p = dir() + s.pick({"/nothing.txt", "/no/such/dir", "/a\nb", ""});
   s.note("path ", p);
   bool isdir = p == dir();
   auto fails = [&](auto f) {
      try {
         f();
      } catch(const spp::StrictException&) {
         return true;
      } catch(const std::exception&) {
         return isdir;
      }
      return false;
   };
   REQ(fails([&] { spp::read_from_file(p, A); }), "reading 1D from ", p);
   REQ(fails([&] { spp::read_from_file(p, B); }), "reading 2D from ", p);
   REQ(same(vals1(A), std::vector<double>{1, 2}) && B.size().val() == 2 && B(0, 1).val() == 3, "array changed by a failed read");
   if(p.find("no/") != std::string::npos || isdir) {
      REQ(fails([&] { spp::print_to_file(p, A); }), "writing 1D to ", p);
      REQ(fails([&] { spp::print_to_file(p, B, "B"); }), "writing 2D to ", p);
   }
   std::ostringstream o;
   o << il({3, -1, 7});
   std::istringstream li{o.str()};
   long i0, i1, i2;
   li >> i0 >> i1 >> i2;
   REQ(li && (li >> std::ws).eof() && i0 == 3 && i1 == -1 && i2 == 7, "list of indexes is ", quote(o.str()));
   Cout c;
   spp::array_format.reset();
   spp::print(A, B, A(spp::place::reverse));
   auto w = parse<double>(c.o.str());
   REQ(w && same(*w, std::vector<double>{1, 2, 3, 3, 2, 1}), "several arrays print as ", quote(c.o.str()));
}
} // namespace tx
