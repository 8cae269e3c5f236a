// C34: classification of generated types by the public concepts and aliases.
#pragma once
#include "sp.hpp"
#include <string>
#include <vector>

namespace c34 {
enum Kind { other, builtin, strict, array };
// What the generator knows about a type.
struct Known {
   const char* text;
   Kind kind = other;
   int dim = 0;      // arrays: dimension
   bool owner = false;
   bool cv = false, ref = false;
   const char* elem = ""; // builtin type
   bool index = false;    // usable as an index (unqualified)
};
struct Answer {
   const char* name;
   bool yes;
};
struct Row {
   Known known;
   std::vector<Answer> answers;
   std::string elem; // what the aliases say: "" for types that have none
};
template <class T>
const char* name_of() {
   if constexpr(std::is_same_v<T, bool>) return "bool";
   else if constexpr(std::is_same_v<T, int>) return "int";
   else if constexpr(std::is_same_v<T, long>) return "long";
   else if constexpr(std::is_same_v<T, unsigned>) return "unsigned";
   else if constexpr(std::is_same_v<T, unsigned long>) return "unsigned long";
   else if constexpr(std::is_same_v<T, float>) return "float";
   else if constexpr(std::is_same_v<T, double>) return "double";
   else if constexpr(std::is_same_v<T, long double>) return "long double";
#ifdef STRICT_QUAD_PRECISION
   else if constexpr(std::is_same_v<T, __float128>) return "f128";
#endif
   else return "?";
}
template <class T>
std::string aliases() {
   if constexpr(requires { typename spp::BuiltinTypeOf<T>; }) {
      using B = spp::BuiltinTypeOf<T>;
      bool ok = std::is_same_v<spp::ValueTypeOf<T>, spp::Strict<B>> && std::is_same_v<spp::SizeTypeOf<T>, spp::index_t>;
      constexpr bool real = requires { typename spp::RealTypeOf<T>; };
      if constexpr(real) ok = ok && std::is_same_v<spp::RealTypeOf<T>, B>;
      return std::string(ok ? "" : "inconsistent ") + name_of<B>() + (real ? " real" : "");
   }
   return "";
}
namespace cc = spp::concepts;
template <class T>
Row row(Known k) {
   return {k,
           {{"Integer", cc::Integer<T>}, {"SignedInteger", cc::SignedInteger<T>}, {"UnsignedInteger", cc::UnsignedInteger<T>}, {"StandardFloating", cc::StandardFloating<T>},
            {"Floating", cc::Floating<T>}, 
#ifdef STRICT_QUAD_PRECISION
            {"Quadruple", cc::Quadruple<T>},
#endif
            {"NotQuadruple", cc::NotQuadruple<T>}, {"Boolean", cc::Boolean<T>}, {"Builtin", cc::Builtin<T>},
            {"Real", cc::Real<T>}, {"StrictBuiltin", cc::StrictBuiltin<T>}, {"AllStrict", cc::AllStrict<T>}, {"AllStrict (pair)", cc::AllStrict<spp::Strict<int>, T>},
            {"AllStrict (pair, first)", cc::AllStrict<T, spp::Strict<double>>}, {"BaseType", cc::BaseType<T>},
            {"BooleanBaseType", cc::BooleanBaseType<T>}, {"FloatingBaseType", cc::FloatingBaseType<T>}, {"IntegerBaseType", cc::IntegerBaseType<T>}, {"RealBaseType", cc::RealBaseType<T>},
            {"SignedIntegerBaseType", cc::SignedIntegerBaseType<T>}, {"OneDimBaseType", cc::OneDimBaseType<T>}, {"OneDimBooleanBaseType", cc::OneDimBooleanBaseType<T>},
            {"OneDimFloatingBaseType", cc::OneDimFloatingBaseType<T>}, {"OneDimIntegerBaseType", cc::OneDimIntegerBaseType<T>}, {"OneDimRealBaseType", cc::OneDimRealBaseType<T>},
            {"OneDimSignedIntegerBaseType", cc::OneDimSignedIntegerBaseType<T>}, {"TwoDimBaseType", cc::TwoDimBaseType<T>}, {"TwoDimBooleanBaseType", cc::TwoDimBooleanBaseType<T>},
            {"TwoDimFloatingBaseType", cc::TwoDimFloatingBaseType<T>}, {"TwoDimIntegerBaseType", cc::TwoDimIntegerBaseType<T>}, {"TwoDimRealBaseType", cc::TwoDimRealBaseType<T>},
            {"TwoDimSignedIntegerBaseType", cc::TwoDimSignedIntegerBaseType<T>}, {"IndexType", cc::IndexType<T>}, {"OneDimOwnerType", cc::OneDimOwnerType<T>}, {"TwoDimOwnerType", cc::TwoDimOwnerType<T>}},
           aliases<T>()};
}
// The definition of every concept in terms of what the generator knows.
inline bool expected(const Known& k, std::string c) {
   std::string e = k.elem;
   bool sint = e == "int" || e == "long", uint = e == "unsigned" || e == "unsigned long", std_float = e == "float" || e == "double" || e == "long double";
   bool flt = std_float || e == "f128", integer = sint || uint, real = integer || flt;
   auto of = [&](const std::string& what) {
      return what == "" || (what == "Boolean" && e == "bool") || (what == "Floating" && flt) || (what == "Integer" && integer) || (what == "Real" && real) || (what == "SignedInteger" && sint);
   };
   if(k.ref) return false;
   if(c.compare(0, 9, "AllStrict") == 0 || c == "StrictBuiltin") return k.kind == strict;
   if(c == "IndexType") return k.index && !k.cv;
   if(c == "OneDimOwnerType") return k.kind == array && k.dim == 1 && k.owner;
   if(c == "TwoDimOwnerType") return k.kind == array && k.dim == 2 && k.owner;
   if(auto p = c.find("BaseType"); p != std::string::npos) {
      if(k.kind != array) return false;
      c.resize(p);
      if(c.compare(0, 6, "OneDim") == 0) return k.dim == 1 && of(c.substr(6));
      if(c.compare(0, 6, "TwoDim") == 0) return k.dim == 2 && of(c.substr(6));
      return of(c);
   }
   if(k.kind != builtin || k.cv) return false;
   if(c == "UnsignedInteger") return uint;
   if(c == "StandardFloating") return std_float;
   if(c == "Quadruple") return e == "f128";
   if(c == "NotQuadruple") return e != "f128";
   if(c == "Builtin") return true;
   return of(c);
}
inline void classify(pbt::Src& s, Row (*const* table)(), long n) {
   Row r = table[s.below(static_cast<std::uint64_t>(n))]();
   const Known& k = r.known;
   s.note("type ", k.text);
   s.label(k.kind == array ? k.owner ? "owning array" : "view or expression" : k.kind == strict ? "scalar" : k.kind == builtin ? "built-in type" : "other type");
   s.label(k.ref ? "reference" : k.cv ? "qualified" : "plain");
   s.nontrivial(k.kind != other);
   for(const auto& a : r.answers) REQ(a.yes == expected(k, a.name), a.name, " is ", a.yes, " for ", k.text);
   std::string want;
   if(k.kind == array) want = std::string(k.elem) + (std::string(k.elem) == "bool" ? "" : " real");
   REQ(r.elem == want, "the element type of ", k.text, " is reported as `", r.elem, "` instead of `", want, "`");
}
} // namespace c34
