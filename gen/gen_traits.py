"""C34: random types - arrays, views and expressions over generated nestings, scalars, built-in and unrelated types, plain, qualified and referenced - with what is known about them."""
import random
import gen_c20

REALS = ["int", "long", "unsigned", "unsigned long", "float", "double", "long double", "f128"]
CPP = {"f128": "__float128"}
OTHER = ["short", "char", "long long", "unsigned char", "unsigned short", "unsigned long long", "std::size_t*", "void*", "std::vector<int>", "std::vector<spp::Strict<int>>", "std::string", "std::nullptr_t",
         "spp::Strict<int>*", "std::pair<int, int>", "int[3]", "spp::Strict<double>[2]", "spp::ImplicitBool", "spp::Array1D<int>*", "std::vector<spp::Array1D<double>>", "spp::seqN", "spp::timer", "pbt::Fail", "signed char", "char32_t",
         "std::complex<double>", "spp::Array1D<int>(int)", "int*"]


QUAD = [True]


def reals():
    return REALS if QUAD[0] else REALS[:-1]


def c(t):
    return CPP.get(t, t)


def known(text, kind, **k):
    f = ['.text = "%s"' % text.replace('"', "'").replace("\\", ""), ".kind = c34::%s" % kind]
    for n in ("dim", "owner", "cv", "ref", "elem", "index"):
        if n in k and k[n]:
            v = k[n]
            f.append(".%s = %s" % (n, '"%s"' % v if n == "elem" else "true" if v is True else v))
    return "{%s}" % ", ".join(f)


def qualify(r, t):
    """(type text, cv, ref)"""
    x = r.random()
    if x < 0.6:
        return t, False, False
    if x < 0.78:
        return "std::add_const_t<%s>" % t, True, False
    if x < 0.82:
        return "std::add_volatile_t<%s>" % t, True, False
    q = r.choice(["%s&", "%s&&", "std::add_const_t<%s>&", "std::add_const_t<%s>&&"])
    if q.startswith("%s"):
        q = q.replace("%s&&", "std::add_rvalue_reference_t<%s>").replace("%s&", "std::add_lvalue_reference_t<%s>")
    return q % t, "const" in q, True


def array_type(r):
    """(declarations, type text, shown text, dim, owner, elem)"""
    t = r.choice(reals() + ["bool"])
    if r.random() < 0.3:  # owning
        al = r.choice(["", ", spp::Aligned", ", spp::Unaligned"])
        ty, dim = r.choice([("spp::Array1D<%s%s>" % (c(t), al), 1), ("spp::Array2D<%s%s>" % (c(t), al), 2), ("spp::FixedArray1D<%s, %d%s>" % (c(t), r.randrange(1, 9), al), 1),
                            ("spp::FixedArray2D<%s, %d, %d%s>" % (c(t), r.randrange(1, 6), r.randrange(1, 6), al), 2)])
        return "", ty, ty, dim, True, t
    b = r.choice(reals())
    g = gen_c20.G(r, "unsigned" if b.startswith("unsigned") else b)
    two = r.random() < 0.4
    sh = (r.randint(1, 4), r.randint(1, 4)) if two else (r.randint(1, 5),)
    d = r.choice([0, 1, 1, 2, 3])
    make = (lambda dd: g.two(sh[0], sh[1], dd)) if two else (lambda dd: g.one(sh[0], dd))
    e, elem = make(d), b
    x = r.random()
    if x < 0.2:
        e, elem = (r.choice(["spp::generate(%s, [](auto v) { return v > spp::Strict<T>{T(1)}; })" % e, "spp::generate(%s, %s, [](auto v, auto w) { return v <= w; })" % (e, make(0))])), "bool"
        if r.random() < 0.4:
            e = "(!%s)" % e
    elif x < 0.4:
        elem = r.choice(reals())
        e = "spp::array_cast<%s>(%s)" % (c(elem), e)
    elif x < 0.5 and b in ("float", "double", "long double", "f128"):
        e = "%s(%s)" % (r.choice(["sin", "exp", "abs"]), e)
    decl = "using T [[maybe_unused]] = %s; using spp::Strict; " % c(b)
    for x in g.decl:
        decl += x.replace(" fill(s, ", " (void)(") + " "
    decl += "[[maybe_unused]] Strict<T> c0{T(1)}, c1{T(1)}, c2{T(2)}; "
    return decl, "decltype(%s)" % e, e, 2 if two else 1, False, elem


def write(path, seed, count, ident):
    r = random.Random(seed)
    out = ['#include "traits.hpp"', "#include <complex>", '#include "c20.hpp"', "namespace %s {" % ident, "// clang-format off"]
    for i in range(count):
        x = r.random()
        decl = ""
        if x < 0.62:
            decl, ty, text, dim, owner, elem = array_type(r)
            k = dict(kind="array", dim=dim, owner=owner, elem=elem)
        elif x < 0.74:
            t = r.choice(reals() + ["bool"])
            ty = text = "spp::Strict<%s>" % c(t)
            k = dict(kind="strict", elem=t, index=t in ("int", "long"))
        elif x < 0.88:
            t = r.choice(reals() + ["bool"])
            ty, text = "%s" % c(t), t
            if " " in ty:
                ty = "std::type_identity_t<%s>" % ty
            k = dict(kind="builtin", elem=t, index=t in ("int", "long"))
        else:
            ty = text = r.choice(OTHER + ["spp::ImplicitInt", "decltype(spp::last)", "decltype(spp::last - 1)"] * 2)
            k = dict(kind="other", index=text in ("spp::ImplicitInt", "decltype(spp::last)", "decltype(spp::last - 1)"))
            if text.startswith("decltype"):
                ty = "std::remove_cv_t<%s>" % text
            elif "[" in text or "(" in text:
                ty = "std::type_identity_t<%s>" % text
        ty, cv, ref = qualify(r, ty)
        if "volatile" in ty and k["kind"] in ("array", "strict"):
            ty, cv, ref = ty.replace("add_volatile", "add_const"), True, False
        how = " (const)" if cv and not ref else " (reference)" if ref else ""
        out.append("static c34::Row r%d() { %susing Q = %s; return c34::row<Q>(%s); }" % (i, decl, ty, known(text + how, k.pop("kind"), cv=cv, ref=ref, **k)))
    out.append("static c34::Row (*const table[])() = {%s};" % ", ".join("r%d" % i for i in range(count)))
    out.append("PROP(types_%s, 1) { c34::classify(s, table, %d); }" % (ident, count))
    out.append("} // namespace")
    open(path, "w").write("\n".join(out) + "\n")
