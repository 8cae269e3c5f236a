"""Calls with named and with positional arguments (C37): run-time comparison and programs judged by the compiler."""
import random

T = ["int", "long", "double", "float", "unsigned", "unsigned long", "__float128", "long double", "bool"]
REAL = [t for t in T if t != "bool"]
FLT = ["double", "float", "__float128", "long double"]
SEMI = ["int", "long", "unsigned", "unsigned long", "float", "double", "long double"]
QSEMI = SEMI

# (call with {i} for the arguments, arguments (name, kind), element types, statement applied before reading or None)
# kinds: n index, d index that may be negative, x element value, u seed (always named), b switch (never named)
N, X = "n", "x"
API = []


def api(call, slots, types=T, opt=0):
    API.append((call, slots, types, opt))


S, C, P, V = ("Size", "n"), ("Count", "n"), ("Pos", "n"), ("Value", "x")
RW, CL = ("Rows", "n"), ("Cols", "n")
LO, HI, SD = ("Low", "x"), ("High", "x"), ("Seed", "u")
for AF in ("", ", spp::Aligned"):
    api("auto r = spp::Array1D<%" + AF + ">({0}); show(r);", [S])
    api("auto r = spp::Array1D<%" + AF + ">({0}, {1}); show(r);", [S, V])
    api("auto r = spp::Array2D<%" + AF + ">({0}, {1}); show(r);", [RW, CL])
    api("auto r = spp::Array2D<%" + AF + ">({0}, {1}, {2}); show(r);", [RW, CL, V])
    api("spp::FixedArray1D<%, 5" + AF + "> r({0}); show(r);", [V])
    api("spp::FixedArray2D<%, 2, 3" + AF + "> r({0}); show(r);", [V])
for f in ("remove({0})",):
    api("A.%s; show(A);" % f, [P])
api("A.remove({0}, {1}); show(A);", [P, C])
api("A.remove_front({0}); show(A);", [C])
api("A.remove_back({0}); show(A);", [C])
api("A.insert({0}, {1}); show(A);", [P, V])
api("A.insert_front({0}); show(A);", [V])
api("A.insert_back({0}); show(A);", [V])
api("A.insert({0}, A); show(A);", [P])
api("A.insert({0}, B.row(1)); show(A);", [P])
for k in ("rows", "cols"):
    api("B.remove_%s({0}, {1}); show(B);" % k, [P, C])
    api("B.remove_%s({0}); show(B);" % k[:3], [P])
    api("B.remove_%s_front({0}); show(B);" % k, [C])
    api("B.remove_%s_back({0}); show(B);" % k, [C])
    api("auto D = B; B.insert_%s({0}, D); show(B);" % k, [P])
api("auto v = B.row(0).eval(); B.insert_row({0}, v); show(B);", [P])
api("auto v = B.col(0).eval(); B.insert_col({0}, v); show(B);", [P])
api("A.resize({0}, {1}); show(A);", [(None, "n"), (None, "b")])
api("B.resize({0}, {1}, {2}); show(B);", [(None, "n"), (None, "n"), (None, "b")])
api("show(spp::exclude(A, {0}, {1}));", [P, C])
api("show(spp::exclude(A, {0}));", [P])
api("show(spp::sequence<%>({0}));", [S], REAL)
api("show(spp::sequence<%>({0}, {1}));", [S, ("Start", "x")], REAL)
api("show(spp::sequence<%>({0}, {1}, {2}));", [S, ("Start", "x"), ("Incr", "x")], REAL)
api("show(spp::linspace<%>({0}, {1}, {2}));", [S, ("Start", "x"), ("End", "x")], FLT)
api("show(spp::e_unit<%>({0}, {1}));", [("Index", "n"), S], REAL)
api("show(spp::const1D<%>({0}, {1}));", [S, V])
api("show(spp::const2D<%>({0}, {1}, {2}));", [RW, CL, V])
for a, tail in (("A", ""), ("B.view1D()", ""), ("std::as_const(A)", "")):
    api("show(" + a + "(spp::seqN({0}, {1})));", [("First", "n"), S])
    api("show(" + a + "(spp::seqN({0}, {1}, {2})));", [("First", "n"), S, ("Stride", "d")])
    api("show(" + a + "(spp::seq({0}, {1})));", [("First", "n"), ("Endmost", "n")])
    api("show(" + a + "(spp::seq({0}, {1}, {2})));", [("First", "n"), ("Endmost", "n"), ("Stride", "d")])
    api("show(" + a + "(spp::place::skipN({0})));", [("Stride", "d")])
    api("show(" + a + "(spp::place::firstN({0})));", [C])
    api("show(" + a + "(spp::place::lastN({0})));", [C])
api("show(B(spp::place::firstN({0}), spp::seqN({1}, {2})));", [C, ("First", "n"), S], T, 1)
api("show(B.rows(spp::place::lastN({0})));", [C])
for z in ("", "_not0"):
    ty = SEMI
    api("show(spp::semi_rands%s<%%>({0}, {1}, {2}));" % z, [LO, HI, SD], ty)
    api("show(spp::semi_rands%s<%%>({0}, {1}));" % z, [LO, HI], ty)
    api("spp::semi_random%s(A, {0}, {1}, {2}); show(A);" % z, [LO, HI, SD], ty)
    api("spp::semi_random%s(B, {0}, {1}); show(B);" % z, [LO, HI], ty)
    api("show(spp::semi_random%s<%%>({0}, {1}, {2}, {3}));" % z, [S, LO, HI, SD], ty)
    api("show(spp::semi_random%s<%%>({0}, {1}, {2}));" % z, [S, LO, HI], ty)
    api("show(spp::semi_random%s<%%>({0}, {1}, {2}, {3}, {4}));" % z, [RW, CL, LO, HI, SD], ty)
    api("show(spp::semi_random%s<%%>({0}, {1}, {2}, {3}));" % z, [RW, CL, LO, HI], ty)
    api("show(spp::semi_random%s<%%>({0}, {1}));" % z, [S, SD], ty)
    api("show(spp::semi_random%s<%%>({0}));" % z, [S], ty)
    api("show(spp::semi_random%s<%%>({0}, {1}, {2}));" % z, [RW, CL, SD], ty)
    api("show(spp::semi_random%s<%%>({0}, {1}));" % z, [RW, CL], ty)
    # real random numbers: shape and range only
    api("shape(spp::random%s<%%>({0}), mk<%%>(0), mk<%%>(0), false);" % z, [S], ty)
    api("shape(spp::random%s<%%>({0}, {1}), mk<%%>(0), mk<%%>(0), false);" % z, [RW, CL], ty)
    api("shape(spp::random%s<%%>({0}, {1}, {2}), x0, x1, true);" % z, [S, LO, HI], ty)
    api("shape(spp::random%s<%%>({0}, {1}, {2}, {3}), x0, x1, true);" % z, [RW, CL, LO, HI], ty)
    api("spp::random%s(A, {0}, {1}); shape(A, x0, x1, true);" % z, [LO, HI], ty)
    api("show(in(spp::rands%s<%%>({0}, {1}), x0, x1));" % z, [LO, HI], ty)


def index(r, v):
    return r.choice(["int(%s)", "long(%s)", "spp::Strict<int>{int(%s)}", "spp::Strict<long>{long(%s)}", "spp::ImplicitInt{long(%s)}"]) % v


def named_index(r, name, v):
    return "spp::%s{%s}" % (name, r.choice(["int(%s)", "long(%s)", "spp::Strict<int>{int(%s)}", "spp::Strict<long>{long(%s)}"]) % v)


def call(r, entry, t, named):
    c, slots, _, _ = entry
    out, ni, xi = [], 0, 0
    for name, kind in slots:
        if kind in "nd":
            v = "n%d" % ni
            ni += 1
            out.append(named_index(r, name, v) if named and name else index(r, v))
        elif kind == "x":
            v = "x%d" % xi
            xi += 1
            out.append(r.choice(["spp::%s<%s>{%s}", "spp::%s<%s>{%s.val()}"]) % (name, t, v) if named and r.random() < 0.6 else
                       r.choice(["spp::%s{%s}", "spp::%s{%s.val()}"]) % (name, v) if named else v)
        elif kind == "u":
            out.append(r.choice(["spp::Seed{u}", "spp::Seed{spp::Strict<unsigned>{u}}"]))
        else:
            out.append(r.choice(["b", "spp::Strict<bool>{b}", "spp::ImplicitBool{b}", "spp::ImplicitBool{spp::Strict<bool>{b}}"]))
    return fill(c, t, out)


def fill(c, t, args):
    c = c.replace("%", t)
    for i, a in enumerate(args):
        c = c.replace("{%d}" % i, "\1%d\1" % i)
    for i, a in enumerate(args):
        c = c.replace("\1%d\1" % i, a)
    return c


def write(path, seed, count, ident):
    r = random.Random(seed)
    out = ['#include "named.hpp"', "namespace %s {" % ident, "using namespace c37;"]
    rows = []
    order = list(range(len(API)))
    r.shuffle(order)
    off = seed % len(API)
    for i in range(count):
        e = API[order[(i + off) % len(API)]]
        t = r.choice(e[2])
        p, q = call(r, e, t, False), call(r, e, t, True)
        stride = [j for j, k in enumerate([k for _, k in e[1] if k in "nd"]) if k == "d"]
        body = "const long n0 = a.n[0], n1 = a.n[1], n2 = a.n[2]; const auto x0 = mk<%s>(a.x[0]), x1 = mk<%s>(a.x[1]), x2 = mk<%s>(a.x[2]); const unsigned u = a.u; const bool b = a.b; auto A = one<%s>(a); auto B = two<%s>(a); (void)n0; (void)n1; (void)n2; (void)x0; (void)x1; (void)x2; (void)u; (void)b; " % ((t,) * 5)
        out.append("static void p%d(const Args& a, Out& show, Shape& shape) { (void)show; (void)shape; %s%s }" % (i, body, p))
        out.append("static void q%d(const Args& a, Out& show, Shape& shape) { (void)show; (void)shape; %s%s }" % (i, body, q))
        lohi = any(nm == "Low" for nm, _ in e[1])
        rows.append('{"%s", "%s", p%d, q%d, %d, %s}' % (p.replace('"', "'"), q.replace('"', "'"), i, i, stride[0] if stride else -1, "true" if lohi else "false"))
    out.append("static const Pair table[] = {%s};" % ",\n ".join(rows))
    out.append("PROP(named_%s, 1) { compare(s, table, %d); }" % (ident, count))
    out.append("} // namespace")
    open(path, "w").write("\n".join(out) + "\n")


NAMES_N = ["First", "Endmost", "Size", "Count", "Pos", "Stride", "Index", "Rows", "Cols"]
NAMES_X = ["Low", "High", "Start", "End", "Incr", "Value"]
BADI = ["short(n0)", "(signed char)(n0)", "char(n0)", "unsigned(n0)", "(unsigned long)(n0)", "(long long)(n0)", "true", "float(n0)", "double(n0)", "(long double)(n0)", "spp::Strict<unsigned>{1u}",
        "spp::Strict<double>{1.}", "spp::Strict<bool>{true}", "spp::Strict<float>{1.f}", "nullptr", "\"1\"", "spp::Strict<unsigned long>{1ul}", "std::size_t(n0)", "(unsigned char)(n0)"]
BADB = ["1", "0", "spp::Strict<int>{1}", "nullptr", "1.", "\"a\"", "1u", "spp::Strict<long>{1}", "char(1)"]
BADU = ["u", "1u", "spp::Strict<unsigned>{u}", "spp::Seed{1}", "spp::Seed{1l}", "spp::Seed{n0}", "spp::Seed{spp::Strict<int>{1}}", "spp::Seed{1ul}", "spp::Seed{true}", "spp::Size{1}"]


def programs(r, n):
    """(accepted, class, text with @ for the name, what)"""
    out, seen = [], set()
    while len(out) < n:
        e = r.choice(API)
        t = r.choice(e[2])
        slots = e[1]
        named = r.random() < 0.6
        c = fault = None
        ok = r.random() < 0.3
        # arguments, well formed
        args, ni, xi = [], 0, 0
        for name, kind in slots:
            if kind in "nd":
                v = "n%d" % ni
                ni += 1
                args.append(named_index(r, name, v) if named and name else index(r, v))
            elif kind == "x":
                v = "x%d" % xi
                xi += 1
                args.append(r.choice(["spp::%s<%s>{%s}" % (name, t, v), "spp::%s{%s}" % (name, v), "spp::%s{%s.val()}" % (name, v)]) if named else v)
            elif kind == "u":
                args.append(r.choice(["spp::Seed{u}", "spp::Seed{spp::Strict<unsigned>{u}}"]))
            else:
                args.append(r.choice(["b", "spp::Strict<bool>{b}", "spp::ImplicitBool{b}"]))
        lab = "named" if named and any(nm for nm, _ in slots) else "positional"
        if not ok:
            i = r.randrange(len(slots))
            name, kind = slots[i]
            k = r.random()
            both = [j for j, (nm, kd) in enumerate(slots) if nm and kd != "u"]
            if k < 0.25 and not e[3] and len(both) > 1 and name and kind != "u":
                if r.random() < 0.5 and named:  # swapped
                    j = r.choice([x for x in both if x != i])
                    if slots[j][0] == name:
                        continue
                    args[i], args[j] = args[j], args[i]
                    fault = "arguments swapped"
                else:  # one in the other form
                    if kind in "nd":
                        args[i] = index(r, "n0") if named else named_index(r, name, "n0")
                    else:
                        args[i] = "x0" if named else "spp::%s{x0}" % name
                    fault = "named and positional mixed"
            elif kind in "nd":
                bad = r.choice(BADI)
                if named and name and r.random() < 0.4:
                    args[i] = "spp::%s{%s}" % (r.choice([x for x in NAMES_N + NAMES_X if x != name]), "n0")
                    fault = "another argument's name"
                else:
                    args[i] = "spp::%s{%s}" % (name, bad) if named and name else bad
                    fault = "index of another type"
            elif kind == "x":
                w = r.choice([x for x in T if x != t])
                if named and r.random() < 0.4:
                    args[i] = "spp::%s{x0}" % r.choice([x for x in NAMES_X if x != name])
                    fault = "another argument's name"
                elif named:
                    args[i] = r.choice(["spp::%s<%s>{mk<%s>(1)}" % (name, w, w), "spp::%s{mk<%s>(1)}" % (name, w), "spp::%s{(%s)(1)}" % (name, w), "spp::%s<%s>{mk<%s>(1)}" % (name, t, w), "spp::%s<%s>{(%s)(1)}" % (name, t, w)])
                    fault = "value of another type"
                else:
                    args[i] = "mk<%s>(1)" % w
                    fault = "value of another type"
            elif kind == "u":
                args[i] = r.choice(BADU)
                fault = "seed of another type"
            else:
                args[i] = r.choice(BADB)
                fault = "switch of another type"
        text = "void @(long n0, long n1, long n2, unsigned u, bool b, spp::Strict<%s> x0, spp::Strict<%s> x1, spp::Strict<%s> x2, spp::Array1D<%s>& A, spp::Array2D<%s>& B) { %s }" % ((t,) * 5 + (fill(e[0], t, args),))
        if text in seen:
            continue
        seen.add(text)
        out.append((ok, lab + ": " + (fault or "well formed"), text, text[7:]))
    return out
