"""C24: generated programs that must compile and generated programs that must not (see DESIGN.md).

The oracle is a table of the operators' domains plus one rule: the element types of both sides are the same.  Every
operator, operand class, argument position and pair of types is drawn; composed programs are random well-typed expressions
(accepted) and the same expressions with one operand's type, or one operator, replaced (refused).
"""
import os, random, time
import snip

T = ["bool", "int", "unsigned", "long", "unsigned long", "float", "double", "long double", "__float128"]
RAW = T + ["char", "signed char", "unsigned char", "short", "unsigned short", "long long", "unsigned long long", "wchar_t"]
INT = {"int", "unsigned", "long", "unsigned long"}
FLT = {"float", "double", "long double", "__float128"}
REAL = INT | FLT
ARITH = ["+", "-", "*", "/"]
BITS = ["%", "<<", ">>", "&", "|"]
LOGIC = ["&&", "||"]
CMP = ["==", "!=", "<", "<=", ">", ">="]
COMPOUND = ["+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "|=", "^="]
DEFINES = "-DSTRICT_ERROR_EXCEPTIONS -DSTRICT_REMOVE_NODISCARD -DSTRICT_QUAD_PRECISION"
PRELUDE = """#include <strictpp/strict.hpp>
#include <concepts>
#include <utility>
template <class T, class R> void same(R const&) {
   if constexpr(requires { typename R::builtin_type; }) static_assert(std::same_as<typename R::builtin_type, T>);
   else static_assert(std::same_as<R, spp::Strict<T>>);
}
template <class T> void take(T);
"""


def domain(op, t, scalar):
    o = op[:-1] if op in COMPOUND else op
    if op in COMPOUND:
        return t in (REAL if o in ARITH else INT)
    if o in ARITH:
        return t in REAL
    if o in BITS:
        return t in INT
    if o == "^":
        return t in INT or t == "bool"
    if o in LOGIC:
        return t == "bool"
    return scalar or op in ("==", "!=")  # comparisons


# kinds: class -> list of (declaration with # for the parameter's name, expression, writable); % is the element type
KINDS = {
    "S": [("spp::Strict<%>& #", "#", 1), ("const spp::Strict<%>& #", "#", 0), ("spp::Strict<%>& #", "std::move(#)", 0), ("spp::Array1D<%>& #", "#[0]", 1),
          ("const spp::Array1D<%>& #", "#[0]", 0), ("spp::Array2D<%>& #", "#(0, 0)", 1), ("spp::Strict<%>& #", "spp::Strict<%>{#}", 0)],
    "R": [("%& #", "#", 1), ("const %& #", "#", 0), ("%& #", "std::move(#)", 0)],
    "1": [("spp::Array1D<%>& #", "#", 1), ("const spp::Array1D<%>& #", "#", 0), ("spp::Array1D<%, spp::Aligned>& #", "#", 1), ("spp::FixedArray1D<%, 3>& #", "#", 1),
          ("const spp::FixedArray1D<%, 3>& #", "#", 0), ("spp::Array1D<%>& #", "#(spp::place::all)", 1), ("const spp::Array1D<%>& #", "#(spp::place::even)", 0),
          ("spp::Array1D<%>& #", "spp::generate(#, [](auto x) { return x; })", 0), ("spp::Array2D<%>& #", "#.row(0)", 1), ("spp::FixedArray2D<%, 2, 2>& #", "#.diag()", 1),
          ("spp::Strict<%>& #", "spp::const1D<%>(3, #)", 0), ("spp::Array1D<%>& #", "#({0, 1})", 1)],
    "2": [("spp::Array2D<%>& #", "#", 1), ("const spp::Array2D<%>& #", "#", 0), ("spp::FixedArray2D<%, 2, 3>& #", "#", 1), ("spp::Array2D<%>& #", "#.rows({0, 1})", 1),
          ("const spp::Array2D<%>& #", "#.rows({0, 1})", 0), ("spp::Array2D<%>& #", "#(spp::place::all, spp::place::even)", 1),
          ("spp::Array2D<%>& #", "spp::generate(#, [](auto x) { return x; })", 0), ("spp::Strict<%>& #", "spp::const2D<%>(2, 3, #)", 0), ("spp::Array1D<%>& #", "#.view2D(2, 2)", 1)],
}


class Gen:
    def __init__(self, r):
        self.r = r
        self.cases = []

    def kind(self, cls, t, name, writable=None):
        ks = [k for k in KINDS[cls] if not writable or k[2]]
        d, e, _ = self.r.choice(ks)
        f = lambda s: s.replace("%", t).replace("#", name)
        return f(d), f(e)

    def add(self, ok, label, params, body, what):
        self.cases.append((ok, label, "void @(%s) { %s }" % (", ".join(params), body), what))

    # ---- one operator between every pair of types
    def binary(self, op, a, t, b, u, form=""):
        pa, ea = self.kind(a, t, "a")
        pb, eb = self.kind(b, u, "b")
        scalar = a + b == "SS"
        if "R" in a + b:
            if t == u:
                return
            ok = False
        elif (a == "1" and b == "2") or (a == "2" and b == "1"):
            ok = False
        elif op in CMP and a != b or (op in CMP and not scalar and op not in ("==", "!=")):
            if t == u:
                return
            ok = False
        else:
            ok = t == u and domain(op, t, scalar)
        res = "bool" if op in CMP else t
        body = "same<%s>(%s %s %s);" % (res, ea, op, eb) if ok else "(void)(%s %s %s);" % (ea, op, eb)
        self.add(ok, "binary %s %s" % (a + b, op if ok else "*"), [pa, pb], body, "%s<%s> %s %s<%s>" % (a, t, op, b, u))

    def compound(self, op, a, t, b, u):
        pa, ea = self.kind(a, t, "a", True)
        pb, eb = self.kind(b, u, "b")
        if t == u and "R" in a + b:
            return
        ok = b != "R" and t == u and (op == "=" or domain(op, t, a + b == "SS")) and not (a == "1" and b == "2") and not (a == "2" and b == "1")
        if a == "S" and b in "12":
            ok = False
        self.add(ok, "compound %s %s" % (a + b, "=" if op == "=" else "op="), [pa, pb], "%s %s %s;" % (ea, op, eb), "%s<%s> %s %s<%s>" % (a, t, op, b, u))

    CONSTRUCT = [  # target class, source class, text (X type, E source)
        ("S", "S", "spp::Strict<%> x(E);"), ("S", "S", "spp::Strict<%> x{E};"), ("S", "S", "spp::Strict<%> x = E;"),
        ("S", "S", "take<spp::Strict<%>>(E);"), ("S", "R", "spp::Strict<%> x(E);"), ("S", "R", "spp::Strict<%> x{E};"), ("S", "R", "(void)static_cast<spp::Strict<%>>(E);"),
        ("1", "1", "spp::Array1D<%> x(E);"), ("1", "1", "spp::Array1D<%> x = E;"), ("1", "1", "spp::FixedArray1D<%, 3> x(E);"), ("1", "1", "spp::FixedArray1D<%, 3> x = E;"),
        ("1", "1", "spp::Array1D<%, spp::Aligned> x(E);"), ("1", "S", "spp::Array1D<%> x{E, E, E};"), ("1", "S", "spp::Array1D<%> x = {E, E, E};"), ("1", "S", "spp::FixedArray1D<%, 3> x{E, E, E};"),
        ("1", "S", "spp::Array1D<%> x(3, E);"), ("2", "2", "spp::Array2D<%> x(E);"), ("2", "2", "spp::Array2D<%> x = E;"), ("2", "2", "spp::FixedArray2D<%, 2, 3> x(E);"),
        ("2", "S", "spp::Array2D<%> x{{E, E, E}, {E, E, E}};"), ("2", "S", "spp::Array2D<%> x(2, 3, E);"), ("2", "S", "spp::FixedArray2D<%, 1, 3> x{{E, E, E}};"),
        ("1", "S", "spp::Array1D<%> x(3); x = {E, E};"), ("1", "1", "spp::Array1D<%> x; x.resize_and_assign(E);"), ("2", "2", "spp::Array2D<%> x; x.resize_and_assign(E);"),
        ("1", "S", "spp::Array1D<%> x; x.insert_back(E);"), ("1", "1", "spp::Array1D<%> x; x.insert_front(E);"), ("1", "1", "spp::Array1D<%> x; x.insert(0, E);"),
        ("2", "1", "spp::Array2D<%> x; x.insert_row(0, E);"), ("2", "1", "spp::Array2D<%> x; x.insert_col_back(E);"), ("2", "2", "spp::Array2D<%> x; x.insert_rows_back(E);"),
        ("1", "S", "spp::Array1D<%> x(3); x(spp::place::even) = {E, E};"), ("1", "S", "spp::Array1D<%> x(3); x(spp::place::even) = E;"),
        ("1", "1", "spp::Array1D<%> x(3); x(spp::place::even) = E;"), ("2", "1", "spp::Array2D<%> x(3, 3); x.col(0) = E;"), ("2", "2", "spp::Array2D<%> x(3, 3); x.rows({0, 1}) = E;"),
        ("1", "1", "spp::Array1D<%> x(3); x({0, 1}) += E;"), ("1", "S", "(void)spp::const1D<%>(3, E);"), ("2", "S", "(void)spp::const2D<%>(3, 2, E);"),
        ("S", "S", "spp::Low<%> x{E};"), ("S", "R", "spp::High<%> x{E};"), ("S", "S", "spp::Value<%> x(E);"),
    ]

    def construct(self, c, t, u):
        a, b, text = c
        pb, eb = self.kind(b, u, "b")
        ok = t == u
        if ok and "+=" in text and t == "bool":
            ok = False
        self.add(ok, "construct %s from %s" % (a, b), [pb], text.replace("%", t).replace("E", eb), "%s <- %s<%s>" % (text.replace("%", t), b, u))

    CONVERT = ["% x = E;", "% x = {E};", "take<%>(E);", "% x{}; x = E;", "% x{}; x += E;", "[&]() -> % { return E; }();", "% x[2]{}; x[0] = E;", "const %& x = E;"]

    def convert(self, text, t, u):  # strict value of type t where a raw u is wanted
        p, e = self.kind("S", t, "a")
        if t == "bool" and u == "bool":
            return
        self.add(False, "implicit conversion", [p], text.replace("%", u).replace("E", e), "%s from Strict<%s>" % (text.replace("%", u), t))

    CONTEXT = ["if(E) {}", "(void)(E ? 1 : 2);", "while(E) {}", "(void)!E;", "switch(E) { default:; }", "int x[3]{}; (void)x[E];", "(void)(E && true);", "const char* x = \"abc\"; (void)(x + E);",
               "(void)(E ? spp::Strict<int>{1} : spp::Strict<long>{1L});"]

    def context(self, text, t):
        p, e = self.kind("S", t, "a")
        self.add(False, "implicit conversion in a context", [p], text.replace("E", e), "%s with Strict<%s>" % (text, t))

    def unary(self, op, cls, t):
        p, e = self.kind(cls, t, "a", op in ("++", "--", "p++", "p--"))
        o = op.lstrip("p")
        ok = {"+": t in REAL, "-": t in FLT | {"int", "long"}, "~": t in INT, "!": t == "bool", "++": t in REAL, "--": t in REAL}[o]
        if o in ("++", "--") and cls != "S":
            return
        x = e + o if op[0] == "p" else o + e
        if not ok and o == "-" and cls != "S":
            x = "(%s).eval()" % x  # an expression that nothing evaluates is built and used by the library's own tests
        self.add(ok, "unary %s %s" % (cls, op), [p], "same<%s>(%s);" % (t, x) if ok else "(void)(%s);" % x, "%s %s<%s>" % (op, cls, t))

    # ---- named functions of two operands of one element type
    NAMED = [("spp::dot_prod(A, B)", "11", REAL), ("spp::dot_prod(A, B)", "22", REAL), ("spp::mins(A, B)", "SS", REAL), ("spp::maxs(A, B)", "SS", REAL), ("spp::pows(A, B)", "SS", FLT),
             ("spp::two_prods(A, B)", "SS", FLT), ("spp::two_prod(A, B)", "11", FLT), ("spp::two_prod(A, B)", "22", FLT), ("spp::merge(A, B)", "11", set(T)),
             ("spp::merge_horizontal(A, B)", "22", set(T)), ("spp::merge_vertical(A, B)", "22", set(T)),
             ("spp::sum(A, B)", "1S", REAL), ("spp::min(A, B)", "1S", REAL), ("spp::max(A, B)", "2S", REAL), ("spp::any_of(A, B)", "1S", set(T)), ("spp::none_of(A, B)", "2S", set(T)),
             ("spp::sum(spp::tensor_prod(A, B))", "11", REAL), ("spp::matvec_prod(A, B)", "21", REAL), ("spp::max_abs_error(A, B)", "11", FLT), ("spp::abs_error(A, B)", "SS", FLT), ("spp::rel_error(A, B)", "SS", FLT), ("spp::two_sums(A, B)", "SS", FLT), ("spp::stable_dot_prod(A, B)", "11", FLT), ("spp::semi_stable_dot_prod(A, B)", "22", FLT),
             ("spp::max_rel_error(A, B)", "22", FLT), ("spp::clamps(A, B, B)", "SS", REAL), ("spp::fmas(A, B, A)", "SS", FLT),
             ("spp::in_open(A, B, B)", "SS", REAL), ("spp::polynomial(A, B)", "1S", REAL), ]

    def named(self, n, t, u):
        text, cl, dom = n
        pa, ea = self.kind(cl[0], t, "a")
        pb, eb = self.kind(cl[1], u, "b")
        if t == u and t not in dom:
            return
        if t != u and (t not in dom or u not in dom):
            return
        self.add(t == u, "named function", [pa, pb], "(void)" + text.replace("A", "\0").replace("B", eb).replace("\0", ea) + ";", "%s with %s<%s>, %s<%s>" % (text, cl[0], t, cl[1], u))

    # ---- composed programs: a random well-typed expression and the same one with a single fault
    def expr(self, r, cls, t, depth, st):
        if depth == 0 or r.random() < 0.12:
            ty = st["types"].setdefault((cls, t), [])
            if not ty or r.random() < 0.5:
                n = "v%d" % len(st["params"])
                d, e, _ = r.choice([k for k in KINDS[cls]])
                st["params"].append(d.replace("%", t).replace("#", n))
                ty.append(e.replace("%", t).replace("#", n))
            return r.choice(ty)
        k = r.random()
        if k < 0.62:  # binary
            ops = [o for o in ARITH + BITS + ["^"] + LOGIC if domain(o, t, cls == "S")]
            o = r.choice(ops)
            n = st["count"]
            st["count"] += 1
            lc = rc = cls
            if cls != "S" and r.random() < 0.3:
                if r.random() < 0.5:
                    lc = "S"
                else:
                    rc = "S"
            lt = rt = t
            fault, side, other, bad = r.random(), r.random(), r.choice([x for x in T if x != t]), r.choice(
                [x for x in ARITH + BITS + ["^"] + LOGIC if not domain(x, t, cls == "S")] or [""])
            if st["fault"] == n:
                if fault < 0.8 or not bad:
                    if side < 0.5:
                        lt = other
                    else:
                        rt = other
                    st["what"] = "%s %s %s" % (lt, o, rt)
                else:
                    o = bad
                    st["what"] = "%s on %s" % (o, t)
            x, y = r.random(), r.random()
            return "(%s %s %s)" % (self.expr(random.Random(x), lc, lt, depth - 1, st), o, self.expr(random.Random(y), rc, rt, depth - 1, st))
        if k < 0.75:  # conversion written out
            u = r.choice([x for x in T if x != "__float128"])
            e = self.expr(r, cls, u, depth - 1, st)
            return "spp::strict_cast<%s>(%s)" % (t, e) if cls == "S" else "spp::array_cast<%s>(%s)" % (t, e)
        if k < 0.85:  # unary
            ops = [o for o, d in (("+", REAL), ("-", FLT | {"int", "long"}), ("~", INT), ("!", {"bool"})) if t in d]
            return "(%s%s)" % (r.choice(ops), self.expr(r, cls, t, depth - 1, st))
        if cls == "S" and t in REAL:
            return "spp::sum(%s)" % self.expr(r, r.choice("12"), t, depth - 1, st)
        if cls == "S":
            u = r.choice(T)
            x, y = r.random(), r.random()
            return "(%s %s %s)" % (self.expr(random.Random(x), "S", u, depth - 1, st), r.choice(CMP), self.expr(random.Random(y), "S", u, depth - 1, st))
        return self.expr(r, cls, t, depth - 1, st)

    def composed(self):
        seed = self.r.getrandbits(48)
        for fault in (False, True):
            r = random.Random(seed)
            cls, t, depth = r.choice("S112"), r.choice(T), r.randrange(2, 5)
            s1, form = r.random(), r.randrange(4)
            if fault:
                if n == 0:
                    return
                pick = self.r.randrange(n)
            st = dict(params=[], types={}, count=0, fault=pick if fault else -1, what="")
            e = self.expr(random.Random(s1), cls, t, depth, st)
            n = st["count"]
            tgt = {"S": "spp::Strict<%s>", "1": "spp::Array1D<%s>", "2": "spp::Array2D<%s>"}[cls] % t
            body = ["same<%s>(%s);" % (t, e), "%s r = %s;" % (tgt, e), "%s r{}; r = %s;" % (tgt, e), "auto r = %s; %s q(r);" % (e, tgt)][form]
            if fault and not st["what"]:
                return
            self.add(not fault, "composed expression", st["params"], body, (st["what"] + " in " if fault else "") + e)

    def all(self, scale):
        r = self.r
        for _ in range(scale):
            for t in T:
                for u in T:
                    rep = 3 if t == u else 1
                    for op in ARITH + BITS + ["^"] + LOGIC + CMP:
                        for _ in range(rep):
                            self.binary(op, "S", t, "S", u)
                    ops = ARITH + BITS + ["^"] + LOGIC + CMP
                    for a, b in ("11", "22", "1S", "S1", "2S", "S2", "12", "21"):
                        for op in ops if t == u else r.sample(ops, 5):
                            self.binary(op, a, t, b, u)
                    for op in COMPOUND + ["="]:
                        for _ in range(rep):
                            self.compound(op, "S", t, "S", u)
                    for a, b in ("11", "22", "1S", "2S"):
                        for op in COMPOUND + ["="] if t == u else r.sample(COMPOUND + ["="], 4):
                            self.compound(op, a, t, b, u)
                    for c in self.CONSTRUCT if t == u else r.sample(self.CONSTRUCT, 12):
                        self.construct(c, t, u)
                    for n in self.NAMED if t == u else r.sample(self.NAMED, 8):
                        self.named(n, t, u)
                for u in RAW:
                    for op in r.sample(ARITH + BITS + ["^"] + LOGIC + CMP, 10):
                        self.binary(op, "S", t, "R", u)
                        self.binary(op, "R", u, "S", t)
                    for op in r.sample(COMPOUND + ["="], 6):
                        self.compound(op, "S", t, "R", u)
                        self.compound(op, "R", u, "S", t)
                    for op in r.sample(ARITH + BITS + ["^"] + LOGIC + CMP, 3):
                        self.binary(op, r.choice("12"), t, "R", u)
                        self.binary(op, "R", u, r.choice("12"), t)
                    self.compound(r.choice(COMPOUND + ["="]), r.choice("12"), t, "R", u)
                    for c in self.CONSTRUCT:
                        if c[1] == "R" or (c[1] == "S" and t != u and r.random() < 0.3):
                            self.construct((c[0], "R", c[2]), t, u)
                    for c in self.CONVERT:
                        self.convert(c, t, u)
                for c in self.CONTEXT:
                    if t != "bool" or "switch" in c or "[" in c or "+" in c or "Strict<long>" in c:
                        self.context(c, t)
                for cls in "S12":
                    for op in ("+", "-", "~", "!", "++", "--", "p++", "p--"):
                        for _ in range(2):
                            self.unary(op, cls, t)
            for _ in range(2500):
                self.composed()


def judge(pid, tier, R, cases, engine):
    """Compare the compiler's verdict with the expected one.  Returns list of (case, expected, message)."""
    wrong = []
    pos = [(i, c[2]) for i, c in enumerate(cases) if c[0]]
    neg = [(i, c[2]) for i, c in enumerate(cases) if not c[0]]
    bad = engine.refused(pos)
    for i in sorted(bad)[:40]:
        ok, msg = engine.alone(i, cases[i][2])
        if not ok:
            wrong.append((cases[i], msg or bad[i]))
    bad = engine.refused(neg)
    for i, s in neg:
        if i not in bad:
            wrong.append((cases[i], "accepted"))
    return wrong


def report(pid, R, e, wrong, cases, prelude):
    """Print the programs judged wrongly (the shortest one becomes the replay file, which is returned)."""
    if not wrong:
        return None
    wrong.sort(key=lambda w: len(w[0][2]))
    head = lambda w: "%s: %s" % ("must compile but does not" if w[0] else "must not compile but does", w[3])
    for w, msg in wrong[:int(os.environ.get("VERIF_SHOW", "12"))]:
        print("%s\n    %s\n    %s" % (head(w), w[2], msg.split("\n")[0][:300]))
    print("%d of %d programs judged wrongly" % (len(wrong), len(cases)))
    p = os.path.join(R.outdir(pid), "replay-%s.cpp" % pid)
    with open(p, "w") as f:
        f.write("// %s\n// g++ -std=gnu++20 %s -I%s -fsyntax-only this_file\n%s%s\n" % (head(wrong[0][0]), DEFINES, R.REPO, prelude, wrong[0][0][2].replace("@", "f")))
    return p


def run(pid, tier, seed, c, R):
    t0 = time.time()
    for k in R.known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]), flush=True)
    g = Gen(random.Random(seed * 7919 + 24))
    g.all(1 if tier == "quick" else 12)
    seen, cases = set(), []
    for x in g.cases:
        if x[2] not in seen:
            seen.add(x[2])
            cases.append(x)
    try:
        e = snip.Engine(R, DEFINES, PRELUDE)
    except snip.Unusable as x:
        ok, log = R.sanity()
        if not ok:
            print(log)
            return 2
        p = os.path.join(R.outdir(pid), "replay-%s.txt" % pid)
        open(p, "w").write("The library's header no longer compiles.\n" + str(x))
        R.violation(pid, p)
        R.write_evidence(pid, tier, seed, "exploration", dict(evaluations=1, distinct_nontrivial=1, rule=c["rule"], samples=["#include <strictpp/strict.hpp>"]), time.time() - t0, 1)
        return 1
    try:
        wrong = judge(pid, tier, R, cases, e)
    finally:
        e.close()
    labels = {}
    for ok, lab, _, _ in cases:
        k = ("accepted: " if ok else "refused: ") + lab
        labels[k] = labels.get(k, 0) + 1
    r = random.Random(1)
    samples = [("must compile: " if x[0] else "must not compile: ") + x[2] for x in r.sample(cases, 20)]
    p = report(pid, R, e, wrong, cases, PRELUDE)
    if p:
        R.violation(pid, p)
    rc = 1 if p else 0
    R.write_evidence(pid, tier, seed, "exploration",
                     dict(evaluations=len(g.cases), distinct_nontrivial=len(cases), rule=c["rule"], samples=samples, classes=labels, units_compiled=e.units, compiled_alone=e.single),
                     time.time() - t0, 1 if rc else 0, c.get("assumptions", ()))
    print("%s %s: rc=%d wall=%.1fs, %d programs (%d to be accepted), %d units" % (pid, tier, rc, time.time() - t0, len(cases), sum(1 for x in cases if x[0]), e.units))
    return rc
