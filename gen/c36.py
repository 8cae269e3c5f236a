"""Constness as the compiler enforces it (C36).

A program takes an object (an array of each kind, memory attached through a plain or a constant pointer, or a lazy
expression), follows a drawn chain of views, names, constant names and references, and modifies or reads what it reached.
The generator tracks whether the chain passed a constant object: only then, or for a lazy expression, must the modification
be refused; reading is accepted always.
"""
import os, random, re
import c24, snip

PRELUDE = "#include <strictpp/strict.hpp>\n#include <algorithm>\n#include <utility>\n"
T = ["int", "double", "long", "float", "unsigned", "__float128", "bool", "long double", "unsigned long"]

# declaration, dimension, kind, modifiable, constant, fixed sizes
ROOTS = [
    ("spp::Array1D<%>& A", 1, "own", "dyn"), ("spp::Array1D<%, spp::Aligned>& A", 1, "own", "dyn"), ("spp::FixedArray1D<%, 6>& A", 1, "own", ""),
    ("spp::FixedArray1D<%, 6, spp::Aligned>& A", 1, "own", ""),
    ("spp::Array2D<%>& A", 2, "own", "dyn"), ("spp::Array2D<%, spp::Aligned>& A", 2, "own", "dyn"), ("spp::FixedArray2D<%, 3, 3>& A", 2, "own", ""),
]
BASES = [  # base classes a function may take an array by
    ("spp::StrictArrayMutable1D<spp::detail::ArrayBase1D<%, spp::Unaligned>>& A", 1, "view", ""),
]
LAZY = ["spp::generate(X, [](auto x) { return x; })", "(X + X)", "(X * S)", "spp::array_cast<char>(X)" , "(+X)"]
# text, dimension of the result
STEP1 = [("X(spp::place::all)", 1), ("X(spp::seqN{0, 2})", 1), ("X(spp::seq{0, 2, 2})", 1), ("X(spp::place::even)", 1), ("X(spp::place::reverse)", 1), ("X({0, 1})", 1), ("X.view1D()", 1),
         ("X(spp::place::skipN{2})", 1), ("X(std::vector<spp::ImplicitInt>{0, 1})", 1), ("X.view2D(2, 3)", 2)]
STEP2 = [("X.row(0)", 1), ("X.col(1)", 1), ("X.row(spp::place::last)", 1), ("X.diag()", 1), ("X.diag(1)", 1), ("X.view1D()", 1), ("X.rows(spp::place::all)", 2), ("X.cols(spp::seqN{0, 2})", 2),
         ("X.cols({0, 1})", 2), ("X.rows({0})", 2), ("X(spp::place::all, spp::place::even)", 2), ("X({0, 1}, {1})", 2), ("X(spp::place::reverse, {0})", 2), ("X.block(0, 0, 1, 1)", 2), ("X.blockN(0, 0, 1, 2)", 2),
         ("X.view2D(3, 3)", 2)]
REF = ["spp::place::last", "0", "spp::last{1}"]

# modifications: text, dimensions, condition
MUT = [
    ("X = S;", "12", ""), ("X = {S, S};", "1", ""), ("X = {{S, S}, {S, S}};", "2", ""), ("X = Y;", "12", ""), ("X = Y + Y;", "12", "real"), ("X += S;", "12", "real"), ("X *= Y;", "12", "real"), ("X -= Y + Y;", "12", "real"), ("X ^= Y;", "12", "bits"),
    ("X %= S;", "12", "int"), ("X <<= Y;", "12", "int"),
    ("X.un(0) = S;", "12", ""), ("X[0] = S;", "1", ""), ("X[spp::place::last] = S;", "1", ""), ("X.at(0) = S;", "1", ""), ("X(0, 1) = S;", "2", ""), ("X.at(0, 1) = S;", "2", ""), ("X.un(0, 1) = S;", "2", ""), ("X.at(0, spp::place::last) -= S;", "2", "real"),
    ("++X.un(0);", "12", "real"), ("X[0]--;", "1", "real"), ("X(0, 0) += S;", "2", "real"), ("X[0] ^= S;", "1", "bits"),
    ("std::swap(X.un(0), X.un(1));", "12", ""), ("spp::Strict<%>& r = X.un(0); r = S;", "12", ""), ("spp::Strict<%>* p = &X.un(0); *p = S;", "12", ""), ("auto& r = X.un(1); r = S;", "12", ""),
    ("spp::for_each(X, [&](auto& e) { e = S; });", "12", ""), ("spp::for_each(X, [&](spp::Strict<%>& e) { e = S; });", "12", ""),
    ("spp::random(X);", "12", "random"), ("spp::random_not0(X);", "12", "random"), ("spp::random(X, S, S);", "12", "random"), ("spp::semi_random(X);", "12", "random"),
    ("spp::semi_random(X, S, S);", "12", "random"), 
    ("spp::sort_increasing(X);", "12", "real"), ("spp::sort_decreasing(X);", "12", "real"), ("spp::sort(X, [](auto a, auto b) { return a < b; });", "12", "real"), ("spp::shuffle(X);", "12", ""),
    ("for(auto& e : X) { e = S; }", "12", "lval"), ("for(auto&& e : X) { e = S; }", "12", "lval"), ("for(spp::Strict<%>& e : X) { e = S; }", "12", "lval"), ("*X.begin() = S;", "12", "lval"), ("X.begin()[1] = S;", "12", "lval"),
    ("*(X.end() - 1) = S;", "12", "lval"), ("*X.rbegin() = S;", "12", "lval"), ("X.rend()[-1] = S;", "12", "lval"), ("std::sort(X.begin(), X.end());", "12", "lvalreal"), ("std::fill(X.begin(), X.end(), S);", "12", "lval"),
    ("std::reverse(X.rbegin(), X.rend());", "12", "lval"), ("std::copy(Y.begin(), Y.end(), X.begin());", "12", "lval"), ("std::iter_swap(X.begin(), X.begin() + 1);", "12", "lval"),
    ("std::transform(Y.begin(), Y.end(), X.begin(), [](auto e) { return e; });", "12", "lval"),
    ("for(auto r : spp::RowIt{X}) { r = S; }", "2", "lval"), ("for(auto&& c : spp::ColIt{X}) { c.un(0) = S; }", "2", "lval"), ("for(auto r : spp::RowIt{X}) { for(auto& e : r) { e = S; } }", "2", "lval"), ("*spp::ColIt{X}.begin() = S;", "2", "lval"),
    ("spp::RowIt{X}.rbegin()[0] += S;", "2", "lvalreal"), ("spp::RowIt{X}.begin()[0][0] = S;", "2", "lval"),
    ("X.data()[0] = S;", "12", "own"), ("*X.blas_data() = {};", "12", "ownblas"), ("spp::Strict<%>* p = X.data(); (void)p;", "12", "own"), ("% * p = X.blas_data(); (void)p;", "12", "ownblas"),
    ("X.resize(2);", "1", "dyn"), ("X.resize(2, 2);", "2", "dyn"), ("X.insert_front(S);", "1", "dyn"), ("X.insert_back(Y);", "1", "dyn"), ("X.remove(0);", "1", "dyn"), ("X.remove_back();", "1", "dyn"), ("X.resize_and_assign(Y);", "12", "dyn"), ("X.remove_row(0);", "2", "dyn"),
    ("X.insert_row(0, V);", "2", "dyn"), ("X.remove_cols_back(1);", "2", "dyn"), ("X.insert_cols_front(Y);", "2", "dyn"), ("spp::read_from_file(\"none\", X);", "12", "dyn"), ("std::cin >> X;", "12", "dyn"), ("X.swap(W);", "12", "dyn"), ("W.swap(X);", "12", "dyn"),
]
NEVER = [("*X.cbegin() = S;", "12", "lval"), ("X.cbegin()[1] = S;", "12", "lval"), ("*(X.cend() - 1) = S;", "12", "lval"), ("*X.crbegin() = S;", "12", "lval"), ("spp::for_each(X, [&](const auto& e) { e = S; });", "12", ""),
         ("for(const auto& e : X) { e = S; }", "12", "lval"), ("std::fill(X.cbegin(), X.cend(), S);", "12", "lval"), ("(X + X).un(0) = S;", "12", "real"), ("(X + X) = S;", "12", "real"), ("(X + X)(spp::place::all) = S;", "1", "real"),
         ("spp::generate(X, [](auto x) { return x; }).un(0) = S;", "12", ""), ("(-X).un(0) += S;", "12", "signed"), ("X.eval() = S;", "12", ""), ("X.eval()(spp::place::all) = S;", "1", ""), ("X.eval().row(0) = S;", "2", ""), ("spp::sum(X) = S;", "12", "real"),
         ("std::as_const(X) = S;", "12", "lval"), ("std::as_const(X).un(0) = S;", "12", "lval"), ("std::as_const(X)(spp::place::all) = S;", "1", "lval"), ("std::as_const(X).row(0) = S;", "2", "lval"), ("std::as_const(X).view1D() = S;", "12", "lval"), ("std::as_const(X).rows({0})(0, 0) = S;", "2", "lval"),
         ("*std::as_const(X).begin() = S;", "12", "lval"), ("*spp::RowIt{std::as_const(X)}.begin() = S;", "2", "lval"), ("const auto q = spp::RowIt{X}; *q.begin() = S;", "2", "lval"), ("const spp::ColIt q{X}; *q.begin() = S;", "2", "lval"), ("*spp::RowIt{X}.cbegin() = S;", "2", "lval"), ("spp::max_index(X) = spp::max_index(X), X.size() = X.size() + X.size(), X.cbegin()[0] = S;", "1", "lvalreal")]
READ = [("(void)(X.un(0) == S);", "12", ""), ("(void)spp::sum(X);", "12", "real"), ("for(const auto& e : X) { (void)e; }", "12", "lval"), ("Z = X;", "12", ""), ("Z += X;", "12", "real"), ("(void)(X == Y);", "12", ""), ("const auto& r = X.un(0); (void)r;", "12", ""),
        ("(void)*X.cbegin();", "12", "lval"), ("(void)*X.rbegin();", "12", "lval"), ("spp::Strict<%> w = X.at(0); (void)w;", "1", ""), ("spp::Strict<%> w = X(0, 1); (void)w;", "2", ""), ("spp::Strict<%> w = X.un(0); w = S;", "12", ""),
        ("for(auto e : X) { e = S; }", "12", "lval"), ("spp::for_each(X, [&](auto e) { e = S; });", "12", ""), ("spp::for_each(X, [&](const auto& e) { (void)e; });", "12", ""), ("auto c = X.eval(); c = S;", "12", ""), ("(void)X.eval();", "12", ""),
        ("(void)std::count(X.begin(), X.end(), S);", "12", "lval"), ("for(auto r : spp::RowIt{X}) { (void)r.un(0); }", "2", "lval"), ("auto it = X.begin(); ++it; (void)*it;", "12", "lval"), ("std::cout << X;", "12", ""),
        ("(void)X.size();", "12", ""), ("(void)spp::max(X);", "12", "real")]


class Prog:
    def __init__(self, r):
        self.r = r
        self.n = 0

    def make(self):
        r = self.r
        t = r.choice(T[:5] + T)
        stmts = []
        expr, params, dyn, path = "A", [], "", []
        k = r.random()
        if k < 0.72:
            d, dim, kind, dyn = r.choice(ROOTS)
            mut, const, lval = True, False, True
            if r.random() < 0.3:
                d, const = "const " + d, True
        elif k < 0.86:
            t = r.choice([x for x in T if x != "bool"])
            dim = r.randrange(1, 3)
            q = r.choice(["%* P", "const %* P", "std::vector<%>& P", "const std::vector<%>& P"])
            const, lval, kind = False, False, "view"
            mut = not q.startswith("const")
            ptr = "P" if "*" in q else "P.data()"
            d = q
            if "vector" in q:
                stmts.append("auto* q = P.data();")
                ptr = "q"
            expr = ("spp::attach1D(%s, 6)" if dim == 1 else "spp::attach2D(%s, 3, 3)") % ptr
        else:
            d, dim, _, _ = r.choice(ROOTS)
            t = r.choice([x for x in T if x != "bool"])
            kind, mut, const, lval = "expr", False, False, False
            expr = r.choice([x for x in LAZY if "array_cast" not in x]).replace("X", "A")
        params.append(d)
        path.append(d)
        # an owning array reached as an rvalue never appears: chains only start from names
        for _ in range(r.choice((0, 1, 1, 2, 2, 3, 3, 4))):
            c = r.random()
            if c < 0.55:
                s, nd = r.choice(STEP1 if dim == 1 else STEP2)
                expr = s.replace("X", expr, 1) if s.startswith("X") else s
                mut, const, lval, kind, dim, dyn = mut and not const, False, False, ("expr" if kind == "expr" else "view"), nd, ""
            elif c < 0.85:
                self.n += 1
                v = "v%d" % self.n
                forms = ["auto V = X;", "const auto V = X;", "auto&& V = X;", "const auto& V = X;"]
                if lval:
                    forms += ["auto& V = X;", "const auto& V = X;"]
                f = r.choice(forms)
                stmts.append(f.replace("V", v).replace("X", expr))
                expr = v
                if f.startswith("auto V"):
                    if kind == "own":
                        mut, dyn = True, dyn
                    const = False
                elif f.startswith("const"):
                    const = True
                lval = True
            elif c < 0.93 and lval:
                expr = "std::as_const(%s)" % expr
                const = True
            elif lval and kind == "view":
                expr = "std::move(%s)" % expr
                lval = False
        return t, dim, kind, mut, const, lval, dyn, expr, params, stmts

    def fits(self, cond, dims, t, dim, lval, kind, dyn):
        if str(dim) not in dims:
            return False
        integral = t in c24.INT
        return {"": True, "real": t != "bool", "bits": integral, "int": integral, "signed": t not in ("bool", "unsigned", "unsigned long"), "random": t not in ("bool", "__float128", "long double"), "lval": lval,
                "lvalreal": lval and t != "bool", "own": kind == "own", "ownblas": kind == "own" and t in ("float", "double", "int", "long", "unsigned", "unsigned long", "bool", "long double", "__float128"), "dyn": kind == "own" and dyn == "dyn"}[cond]

    def case(self):
        r = self.r
        t, dim, kind, mut, const, lval, dyn, expr, params, stmts = self.make()
        k = r.random()
        table, ok, lab = (MUT, mut and not const, "modification") if k < 0.72 else (NEVER, False, "modification of a constant") if k < 0.82 else (READ, True, "reading")
        cand = [x for x in table if self.fits(x[2], x[1], t, dim, lval, kind, dyn)]
        text, _, cond = r.choice(cand)
        if kind == "expr" and text.startswith("for(auto&& e"):
            return None  # names a temporary
        body = text.replace("X", expr)
        body = re.sub(r"\bS\b", "s", body)
        full = " ".join(stmts) + " " + body
        full = re.sub(r"\bS\b", "s", full)
        p = list(params) + ["spp::Strict<%> s"]
        if re.search(r"\bY\b", full):
            p.append("const spp::Array%dD<%%>& Y" % dim)
        if re.search(r"\bZ\b", full):
            p.append("spp::Array%dD<%%>& Z" % dim)
        if re.search(r"\bV\b", full):
            p.append("const spp::Array1D<%>& V")
        if re.search(r"\bW\b", full):
            al = ", spp::Aligned" if "Aligned" in params[0] else ""
            p.append("spp::Array%dD<%%%s>& W" % (dim, al))
        f = lambda x: x.replace("%=", "\0").replace("%", t).replace("\0", "%=")
        src = "void @(%s) { %s }" % (", ".join(f(x) for x in p), f(full))
        what = {"own": "an array", "view": "a view", "expr": "a lazy expression"}[kind]
        return ok, "%s of %s" % (lab.replace("a constant", "what is constant"), what), src, src[len("void @"):]


def programs(r, n):
    p = Prog(r)
    seen, out = set(), []
    while len(out) < n:
        p.n = 0
        c = p.case()
        if c and c[2] not in seen:
            seen.add(c[2])
            out.append(c)
    return out


def static(pid, tier, seed, c, R):
    r = random.Random(seed * 7001 + 36)
    cases = programs(r, 6000 if tier == "quick" else 80000)
    try:
        e = snip.Engine(R, c24.DEFINES, PRELUDE)
    except snip.Unusable as x:
        p = os.path.join(R.outdir(pid), "replay-%s.txt" % pid)
        open(p, "w").write("The library's header no longer compiles.\n" + str(x))
        return p, dict(evaluations=1, nontrivial=1, distinct_nontrivial=1)
    try:
        wrong = c24.judge(pid, tier, R, cases, e)
    finally:
        e.close()
    labels = {}
    for ok, lab, _, _ in cases:
        k = ("accepted: " if ok else "refused: ") + lab
        labels[k] = labels.get(k, 0) + 1
    cov = dict(evaluations=len(cases), nontrivial=len(cases), distinct_nontrivial=len(cases), labels=labels,
               samples=[("must compile: " if x[0] else "must not compile: ") + x[3] for x in random.Random(1).sample(cases, 8)])
    print("  %d programs judged by the compiler in %d units" % (len(cases), e.units), flush=True)
    return c24.report(pid, R, e, wrong, cases, PRELUDE), cov
