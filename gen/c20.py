"""C20, first half: every operation that would keep a reference to an owning temporary must be refused by the compiler, while the
same program with a named array in that position (and, where it makes sense, with a temporary view or expression) must be accepted."""
import os, random, time
import snip, c24

INT, FLT, REAL = c24.INT, c24.FLT, c24.REAL
ALL = set(c24.T)
SGN = FLT | {"int", "long"}
PRELUDE = """#include <strictpp/strict.hpp>
#include <utility>
template <class A> A make();
template <class A> const A cmake();
template <class R> void use(R const&);
"""
OWN = {
    "1": ["spp::Array1D<%>", "spp::Array1D<%, spp::Aligned>", "spp::FixedArray1D<%, 4>", "spp::FixedArray1D<%, 4, spp::Aligned>"],
    "2": ["spp::Array2D<%>", "spp::Array2D<%, spp::Aligned>", "spp::FixedArray2D<%, 4, 4>", "spp::FixedArray2D<%, 4, 4, spp::Aligned>"],
}
# temporaries of an owning type ~; # is a named array of it
TEMP = ["~(#)", "make<~>()", "cmake<~>()", "std::move(#)", "std::move(std::as_const(#))", "static_cast<~&&>(#)", "(true ? make<~>() : ~{})", "#.eval()", "(~{})", "std::exchange(#, ~{})"]
VIEW = {
    "1": ["#(spp::place::all)", "#({0, 1, 2, 3})", "std::as_const(#)(spp::place::reverse)", "spp::generate(#, [](auto v) { return v; })", "#(spp::place::all)(spp::place::all)", "#.view1D()"],
    "2": ["#(spp::place::all, spp::place::all)", "#.rows({0, 1, 2, 3})", "std::as_const(#).cols(spp::place::reverse)", "spp::generate(#, [](auto v) { return v; })", "#.blockN(0, 0, 4, 4)", "#.rows(spp::place::all).cols(spp::place::all)"],
}
OPS = []  # (text, classes of X and of the other operands Y Z, element types, views accepted)


def op(text, x="12", dom=ALL, view=True, y=None):
    OPS.append((text, x, dom, view, y))


for o, d in (("+", REAL), ("-", SGN), ("~", INT), ("!", {"bool"})):
    op(o + "X", dom=d)
for f in "exp log log2 log10 sqrt cbrt sin cos tan inv".split():
    op("spp::%s(X)" % f, dom=FLT)
    op("%s(X)" % f, dom=FLT)  # found by argument-dependent lookup
op("spp::abs(X)", dom=SGN)
op("spp::pow(X, s)", dom=FLT)
op("spp::pow_int(X, 2)", dom=FLT)
op("spp::fast_pow_int(X, 3)", dom=FLT)
op("spp::array_cast<long>(X)", dom=ALL - {"__float128"})
op("spp::array_cast<double>(X)", dom=ALL)
op("spp::generate(X, [](auto v) { return v; })")
op("spp::generate(X, Y, [](auto v, auto) { return v; })")
op("spp::generate(Y, X, [](auto v, auto) { return v; })")
for o, d in [(o, REAL) for o in "+-*/"] + [(o, INT) for o in ("%", "<<", ">>", "&", "|")] + [("^", INT | {"bool"}), ("&&", {"bool"}), ("||", {"bool"})]:
    op("X %s Y" % o, dom=d)
    op("Y %s X" % o, dom=d)
    op("X %s s" % o, dom=d)
    op("s %s X" % o, dom=d)
    op("X %s (Y %s Y)" % (o, o), dom=d)
    op("(Y %s s) %s X" % (o, o), dom=d)
op("spp::two_prod(X, Y)", dom=FLT)
op("spp::two_prod(Y, X)", dom=FLT)
op("spp::pow_prod(X, P)", dom=FLT)
op("spp::pow_prod(Q, X)", dom={"int", "long"})
op("spp::matvec_prod(X, Y)", "2", REAL, y="1")
op("spp::matvec_prod(Y, X)", "1", REAL, y="2")
op("spp::tensor_prod(X, Y)", "1", REAL)
op("spp::tensor_prod(Y, X)", "1", REAL)
for a in ("X, Y", "Y, X", "X, s", "s, X", "X, s, s", "s, s, X", "X, Y, Y", "Y, X, Y", "Y, Y, X", "Y, Y, Y, X", "Y, X, Y, Y", "s, s, s, X"):
    op("spp::merge(%s)" % a, "1")
for f in ("merge_horizontal", "merge_vertical"):
    for a in ("X, Y", "Y, X", "X, Y, Y", "Y, X, Y", "Y, Y, X", "Y, Y, Y, X"):
        op("spp::%s(%s)" % (f, a), "2")
for a in ("X, 1", "X, 1, 2", "X, spp::Pos{1}", "X, spp::Pos{0}, spp::Count{2}", "X, spp::last"):
    op("spp::exclude(%s)" % a, "1")
op("spp::transpose(X)", "2")
op("spp::row_reduce(X, [](auto r) { return r[0]; })", "2")
op("spp::col_reduce(X, [](auto r) { return r[0]; })", "2")
op("spp::row_broadcast(X)", "1")
op("spp::col_broadcast(X)", "1")
for f in ("in_open_range", "in_closed_range"):
    op("spp::%s(X, s, s)" % f, "1", REAL, "lvalue?")
    op("spp::%s(X, spp::Low{s}, spp::High{s})" % f, "1", REAL, "lvalue?")
op("spp::in_cond_range(X, [](auto v) { return v == v; })", "1", REAL, "lvalue?")
SL = ["spp::place::all", "spp::place::even", "spp::place::odd", "spp::place::reverse", "spp::place::firstN{2}", "spp::place::lastN{2}", "spp::seq{0, 2}", "spp::seqN{0, 2}", "spp::seqN{0, 2, 2}",
      "spp::place::skipN{2}", "spp::place::random{2}", "spp::place::complement{{1}}", "spp::place::random{2, false}", "spp::place::skip_firstN{1}"]
import re


def slices(repo):
    """The slice descriptions that exist (by name) in the library."""
    t = open(os.path.join(repo, "strictpp", "slice.hpp")).read()
    return [s for s in SL if re.search(r"\b%s\b" % re.match(r"(spp::(place::)?)(\w+)", s).group(3), t)]


OTHER2 = ["X.row(0)", "X.col(0)", "X.row(spp::last)", "X.col(spp::Strict{0})", "X.diag()", "X.diag(1)", "X.diag(-1)", "X.block(0, 0, 1, 1)", "X.block(0, 0, spp::last, spp::last)", "X.blockN(0, 0, 2, 2)",
          "X.rows({0, 1})", "X.cols({0, 1})", "X({0, 1}, {1, 2})", "X({0, 1}, spp::place::all)", "X(spp::place::all, {0, 1})"]
for b in OTHER2:
    op(b, "2", view=True)
op("X({0, 1})", "1")
op("X(std::vector<spp::ImplicitInt>{0, 1})", "1")
op("X.rows(std::vector<spp::ImplicitInt>{0, 1})", "2")
op("X.view1D()", view=True)
op("X.view2D(2, 2)", "1", view="lvalue?")
op("X.view2D(8, 2)", "2", view="lvalue?")
for m in "begin end cbegin cend rbegin rend crbegin crend".split():
    op("X.%s()" % m, view="no")
op("X.data()", view="no")
op("X.blas_data()", view="no", dom=ALL - {"bool"})
for f in ("RowIt", "ColIt"):
    op("spp::%s<decltype((X))>(X)" % f, "2", view="no")
    op("spp::%s<const TX&>(X)" % f, "2", view="refused")
    op("spp::%s<TX&>(X)" % f, "2", view="no")
# only sizes are kept: temporaries are welcome
for t, x in (("spp::irange(X)", "1"), ("spp::irange_m1(X)", "1"), ("spp::irange_row(X)", "2"), ("spp::irange_col(X)", "2"), ("spp::irange_row_m1(X)", "2"), ("spp::irange_col_m1(X)", "2")):
    op(t, x, ALL, "temporary ok")


def programs(r, repo, scale):
    out = []
    sl = slices(repo)
    ops = list(OPS)
    for s in sl:
        ops.append(("X(%s)" % s, "1", ALL, True, None))
        ops.append(("X.rows(%s)" % s, "2", ALL, True, None))
        ops.append(("X.cols(%s)" % s, "2", ALL, True, None))
        ops.append(("X(%s, spp::place::all)" % s, "2", ALL, True, None))
        ops.append(("X({0, 1}, %s)" % s, "2", ALL, True, None))
        ops.append(("X(%s, {1, 0})" % s, "2", ALL, True, None))
    for text, cls, dom, view, ycls in ops:
        for x in cls:
            def build(xe, tx, t, kinds):
                y = ycls or x
                yd = r.choice(OWN[y]).replace("%", t) + "& y"
                ye = r.choice(["y", "y"] + [v.replace("#", "y") for v in VIEW[y]])
                ps = [tx + "& x", yd, "spp::Strict<%s> s" % t]
                e = text.replace("TX", tx)
                e = re.sub(r"\bX\b", lambda m: "\1", e)
                e = re.sub(r"\bY\b", lambda m: ye, e)
                if re.search(r"\bP\b", e):
                    ps.append(OWN[x][0].replace("%", "int") + "& p")
                    e = re.sub(r"\bP\b", "p", e)
                if re.search(r"\bQ\b", e):
                    ps.append(OWN[x][0].replace("%", "double") + "& q")
                    e = re.sub(r"\bQ\b", "q", e)
                e = e.replace("\1", xe)
                return ps, e
            for rep in range(scale):
                for own in OWN[x]:
                    t = r.choice(sorted(dom))
                    tx = own.replace("%", t)
                    uses = ["auto z = %s;", "use(%s);", "return [&] { return %s; }();", "(void)(%s);"]

                    def emit(ok, lab, xe):
                        ps, e = build(xe, tx, t, None)
                        u = r.choice(uses)
                        sig = ("auto @(%s) { " if u.startswith("return") else "void @(%s) { ") % ", ".join(ps)
                        out.append((ok, lab, sig + u % e + " }", "%s with X = %s" % (text, xe)))
                    if view != "refused":
                        emit(True, "named array", "x")
                    for tmp in r.sample(TEMP, 4 if view != "temporary ok" else 2):
                        xe = tmp.replace("~", tx).replace("#", "x")
                        emit(view == "temporary ok", "owning temporary", xe)
                    if view is True or view == "temporary ok":
                        v = r.choice(VIEW[x]).replace("#", "x")
                        if "const TX" not in text:
                            emit(True, "temporary view", v)
    return out


def static(pid, tier, seed, c, R):
    """Returns (violation replay or None, coverage)."""
    r = random.Random(seed * 6007 + 20)
    seen, cases = set(), []
    for x in programs(r, R.REPO, 1 if tier == "quick" else 8):
        if x[2] not in seen:
            seen.add(x[2])
            cases.append(x)
    try:
        e = snip.Engine(R, c24.DEFINES, PRELUDE)
    except snip.Unusable as x:
        p = os.path.join(R.outdir(pid), "replay-%s.txt" % pid)
        open(p, "w").write("The library's header no longer compiles.\n" + str(x))
        return p, dict(evaluations=1, nontrivial=1, distinct_nontrivial=1)
    try:
        wrong = c24.judge(pid, tier, R, cases, e)
    finally:
        e.close()
    labels = {}
    for ok, lab, _, _ in cases:
        k = ("accepted: " if ok else "refused: ") + lab
        labels[k] = labels.get(k, 0) + 1
    cov = dict(evaluations=len(cases), nontrivial=len(cases), distinct_nontrivial=len(cases), labels=labels,
               samples=[("must compile: " if x[0] else "must not compile: ") + x[2] for x in random.Random(1).sample(cases, 8)])
    print("  %d programs judged by the compiler in %d units" % (len(cases), e.units), flush=True)
    return c24.report(pid, R, e, wrong, cases, PRELUDE), cov
