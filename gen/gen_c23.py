#!/usr/bin/env python3
"""Random programs over the constexpr part of the library (C23): each is a function of six integers that is evaluated by the compiler and at run time."""
import random, sys

TYPES = ["int", "long", "unsigned", "unsigned long", "float", "double", "long double", "f128", "bool"]
INTS = TYPES[:4]
SINT = TYPES[:2]
FPS = TYPES[4:8]
NP = 8  # parameters


class P:
    def __init__(self, r):
        self.r = r
        self.t = r.choice(TYPES + ["int", "double", "long", "unsigned"])
        self.fp, self.int, self.bool = self.t in FPS, self.t in INTS, self.t == "bool"
        self.real = not self.bool
        self.body = []
        self.k = 0

    def fresh(self, p):
        self.k += 1
        return p + str(self.k)

    def p(self):
        return "p[%d]" % self.r.randrange(NP)

    def idx(self, n):  # an index below n most of the time
        r = self.r
        x = r.random()
        if x < 0.92:
            return "ix(%s, %s)" % (self.p(), n)
        if x < 0.97:
            return self.p()
        return r.choice(["0", "1", n, "m1(%s)" % n])

    def cnt(self, n):  # a count up to n
        if self.r.random() < 0.94:
            return "cn(%s, %s)" % (self.p(), n)
        return self.p()

    def lit(self):
        return "V<T>(%s)" % self.p()

    def sc(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.15:
            k = r.randrange(9)
            if k <= 1: return "s"
            if k <= 3: return self.lit()
            if k == 4: return "A%s" % ("[%s]" if r.random() < 0.5 else ".at(%s)") % self.idx("A.size()")
            if k == 5: return "M%s(%s, %s)" % (r.choice(["", ".at"]), self.idx("M.rows()"), self.idx("M.cols()"))
            if k == 6: return "F[%s]" % self.idx("4")
            if k == 7: return "G(%s, %s)" % (self.idx("3"), self.idx("2"))
            return r.choice(["F[spp::last]", "A[spp::last]", "std::as_const(A)[%s]" % self.idx("A.size()"), "F.at(spp::last - %s)" % self.p(), "M(spp::last, %s)" % self.idx("M.cols()")])
        x, y = self.sc(d - 1), self.sc(d - 2)
        if self.bool:
            k = r.randrange(5)
            if k == 0: return "!(%s)" % x
            if k <= 2: return "(%s %s %s)" % (x, r.choice(["&&", "||", "^"]), y)
            return "(%s)" % self.cond(d - 1)
        k = r.randrange(17)
        if k <= 3: return "tame(%s %s %s)" % (x, r.choice(["+", "-", "*"]), y)
        if k == 4: return "tame(%s / %s)" % (x, y if r.random() < 0.3 and self.int else "nz(%s)" % y)
        if k == 5: return "spp::%s(%s)" % (r.choice(["abss", "squares", "signs"] if self.t not in ("unsigned", "unsigned long") else ["squares"]), x)
        if k == 6: return "spp::%s(%s, %s)" % (r.choice(["mins", "maxs"]), x, y)
        if k == 7 and self.int: return "spp::clamps(%s, %s, %s)" % (x, y, self.sc(0))
        if k == 8: return "tame(spp::sum(%s))" % self.e(d - 1)
        if k == 9: return "tame(spp::prod(%s))" % r.choice(["F(spp::place::firstN{%s})" % self.cnt("3"), "G.row(%s)" % self.idx("3")])
        if k == 10: return "spp::%s(%s)" % (r.choice(["min", "max"]), self.e(d - 1))
        if k == 11:
            u = r.choice([u for u in TYPES if u != "bool"])
            return "spp::strict_cast<T>(spp::strict_cast<%s>(%s))" % (u, "pos(%s)" % x)
        if k == 12:
            e = self.e1(d - 1)
            return "tame(spp::dot_prod(%s, %s))" % (e, e if r.random() < 0.93 else self.e1(0))
        if k == 13:
            return "tame(spp::polynomial(%s, V<T>(ix(%s, 4))))" % (r.choice(["F", "F(spp::place::reverse)", "A", "G.row(0)"]), self.p())
        if self.int:
            if k == 14: return "(%s %s %s)" % (x, "%", y if r.random() < 0.3 else "nz(%s)" % y)
            if k == 15: return "(%s %s %s)" % (x, r.choice(["&", "|", "^"]), y)
            return "tame(%s)" % r.choice(["(pos(%s) << V<T>(ix(%s, 5)))" % (x, self.p()), "(pos(%s) >> V<T>(ix(%s, 9)))" % (x, self.p()), "~%s" % x])
        if k == 14: return "spp::%s(%s)" % (r.choice(["norm_inf", "norm1"]), self.e(d - 1))
        if k == 15: return "spp::invs(nz(%s))" % x
        return r.choice(["spp::mean(%s)" % self.e(d - 1), "spp::abs_error(%s, %s)" % (x, y), "tame(spp::fast_pows_int(nz(%s), %s %% 4))" % (x, self.p())])

    def cond(self, d):
        r = self.r
        k = r.randrange(6)
        if k <= 1: return "%s %s %s" % (self.sc(d - 1), r.choice(["<", "<=", ">", ">=", "==", "!="]), self.sc(d - 1))
        if k == 2 and self.real: return "spp::%s(%s)" % (r.choice(["has_zero", "all_zeros", "all_pos", "all_neg", "all_non_pos", "all_non_neg"]), self.e(d - 1))
        if k == 3: return "spp::%s_of(%s, %s)" % (r.choice(["any", "all", "none"]), self.e(d - 1), self.sc(d - 1))
        if k == 4: return "spp::%s_of(%s, [c = %s](auto v) { return v >= c; })" % (r.choice(["any", "all", "none"]), self.e(d - 1), self.sc(d - 1))
        if self.real and r.random() < 0.5: return "spp::%s(%s, %s, %s)" % (r.choice(["in_open", "in_closed"]), self.sc(d - 1), self.sc(0), self.sc(0))
        return "%s == %s" % (self.sc(d - 1), self.sc(d - 1))

    def sel(self, n):
        r = self.r
        return r.choice(["spp::place::all", "spp::place::even", "spp::place::odd", "spp::place::reverse", "spp::place::firstN{%s}" % self.cnt(n), "spp::place::lastN{%s}" % self.cnt(n), "spp::place::skipN{ix(%s, 3) + 1}" % self.p(),
                         "spp::seqN{%s, %s}" % (self.idx(n), r.choice(["1", "1", "1", "1", self.cnt(n)])), "spp::seqN{%s, 1, -1}" % self.idx(n), "spp::seq{0, %s}" % self.idx(n), "spp::seq{m1(%s), 0, -1}" % n,
                         "{%s, %s}" % (self.idx(n), self.idx(n)), "{%s}" % self.idx(n), "spp::place::complement{{%s}}" % self.idx(n)])

    def e(self, d):
        return self.e1(d) if self.r.random() < 0.65 else self.e2(d)

    def e1(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.1:
            k = r.randrange(11)
            if k <= 2: return "A"
            if k == 3: return "F"
            if k <= 5: return "%s(%s)" % r.choice([("A", self.sel("A.size()")), ("F", self.sel("4")), ("std::as_const(A)", self.sel("A.size()"))])
            if k == 6: return "M.row(%s)" % self.idx("M.rows()")
            if k == 7: return "M.col(%s)" % self.idx("M.cols()")
            if k == 8: return "G.%s" % r.choice(["diag()", "row(%s)" % self.idx("3"), "col(%s)" % self.idx("2"), "diag(%s)" % r.choice(["1", "-1", "-2", self.p()]), "view1D()"])
            if k == 9: return "spp::const1D<T>(%s, %s)" % (self.p() if r.random() < 0.2 else "ix(%s, 5)" % self.p(), self.lit())
            return "M.view1D()"
        k = r.randrange(13)
        o = ["+", "-", "*"] if self.real else ["&&", "||", "^"]
        if k <= 2: return "(%s %s %s)" % (self.e1(d - 1), r.choice(o), self.sc(d - 2))
        if k == 3: return "(%s %s %s)" % (self.sc(d - 2), r.choice(o), self.e1(d - 1))
        if k == 4:
            e = self.e1(d - 1)
            return "(%s %s %s)" % (e, r.choice(o), e if r.random() < 0.9 else self.e1(d - 1))
        if k == 5: return "spp::generate(%s, [c = %s](auto v) { return c < v ? v : c; })" % (self.e1(d - 1), self.sc(0))
        if k == 6: return "spp::merge(%s, %s)" % (self.e1(d - 1), self.e1(0) if r.random() < 0.7 else self.sc(0))
        if k == 7: return "spp::exclude(%s, %s)" % (r.choice(["F", "A", "G.view1D()", self.e1(0)]), r.choice(["0", "spp::last", "ix(%s, 4)" % self.p(), self.p(), "0, 2"]))
        if k == 8: return "%s(%s)" % (self.slbase(d - 1), self.sel("2"))
        if k == 9 and self.real: return "spp::array_cast<T>(spp::array_cast<%s>(spp::generate(%s, [](auto v) { return pos(v); })))" % (r.choice(TYPES[:8]), self.e1(d - 1))
        if k == 10: return "spp::%s(%s, [](auto v) { return v[%s]; })" % (r.choice(["row_reduce", "col_reduce"]), self.e2(d - 1), r.choice(["0", "spp::last"]))
        if k == 11 and self.real:
            return r.choice(["spp::matvec_prod(G, %s)" % r.choice(["G.row(0)", "F(spp::place::firstN{2})", "F(spp::place::even)", "A(spp::place::firstN{cn(1, A.size())})"]), "spp::e_unit<T>(%s, 3)" % self.idx("3"), "spp::sequence<T>(ix(%s, 5), %s, %s)" % (self.p(), self.lit(), self.lit())]
                            + (["spp::linspace<T>(%s, V<T>(1), V<T>(3))" % (self.p() if r.random() < 0.3 else "ix(%s, 4) + 2" % self.p())] if self.fp else []))
        if k == 12 and self.real: return "(+%s)" % self.e1(d - 1) if self.t not in SINT + FPS else "(-%s)" % self.e1(d - 1)
        return self.e1(d - 1)

    def slbase(self, d):
        e = self.e1(d)
        return e if e != "A" and e != "F" else "%s.view1D()" % e

    def e2(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.15:
            k = r.randrange(9)
            if k <= 2: return "M"
            if k == 3: return "G"
            if k == 4: return "M.%s(%s)" % r.choice([("rows", self.sel("M.rows()")), ("cols", self.sel("M.cols()"))])
            if k == 5: return "M(%s, %s)" % (self.sel("M.rows()"), self.sel("M.cols()"))
            if k == 6: return "G.blockN(%s, %s, 1, %s)" % (self.idx("3"), r.choice(["0", "0", self.p()]), r.choice(["1", "2", "1", self.p()]))
            if k == 7: return "F.view2D(2, %s)" % r.choice(["2", "2", "2", "2", self.p()])
            return "spp::const2D<T>(%s, 2, %s)" % (self.p() if r.random() < 0.2 else "ix(%s, 3) + 1" % self.p(), self.lit())
        k = r.randrange(8)
        o = ["+", "-", "*"] if self.real else ["&&", "||", "^"]
        if k <= 1: return "(%s %s %s)" % (self.e2(d - 1), r.choice(o), self.sc(d - 2))
        if k == 2:
            e = self.e2(d - 1)
            return "(%s %s %s)" % (e, r.choice(o), e if r.random() < 0.9 else self.e2(d - 1))
        if k == 3: return "spp::transpose(%s)" % self.e2(d - 1)
        if k == 4:
            e = self.e2(0)
            return "spp::merge_%s(%s, %s)" % (r.choice(["horizontal", "vertical"]), e, e if r.random() < 0.9 else self.e2(0))
        if k == 5 and self.real: return r.choice(["spp::tensor_prod(%s, %s)" % (self.e1(0), r.choice(["F", "A", "G.row(0)"])), "spp::identity<T>(%s)" % (self.p() if r.random() < 0.2 else "ix(%s, 4)" % self.p())])
        if k == 6: return "spp::%s_broadcast(%s)" % (r.choice(["row", "col"]), self.e1(0))
        return "spp::generate(%s, [](auto v) { return v; })" % self.e2(d - 1)

    def lv1(self):
        r = self.r
        return r.choice(["A", "A", "A", "F", "A(%s)" % self.sel("A.size()"), "M.row(%s)" % self.idx("M.rows()"), "M.col(%s)" % self.idx("M.cols()"), "G.diag()", "F(%s)" % self.sel("4"), "M.view1D()"])

    def lv2(self):
        r = self.r
        return r.choice(["M", "M", "G", "M.rows(%s)" % self.sel("M.rows()"), "M(%s, %s)" % (self.sel("M.rows()"), self.sel("M.cols()"))])

    def stmt(self):
        r = self.r
        k = r.randrange(22)
        c = lambda: r.choice(["+=", "-=", "*="] if self.real else ["="])
        if k == 0: return "s = %s;" % self.sc(2)
        if k == 1: return "if(%s) s = %s; else s = %s;" % (self.cond(2), self.sc(1), self.sc(1))
        if k == 2: return "A.resize_and_assign(spp::generate(%s, [](auto v) { return tame(v); }));" % self.e1(2)
        if k == 3: return "A.resize(%s%s);" % ("ix(%s, 7)" % self.p() if r.random() < 0.8 else self.p(), r.choice(["", ", false", ", true"]))
        if k == 4: return "A.%s;" % r.choice(["insert(%s, %s)" % (self.cnt("A.size()"), self.sc(1)), "insert_front(%s)" % self.sc(1), "insert_back(%s)" % self.sc(1)])
        if k == 5: return "A.%s;" % r.choice(["insert(%s, F)" % self.cnt("A.size()"), "insert_back(%s)" % self.e1(0), "insert_front(%s)" % r.choice(["F", "G.row(1)", "A"])])
        if k == 6: return "A.%s;" % r.choice(["remove(%s)" % self.idx("A.size()"), "remove(%s, %s)" % (self.idx("A.size()"), r.choice(["1", "1", self.p()])), "remove_front(%s)" % self.cnt("A.size()"), "remove_back(%s)" % self.cnt("A.size()"), "remove({%s, %s})" % (self.idx("A.size()"), self.idx("A.size()"))])
        if k == 7: return "%s = %s;" % (self.lv1(), self.sc(2))
        if k == 8:
            l = self.lv1()
            return "%s = spp::generate(%s, [c = %s](auto v) { return v < c ? v : c; });" % (l, l if r.random() < 0.9 else self.e1(1), self.sc(1))
        if k == 9: return "%s %s %s;" % (self.lv1(), c(), self.sc(1))
        if k == 10:
            l = self.lv1()
            return "%s %s %s;" % (l, c(), l if r.random() < 0.85 else self.e1(0))
        if k == 11: return "%s[%s] = %s;" % (r.choice(["A", "F"]), self.idx("A.size()" if r.random() < 0.5 else "4"), self.sc(2))
        if k == 12: return "M(%s, %s) = %s;" % (self.idx("M.rows()"), self.idx("M.cols()"), self.sc(2))
        if k == 13: return "M.resize(ix(%s, 3) + 1, ix(%s, 3) + 1%s);" % (self.p(), self.p(), r.choice(["", ", false"]))
        if k == 14: return "M.%s;" % r.choice(["insert_row(%s, spp::const1D<T>(M.cols(), %s))" % (self.cnt("M.rows()"), self.lit()), "insert_col_back(spp::const1D<T>(M.rows(), s))", "insert_rows_front(G)", "insert_cols(%s, M)" % self.cnt("M.cols()"), "insert_row_front(%s)" % self.e1(0)])
        if k == 15: return "M.%s;" % r.choice(["remove_row(%s)" % self.idx("M.rows()"), "remove_col(%s)" % self.idx("M.cols()"), "remove_rows_front(%s)" % self.cnt("M.rows()"), "remove_cols({%s})" % self.idx("M.cols()"), "remove_rows(0, %s)" % self.cnt("M.rows()"), "remove_cols_back(%s)" % self.cnt("M.cols()")])
        if k == 16: return "%s = %s;" % (self.lv2(), self.sc(1))
        if k == 17:
            l = self.lv2()
            return "%s %s %s;" % (l, c(), l if r.random() < 0.85 else self.e2(0))
        if k == 18 and self.real: return "spp::%s(%s);" % (r.choice(["sort_increasing", "sort_decreasing"]), self.lv1())
        if k == 19: return r.choice(["{ auto B = A; B = V<T>(1); A.swap(B); o.all(B); }", "{ auto B = std::move(A); o.all(A); A.resize_and_assign(std::move(B)); }", "{ spp::Array1D<T, spp::Aligned> B(%s); o.all(B); }" % self.e1(1) if False else "{ spp::Array1D<T> B(A.begin(), A.end()); A = B; }",
                                             "{ spp::FixedArray1D<T, 4> B = F; B[0] = s; F = B; }", "{ spp::Array2D<T> B(M.view1D().view2D(M.cols(), M.rows())); M.swap(B); }", "{ spp::FixedArray2D<T, 3, 2> B(G); G = B; G = M; }"])
        if k == 20: return "spp::for_each(%s, [c = %s](auto& v) { v = tame(%s); });" % (self.lv1(), self.sc(1), "v + c" if self.real else "v ^ c")
        return r.choice(["for(auto& v : %s) v = tame(v);" % r.choice(["A", "F", "M"]), "for(auto v : %s) { if(v != s) s = tame(%s); }" % (r.choice(["A", "F", "M.view1D()"]), "s + v" if self.real else "s || v"),
                         "{ auto it = A.%s(); for(; it != A.%s(); ++it) o.put(*it); }" % r.choice([("begin", "end"), ("cbegin", "cend"), ("rbegin", "rend"), ("crbegin", "crend")]), "{ auto B = %s.eval(); o.all(B); }" % self.e(1)])

    def out(self):
        r = self.r
        k = r.randrange(8)
        if k == 0: return "o.put(%s);" % self.sc(3)
        if k <= 3: return "o.all(%s);" % self.e1(3)
        if k == 4: return "o.all(%s);" % self.e2(2)
        if k == 5: return "o.bit(%s);" % self.cond(3)
        if k == 6 and self.real: return "o.num(spp::%s_index(%s).first);" % (r.choice(["min", "max"]), self.e1(1))
        return "o.num(%s);" % r.choice(["%s.size()" % self.e1(2), "%s.rows()" % self.e2(1), "spp::in_closed_range(F, V<T>(0), V<T>(3)).size()" if self.real else "A.size()", "spp::factorial(%s)" % self.p(), "spp::binom_coeff(%s + 6, %s)" % (self.p(), self.p())])


def program(r, name):
    g = P(r)
    out = ["template <class T>", "constexpr Out<T> %s(const long* p) {" % name,
           "   Out<T> o;",
           "   spp::Array1D<T> A(ix(p[0], 6)); spp::Array2D<T> M(ix(p[1], 3) + 1, ix(p[2], 3) + 1); spp::FixedArray1D<T, 4> F; spp::FixedArray2D<T, 3, 2> G; auto s = V<T>(p[3]);",
           "   fill(A, p, 0); fill(M, p, 1); fill(F, p, 2); fill(G, p, 3);"]
    lines = []
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        st = g.stmt()
        lines.append(st + " tame_all(A); tame_all(M); tame_all(F); tame_all(G);")
    for _ in range(r.choice([1, 1, 2])):
        lines.append(g.out())
    out += ["   " + l for l in lines]
    out += ["   o.num(A.size()); o.num(M.rows()); o.num(M.cols()); o.all(A); o.all(M); o.all(F); o.all(G); o.put(s);", "   return o;", "}"]
    sets = []
    for _ in range(r.choice([4, 6])):
        sets.append("Par<%s>" % ", ".join(str(r.choice([0, 0, 1, 1, 2, 2, 3, 3, 4, 5, r.randint(-9, 20)])) for _ in range(NP)))
    out.append("PROP(%s_run, 1) {" % name)
    text = " ".join(lines).replace(" tame_all(A); tame_all(M); tame_all(F); tame_all(G);", "").replace("\\", "").replace('"', "'")
    out.append('   s.note("%s: %s");' % (g.t, text))
    out.append("   both<%s, &%s<%s>, %s>(s);" % (g.t, name, g.t, ", ".join(sets)))
    out.append("}")
    return "\n".join(out), len(text)


def write(path, seed, count, prefix):
    rnd = random.Random(seed)
    with open(path, "w") as f:
        f.write('#include "c23.hpp"\n')
        k = 0
        while k < count:
            txt, n = program(rnd, "%s_%d" % (prefix, k))
            if n > 1100:
                continue
            f.write(txt + "\n")
            k += 1


if __name__ == "__main__":
    write(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
