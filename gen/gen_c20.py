#!/usr/bin/env python3
"""Random nestings of operations on temporary views and expressions (C20): the expression is built in a function that returns it, so that every temporary and every local view
is gone when it is used, and compared with the same text evaluated within one full expression."""
import random, sys

S1 = ["reverse", "even", "all"]


class G:
    # what the elementwise operations are
    BINARY = ["+", "-", "*"]
    SCALAR = ["(%s * %s)", "(%s + %s)"]
    UNARY = ["+", "-"]
    GEN1 = "[c = %s](auto v) { return v + c; }"
    GEN2 = "[c = %s](auto v, auto w) { return v + c * w; }"
    ROWS = "[c = %s](auto v) { return v[0] + c; }"
    COLS = "[c = %s](auto v) { return v[spp::last] * c; }"
    PRODUCTS = True

    def __init__(self, rnd, t):
        self.r, self.t = rnd, t
        self.decl, self.arrays, self.locals = [], [], []
        self.k = 0
        self.feats = set()

    def fresh(self, p):
        self.k += 1
        return p + str(self.k)

    def scalar(self):
        return "c%d" % self.r.randrange(3)

    def arr1(self, n, any_owner=True):
        r = self.r
        have = [a for a in self.arrays if a[1] == (n,)]
        if have and r.random() < 0.4:
            return r.choice(have)[0]
        a = self.fresh("a")
        k = r.randrange(4)
        ty = ["spp::Array1D<T> %s(%d);", "spp::Array1D<T, spp::Aligned> %s(%d);", "spp::FixedArray1D<T, %d> %s;", "spp::FixedArray1D<T, %d, spp::Aligned> %s;"][k]
        self.decl.append(ty % ((n, a) if k > 1 else (a, n)) + " fill(s, %s);" % a)
        self.arrays.append((a, (n,)))
        return a

    def arr2(self, m, n):
        r = self.r
        have = [a for a in self.arrays if a[1] == (m, n)]
        if have and r.random() < 0.4:
            return r.choice(have)[0]
        a = self.fresh("m")
        k = r.randrange(4)
        ty = ["spp::Array2D<T> %s(%d, %d);", "spp::Array2D<T, spp::Aligned> %s(%d, %d);", "spp::FixedArray2D<T, %d, %d> %s;", "spp::FixedArray2D<T, %d, %d, spp::Aligned> %s;"][k]
        self.decl.append(ty % ((m, n, a) if k > 1 else (a, m, n)) + " fill(s, %s);" % a)
        self.arrays.append((a, (m, n)))
        return a

    def cst(self, a):
        return "std::as_const(%s)" % a if self.r.random() < 0.25 else a

    # a selection of k out of n positions: text
    def sel(self, n, k):
        r = self.r
        opts = ["list"] * 2
        if k == n:
            opts += ["spp::place::all", "spp::place::reverse", "spp::place::firstN{%d}" % k, "spp::place::skipN{1}"]
        if n == 2 * k or n == 2 * k - 1:
            opts += ["spp::place::even", "spp::place::skipN{2}"]
        if k and (n == 2 * k or n == 2 * k + 1):
            opts.append("spp::place::odd")
        if k < n:
            opts += ["spp::place::firstN{%d}" % k, "spp::place::lastN{%d}" % k]
            if n - k <= 3:
                out = sorted(r.sample(range(n), n - k))
                opts.append("spp::place::complement{{%s}}" % ", ".join(map(str, out)))
        if k:
            o = r.randrange(n - k + 1)
            opts += ["spp::seqN{%d, %d}" % (o, k), "spp::seqN{%d, %d, -1}" % (o + k - 1, k), "spp::seq{%d, %d}" % (o, o + k - 1)]
        c = r.choice(opts)
        if c == "list":
            return "{%s}" % ", ".join(str(r.randrange(n)) for _ in range(k)) if k else "spp::place::firstN{0}"
        return c

    def some_sel(self, n, k):  # usable as the only argument of operator(): a list needs a type there
        return self.sel(n, k)

    def big(self, n):
        return n + self.r.choice([0, 0, 1, 2])

    # a 1D view or expression of n elements that is not an owning array
    def one(self, n, d):
        r, f = self.r, self.feats
        loc = [l for l in self.locals if l[1] == (n,)]
        if loc and r.random() < 0.25:
            f.add("local view")
            return r.choice(loc)[0]
        if d <= 0 or r.random() < 0.1:
            k = r.randrange(9)
            if k <= 1:
                b = self.big(n)
                f.add("slice")
                return "%s(%s)" % (self.cst(self.arr1(b)), self.sel(b, n))
            if k == 2:
                m = r.randint(1, 3)
                f.add("row")
                return "%s.row(%d)" % (self.cst(self.arr2(m, n)), r.randrange(m))
            if k == 3:
                m = r.randint(1, 3)
                f.add("col")
                return "%s.col(%d)" % (self.cst(self.arr2(n, m)), r.randrange(m))
            if k == 4:
                f.add("diag")
                x = r.randint(0, 2)
                return "%s.diag(%d)" % ((self.cst(self.arr2(n, n + x)), r.choice([0, x]) if x else 0) if r.random() < 0.5 else (self.cst(self.arr2(n + x, n)), -r.choice([0, x]) if x else 0))
            if k == 5 and n % 2 == 0:
                f.add("view1D")
                return "%s.view1D()" % self.cst(self.arr2(2, n // 2))
            if k == 6:
                return "spp::const1D<T>(%d, %s)" % (n, self.scalar())
            if k == 7:
                f.add("attached")
                p = self.fresh("p")
                self.decl.append("spp::Array1D<T> %sa(%d); fill(s, %sa); auto* %s = raw(%sa);" % (p, n, p, p, p))
                self.arrays.append((p + "a", None))
                return "spp::attach1D(%s, %d)" % (p, n)
            return "spp::sequence<T>(%d, %s, %s)" % (n, self.scalar(), self.scalar())
        k = r.randrange(22)
        if k <= 4:
            op = r.choice(self.BINARY)
            f.add("binary")
            return "(%s %s %s)" % (self.operand1(n, d - 1), op, self.operand1(n, r.choice([d - 1, 0])))
        if k == 5:
            f.add("scalar operand")
            e = self.operand1(n, d - 1)
            return r.choice(self.SCALAR) % ((e, self.scalar()) if r.random() < 0.5 else (self.scalar(), e))
        if k == 6:
            f.add("unary")
            return "(%s%s)" % (r.choice(self.UNARY) if self.t != "unsigned" else "+", self.operand1(n, d - 1))
        if k == 7:
            f.add("generate")
            return "spp::generate(%s, %s)" % (self.operand1(n, d - 1), self.GEN1 % self.scalar())
        if k == 8:
            f.add("generate2")
            return "spp::generate(%s, %s, %s)" % (self.operand1(n, d - 1), self.operand1(n, d - 1), self.GEN2 % self.scalar())
        if k == 9:
            f.add("array_cast")
            return "spp::array_cast<T>(spp::array_cast<long>(%s))" % self.operand1(n, d - 1)
        if k <= 12:
            b = self.big(n)
            f.add("slice of an expression")
            return "%s(%s)" % (self.one(b, d - 1), self.sel(b, n))
        if k == 13 and n > 1:
            a = r.randrange(1, n)
            f.add("merge")
            x, y = self.operand1(a, d - 1), self.operand1(n - a, d - 1)
            if a == 1 and r.random() < 0.5:
                x = self.scalar()
            elif n - a == 1 and r.random() < 0.5:
                y = self.scalar()
            return "spp::merge(%s, %s)" % (x, y)
        if k == 14:
            c = r.randint(1, 2)
            f.add("exclude")
            return "spp::exclude(%s, %d, %d)" % (self.operand1(n + c, d - 1), r.randint(0, n), c)
        if k == 15:
            m = r.randint(1, 3)
            f.add("row of an expression")
            return "%s.row(%d)" % (self.two(m, n, d - 1), r.randrange(m))
        if k == 16:
            m = r.randint(1, 3)
            f.add("column of an expression")
            return "%s.col(%d)" % (self.two(n, m, d - 1), r.randrange(m))
        if k == 17:
            f.add("diagonal of an expression")
            return "%s.diag()" % self.two(n, n + r.randint(0, 1), d - 1)
        if k == 18:
            m = r.randint(1, 3)
            f.add("row_reduce")
            return "spp::row_reduce(%s, %s)" % (self.operand2(n, m, d - 1), self.ROWS % self.scalar())
        if k == 19:
            m = r.randint(1, 3)
            f.add("col_reduce")
            return "spp::col_reduce(%s, %s)" % (self.operand2(m, n, d - 1), self.COLS % self.scalar())
        if k == 20 and self.PRODUCTS:
            m = r.randint(1, 3)
            f.add("matvec_prod")
            return "spp::matvec_prod(%s, %s)" % (self.operand2(n, m, d - 1), self.operand1(m, d - 1))
        if n % 2 == 0:
            f.add("view1D of an expression")
            return "%s.view1D()" % (self.two(2, n // 2, d - 1))
        return "%s.view1D()" % self.one(n, d - 1)

    def operand1(self, n, d):
        if self.r.random() < 0.2:
            return self.cst(self.arr1(n))
        return self.one(n, d)

    def operand2(self, m, n, d):
        if self.r.random() < 0.2:
            return self.cst(self.arr2(m, n))
        return self.two(m, n, d)

    def two(self, m, n, d):
        r, f = self.r, self.feats
        loc = [l for l in self.locals if l[1] == (m, n)]
        if loc and r.random() < 0.25:
            f.add("local view")
            return r.choice(loc)[0]
        if d <= 0 or r.random() < 0.1:
            k = r.randrange(8)
            b, c = self.big(m), self.big(n)
            if k == 0:
                return "%s.rows(%s)" % (self.cst(self.arr2(b, n)), self.sel(b, m))
            if k == 1:
                return "%s.cols(%s)" % (self.cst(self.arr2(m, c)), self.sel(c, n))
            if k <= 3:
                f.add("2D slice")
                return "%s(%s, %s)" % (self.cst(self.arr2(b, c)), self.sel(b, m), self.sel(c, n))
            if k == 4:
                f.add("block")
                return "%s.blockN(%d, %d, %d, %d)" % (self.cst(self.arr2(b, c)), r.randrange(b - m + 1), r.randrange(c - n + 1), m, n)
            if k == 5:
                return "%s.view2D(%d, %d)" % (self.cst(self.arr1(m * n)), m, n)
            if k == 6:
                f.add("attached")
                p = self.fresh("p")
                self.decl.append("spp::Array1D<T> %sa(%d); fill(s, %sa); auto* %s = raw(%sa);" % (p, m * n, p, p, p))
                return "spp::attach2D(%s, %d, %d)" % (p, m, n)
            return "spp::const2D<T>(%d, %d, %s)" % (m, n, self.scalar())
        k = r.randrange(17)
        if k <= 3:
            f.add("2D binary")
            return "(%s %s %s)" % (self.operand2(m, n, d - 1), r.choice(self.BINARY), self.operand2(m, n, r.choice([d - 1, 0])))
        if k == 4:
            e = self.operand2(m, n, d - 1)
            return r.choice(self.SCALAR) % ((e, self.scalar()) if r.random() < 0.5 else (self.scalar(), e))
        if k == 5:
            return "spp::generate(%s, %s)" % (self.operand2(m, n, d - 1), self.GEN1 % self.scalar())
        if k == 6:
            return "spp::array_cast<T>(spp::array_cast<long>(%s))" % self.operand2(m, n, d - 1)
        if k <= 8:
            f.add("transpose")
            return "spp::transpose(%s)" % self.operand2(n, m, d - 1)
        if k == 9 and n > 1:
            f.add("merge_horizontal")
            a = r.randrange(1, n)
            return "spp::merge_horizontal(%s, %s)" % (self.operand2(m, a, d - 1), self.operand2(m, n - a, d - 1))
        if k == 10 and m > 1:
            f.add("merge_vertical")
            a = r.randrange(1, m)
            return "spp::merge_vertical(%s, %s)" % (self.operand2(a, n, d - 1), self.operand2(m - a, n, d - 1))
        if k == 11 and self.PRODUCTS:
            f.add("tensor_prod")
            return "spp::tensor_prod(%s, %s)" % (self.operand1(m, d - 1), self.operand1(n, d - 1))
        if k == 12 and m == n:
            f.add("broadcast")
            return "spp::%s(%s)" % (r.choice(["row_broadcast", "col_broadcast"]), self.operand1(n, d - 1))
        if k == 13:
            f.add("view2D of an expression")
            return "%s.view2D(%d, %d)" % (self.one(m * n, d - 1), m, n)
        b, c = self.big(m), self.big(n)
        f.add("2D slice of an expression")
        if k == 14:
            return "%s.rows(%s)" % (self.two(b, n, d - 1), self.sel(b, m))
        if k == 15:
            return "%s.cols(%s)" % (self.two(m, c, d - 1), self.sel(c, n))
        return "%s(%s, %s)" % (self.two(b, c, d - 1), self.sel(b, m), self.sel(c, n))


def prop(r, name):
    t = r.choice(["unsigned", "long", "double"])
    g = G(r, t)
    two = r.random() < 0.4
    d = r.choice([1, 2, 2, 3, 3, 4])
    lets = []
    dims = (r.randint(1, 4), r.randint(1, 4)) if two else (r.randint(1, 6),)
    for _ in range(r.choice([0, 0, 1, 2])):
        if r.random() < 0.5:
            n = r.choice([dims[-1], r.randint(1, 5)])
            e, sh = g.one(n, r.choice([0, 1, 2])), (n,)
        else:
            sh = dims if two and r.random() < 0.6 else (r.randint(1, 4), r.randint(1, 4))
            e = g.two(sh[0], sh[1], r.choice([0, 1]))
        l = g.fresh("l")
        lets.append("auto %s = %s;" % (l, e))
        g.locals.append((l, sh))
    e = g.two(dims[0], dims[1], d) if two else g.one(dims[0], d)
    out = ["PROP(%s, 1) {" % name]
    W = out.append
    W("   using T = %s;" % t)
    W("   // clang-format off")
    for x in g.decl:
        W("   " + x)
    W('   s.note("%s");' % (" ".join(lets) + " " + e).strip().replace("\\", "").replace('"', "'"))
    lab = r.sample(sorted(g.feats), min(2, len(g.feats)))
    for l in lab:
        W('   s.label("%s");' % l)
    W("   s.nontrivial();")
    cs = "auto c0 = scal<T>(%s), c1 = scal<T>(%s), c2 = scal<T>(%s);" % tuple(r.choice(["x0", "x1", "x2"]) for _ in range(3))
    W("   auto x0 = s.range(1, 3), x1 = s.range(0, 2), x2 = s.range(1, 2);")
    W("   auto make = [&]() { %s %s return %s; };" % (cs, " ".join(lets), e))
    W("   auto want = [&] { %s %s return val(%s); };" % (cs, " ".join(lets), e))
    W("   %s v = want();" % ("Val<T, true>" if two else "Val<T, false>"))
    W("   REQ(v.fits(%s), \"shape of the expression\");" % ", ".join(map(str, dims)))
    ways = ["elements", "copies", "heap", "iterate", "derived", "combined", "owned"]
    for w in r.sample(ways, 2):
        W("   %s(s, make, v);" % w)
    owners = [a[0] for a in g.arrays]
    if owners:
        W("   auto E = make();")
        W("   stomp();")
        for a in r.sample(owners, min(2, len(owners))):
            W("   fill(s, %s);" % a)
        W("   v = want();")
        W("   stomp();")
        W("   v.eq(val(E), \"after the arrays changed\");")
    W("}")
    return "\n".join(out), len(e) + sum(map(len, lets))


def write(path, seed, count, prefix):
    rnd = random.Random(seed)
    with open(path, "w") as f:
        f.write('#include "c20.hpp"\n')
        k = 0
        while k < count:
            txt, n = prop(rnd, "%s_%d" % (prefix, k))
            if n > 900 or n < 30:
                continue
            f.write(txt + "\n")
            k += 1


if __name__ == "__main__":
    write(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
