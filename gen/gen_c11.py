#!/usr/bin/env python3
"""Random expression programs (C11): each is a property over random operand data."""
import random, sys

REALS = ["int", "long", "unsigned", "unsigned long", "float", "double", "long double", "f128"]
INTS = REALS[:4]
FPS = REALS[4:]


class G:
    def __init__(self, rnd, two):
        self.r, self.two = rnd, two
        self.decl, self.ops, self.lets, self.consts, self.pokes = [], [], [], [], []
        self.k = 0

    def fresh(self, p):
        self.k += 1
        return p + str(self.k)

    # operand of type t: returns (library code, model code)
    def operand(self, t):
        r = self.r
        if self.ops and r.random() < 0.35:
            same = [o for o in self.ops if o[0] == t]
            if same:
                o = r.choice(same)
                return o[1], o[2]
        a, b = self.fresh("a"), self.fresh("b")
        D = self.decl.append
        inline = None
        poke = b
        if not self.two:
            kind = r.randrange(15)
            if t == "bool" and kind == 9: kind = 0
            dim = "n + d(%s)" % ("k%d" % len(self.ops))
            D("long %s_n = n + (bad == %d ? 1 : 0);" % (b, len(self.ops)))
            n = "%s_n" % b
            A = "spp::Array1D<%s>" % t
            if kind == 0: D("%s %s(%s); rnd(s, %s); auto& %s = %s;" % (A, b, n, b, a, b))
            elif kind == 1: D("spp::Array1D<%s, spp::Aligned> %s(%s); rnd(s, %s); auto& %s = %s;" % (t, b, n, b, a, b))
            elif kind == 2: D("%s %s(%s); rnd(s, %s); const auto& %s = %s;" % (A, b, n, b, a, b))
            elif kind == 3:
                D("%s %s(2 * %s + 1); rnd(s, %s);" % (A, b, n, b)); inline = "%s(spp::seqN{1, %s, 2})" % (b, n)
            elif kind == 4:
                D("%s %s(%s); rnd(s, %s);" % (A, b, n, b)); inline = "%s(spp::place::reverse)" % b
            elif kind == 5:
                D("%s %s(%s + 1); rnd(s, %s); auto %s_l = s.perm(%s + 1); %s_l.resize(static_cast<std::size_t>(%s));" % (A, b, n, b, b, n, b, n))
                inline = "%s(o::il(%s_l))" % (b, b)
            elif kind == 6:
                D("spp::Array2D<%s> %s(2, %s + 1); rnd(s, %s);" % (t, b, n, b)); inline = "%s.row(1)(spp::place::lastN{%s})" % (b, n)
            elif kind == 7:
                D("spp::Array2D<%s> %s(%s + 1, 2); rnd(s, %s);" % (t, b, n, b)); inline = "%s.col(1)(spp::place::firstN{%s})" % (b, n)
            elif kind == 8:
                D("spp::Array2D<%s> %s(%s + 1, %s + 1); rnd(s, %s);" % (t, b, n, n, b)); inline = "%s.diag()(spp::place::firstN{%s})" % (b, n)
            elif kind == 9:
                D("std::vector<%s> %s_m(static_cast<std::size_t>(%s + 1)); auto* %s_p = %s_m.data(); auto %s = spp::attach1D(%s_p, %s); rnd(s, %s); auto& %s = %s;" % (t, b, n, b, b, b, b, n, b, a, b))
            elif kind == 10:
                D("%s %s(%s); rnd(s, %s);" % (A, b, n, b)); inline = "generate(%s, [](auto x) { return x; })" % b
            elif kind == 11:
                D("%s %s(%s / 2), %s_2(%s - %s / 2); rnd(s, %s); rnd(s, %s_2);" % (A, b, n, b, n, n, b, b)); inline = "merge(%s, %s_2)" % (b, b)
            elif kind == 12:
                D("%s %s(%s + 2); rnd(s, %s);" % (A, b, n, b)); inline = "exclude(%s, %s > 0 ? 1 : 0, 2)" % (b, n)
                D("if(%s < 0) return;" % n)
            elif kind == 13:
                if t == "bool":
                    D("%s %s(%s); rnd(s, %s); auto& %s = %s;" % (A, b, n, b, a, b))
                else:
                    D("auto %s_s = mk(elem<%s>(s)), %s_i = mk(elem<%s>(s));" % (b, t, b, t)); inline = "spp::sequence<%s>(%s, %s_s, %s_i)" % (t, n, b, b)
                    poke = None
            else:
                D("auto %s_c = mk(elem<%s>(s));" % (b, t)); inline = "spp::const1D<%s>(%s, %s_c)" % (t, n, b)
                poke = None
        else:
            kind = r.randrange(11)
            if t == "bool" and kind == 6: kind = 0
            i = len(self.ops)
            # a wrong shape: one more column, or rows and columns exchanged
            D("long %s_m = bad == %d && swap ? n : m, %s_n = bad == %d ? (swap ? m : n + 1) : n;" % (b, i, b, i))
            m, n = b + "_m", b + "_n"
            A = "spp::Array2D<%s>" % t
            if kind == 0: D("%s %s(%s, %s); rnd(s, %s); auto& %s = %s;" % (A, b, m, n, b, a, b))
            elif kind == 1: D("spp::Array2D<%s, spp::Aligned> %s(%s, %s); rnd(s, %s); const auto& %s = %s;" % (t, b, m, n, b, a, b))
            elif kind == 2:
                D("%s %s(2 * %s, %s + 1); rnd(s, %s);" % (A, b, m, n, b)); inline = "%s(spp::place::odd, spp::seqN{%s, %s, -1})" % (b, n, n)
            elif kind == 3:
                D("%s %s(%s, %s); rnd(s, %s); auto %s_l = s.perm(%s);" % (A, b, m, n, b, b, m)); inline = "%s.rows(o::il(%s_l))" % (b, b)
            elif kind == 4:
                D("%s %s(%s, %s); rnd(s, %s);" % (A, b, n, m, b)); inline = "transpose(%s)" % b
            elif kind == 5:
                D("spp::Array1D<%s> %s(%s * %s); rnd(s, %s);" % (t, b, m, n, b)); inline = "%s.view2D(%s, %s)" % (b, m, n)
            elif kind == 6:
                D("std::vector<%s> %s_v(static_cast<std::size_t>(%s * %s + 1)); auto* %s_p = %s_v.data(); auto %s = spp::attach2D(%s_p, %s, %s); rnd(s, %s); auto& %s = %s;" % (t, b, m, n, b, b, b, b, m, n, b, a, b))
            elif kind == 7:
                D("%s %s(1, %s), %s_2(%s - 1, %s - 1 ? %s : 0); rnd(s, %s); rnd(s, %s_2);" % (A, b, n, b, m, m, n, b, b)); inline = "merge_vertical(%s, %s_2)" % (b, b)
            elif kind == 8:
                D("%s %s(%s, 1), %s_2(%s - 1 ? %s : 0, %s - 1); rnd(s, %s); rnd(s, %s_2);" % (A, b, m, b, n, m, n, b, b)); inline = "merge_horizontal(%s_2, %s)" % (b, b)
            elif kind == 9:
                D("%s %s(%s, %s); rnd(s, %s);" % (A, b, m, n, b)); inline = "generate(%s, [](auto x) { return x; })" % b
            else:
                D("auto %s_c = mk(elem<%s>(s));" % (b, t)); inline = "spp::const2D<%s>(%s, %s, %s_c)" % (t, m, n, b)
                poke = None
        if inline:
            D("auto %s = %s;" % (a, inline))
        if poke:
            self.pokes.append(poke)
        code = inline if inline and r.random() < 0.4 else a
        mod = "M<%s>(%s.un(i))" % (t, a)
        self.ops.append((t, a if r.random() < 0.5 else code, mod, a))
        return code, mod

    def const(self, t):
        c = self.fresh("c")
        self.decl.append("auto %s = mk(elem<%s>(s));" % (c, t))
        return c, "M<%s>(%s)" % (t, c)

    def expr(self, t, depth):
        r = self.r
        if depth == 0 or r.random() < 0.08:
            return self.operand(t)
        if r.random() < 0.12:  # shared subexpression
            same = [l for l in self.lets if l[0] == t]
            if same and r.random() < 0.6:
                l = r.choice(same)
                return l[1], l[2]
            L, Mo = self.expr(t, depth - 1)
            if L.isidentifier():  # a local copy of an array would not outlive the expression
                return L, Mo
            n = self.fresh("t")
            self.lets.append((t, n, Mo, L))
            return n, "(%s)" % Mo
        choice = r.random()
        if t == "bool":
            if choice < 0.2:
                L, Mo = self.expr(t, depth - 1)
                return "!(%s)" % L, "!(%s)" % Mo
            op = r.choice(["&&", "||", "^"])
            return self.binary(t, op, depth)
        if choice < 0.5:
            return self.binary(t, r.choice(["+", "-", "*", "+", "-", "*", "/"]), depth)
        if t in INTS:
            if choice < 0.72:
                op = r.choice(["%", "&", "|", "^", "<<", ">>", "/"])
                if op in ("<<", ">>"):
                    L, Mo = self.expr(t, depth - 1)
                    c = self.fresh("c")
                    self.decl.append("auto %s = mk(static_cast<%s>(s.range(0, 7)));" % (c, t))
                    if r.random() < 0.5:
                        return "((%s) %s %s)" % (L, op, c), "((%s) %s M<%s>(%s))" % (Mo, op, t, c)
                    R, MR = self.expr(t, 0)
                    return "((%s) %s ((%s) & %s))" % (L, op, R, c), "((%s) %s ((%s) & M<%s>(%s)))" % (Mo, op, MR, t, c)
                if op in ("%", "/"):
                    L, Mo = self.expr(t, depth - 1)
                    c = self.fresh("c")
                    self.decl.append("auto %s = mk(static_cast<%s>(s.range(1, 9)));" % (c, t))
                    if r.random() < 0.5:
                        return "((%s) %s %s)" % (L, op, c), "((%s) %s M<%s>(%s))" % (Mo, op, t, c)
                    R, MR = self.expr(t, depth - 1)
                    return "((%s) %s ((%s) | %s))" % (L, op, R, c), "((%s) %s ((%s) | M<%s>(%s)))" % (Mo, op, MR, t, c)
                return self.binary(t, op, depth)
            if choice < 0.86:
                L, Mo = self.expr(t, depth - 1)
                op = r.choice(["~", "+", "-", "abs"] if t in ("int", "long") else ["~", "+"])
                return "%s(%s)" % (op, L), "%s(%s)" % (op, Mo)
        elif choice < 0.86:
            L, Mo = self.expr(t, depth - 1)
            f = r.choice(["+", "-", "abs", "exp", "log", "log2", "log10", "sqrt", "cbrt", "sin", "cos", "tan", "inv", "pow", "pow_int", "fast_pow_int", "+", "-", "abs", "abs", "sqrt"])
            if f in ("log", "log2", "log10", "sqrt"):
                L, Mo = "abs(%s)" % L, "abs(%s)" % Mo
            if f == "pow":
                c = self.fresh("c")
                self.decl.append("auto %s = mk(elem<%s>(s));" % (c, t))
                return "pow(abs(%s), %s)" % (L, c), "pow(abs(%s), %s)" % (Mo, c)
            if f in ("pow_int", "fast_pow_int"):
                c = self.fresh("c")
                self.decl.append("long %s = s.range(0, 8) - 4;" % c)
                return "%s(%s, %s)" % (f, L, c), "%s(%s, %s)" % (f, Mo, c)
            return "%s(%s)" % (f, L), "%s(%s)" % (f, Mo)
        if choice < 0.93:  # conversion
            u = r.choice([x for x in REALS if x != t])
            L, Mo = self.expr(u, depth - 1)
            return "spp::array_cast<%s>(%s)" % (t, L), "array_cast<%s>(%s)" % (t, Mo)
        L, Mo = self.expr(t, depth - 1)  # user's function
        if r.random() < 0.5:
            c, f = self.fresh("c"), self.fresh("f")
            self.decl.append("auto %s = mk(elem<%s>(s)); auto %s = [%s](auto x) { return x < %s ? %s : x; };" % (c, t, f, c, c, c))
            return "user(%s, %s)" % (L, f), "user(%s, %s)" % (Mo, f)
        R, MR = self.expr(t, depth - 1)
        f = self.fresh("f")
        self.decl.append("auto %s = [](auto x, auto y) { return x < y ? y : x; };" % f)
        return "user2(%s, %s, %s)" % (L, R, f), "user2(%s, %s, %s)" % (Mo, MR, f)

    def binary(self, t, op, depth):
        r = self.r
        k = r.randrange(6)
        if k == 0:
            c, mc = self.const(t)
            R, MR = self.expr(t, depth - 1)
            if op in ("/", "%") and t in INTS:
                op = "-"
            return "(%s %s (%s))" % (c, op, R), "(%s %s (%s))" % (mc, op, MR)
        if k == 1:
            c, mc = self.const(t)
            L, Mo = self.expr(t, depth - 1)
            if op in ("/", "%") and t in INTS:
                op = "-"
            return "((%s) %s %s)" % (L, op, c), "((%s) %s %s)" % (Mo, op, mc)
        L, Mo = self.expr(t, depth - 1)
        R, MR = self.expr(t, depth - 1 if r.random() < 0.6 else 0)
        return "((%s) %s (%s))" % (L, op, R), "((%s) %s (%s))" % (Mo, op, MR)


USES = ["index", "iterate", "eval", "construct", "assign", "compounds", "copy", "sub", "nest"]


def prop(rnd, name):
    two = rnd.random() < 0.35
    g = G(rnd, two)
    t = rnd.choice(REALS + ["bool", "double", "int"])
    while True:
        L, Mo = g.expr(t, rnd.choice([1, 2, 2, 3, 3, 4]))
        if not L.isidentifier():
            break
        g = G(rnd, two)
    out = ["PROP(%s, 1) {" % name]
    W = out.append
    nops = len(g.ops)
    W("   // %s" % L.replace("\\", ""))
    if two:
        W("   long m = s.range(1, 4), n = s.range(1, 4); bool swap = m != n && s.coin();")
    else:
        W("   long n = s.range(0, 7);")
    multi = nops > 1
    W("   int bad = %s;" % ("s.chance(1, 8) ? static_cast<int>(s.below(%d)) : -1" % nops if multi else "-1"))
    W("   using T = %s;" % t)
    W('   s.note("%s");' % L.replace('"', "'").replace("\\", ""))
    for d in g.decl:
        W("   " + d)
    lets = "".join(" auto %s = %s;" % (n, c) for (_, n, _, c) in g.lets)
    W("   auto make = [&] {%s return %s; };" % (lets, "(%s)" % L if not L.startswith("(") else L))
    W("   auto model = [&](long i) -> M<T> { return %s; };" % Mo)
    used = sorted(set(range(nops)))
    # a size mismatch only matters if the bad operand is combined with another one
    W("   if(bad >= 0) {")
    W("      bool rej = rejected([&] { auto E = make(); (void)E; });")
    W('      REQ(rej, "operands of different sizes were combined");')
    W('      s.nontrivial(); s.label("mismatching sizes");')
    W("      return;")
    W("   }")
    size = "m * n" if two else "n"
    W("   std::vector<T> v;")
    W("   bool ok = expected<T>(model, %s, v);" % size)
    W("   if(!ok) return;")
    W("   s.nontrivial(%s > 1);" % size)
    W("   auto E = make();")
    W("   Want<T> w{s, %s, v};" % ("m, n" if two else "n, -1"))
    W('   s.note("values ", str(v));')
    uses = rnd.sample([u for u in USES if not (t == "bool" and u == "compounds")], 2)
    pokes = g.pokes
    for p in pokes:
        W("   auto %s_before = rd(%s);" % (p, p))
    for u in uses:
        W("   w.%s(E);" % u)
    for p in pokes:
        W('   REQ(same(rd(%s), %s_before), "operand was modified");' % (p, p))
    if pokes:
        W("   alter(s, %s);" % rnd.choice(pokes))
        W("   if(!expected<T>(model, %s, w.v)) return;" % size)
        W("   w.index(E);")
    W("}")
    return "\n".join(out), nops


def connected(code):
    return True


def write(path, seed, count, prefix):
    rnd = random.Random(seed)
    with open(path, "w") as f:
        f.write('#include "c11.hpp"\n')
        k = 0
        while k < count:
            txt, nops = prop(rnd, "%s_%d" % (prefix, k))
            if len(txt) > 9000 or nops > 9:
                continue
            f.write(txt + "\n")
            k += 1


if __name__ == "__main__":
    write(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
