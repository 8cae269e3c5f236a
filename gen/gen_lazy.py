"""C35: nestings of structural and additive operations over leaves that count their evaluations."""
import random, re
import gen_c20


class G(gen_c20.G):
    BINARY = ["+"]
    SCALAR = ["(%s + %s)"]
    UNARY = ["+"]
    GEN1 = "[c = %s](auto v) { return v + c; }"
    GEN2 = "[c = %s](auto v, auto w) { return v + c + w; }"
    ROWS = "[c = %s](auto v) { return sum(v) + c; }"
    COLS = "[c = %s](auto v) { return sum(v) + c; }"
    PRODUCTS = False


def prop(r, name):
    g = G(r, "unsigned")
    two = r.random() < 0.4
    d = r.choice([1, 2, 2, 3, 3, 4])
    dims = (r.randint(1, 4), r.randint(1, 4)) if two else (r.randint(1, 6),)
    lets = []
    for _ in range(r.choice([0, 0, 1])):
        n = r.choice([dims[-1], r.randint(1, 5)])
        e, sh = g.one(n, r.choice([0, 1, 2])), (n,)
        l = g.fresh("l")
        lets.append("auto %s = %s;" % (l, e))
        g.locals.append((l, sh))
    e = g.two(dims[0], dims[1], d) if two else g.one(dims[0], d)
    out = ["PROP(%s, 1) {" % name, "   using T = c35::T;", "   // clang-format off", "   c35::Probe probe;", "   const auto& f = probe.f;"]
    W = out.append
    counted = 0
    for x in g.decl:
        m = re.match(r"spp::(Array1D|Array2D|FixedArray1D|FixedArray2D)<[^>]*> (\w+?)(\(.*?\))?; fill\(s, (\w+)\);(.*)$", x)
        nm, rest = m.group(4), m.group(5)
        if rest:  # memory behind an attached array: not counted
            W("   " + x.replace(" fill(s, %s);" % nm, " c35::zero(%s);" % nm))
            continue
        y = re.sub(r"\b%s\b" % nm, nm + "_b", x.replace("fill(s, ", "c35::ids(s, "))
        W("   " + y + " auto %s = spp::generate(%s_b, f);" % (nm, nm))
        counted += 1
    W('   s.note("%s");' % (" ".join(lets) + " " + e).strip().replace("\\", "").replace('"', "'"))
    for l in r.sample(sorted(g.feats), min(2, len(g.feats))):
        W('   s.label("%s");' % l)
    W("   [[maybe_unused]] auto c0 = scal<T>(0), c1 = scal<T>(0), c2 = scal<T>(0);")
    for l in lets:
        W("   " + l)
    W("   auto E = %s;" % e)
    W('   probe.none("building the expression");')
    W("   c35::use<%s>(s, probe, E);" % ("true" if two else "false"))
    W("}")
    return "\n".join(out), len(e) + sum(map(len, lets)), counted


def write(path, seed, count, prefix):
    rnd = random.Random(seed)
    with open(path, "w") as f:
        f.write('#include "lazy.hpp"\n')
        k = 0
        while k < count:
            txt, n, counted = prop(rnd, "%s_%d" % (prefix, k))
            if n > 900 or n < 8 or not counted:
                continue
            f.write(txt + "\n")
            k += 1
