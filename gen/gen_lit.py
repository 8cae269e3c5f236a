"""C32: random literals with the value the C++ grammar gives them, computed here in exact rational arithmetic."""
import random
from fractions import Fraction

MANT = {"float": 24, "double": 53, "long double": 64, "f128": 113}
EMIN = {"float": -149, "double": -1074, "long double": -16445, "f128": -16494}  # exponent of the least denormal
EMAX = {"float": 128, "double": 1024, "long double": 16384, "f128": 16384}
# sixty decimals of the constants
CONST = {"pi": "3.14159265358979323846264338327950288419716939937510582097494",
         "e": "2.71828182845904523536028747135266249775724709369995957496697",
         "sqrt2": "1.41421356237309504880168872420969807856967187537694807317668"}


def rnd(x, t):
    """x (exact, >= 0) rounded to nearest even in the format; (mantissa, exponent), or None where it overflows."""
    if x == 0:
        return 0, 0
    n, d = x.numerator, x.denominator
    e = n.bit_length() - d.bit_length() - MANT[t]
    while True:
        q = Fraction(n, d) / (Fraction(2) ** e)
        if q >= 1 << MANT[t]:
            e += 1
        elif q < 1 << (MANT[t] - 1):
            e -= 1
        else:
            break
    e = max(e, EMIN[t])
    q = Fraction(n, d) / (Fraction(2) ** e)
    m, r = divmod(q.numerator, q.denominator)
    if 2 * r > q.denominator or (2 * r == q.denominator and m & 1):
        m += 1
    if m * Fraction(2) ** e >= Fraction(2) ** EMAX[t]:
        return None
    return m, e


def exact(me):
    return me[0] * Fraction(2) ** me[1]


def digits(r, n, alphabet="0123456789"):
    return "".join(r.choice(alphabet) for _ in range(n))


def separate(r, s, p=0.25):
    """Digit separators between digits."""
    if r.random() > p or len(s) < 2:
        return s
    k = sorted(r.sample(range(1, len(s)), min(len(s) - 1, r.choice([1, 1, 2]))), reverse=True)
    for i in k:
        s = s[:i] + "'" + s[i:]
    return s


def integer(r, limit, beyond=False):
    """An integer literal (text, value)."""
    x = r.random()
    if beyond:
        v = limit + r.choice([1, 1, 2, r.randrange(1, 1000), limit + 1, limit])
        v = min(v, (1 << 64) - 1)
    elif x < 0.15:
        v = r.choice([0, 1, limit, limit - 1, limit // 2, limit // 2 + 1])
    else:
        v = r.randrange(0, min(limit, 1 << r.randrange(1, 65)) + 1)
    b = r.choice("dddxob")
    if b == "d":
        s = separate(r, str(v))
    elif b == "x":
        s = r.choice(["0x", "0X"]) + separate(r, r.choice(["%x", "%X"]) % v)
    elif b == "o":
        s = "0" + separate(r, "%o" % v)
    else:
        s = r.choice(["0b", "0B"]) + separate(r, bin(v)[2:])
    return s, v


def halfway(r, t):
    """A literal in the middle of two neighbours of a format, or a little beside it: where rounding twice shows."""
    f = r.choice(["float", "double", t])
    bits = MANT[f] + 1
    k = r.choice([0, 0, 1, 2, 64 - bits, 63 - bits, r.randrange(0, 40)]) if f in ("float", "double") else r.choice([0, 1, 3])
    k = max(k, 0)
    m = ((1 << (bits - 1)) + 2 * r.randrange(0, 1 << (bits - 2)) + 1 << k) + (r.choice([-1, 1, 1]) if k else 0)
    span = 60 if r.random() < 0.7 else 120 if t == "float" else 1000
    e = r.randrange(-span, span - bits - k if span > bits + k + 1 else 1)
    v = m * Fraction(2) ** e
    if r.random() < 0.5 or abs(e) > 60:
        return "0x%xp%d" % (m, e), v
    if e >= 0:
        return str(v.numerator) + ".", v
    s = str(m * 5 ** -e).rjust(-e + 1, "0")
    return separate(r, s[:e]) + "." + s[e:], v


def floating(r, t, plain=False):
    """A floating literal (text, exact value); plain: also without point and exponent."""
    big = t in ("long double", "f128")
    x = r.random()
    if x < 0.14:
        return halfway(r, t)
    x = r.random()
    if x < 0.2:  # hexadecimal
        a, b = digits(r, r.randrange(1, 8), "0123456789abcdefABCDEF"), digits(r, r.randrange(0, 9), "0123456789abcdefABCDEF")
        e = r.randrange(-60, 60)
        s = r.choice(["0x", "0X"]) + separate(r, a) + ("." + separate(r, b) if b or r.random() < 0.3 else "") + r.choice("pP") + r.choice(["", "+"] if e >= 0 else [""]) + str(e)
        return s, (int(a, 16) + (Fraction(int(b, 16), 16 ** len(b)) if b else 0)) * Fraction(2) ** e
    if x < 0.5:
        a, b = str(r.randrange(0, 10 ** r.randrange(1, 5))), digits(r, r.randrange(1, 6))
    else:
        a, b = str(r.randrange(0, 10 ** r.randrange(1, 22))), digits(r, r.randrange(0, 40))
    if plain and r.random() < 0.15:
        return separate(r, a, 0.5), Fraction(int(a))
    e = None
    if r.random() < 0.6 or not b:
        span = 4000 if big and r.random() < 0.3 else 320 if t != "float" and r.random() < 0.3 else 36
        e = r.randrange(-span, span - len(a) if span > len(a) else 1)
    v = Fraction(int(a + b), 10 ** len(b))
    if b and a == "0" and r.random() < 0.3:
        s = "." + separate(r, b)
    else:
        s = separate(r, a) + ("." + separate(r, b) if b else r.choice(["", "."]) if e is not None else ".")
    if e is not None:
        s += r.choice("eE") + (r.choice(["", "+"]) if e >= 0 else "") + str(e)
        v *= Fraction(10) ** e
    return s, v


def expected(v, t):
    """The value a literal of the type has: converted from long double, which the literal denotes first (quadruple: directly)."""
    m = rnd(v, t if t == "f128" else "long double")
    if m is None:
        return None
    return m if t in ("f128", "long double") else rnd(exact(m), t)


FS = {"float": ["_sf", "_SF"], "double": ["_sd", "_SD"], "long double": ["_sl", "_SL"], "f128": ["_sq", "_SQ"]}
IS = {"int": (["_si", "_SI"], 2 ** 31 - 1), "long": (["_sl", "_SL"], 2 ** 63 - 1), "unsigned": (["_sui", "_SUI"], 2 ** 32 - 1), "unsigned long": (["_sul", "_SUL"], 2 ** 64 - 1)}


def one(r):
    """(type, literal, expected as C++ text)"""
    if r.random() < 0.35:
        t = r.choice(list(IS))
        suf, lim = IS[t]
        s, v = integer(r, lim)
        return t, s + r.choice(suf), "static_cast<%s>(%dull)" % (t, v)
    if r.random() < 0.08:  # quadruple precision: integer literals
        s, v = integer(r, 2 ** 63)
        if not (s[0] == "0" and len(s) > 1 and s[1] in "bB01234567'"):
            m = rnd(Fraction(v), "f128")
            return "f128", s + r.choice(FS["f128"]), "0x%xp%dQ" % m
        return "rejected", s + r.choice(FS["f128"]), ""
    while True:
        t = r.choice(["float", "double", "long double", "f128", "f128"])
        s, v = floating(r, t, t == "f128")
        if s[0] == "0" and len(s) > 1 and s[1] in "01234567'" and t == "f128":
            continue  # looks like an octal literal, which is refused
        m = expected(v, t)
        if m is None:
            continue
        suf = {"float": "f", "double": "", "long double": "L", "f128": "Q"}[t]
        return t, s + r.choice(FS[t]), "0x%xp%d%s" % (m[0], m[1], suf)


def write(path, seed, count, ident):
    r = random.Random(seed)
    out = ['#include "lit.hpp"', "namespace %s {" % ident, "using namespace c32;"]
    rows = []
    seen = set()
    for i in range(count):
        while True:
            t, lit, want = one(r)
            if lit not in seen:
                break
        seen.add(lit)
        ty = {"f128": "__float128"}.get(t, t)
        if t == "rejected":
            out.append("static Entry e%d() { return refused(\"%s\", [] { return %s; }); }" % (i, lit, lit))
        elif t == "f128":
            out.append("static Entry e%d() { return make<%s>(\"%s\", %s, -%s, %s); }" % (i, ty, lit, lit, lit, want))
        else:
            out.append("static Entry e%d() { constexpr auto x = %s; constexpr auto y = -%s; return make<%s>(\"%s\", x, y, %s); }" % (i, lit, lit, ty, lit, want) if not t.startswith("unsigned")
                       else "static Entry e%d() { constexpr auto x = %s; return make<%s>(\"%s\", x, x, %s); }" % (i, lit, ty, lit, want))
        rows.append("e%d" % i)
    out.append("static Entry (*const table[])() = {%s};" % ", ".join(rows))
    out.append("PROP(literals_%s, 3) { literal(s, table, %d); }" % (ident, count))
    k = constants()
    out += ["static const Const consts[] = {"] + k + ["};", "PROP(constants_%s, 1) { constant(s, consts, %d); }" % (ident, len(k))]
    out.append("} // namespace")
    open(path, "w").write("\n".join(out) + "\n")


def constants():
    out = []
    for t in MANT:
        ty = {"f128": "__float128"}.get(t, t)
        suf = {"float": "f", "double": "", "long double": "L", "f128": "Q"}[t]
        sfx = {"float": "sf", "double": "sd", "long double": "sld", "f128": "sq"}[t]
        for c, d in list(CONST.items()) + [("epsilon", None)]:
            m = rnd(Fraction(d), t) if d else (1, 1 - MANT[t])
            for e in ("spp::constants::%s<%s>" % (c, ty), "spp::constants::%s_%s" % (c, sfx)):
                out.append('   {"%s", [] { return same_bits<%s>(%s, 0x%xp%d%s); }},' % (e, ty, e, m[0], m[1], suf))
    return out


def programs(r, n):
    """Literals the compiler has to refuse, next to valid ones: (accepted, class, text with @ for the name, what)."""
    out = []
    for _ in range(n):
        x = r.random()
        if x < 0.35:
            t = r.choice(["int", "long", "unsigned"])
            suf, lim = IS[t]
            s, v = integer(r, lim, True)
            out.append((False, "integer beyond the type", s + r.choice(suf)))
        elif x < 0.6:
            s, v = floating(r, "double")
            out.append((False, "floating literal of an integer type", s + r.choice(["_si", "_sui", "_sul", "_SI", "_SUI", "_SUL"])))
        elif x < 0.7:
            s, v = integer(r, 10 ** 6)
            out.append((False, "integer literal of a floating type", s + r.choice(["_sf", "_sd", "_SF", "_SD"])))
        else:
            t, lit, want = one(r)
            if t not in ("f128", "rejected"):
                out.append((True, "valid literal", lit))
    return [(ok, lab, "auto @() { using namespace spp; constexpr auto x = %s; return x; }" % lit, lit) for ok, lab, lit in out]
