"""Named and positional arguments the compiler must accept or refuse (C37)."""
import os, random
import c24, gen_named, snip

PRELUDE = """#include <strictpp/strict.hpp>
#include <utility>
template <class T> spp::Strict<T> mk(long v) { return spp::Strict<T>{static_cast<T>(v)}; }
template <class T> void show(const T& x) { if constexpr(requires { x.eval(); }) (void)x.eval(); }
template <class A, class X> void shape(const A&, X, X, bool) {}
template <class X> bool in(X, X, X) { return true; }
"""


def static(pid, tier, seed, c, R):
    r = random.Random(seed * 7001 + 37)
    cases = gen_named.programs(r, 4000 if tier == "quick" else 40000)
    try:
        e = snip.Engine(R, c24.DEFINES, PRELUDE)
    except snip.Unusable as x:
        p = os.path.join(R.outdir(pid), "replay-%s.txt" % pid)
        open(p, "w").write("The library's header no longer compiles.\n" + str(x))
        return p, dict(evaluations=1, nontrivial=1, distinct_nontrivial=1)
    try:
        wrong = c24.judge(pid, tier, R, cases, e)
    finally:
        e.close()
    labels = {}
    for ok, lab, _, _ in cases:
        k = ("accepted: " if ok else "refused: ") + lab
        labels[k] = labels.get(k, 0) + 1
    cov = dict(evaluations=len(cases), nontrivial=len(cases), distinct_nontrivial=len(cases), labels=labels,
               samples=[("must compile: " if x[0] else "must not compile: ") + x[3] for x in random.Random(1).sample(cases, 8)])
    print("  %d calls judged by the compiler in %d units" % (len(cases), e.units), flush=True)
    return c24.report(pid, R, e, wrong, cases, PRELUDE), cov
