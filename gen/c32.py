"""Literals the compiler must accept or refuse (C32)."""
import os, random
import c24, gen_lit, snip

PRELUDE = "#include <strictpp/strict.hpp>\n"


def static(pid, tier, seed, c, R):
    r = random.Random(seed * 7001 + 32)
    cases = gen_lit.programs(r, 1200 if tier == "quick" else 12000)
    try:
        e = snip.Engine(R, c24.DEFINES, PRELUDE)
    except snip.Unusable as x:
        p = os.path.join(R.outdir(pid), "replay-%s.txt" % pid)
        open(p, "w").write("The library's header no longer compiles.\n" + str(x))
        return p, dict(evaluations=1, nontrivial=1, distinct_nontrivial=1)
    try:
        wrong = c24.judge(pid, tier, R, cases, e)
    finally:
        e.close()
    labels = {}
    for ok, lab, _, _ in cases:
        k = ("accepted: " if ok else "refused: ") + lab
        labels[k] = labels.get(k, 0) + 1
    n = len(set(x[2] for x in cases))
    cov = dict(evaluations=len(cases), nontrivial=len(cases), distinct_nontrivial=n, labels=labels,
               samples=[("must compile: " if x[0] else "must not compile: ") + x[3] for x in random.Random(1).sample(cases, 8)])
    print("  %d literals judged by the compiler in %d units" % (len(cases), e.units), flush=True)
    return c24.report(pid, R, e, wrong, cases, PRELUDE), cov
