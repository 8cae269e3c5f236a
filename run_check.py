#!/usr/bin/env python3
"""run_check.py ID [--tier quick|thorough] [--replay FILE]

Builds the harness of one property against /repo's working tree, explores it, writes
evidence/<ID>.json.  Exit 0: held on everything explored; 1: VIOLATION line; 2/3: error of the check.
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, VERIF)
from checks import CHECKS, COMMON_ASSUMPTIONS  # noqa: E402

TIER = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
FEAT = "-DSTRICT_ERROR_EXCEPTIONS -DSTRICT_REMOVE_NODISCARD"
QUAD = "-DSTRICT_QUAD_PRECISION"
ASAN = "-fsanitize=address"
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=undefined"
BASE = ["-std=gnu++20", "-w", "-fmax-errors=3", "-pipe"]
TSAN = "-fsanitize=thread"
SUP = 'VIOLATION property=%s replay=%s'


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "strictpp"), os.path.join(VERIF, "engine")):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*.hpp"))):
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


TREE = tree_hash()


class CompileError(Exception):
    def __init__(self, tu, cmd, log):
        self.tu, self.cmd, self.log = tu, cmd, log


SLOTS = threading.Semaphore(int(os.environ.get("VERIF_JOBS", "8")))


def compile_tu(src, flags, compiler="g++"):
    with SLOTS:
        return compile_tu_(src, flags, compiler)


def compile_tu_(src, flags, compiler):
    """Compile one TU; objects are reused only for an identical tree, source and command."""
    cmd = [compiler] + BASE + flags + ["-I" + REPO, "-I" + os.path.join(VERIF, "engine"),
                                       "-I" + os.path.join(VERIF, "harness"), "-c", src]
    text = open(src, "rb").read()
    own = re.match(rb"// flags: (.*)", text)  # a unit with flags of its own
    if own:
        cmd[-2:-2] = own.group(1).decode().replace("@", os.path.join(VERIF, "harness")).split()
    other = re.search(rb"^// compiler: (\S+)", text, re.M)  # a unit with a compiler of its own
    if other:
        cmd[0] = other.group(1).decode()
    for inc in re.findall(rb'#include "(\w+\.cpp)"', text):
        text += open(os.path.join(VERIF, "harness", inc.decode()), "rb").read()
    key = hashlib.sha256((TREE + "\0" + "\0".join(cmd) + "\0").encode() + text).hexdigest()[:32]
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj):
        return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    t0 = time.time()
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CompileError(src, " ".join(cmd), r.stdout[:40000])
    os.rename(tmp, obj)
    print("  compiled %s in %.1f s" % (os.path.basename(src), time.time() - t0), flush=True)
    return obj


def split_flags(s):
    return s.split()


THREAD_PROBE = """#include <thread>
#include <mutex>
std::mutex m; int n;
int main() { auto f = [] { std::lock_guard g(m); ++n; }; std::thread a(f), b(f); a.join(); b.join(); return n - 2; }"""
THREAD_OK = []


def thread_sanitizer_works():
    """A program without a data race must run under ThreadSanitizer (it cannot where the address space layout is not the expected one)."""
    if not THREAD_OK:
        d = os.path.join(BUILD, "bin")
        os.makedirs(d, exist_ok=True)
        exe = os.path.join(d, "thread_probe.%d" % os.getpid())
        r = subprocess.run(["g++", "-std=gnu++20", TSAN, "-x", "c++", "-", "-o", exe], input=THREAD_PROBE, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        ok = r.returncode == 0 and all(subprocess.run([exe], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0 for _ in range(3))
        if os.path.exists(exe):
            os.remove(exe)
        THREAD_OK.append(ok)
        if not ok:
            print("  ThreadSanitizer does not run here: results are compared without it", flush=True)
    return THREAD_OK[0]


def sanitizer(c):
    """Flags of the configuration's sanitizer: one for the units, one for the driver and the link."""
    k = c.get("san", True)
    if not k:
        return [], []
    if k == "thread":
        f = [TSAN] if thread_sanitizer_works() else []
        return f, f
    return split_flags(ASAN if k == "address" else SAN), split_flags(SAN)


def flags_of(c):
    f = []
    f += split_flags(c.get("opt", "-O0 -g1"))
    f += sanitizer(c)[0]
    if c.get("exceptions", True):
        f += split_flags(FEAT)
    if c.get("quad", True):
        f += split_flags(QUAD)
    f += split_flags(c.get("extra", ""))
    return f


def generate(pid, c):
    """Write the generated translation units of a configuration: gen=(module, units, properties per unit)."""
    mod, units, count = c["gen"]
    if mod not in sys.modules:
        sys.path.insert(0, os.path.join(VERIF, "gen"))
    m = __import__(mod)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if TIER != "quick":
        units *= c.get("gen_factor", 8)
    d = os.path.join(BUILD, "gen", pid)
    os.makedirs(d, exist_ok=True)
    out = []
    base = c.get("gen_base", 0)
    for i in range(base, base + units):
        p = os.path.join(d, "s%d_%d.cpp" % (seed, i))
        tmp = p + ".%d" % os.getpid()
        m.write(tmp, seed * 1000 + i, count, "%s_g%d" % (pid.lower(), i))
        os.rename(tmp, p)
        out.append(p)
    return out


def build(pid, c, variant=""):
    """Compile all TUs of a configuration in parallel, link, return the binary."""
    flags = flags_of(c)
    tus = [os.path.join(VERIF, "harness", t) if not os.path.isabs(t) else t for t in c["tus"]]
    if "gen" in c:
        tus += generate(pid, c)
    main = os.path.join(VERIF, "engine", "pbt_main.cpp")
    main_flags = split_flags("-O1 -g1") + sanitizer(c)[1]
    jobs = [(t, flags) for t in tus] + [(main, main_flags)]
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        objs = list(ex.map(lambda j: compile_tu(*j), jobs))
    key = hashlib.sha256("\0".join(objs + flags).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "bin", "%s%s-%s" % (pid, variant, key))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        cmd = ["g++"] + sanitizer(c)[1] + objs + ["-o", exe + ".tmp", "-lquadmath", "-lstdc++exp"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise RuntimeError("link failed: " + r.stdout[-4000:])
        os.rename(exe + ".tmp", exe)
    return exe


def sanity():
    """The toolchain works and the library's umbrella header is usable at all."""
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(["g++", "-std=gnu++20", "-x", "c++", "-", "-o", "/dev/null"], input="int main(){}",
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout


def outdir(pid):
    d = os.path.join(BUILD, "out", pid)
    os.makedirs(d, exist_ok=True)
    return d


def violation(pid, replay):
    print(SUP % (pid, replay), flush=True)


def compile_violation(pid, e):
    ok, log = sanity()
    if not ok:
        print("toolchain does not work: " + log)
        return 2
    p = os.path.join(outdir(pid), "replay-%s.txt" % pid)
    with open(p, "w") as f:
        f.write("A program using only the public interface no longer compiles.\n%s\n%s\n" % (e.cmd, e.log))
    print("A program using only the public interface no longer compiles: %s" % e.tu)
    print("\n".join([l for l in e.log.split("\n") if "error:" in l][:10]))
    violation(pid, p)
    return 1


def write_evidence(pid, tier, seed, level, coverage, wall, violations, extra_assumptions=()):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=coverage,
              assumptions=list(COMMON_ASSUMPTIONS) + list(extra_assumptions), wall_s=round(wall, 2),
              violations=violations)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def known_findings(pid):
    """Entries of known_findings.jsonl: `finding` entries are announced, `fixed` ones suppress nothing."""
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("kind") == "finding" and d["property"] == pid:
                    out.append(d)
    return out


def run_binary(pid, exe, cases, seed, out, c, only=None):
    reg = os.path.join(out, "regress.list")
    with open(reg, "w") as f:
        for p in sorted(glob.glob(os.path.join(VERIF, "regress", pid, "*.txt"))):
            f.write(p + "\n")
    cmd = [exe, "--seed", str(seed), "--cases", str(cases), "--out", out, "--prop", pid, "--regress", reg,
           "--cap", str(c.get("cap", 420)), "--case-cpu", str(c.get("case_cpu", 20))]
    if only:
        cmd += ["--only", only]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    print(r.stdout[-6000:], flush=True)
    st = {}
    sp = os.path.join(out, "stats.json")
    if os.path.exists(sp):
        st = json.load(open(sp))
        os.remove(sp)
    return r.returncode, st


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            a[k] = a.get(k, 0) + v
        elif isinstance(v, dict):
            d = a.setdefault(k, {})
            for kk, vv in v.items():
                d[kk] = d.get(kk, 0) + vv
        elif isinstance(v, list):
            a.setdefault(k, []).extend(v)
    return a


def main():
    if sys.argv[1] == "--setup":
        ok, log = sanity()
        print("toolchain ok" if ok else log)
        sys.exit(0 if ok else 2)
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = CHECKS[pid]
    t0 = time.time()
    out = outdir(pid)
    if "custom" in c:
        sys.path.insert(0, os.path.join(VERIF, "gen"))
        mod = __import__(c["custom"])
        sys.exit(mod.run(pid, tier, seed, c, sys.modules[__name__]))
    if "--replay" in sys.argv:
        exe = build(pid, c["configs"][0])
        sys.exit(subprocess.run([exe, "--replay", sys.argv[sys.argv.index("--replay") + 1]]).returncode)
    for k in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]), flush=True)
    total = {}
    rc = 0
    if "pre" in c:  # programs judged by the compiler
        sys.path.insert(0, os.path.join(VERIF, "gen"))
        bad, total = __import__(c["pre"]).static(pid, tier, seed, c, sys.modules[__name__])
        total["per_check"] = {"programs judged by the compiler": total.get("evaluations", 0)}
        if bad:
            violation(pid, bad)
            write_evidence(pid, tier, seed, "exploration",
                           dict(evaluations=total["evaluations"], distinct_nontrivial=total["distinct_nontrivial"], rule=c["rule"],
                                samples=total.get("samples", [])[:20] or [bad], classes=total.get("labels", {})), time.time() - t0, 1)
            sys.exit(1)
    pool = cf.ThreadPoolExecutor(max_workers=8)
    exes = [pool.submit(build, pid, cfg, cfg.get("name", "")) for cfg in c["configs"]]
    cf.wait(exes)
    for i, cfg in enumerate(c["configs"]):
        try:
            exe = exes[i].result()
        except CompileError as e:
            rc = compile_violation(pid, e)
            if rc == 1:
                write_evidence(pid, tier, seed, "exploration",
                               dict(evaluations=1, distinct_nontrivial=1, rule="compilation of the harness",
                                    samples=[e.cmd]), time.time() - t0, 1)
            sys.exit(rc)
        n = cfg["cases"][0 if tier == "quick" else 1]
        r, st = run_binary(pid, exe, n, seed if i == 0 else seed * 7919 + i, out, cfg)
        if cfg.get("name"):
            st["samples"] = st.get("samples", [])[:6]
            st["labels"] = {cfg["name"] + ": " + k: v for k, v in st.get("labels", {}).items()}
        merge(total, st)
        if r == 1:
            violation(pid, os.path.join(out, "replay-%s.txt" % pid))
            rc = 1
            break
        if r != 0:
            rc = 2
            break
    viol = 1 if rc == 1 else 0
    cov = dict(evaluations=int(total.get("evaluations", 0)), distinct_nontrivial=int(total.get("distinct_nontrivial", 0)),
               rule=c["rule"], samples=total.get("samples", [])[:20] or ["(run ended before sampling)"],
               nontrivial_with_repeats=int(total.get("nontrivial", 0)), regression_tapes=int(total.get("regression_tapes", 0)),
               tape_overruns=int(total.get("overrun", 0)), per_check=total.get("per_check", {}), classes=total.get("labels", {}))
    write_evidence(pid, tier, seed, "exploration", cov, time.time() - t0, viol, c.get("assumptions", ()))
    print("%s %s: rc=%d wall=%.1fs" % (pid, tier, rc, time.time() - t0))
    sys.exit(rc)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(3)
