#!/usr/bin/env python3
"""tools_seed.py ID PROPERTY: turns /tmp/seed/ID.py (list of edits + demo + texts) into /verif/seeded/ID.

The spec file defines EDITS = [(file, old, new), ...], DEMO (C++ source), NEEDS, BREAKS, optional FLAGS.
Everything is confirmed in a scratch copy of /repo: it builds, the stable tests pass, the demonstration
exits 0 without and non-zero with the change.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

sid = sys.argv[1]
spec = runpy.run_path(sys.argv[2] if len(sys.argv) > 2 else "/tmp/seed/%s.py" % sid)
out = "/verif/seeded/%s" % sid
scratch = tempfile.mkdtemp(prefix="seedwt", dir="/tmp")
wt = scratch + "/repo"
try:
    subprocess.run(["cp", "-a", "/repo", wt], check=True)
    for f, old, new in spec["EDITS"]:
        p = os.path.join(wt, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            print("edit of %s: old text occurs %d times" % (f, n)); sys.exit(1)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True).stdout
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.cpp", "w").write(spec["DEMO"].lstrip())
    flags = spec.get("FLAGS", "-fsanitize=address,undefined -fno-sanitize-recover=undefined -DSTRICT_ERROR_EXCEPTIONS -DSTRICT_REMOVE_NODISCARD -DSTRICT_QUAD_PRECISION")
    open(out + "/demo.sh", "w").write('''#!/bin/bash
# Compiles demo.cpp against the library in the current directory and runs it.
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++20 -w %s -I. "$d/demo.cpp" -o "$t/demo" -lquadmath || exit 3
cd "$t" && timeout 120 ./demo
''' % flags)
    os.chmod(out + "/demo.sh", 0o755)
    json.dump(dict(property=spec["PROPERTY"], needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]), open(out + "/meta.json", "w"), indent=1)

    def demo(cwd):
        r = subprocess.run(["bash", out + "/demo.sh"], cwd=cwd, capture_output=True, text=True)
        return r.returncode, (r.stdout + r.stderr)[-1500:]
    a = demo("/repo"); b = demo(wt)
    print("demo unchanged:", a[0], "changed:", b[0])
    if a[0]: print(a[1])
    print(b[1][-400:])
    # the build and tests of the changed tree
    bs = open("/opt/vp/build.sh").read(); ts = open("/opt/vp/test.sh").read()
    subprocess.run(["git", "-C", "/repo", "diff", "--quiet"], check=True)
    subprocess.run(["git", "-C", "/repo", "apply", out + "/patch.diff"], check=True)
    try:
        r = subprocess.run("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed_o.json", shell=True, cwd="/repo", capture_output=True, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    last = r.stdout.strip().split("\n")[-1:]
    print("build+tests rc", r.returncode, last)
    good = a[0] == 0 and b[0] not in (0, 3) and r.returncode == 0 and "74 passed, 0 failed" in r.stdout
    print("SEED", sid, "OK" if good else "NOT CONFIRMED")
    if not good:
        shutil.rmtree(out)
        sys.exit(1)
finally:
    shutil.rmtree(scratch)
