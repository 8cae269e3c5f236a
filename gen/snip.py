"""Decides, for many small functions at once, whether the compiler accepts each of them.

Every function carries a line marker with its own name, so diagnostics (also those raised while a template of the library is
being instantiated for it) name the function.  A function is accepted only if a translation unit with it and without any error
exists; it is refused only if a diagnostic names it.  Functions of a failing unit that no diagnostic names are compiled again
without the refused ones until a unit is free of errors, finally one by one.
"""
import concurrent.futures as cf, os, re, shutil, subprocess, tempfile

FLAGS = ["-std=gnu++20", "-w", "-fmax-errors=0", "-fno-diagnostics-show-caret", "-fconcepts-diagnostics-depth=1", "-fsyntax-only"]
MARK = re.compile(rb"^(case_\d+):\d+:(\d+:)?\s*(.*)")


class Unusable(Exception):
    pass


class Engine:
    def __init__(self, R, defines, prelude, jobs=8):
        self.R, self.jobs = R, jobs
        os.makedirs(os.path.join(R.BUILD, "snip"), exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="s", dir=os.path.join(R.BUILD, "snip"))
        self.flags = FLAGS + defines.split() + ["-I" + R.REPO]
        self.units = self.single = 0
        p = os.path.join(self.dir, "prelude.hpp")
        with open(p, "w") as f:
            f.write(prelude)
        fl = [x for x in self.flags if x != "-fsyntax-only"]
        r = subprocess.run(["g++"] + fl + ["-x", "c++-header", p, "-o", p + ".gch"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode:
            raise Unusable(r.stdout[:8000])

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def unit(self, name, snips):
        """Compile one unit; returns (clean, set of refused indices, first lines of diagnostics)."""
        self.units += 1
        p = os.path.join(self.dir, name + ".cpp")
        with open(p, "w") as f:
            f.write('#include "prelude.hpp"\n')
            for i, s in snips:
                f.write('# 1 "case_%d"\n%s\n' % (i, s.replace("@", "case_%d" % i)))
        proc = subprocess.Popen(["g++"] + self.flags + ["-c", p], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        cur, bad, first = None, set(), {}
        errors = 0
        for line in proc.stderr:
            if b"case_" in line:
                m = MARK.match(line)
                if m:
                    cur = int(m.group(1)[5:])
                    if m.group(3).startswith(b"error") or m.group(3).startswith(b"fatal"):
                        errors += 1
                        bad.add(cur)
                        first.setdefault(cur, line[:300].decode(errors="replace").strip())
                    continue
            if b": In " in line or line.startswith(b"In file included"):
                cur = None
            elif b" error: " in line:
                errors += 1
                if cur is not None:
                    bad.add(cur)
                    first.setdefault(cur, line[:300].decode(errors="replace").strip())
        proc.wait()
        os.remove(p)
        return proc.returncode == 0, bad, first

    def alone(self, i, s):
        self.single += 1
        ok, _, first = self.unit("one_%d" % i, [(i, s)])
        return ok, "\n".join(first.values())

    def refused(self, snips, chunk=150, rounds=8):
        """snips: list of (index, text).  Returns {index: first diagnostic} of those the compiler refuses."""
        out = {}
        left = list(snips)
        with cf.ThreadPoolExecutor(max_workers=self.jobs) as ex:
            for rnd in range(rounds):
                if not left:
                    break
                n = max(1, min(chunk, -(-len(left) // self.jobs)))
                # neighbours tend to instantiate the same templates: spread them over the units
                k = -(-len(left) // n)
                parts = [left[j::k] for j in range(k)]
                res = list(ex.map(lambda t: self.unit("u%d_%d" % (rnd, t[0]), t[1]), enumerate(parts)))
                nxt = []
                for part, (clean, bad, first) in zip(parts, res):
                    if clean:
                        continue
                    for i, s in part:
                        if i in bad:
                            out[i] = first.get(i, "")
                        else:
                            nxt.append((i, s))
                if len(nxt) == len(left):
                    break
                left = nxt
            res = list(ex.map(lambda t: self.alone(*t), left))
            for (i, s), (ok, msg) in zip(left, res):
                if not ok:
                    out[i] = msg
        return out
