#!/usr/bin/env python3
"""mutb.py SPEC.py: run a batch of mutations and refactorings in parallel (development aid).
SPEC defines M = [(label, props, want_rc, [(file, old, new), ...]), ...]."""
import sys, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
chk = os.environ.get("CHECKER", "/tmp/checker")
def run(m):
    label, props, want, edits = m
    d = tempfile.mkdtemp(prefix="mut")
    try:
        for f in os.listdir("/repo"):
            if f.endswith(".go") or f in ("go.mod", "go.sum"):
                shutil.copy("/repo/" + f, d)
        for f, o, n in edits:
            p = os.path.join(d, f); s = open(p).read()
            if s.count(o) != 1:
                return label, "BAD", "%d matches for %r" % (s.count(o), o)
            open(p, "w").write(s.replace(o, n))
        res = []
        for pr in props.split(","):
            x = subprocess.run([chk, "-repo", d, "-out", os.path.join(d, "ev" + pr), "-prop", pr], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            ls = [l[:int(os.environ.get("W","200"))] for l in x.stdout.splitlines() if not l.startswith("\t")]
            if "source loads" in x.stdout:
                return label, "BAD", ls[0]
            res.append((pr, x.returncode, ls[:int(os.environ.get("N", "1"))]))
        if want == 1:
            ok = any(r[1] == 1 for r in res)
        else:
            ok = all(r[1] == 0 for r in res)
        return label, "ok" if ok else "WRONG", " / ".join("%s rc %d %s" % (a, b, "\n      ".join(c)) for a, b, c in res)
    finally:
        shutil.rmtree(d)
ms = [m for m in ns["M"] if not only or m[0] in only]
with ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
    for label, v, t in ex.map(run, ms):
        print("%-6s %-28s %s" % (v, label, t), flush=True)
