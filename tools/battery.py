#!/usr/bin/env python3
"""battery.py SPEC.py...: run every claimed property on every behaviour-preserving edit
(want 0) of the given specs and report the alarms (development aid).
PROPS=... restricts the properties, J the workers, LABELS=a,b the edits."""
import sys, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from claims import CLAIMS
chk = os.environ.get("CHECKER", "/tmp/checker")
props = os.environ.get("PROPS", ",".join(sorted(CLAIMS))).split(",")
skip = os.environ.get("SKIP", "").split(",")
props = [p for p in props if p not in skip]
labels = [l for l in os.environ.get("LABELS", "").split(",") if l]
def run(job):
    spec, label, edits, pr = job
    d = tempfile.mkdtemp(prefix="bat")
    try:
        for f in os.listdir("/repo"):
            if f.endswith(".go") or f in ("go.mod", "go.sum"):
                shutil.copy("/repo/" + f, d)
        for f, o, n in edits:
            p = os.path.join(d, f); s = open(p).read()
            if s.count(o) != 1:
                return spec, label, pr, "BAD", "%d matches for %r" % (s.count(o), o[:60])
            open(p, "w").write(s.replace(o, n))
        try:
            x = subprocess.run([chk, "-repo", d, "-out", os.path.join(d, "ev"), "-prop", pr], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            return spec, label, pr, "TIME", ""
        if x.returncode == 0:
            return spec, label, pr, "ok", ""
        ls = [l[:220] for l in x.stdout.splitlines() if not l.startswith("\t")]
        return spec, label, pr, "ALARM" if "source loads" not in x.stdout else "BAD", ls[0] if ls else ""
    finally:
        shutil.rmtree(d)
jobs = []
for s in sys.argv[1:]:
    ns = {}
    exec(open(s).read(), ns)
    for label, _, want, edits in ns["M"]:
        if want == 0 and (not labels or label in labels):
            for p in props:
                jobs.append((os.path.basename(s), label, edits, p))
n = 0
with ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
    for r in ex.map(run, jobs):
        n += 1
        if r[3] != "ok":
            print("%-8s %-20s %s %s %s" % r, flush=True)
print("battery: %d runs" % n)
