#!/usr/bin/env python3
"""combo.py SEED SIZE N SPEC.py...: N trees, each with up to SIZE behaviour-preserving edits
applied together, run through every claimed property; reports the alarms (development aid)."""
import sys, os, random, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from claims import CLAIMS
chk = os.environ.get("CHECKER", "/tmp/checker")
props = os.environ.get("PROPS", ",".join(sorted(CLAIMS))).split(",")
seed, size, n = map(int, sys.argv[1:4])
rnd = random.Random(seed)
edits = []
for s in sys.argv[4:]:
    ns = {}; exec(open(s).read(), ns)
    edits += [(l, e) for l, _, w, e in ns["M"] if w == 0]
base = {f: open("/repo/" + f).read() for f in os.listdir("/repo") if f.endswith(".go") or f in ("go.mod", "go.sum")}
def loads(t):
    d = tempfile.mkdtemp(prefix="cmb")
    try:
        for f, s in t.items(): open(os.path.join(d, f), "w").write(s)
        x = subprocess.run([chk, "-repo", d, "-out", d + "/ev", "-prop", "C20"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return "source loads" not in x.stdout
    finally: shutil.rmtree(d)
trees = []
for i in range(n):
    t, ls = dict(base), []
    for l, e in rnd.sample(edits, len(edits)):
        if len(ls) >= size: break
        u = dict(t); ok = True
        for f, o, w in e:
            if u[f].count(o) != 1: ok = False; break
            u[f] = u[f].replace(o, w)
        if ok and loads(u): t, ls = u, ls + [l]
    trees.append((t, ls))
    print("tree %d: %s" % (i, " ".join(ls)), flush=True)
def run(job):
    i, p = job
    d = tempfile.mkdtemp(prefix="cmb")
    try:
        for f, s in trees[i][0].items(): open(os.path.join(d, f), "w").write(s)
        x = subprocess.run([chk, "-repo", d, "-out", d + "/ev", "-prop", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1200)
        if x.returncode == 0: return None
        k = "/tmp/combo-%d-%d-%s" % (seed, i, p)
        shutil.rmtree(k, ignore_errors=True); shutil.copytree(d, k)
        return "tree %d %s ALARM %s" % (i, p, next((l[:200] for l in x.stdout.splitlines() if not l.startswith("\t")), ""))
    except subprocess.TimeoutExpired: return "tree %d %s TIME" % (i, p)
    finally: shutil.rmtree(d)
with ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
    for r in ex.map(run, [(i, p) for i in range(n) for p in props]):
        if r: print(r, flush=True)
print("combo: done")
