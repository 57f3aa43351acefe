#!/usr/bin/env python3
"""seed.py [ID...]: (re)generate /verif/seeded/<id>/ from tools/seedspecs.py and
verify each: the demonstration passes on /repo, fails with the patch, and the
property's check (CHECKER, default /tmp/checker) is run on the patched copy."""
import sys, os, shutil, subprocess, tempfile, json
sys.path.insert(0, os.path.dirname(__file__))
from seedspecs import SEEDS
V = "/verif"; D = V + "/tools/demo"
chk = os.environ.get("CHECKER", "/tmp/checker")
want = set(sys.argv[1:])
def copy(src, d):
    os.makedirs(d)
    for f in os.listdir(src):
        if f.endswith(".go") or f in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(src, f), d)
def one(s):
    out = []
    t = tempfile.mkdtemp(prefix="seed")
    try:
        copy("/repo", t + "/a"); copy("/repo", t + "/b")
        for f, o, n in s["edits"]:
            p = t + "/b/" + f; x = open(p).read()
            if x.count(o) != 1:
                return "%s: BAD EDIT %d matches for %r" % (s["id"], x.count(o), o)
            open(p, "w").write(x.replace(o, n))
        diff = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, capture_output=True, text=True).stdout
        out_lines = []
        for l in diff.splitlines(keepends=True):
            if l.startswith("diff --git a/"):
                f = l.split()[2][2:]; l = "diff --git a/%s b/%s\n" % (f, f)
            out_lines.append(l)
        diff = "".join(out_lines)
        sd = V + "/seeded/" + s["id"]
        if os.path.isdir(sd): shutil.rmtree(sd)
        os.makedirs(sd)
        open(sd + "/patch.diff", "w").write(diff)
        shutil.copy(D + "/run.sh", sd + "/demo.sh"); os.chmod(sd + "/demo.sh", 0o755)
        shutil.copy(D + "/lib_test.go", sd); shutil.copy(D + "/smtpd/smtpd.go", sd + "/smtpd.go.txt")
        imps = "".join('\t"%s"\n' % i for i in s.get("imports", []))
        open(sd + "/demo_test.go", "w").write("package main\n\nimport (\n\t\"testing\"\n%s)\n\n%s" % (imps, s["demo"].lstrip()))
        subprocess.run(["gofmt", "-w", sd + "/demo_test.go"])
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(sd + "/meta.json", "w"), indent=1)
        open(sd + "/meta.json", "a").write("\n")
        for w, exp in (("a", 0), ("b", 1)):
            r = subprocess.run(["bash", sd + "/demo.sh"], cwd=t + "/" + w, capture_output=True, text=True)
            bad = (r.returncode != 0) != bool(exp) or "build failed" in r.stdout or "setup failed" in r.stdout
            if bad:
                out.append("DEMO WRONG on %s rc=%d\n%s" % (w, r.returncode, (r.stdout + r.stderr)[-1500:]))
        r = subprocess.run([chk, "-repo", t + "/b", "-out", t + "/ev", "-prop", s["property"]], capture_output=True, text=True)
        ls = [l for l in (r.stdout + r.stderr).splitlines() if not l.startswith("\t")]
        out.append(("CAUGHT" if r.returncode == 1 else "MISSED rc=%d" % r.returncode) + " " + (ls[0][:200] if ls else ""))
    finally:
        shutil.rmtree(t)
    return s["id"] + " [" + s["property"] + "] " + "; ".join(out)
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(4) as ex:
    for l in ex.map(one, [s for s in SEEDS if not want or s["id"] in want]):
        print(l, flush=True)
