#!/usr/bin/env python3
"""mut.py PROPS FILE OLD NEW [FILE OLD NEW ...]: run checks on a changed scratch copy of /repo (development aid)."""
import sys, os, shutil, subprocess, tempfile
props, rest = sys.argv[1], sys.argv[2:]
d = tempfile.mkdtemp(prefix="mut")
try:
    for f in os.listdir("/repo"):
        if f.endswith(".go") or f in ("go.mod", "go.sum"):
            shutil.copy("/repo/" + f, d)
    while rest:
        f, o, n = rest[:3]; rest = rest[3:]
        p = os.path.join(d, f); s = open(p).read()
        if s.count(o) != 1:
            print("MUT: %d matches for %r" % (s.count(o), o)); sys.exit(2)
        open(p, "w").write(s.replace(o, n))
    chk = os.environ.get("CHECKER", "/tmp/checker")
    ps = []
    for pr in props.split(","):
        ps.append((pr, subprocess.Popen([chk, "-repo", d, "-out", os.path.join(d, "ev" + pr), "-prop", pr], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for pr, x in ps:
        out = x.communicate()[0]
        ls = out.splitlines()
        print(pr, "rc", x.returncode, *[l[:230] for l in ls if not l.startswith("\t")][:int(os.environ.get("N", "2"))], sep="\n   ")
finally:
    shutil.rmtree(d)
