#!/usr/bin/env python3
"""Tries small mutants against checks: mut.py SPEC.py [names]. SPEC.py defines
muts = [(name, [checks], file, old, new), ...]. Prints exit codes per check and
whether the stable tests of the repository notice the mutant too (T:1)."""
import os, runpy, shutil, subprocess, sys
spec = runpy.run_path(sys.argv[1])["muts"]
sel = sys.argv[2:]
D = os.environ.get("MU_DIR", "/tmp/mu")
for name, checks, file, a, b in spec:
    if sel and name not in sel:
        continue
    shutil.rmtree(D, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", D])
    p = os.path.join(D, file)
    s = open(p).read()
    if s.count(a) != 1:
        print(name, "SPEC: %d matches" % s.count(a)); continue
    open(p, "w").write(s.replace(a, b))
    subprocess.run(["goimports", "-w", p])
    r = subprocess.run("go vet ./%s" % os.path.dirname(file), shell=True, cwd=D, capture_output=True, text=True)
    if "vet: " in r.stderr and ".go:" in r.stderr and "declared and not used" in r.stderr or "undefined" in r.stderr:
        print(name, "BUILD", r.stderr[:300]); continue
    t = subprocess.run("go test ./%s 2>&1 | tail -3" % os.path.dirname(file), shell=True, cwd=D, capture_output=True, text=True)
    out = ["T:%d" % ("ok" not in t.stdout.splitlines()[-1] if t.stdout.strip() else 9)]
    for c in checks:
        r = subprocess.run(["bash", "./check", c, "quick"], cwd="/verif", capture_output=True, text=True, env=dict(os.environ, VF_REPO=D))
        out.append("%s:%d" % (c, r.returncode))
        for l in (r.stdout + (r.stderr if r.returncode not in (0, 1) else "")).splitlines():
            if "subcheck" in l or r.returncode not in (0, 1):
                out.append("   " + l.strip()[:170])
    print(name, "\n  ".join(out), flush=True)
shutil.rmtree(D, ignore_errors=True)
