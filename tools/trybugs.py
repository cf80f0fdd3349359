#!/usr/bin/env python3
"""usage: trybugs.py SPEC.py [names]   judges the edits of a spec (see plant.py) by the quick checks of their properties (key checks, or property), before they are planted"""
import os, runpy, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = runpy.run_path(sys.argv[1])["BUGS"]
for name in sys.argv[2:] or spec:
    b = spec[name]
    w, out = f"/tmp/w/try_{name}", f"/tmp/w/tryout_{name}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run(f"git -C /repo archive HEAD | tar x -C {w}", shell=True, check=True)
    bad = ""
    for f, old, new in b["edits"]:
        s = open(f"{w}/{f}").read()
        if s.count(old) != 1:
            bad = f"{s.count(old)} matches of {old!r}"
        open(f"{w}/{f}", "w").write(s.replace(old, new))
    res = [bad] if bad else []
    for c in [] if bad else [b["property"]] + [x for x in b.get("checks", []) if x != b["property"]]:
        t = time.time()
        p = subprocess.run(["/opt/venv/bin/python", f"{V}/run.py", c, "--tier", "quick"], cwd=V, capture_output=True, text=True, env=dict(os.environ, VERIF_DEV_REPO=w, VERIF_DEV_OUT=out, VERIF_DEV_GRACE="0"))
        v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        res.append(f"{c} {'caught' if p.returncode == 1 and v else 'rc %d' % p.returncode if p.returncode else 'missed'} {time.time() - t:.0f}s")
    print(name, res, flush=True)
    shutil.rmtree(w, ignore_errors=True); shutil.rmtree(out, ignore_errors=True)
