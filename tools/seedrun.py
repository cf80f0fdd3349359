#!/usr/bin/env python3
"""usage: seedrun.py [-p property] [names]   runs the quick check of its property on a copy of /repo with each planted bug"""
import json, os, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
prop = None
if args[:1] == ["-p"]:
    prop, args = args[1], args[2:]
names = args or sorted(os.listdir(f"{V}/seeded"))
for n in names:
    d = f"{V}/seeded/{n}"
    p = prop or json.load(open(f"{d}/meta.json"))["property"]
    w = f"/tmp/w/run_{n}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    r = subprocess.run(["git", "apply", f"{d}/patch.diff"], cwd=w, capture_output=True, text=True)
    if r.returncode:
        print(n, "DOES NOT APPLY", r.stderr[:200]); continue
    t = time.time()
    out = f"/tmp/w/out_{n}"
    r = subprocess.run(["/opt/venv/bin/python", f"{V}/run.py", p, "--tier", "quick"], cwd=V, capture_output=True, text=True,
                       env=dict(os.environ, VERIF_DEV_REPO=w, VERIF_DEV_OUT=out))
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(f"{n:28s} {p} {'caught' if r.returncode == 1 and v else 'MISSED' if r.returncode == 0 else 'rc %d' % r.returncode} {len(v)} {time.time() - t:.0f}s", flush=True)
    for l in [l for l in r.stdout.splitlines() if "FAIL" in l or "VIOL" in l][:3]:
        print("     ", l[:230], flush=True)
    shutil.rmtree(w, ignore_errors=True); shutil.rmtree(out, ignore_errors=True)
