#!/usr/bin/env python3
"""usage: plant.py SPEC.py [names]   builds seeded/<id> from a spec file and confirms it in a scratch copy of /repo

The spec defines BUGS = {id: dict(property, needs, breaks, edits=[(file, old, new), ...], demo=source of demo.py)}."""
import json, os, shutil, subprocess, sys, runpy
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO = """#!/bin/bash
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""
HEAD = """import os, tempfile, sys
import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
import numpy as np
import scipy.linalg as sla
"""
RUST = {"lib": """sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import rust
_d = tempfile.TemporaryDirectory()
L = rust.Lib(rust.build(os.getcwd(), _d.name))
""", "py": """sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import bindings
_d = tempfile.TemporaryDirectory()
sys.modules["ormatex_py.ormatex"] = B = bindings.load(bindings.build(os.getcwd(), _d.name))
from ormatex_py.integrate_wrapper import integrate
"""}


def sh(cmd, cwd, timeout=900, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=dict(os.environ, **(env or {})))


def plant(name, b):
    w = f"/tmp/w/{name}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/w", exist_ok=True)
    sh(f"cp -a /repo {w}", "/")
    try:
        base = sh("git status --short -uno", w).stdout
        assert not base, base
        d = os.path.join(V, "seeded", name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(f"{d}/demo.sh", "w").write(DEMO)
        head = HEAD
        if b.get("rust"):
            for f in ["mc/__init__.py", "mc/rust.py", "mc/bindings.py", "rust/harness.rs", "rust/bindings.rs"] + [f"rust/shim/{x}" for x in os.listdir(f"{V}/rust/shim")]:
                os.makedirs(os.path.dirname(f"{d}/{f}"), exist_ok=True)
                shutil.copy(f"{V}/{f}", f"{d}/{f}")
            head += RUST[b["rust"]]
        open(f"{d}/demo.py", "w").write(head + b["demo"])
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
        c = sh(f"bash {d}/demo.sh", w, 300)
        if c.returncode:
            return f"{name}: demo fails on the clean tree: {(c.stdout + c.stderr)[-400:]}"
        for f, old, new in b["edits"]:
            s = open(f"{w}/{f}").read()
            if s.count(old) != 1:
                return f"{name}: {s.count(old)} matches in {f} of {old!r}"
            open(f"{w}/{f}", "w").write(s.replace(old, new))
        open(f"{d}/patch.diff", "w").write(sh("git diff", w).stdout)
        c = sh(f"bash {d}/demo.sh", w, 300)
        if c.returncode == 0:
            return f"{name}: demo does not fail with the patch: {c.stdout[-300:]}"
        out = (c.stdout + c.stderr).strip().splitlines()[-1:]
        t = sh(f"{PY} -m pytest -q -n 4 -p no:cacheprovider --timeout=600 --continue-on-collection-errors --deselect tests/test_rust_py.py::test_arnoldi_rs tests", w, 1800,
               dict(PYTHONPATH=w, JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"))
        last = t.stdout.strip().splitlines()[-1:]
        ok = "26 passed" in " ".join(last)
        if not ok:
            fails = [l for l in t.stdout.splitlines() if l.startswith(("FAILED", "ERROR"))]
            return f"{name}: TESTS {last} {fails[:3]}"
        return f"{name}: ok, {last}, demo: {out}"
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:] or list(bugs)
    with ThreadPoolExecutor(2) as ex:
        def one(n):
            try:
                r = plant(n, bugs[n])
            except Exception as e:
                r = f"{n}: {type(e).__name__} {e}"
            print(r[:600], flush=True)
        list(ex.map(one, want))
