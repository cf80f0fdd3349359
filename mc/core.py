"""
Driver shared by all checks.

A check is a module checks/<id>.py that defines

    LEVEL      evidence level
    RULE       how cases are made and what makes one non-trivial
    BOUNDS     text: the bounds inside which the enumeration is exhaustive
    ASSUME     list of assumptions / trusted parts
    jobs(tier) -> list of (job name, function name, kwargs)

and the job functions `fn(rec, tier, **kwargs)` that enumerate their part of
the space *completely* and report every execution through the recorder `rec`.
Jobs run in spawned worker processes (never threads: several checks patch the
thread pool), every job is deterministic, nothing is sampled.
"""
import contextlib
import fnmatch
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_DEV_REPO", "/repo")  # the override is for trying planted bugs in copies (tools/seedrun.py)
GRACE = float(os.environ.get("VERIF_DEV_GRACE", 60))  # how long a run goes on after the first violation
OUT = os.environ.get("VERIF_DEV_OUT", os.path.join(VERIF, "evidence"))
FINDINGS = os.path.join(VERIF, "known_findings.txt")


class CaseFail(Exception):
    pass


class Case:
    """handle given to the body of one case"""

    def __init__(self, rec, cid):
        self.rec, self.cid = rec, cid
        self.worst = 0.0

    def fail(self, msg):
        raise CaseFail(msg)

    def true(self, cond, msg):
        if not bool(cond):
            raise CaseFail(msg)

    def close(self, got, want, tol, msg, scale=None):
        """|got-want| <= tol*scale elementwise max norm, NaN/shape mismatch fails"""
        import numpy as np
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            raise CaseFail(f"{msg}: shape {got.shape}, expected {want.shape}")
        if got.size == 0:
            return 0.0
        g = got.astype(np.clongdouble) if np.iscomplexobj(got) or np.iscomplexobj(want) \
            else got.astype(np.longdouble)
        if scale is None:
            scale = max(1.0, float(np.max(np.abs(want))))
        err = np.max(np.abs(g - want))
        if not (err <= tol * scale):
            raise CaseFail(f"{msg}: error {float(err):.3e} > {tol:.1e} * {scale:.3e}; "
                           f"got {_short(got)}, expected {_short(want)}")
        self.worst = max(self.worst, float(err / (tol * scale)) if tol * scale > 0 else 0.0)
        return float(err)

    def equal(self, got, want, msg):
        if not (got == want):
            raise CaseFail(f"{msg}: got {got!r}, expected {want!r}")

    def same(self, got, want, msg):
        """bitwise equal arrays"""
        import numpy as np
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape or not np.array_equal(got, want, equal_nan=True):
            raise CaseFail(f"{msg}: got {_short(got)}, expected {_short(want)}")


def _short(a):
    import numpy as np
    with np.printoptions(threshold=12, precision=8):
        s = str(np.asarray(a)).replace("\n", " ")
    return s if len(s) < 300 else s[:300] + "..."


class Rec:
    MAXV = 12

    def __init__(self, prop, job, only=None):
        self.prop, self.job, self.only = prop, job, only
        self.n = {}
        self.seen = set()
        self.nontrivial = set()
        self.violations = []
        self.samples = []
        self.notes = []
        self.worst = (0.0, "")
        self.nfail = 0

    def want(self, cid):
        return self.only is None or cid == self.only

    def add(self, key, k=1):
        self.n[key] = self.n.get(key, 0) + k

    def note(self, text):
        if text not in self.notes:
            self.notes.append(text)

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def bad(self, cid, msg):
        self.nfail += 1
        # every failing case id is kept (known findings are matched by id),
        # the text only of the first ones
        self.violations.append((cid, msg if len(self.violations) < self.MAXV else "(as above)"))

    @contextlib.contextmanager
    def case(self, cid, nontrivial=True, desc=None):
        self.add("evaluations")
        self.seen.add(cid)
        if nontrivial:
            self.nontrivial.add(hashlib.md5(cid.encode()).digest()[:8])
        c = Case(self, cid)
        try:
            yield c
            if c.worst > self.worst[0]:
                self.worst = (c.worst, cid)
            self.sample(desc if desc is not None else cid)
        except CaseFail as e:
            self.bad(cid, str(e))
        except Exception as e:  # the code under test raised
            tb = traceback.extract_tb(e.__traceback__)
            loc = next((f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb)
                        if "/ormatex_py/" in f.filename), f"{tb[-1].filename}:{tb[-1].lineno}" if tb else "?")
            self.bad(cid, f"raised {type(e).__name__}: {str(e)[:300]} (at {loc})")


def prepare_worker():
    """to be called before jax is imported"""
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import jax
    jax.config.update("jax_enable_x64", True)
    import warnings
    warnings.filterwarnings("ignore")
    import ormatex_py
    assert os.path.realpath(ormatex_py.__file__).startswith(os.path.realpath(REPO)), ormatex_py.__file__


def _worker(conn, modname, prop, tier, scratch):
    import threading
    try:
        d = tempfile.mkdtemp(dir=scratch)
        os.chdir(d)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        sys.stdout = os.fdopen(1, "w")
        prepare_worker()
        mod = importlib.import_module(modname)
    except BaseException:
        conn.send(("import-error", traceback.format_exc()))
        return
    conn.send(("ready", None))
    while True:
        msg = conn.recv()
        if msg is None:
            return
        name, fn, kwargs, only = msg
        t0 = time.time()
        rec = Rec(prop, name, only)
        try:
            getattr(mod, fn)(rec, tier, **kwargs)
            err = None
        except Exception:
            err = traceback.format_exc()
        conn.send(("done", (name, dict(n=rec.n, nontrivial=rec.nontrivial, violations=rec.violations,
                                       samples=rec.samples, notes=rec.notes, worst=rec.worst,
                                       wall=time.time() - t0, err=err))))


class _W:
    def __init__(self, ctx, modname, prop, tier, scratch):
        a, b = ctx.Pipe()
        self.conn = a
        self.p = ctx.Process(target=_worker, args=(b, modname, prop, tier, scratch), daemon=True)
        self.p.start()
        b.close()
        self.job = None
        self.t0 = None
        self.ready = False

    def kill(self):
        try:
            self.p.kill()
            self.p.join(5)
        except Exception:
            pass


def run_jobs(modname, prop, tier, jobs, nworkers, scratch, job_timeout, budget, only=None, verbose=False):
    """returns (results dict name -> result, problems list of (job, text))"""
    from multiprocessing.connection import wait
    ctx = mp.get_context("spawn")
    todo = list(jobs)
    byname = {j[0]: j for j in jobs}
    results, problems, retried = {}, [], set()
    workers = []
    t_start = time.time()
    nworkers = max(1, min(nworkers, len(todo)))
    for _ in range(nworkers):
        workers.append(_W(ctx, modname, prop, tier, scratch))
    fail_since = None
    try:
        while todo or any(w.job for w in workers):
            if any(r["violations"] for r in results.values()) and fail_since is None:
                if any(True for r in results.values() if r.get("unlisted")):
                    fail_since = time.time()
            live = [w for w in workers if w.p is not None]
            if not live:
                break
            rd = wait([w.conn for w in live], timeout=1.0)
            for w in live:
                if w.conn in rd:
                    try:
                        kind, data = w.conn.recv()
                    except (EOFError, ConnectionResetError, OSError):
                        # worker died
                        w.kill()
                        w.p = None
                        if w.job:
                            if w.job not in retried:
                                retried.add(w.job)
                                todo.insert(0, byname[w.job])
                            else:
                                problems.append((w.job, "the process that ran this job died twice"))
                            w.job = None
                        workers.append(_W(ctx, modname, prop, tier, scratch))
                        continue
                    if kind == "import-error":
                        problems.append(("import", data))
                        w.kill()
                        w.p = None
                        todo.clear()
                        continue
                    if kind == "ready":
                        w.ready = True
                    if kind == "done":
                        name, res = data
                        results[name] = res
                        res["unlisted"] = bool(res["err"]) or any(
                            not is_known(prop, name, v[0]) for v in res["violations"])
                        if verbose:
                            sys.stderr.write(f"  {name}: {res['n']} {res['wall']:.1f}s "
                                             f"viol={len(res['violations'])} worst={res['worst']}\n")
                        w.job = None
                    if w.job is None and w.ready:
                        if todo:
                            j = todo.pop(0)
                            w.job, w.t0 = j[0], time.time()
                            w.conn.send((j[0], j[1], j[2], only))
                        else:
                            w.conn.send(None)
                            w.p.join(10)
                            w.kill()
                            w.p = None
                elif w.job and time.time() - w.t0 > job_timeout:
                    problems.append((w.job, f"no answer after {job_timeout} s (hang)"))
                    w.kill()
                    w.p = None
                    w.job = None
                    if todo:
                        workers.append(_W(ctx, modname, prop, tier, scratch))
            if fail_since and time.time() - fail_since > GRACE:
                break
            if time.time() - t_start > budget:
                for w in workers:
                    if w.p is not None and w.job:
                        problems.append((w.job, f"no answer within the check's {budget} s"))
                break
    finally:
        for w in workers:
            if w.p is not None:
                w.kill()
    return results, problems


_known = None


def load_findings():
    """lines  'known: property=<id> case=<glob> :: text'  and 'fixed: property=<id> <commit> <text>'"""
    global _known
    if _known is None:
        _known = []
        if os.path.exists(FINDINGS):
            for line in open(FINDINGS):
                line = line.strip()
                if not line.startswith("known:"):
                    continue
                head, _, text = line[len("known:"):].partition("::")
                f = dict(kv.split("=", 1) for kv in head.split())
                _known.append((f["property"], f["case"], text.strip()))
    return _known


def is_known(prop, job, cid):
    full = f"{job}/{cid}"
    for p, pat, text in load_findings():
        if p == prop and fnmatch.fnmatchcase(full, pat):
            return (p, pat, text)
    return None


def main(prop, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--job", help="glob of job names to run")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    os.environ.update(JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
                      MPLCONFIGDIR=os.path.join(scratch, "mpl"), OMP_NUM_THREADS="1",
                      OPENBLAS_NUM_THREADS="1",
                      XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
    os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
    os.environ["PYTHONPATH"] = VERIF + os.pathsep + REPO
    sys.path.insert(0, VERIF)
    modname = f"checks.{prop.lower()}"
    mod = importlib.import_module(modname)
    only = None
    jobs = mod.jobs(tier)
    names = [j[0] for j in jobs]
    assert len(set(names)) == len(names), "duplicate job names"
    if a.replay:
        r = json.load(open(a.replay))
        jobs = [j for j in mod.jobs(r["tier"]) if j[0] == r["job"]] or [j for j in jobs if j[0] == r["job"]]
        tier = r["tier"]
        only = r["case"] if r["case"] not in (None, "*") else None
    if a.job:
        jobs = [j for j in jobs if fnmatch.fnmatchcase(j[0], a.job)]
    try:
        budget = 820 if tier == "quick" else 6 * 3600
        jt = getattr(mod, "JOB_TIMEOUT", 500) if tier == "quick" else 3 * 3600
        results, problems = run_jobs(modname, prop, tier, jobs, a.j, scratch, jt, budget, only, a.v)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    # ---- aggregate
    cov, nontriv, samples, notes, viol, known = {}, set(), [], [], [], {}
    groups = {}
    worst = (0.0, "")
    for name in [j[0] for j in jobs]:
        r = results.get(name)
        if r is None:
            continue
        for k, v in r["n"].items():
            cov[k] = cov.get(k, 0) + v
        groups[name] = r["n"].get("evaluations", 0)
        nontriv |= {(name, h) for h in r["nontrivial"]}
        samples += [f"{name}: {s}" if isinstance(s, str) else {"job": name, "case": s} for s in r["samples"][:1]]
        notes += [n for n in r["notes"] if n not in notes]
        if r["worst"][0] > worst[0]:
            worst = (r["worst"][0], f"{name}/{r['worst'][1]}")
        for cid, msg in r["violations"]:
            k = is_known(prop, name, cid)
            if k:
                known.setdefault(k, []).append(f"{name}/{cid}")
            else:
                viol.append((name, cid, msg))
        if r["err"]:
            viol.append((name, "*", "job raised: " + r["err"].strip().splitlines()[-1] + "\n" + r["err"]))
    for name, text in problems:
        viol.append((name, "*", text))
    level = mod.LEVEL
    coverage = dict(evaluations=cov.pop("evaluations", 0), distinct_nontrivial=len(nontriv),
                    rule=mod.RULE, samples=samples[:12], exhaustive=not viol and not problems and not a.job and not a.replay,
                    bounds=mod.BOUNDS, jobs=groups)
    if level == "model_checking":
        for k in ("states", "transitions", "traces_validated_against_impl"):
            coverage[k] = cov.pop(k, 0)
    coverage.update(cov)
    if worst[1]:
        coverage["closest_to_tolerance"] = dict(fraction_of_tolerance=round(worst[0], 6), case=worst[1])
    if notes:
        coverage["notes"] = notes
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=coverage,
              wall_s=round(time.time() - t0, 2), assumptions=list(mod.ASSUME), violations=len(viol))
    if not (a.replay or a.job):
        os.makedirs(OUT, exist_ok=True)
        with open(os.path.join(OUT, f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for (p, pat, text), ids in known.items():
        print(f"KNOWN-FINDING: property={prop} {text} [{len(ids)} case(s), e.g. {ids[0]}]")
    if viol:
        rdir = os.path.join(OUT, "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, (name, cid, msg) in enumerate(viol[:(200 if "-v" in argv else 10)]):
            h = hashlib.md5(f"{name}/{cid}".encode()).hexdigest()[:10]
            path = os.path.join(rdir, f"{prop}_{h}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, tier=tier, job=name, case=cid, message=msg,
                               how=f"/opt/venv/bin/python {VERIF}/run.py {prop} --replay {path}"), f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {name}/{cid}: {msg[:600]}")
        if len(viol) > 10:
            print(f"  ... {len(viol)} violations in all")
        return 1
    print(f"OK property={prop} tier={tier} evaluations={coverage['evaluations']} "
          f"distinct={coverage['distinct_nontrivial']} "
          + " ".join(f"{k}={coverage[k]}" for k in ("states", "transitions") if k in coverage)
          + f" wall={ev['wall_s']}s")
    return 0
