"""C18: steps are the same under every thread schedule"""
import contextlib
import io
import os
import sys
import numpy as np
from mc import core, model, sched
from mc.systems import np_systems, jax_systems
from checks.c08 import split_systems

LEVEL = "model_checking"
RULE = ("every schedule of the user and worker threads with at most the given number of preemptions, on the real code: threads switch at every source line (byte code in the 'opcode' jobs) of the library "
        "and whenever one of them waits; the result of every schedule must be that of an undisturbed run up to rounding, which is compared with the step formula; non-trivial: the schedule is not the default one")
BOUNDS = ("stage threads: 2 preemptions at the lines of the integrators and linear operators, 1 preemption at all lines and at all byte codes of the integrators; 3 systems, 1..3 steps; failures of either and of both stages; "
          "two and three integrators at the same time: 10 method combinations with 1 preemption (with the parallel method: 1 deviation from the default order); drivers and assemblies at the same time with 1 preemption")
ASSUME = ["compiled XLA code runs to the end without interference (switches happen between Python lines or byte codes)", "everything is compiled before the schedules are explored; compilation itself is not preempted",
          "waits with a time limit only expire when no thread can run"]

REPO = core.REPO + "/ormatex_py"
NARROW = (REPO + "/ode_exp.py", REPO + "/ode_sys.py", REPO + "/ode_explicit.py")
Y0 = np.array([0.6, -0.3, 0.8, 0.2, 0.4, -0.5])
MK = dict(max_krylov_dim=12, iom=12)


def jobs(tier):
    out = []
    th = tier == "thorough"
    for k in range(8 if not th else 32):
        out.append((f"step-narrow-{k}", "step", dict(sysname="nonauto3", bound=2 if not th else 3, files=NARROW, part=(k, 8 if not th else 32))))
    out += [("step-lv2", "step", dict(sysname="lv2", bound=1)), ("step-nonauto3", "step", dict(sysname="nonauto3", bound=1)), ("steps-2", "step", dict(sysname="trig2", bound=1, nsteps=2, delays=True)),
            ("step-opcode", "step", dict(sysname="nonauto3", bound=1, files=NARROW[:1], opcodes=True)), ("steps-3", "step", dict(sysname="nonauto3", bound=0, nsteps=3, files=NARROW))]
    if th:
        for k in range(16):
            out.append((f"step-wide-{k}", "step", dict(sysname="nonauto3", bound=2, part=(k, 16))))
        for k in range(8):
            out.append((f"step-opcode2-{k}", "step", dict(sysname="nonauto3", bound=2, files=NARROW[:1], opcodes=True, part=(k, 8))))
    out += [("failures", "failures", dict(bound=1))]
    for a, b in PAIRS:
        out.append((f"pair-{a}-{b}", "pair", dict(methods=(a, b), bound=1 if not th else 2)))
    out += [("three", "pair", dict(methods=("pexprb4", "exprb3", "pexprb4"), bound=1)), ("one-system", "pair", dict(methods=("pexprb4", "epi3"), bound=1, shared=True)),
            ("drivers", "drivers", dict(bound=1)), ("assembly", "assembly", dict(bound=1)), ("self-test", "selftest", {})]
    return out


PAIRS = [("pexprb4", "pexprb4"), ("epi3", "exprb3"), ("epi2", "exprb2"), ("exprb2_dense", "exprb2_pfd"), ("epi2_leja_re", "epi2_leja_im"), ("epi3_leja_im", "epi3_leja_im"), ("exp2", "exp3"), ("rk4", "rk4")]


def make(method, sysname, t0, obj=None):
    import jax.numpy as jnp
    from checks.c08 import make as mk
    n = np_systems()[sysname][0]
    return mk(method, obj if obj is not None else (split_systems()[sysname][0] if method[:4] in ("exp1", "exp2", "exp3") else jax_systems()[sysname]), t0, jnp.asarray(Y0[:n]))


def go(I, dt, nsteps):
    """the steps of one user thread"""
    out = []
    for k in range(nsteps):
        r = I.step(dt * (1 + .5 * k))
        I.accept_step(r)
        out += [np.float64(r.t), np.float64(r.dt), np.asarray(r.y)]
    return out


def same(a, b):
    """equal up to rounding (the rounding of numpy's kernels depends on the alignment of the buffers)"""
    return len(a) == len(b) and all(np.shape(x) == np.shape(y) and np.max(np.abs(np.asarray(x) - y), initial=0.0) <= 1e-11 * (1 + np.max(np.abs(y), initial=0.0)) for x, y in zip(a, b))


def encode(prefix):
    """the choices that are not the default: position:choice"""
    return ",".join(f"{i}:{k}" for i, k in enumerate(prefix) if k) or "default"


def decode(text):
    if text == "default":
        return ()
    d = dict(map(int, x.split(":")) for x in text.split(","))
    return tuple(d.get(i, 0) for i in range(max(d) + 1))


def explore(rec, make_bodies, want, bound, files=(REPO,), opcodes=False, part=(0, 1), expect=None, delays=False):
    """all schedules; want[k] = result of user thread k"""
    only = None
    if rec.only is not None:
        if not rec.only.startswith("schedule "):
            return
        only = decode(rec.only[9:])

    def check(s, out, prefix):
        cid = "schedule " + encode(prefix)
        with rec.case(cid, bool(prefix)) as c:
            c.true(s.dead is None, s.dead or "")
            if expect is not None:
                expect(c, out)
                return
            for k, w in enumerate(want):
                v, e = out[k]
                if e is not None:
                    raise e
                c.true(same(v, w), f"result of thread {k} depends on the schedule: {v} instead of {w}")
    with sched.controlled(), contextlib.redirect_stdout(io.StringIO()):
        if only is not None:
            s, out = sched.run(make_bodies(), only, files=files, opcodes=opcodes, delays=delays)
            check(s, out, only)
            return
        n = sched.explore(make_bodies, bound, check, part=part, files=files, opcodes=opcodes, delays=delays)
    rec.add("states", n["choices"])
    rec.add("transitions", n["steps"])
    rec.add("traces_validated_against_impl", n["schedules"])
    rec.add("schedules", n["schedules"])


def reference(rec, method, sysname, t0, dt, nsteps, tol=1e-6):
    """the result without any interference, compared with the step formula"""
    n, f, J, ft = np_systems()[sysname]
    with contextlib.redirect_stdout(io.StringIO()):
        want = go(make(method, sysname, t0), dt, nsteps)
        again = go(make(method, sysname, t0), dt, nsteps)
    if rec.want("default schedule"):
        with rec.case("default schedule") as c:
            c.true(same(want, again), "two runs on one thread differ")
            if method[:4] not in ("exp1", "exp2", "exp3"):
                t, y, prev = t0, Y0[:n], None
                for k in range(nsteps):
                    h = dt * (1 + .5 * k)
                    yn = model.step(method, lambda t, u: f(t, u, 0), lambda t, u: J(t, u, 0), lambda t, u: ft(t, u, 0), None, t, y, prev, h)
                    prev, y, t = (t, y), np.asarray(yn), t + h
                    c.close(want[3 * k + 2], y, tol, f"step {k + 1} and the formula")
                    c.close(want[3 * k], t, 1e-13, "time")
    return want


def step(rec, tier, sysname, bound, files=(REPO,), opcodes=False, part=(0, 1), nsteps=1, delays=False):
    want = reference(rec, "pexprb4", sysname, 0.3, 0.15, nsteps)

    def bodies():
        return [lambda: go(make("pexprb4", sysname, 0.3), 0.15, nsteps)]
    explore(rec, bodies, [want], bound, tuple(files), opcodes, part, delays=delays)


class Boom(Exception):
    pass


FAIL = dict(at=(), raised=0)


def failures(rec, tier, bound):
    import jax
    base = type(jax_systems()["nonauto3"])

    class Failing(base):
        def frhs(self, t, u, **kw):
            if not isinstance(t, jax.core.Tracer) and any(abs(float(t) - x) < 1e-9 for x in FAIL["at"]):
                FAIL["raised"] += 1
                raise Boom(f"t={float(t):g}")
            return super().frhs(t, u, **kw)

    FAIL.update(at=(), raised=0)
    with contextlib.redirect_stdout(io.StringIO()):
        obj = Failing()
        want = go(make("pexprb4", "nonauto3", 0.3, obj), 0.15, 2)
    only = rec.only
    for name, at in (("stage-2", (0.3 + 0.075,)), ("stage-3", (0.3 + 0.15,)), ("both", (0.375, 0.45))):
        def bodies():
            FAIL.update(at=at, raised=0)

            def body():
                I = make("pexprb4", "nonauto3", 0.3, obj)
                y = np.asarray(I.state)
                try:
                    I.step(0.15)
                    exc = None
                except Boom as e:
                    exc = str(e)
                hit = FAIL["raised"]
                st = (I.time, np.asarray(I.state))
                FAIL["at"] = ()
                sched.quiet()
                return exc, hit, st[0] == 0.3 and np.array_equal(st[1], y), go(I, 0.15, 2)
            return [body]

        def expect(c, out):
            (v, e) = out[0]
            if e is not None:
                raise e
            exc, hit, kept, after = v
            if hit:
                c.true(exc is not None, f"a failure of {name} was swallowed")
            else:
                rec.note(f"{name}: the stage does not evaluate the system's right-hand side method; no failure injected")
            c.true(kept, "the failed step changed the state")
            c.true(same(after, want), "the steps after a failed step differ from those of a fresh integrator")
        if only is not None:
            if not only.startswith(name + ":"):
                continue
            rec.only = only[len(name) + 1:]
        cases = rec.case

        def named(cid, *a, **k):
            return cases(f"{name}:{cid}", *a, **k)
        rec.case = named
        try:
            explore(rec, bodies, None, bound, NARROW, expect=expect)
        finally:
            rec.case = cases
            rec.only = only


def pair(rec, tier, methods, bound, shared=False):
    """integrators on several user threads"""
    names = ("nonauto3", "trig2", "lv2") if not shared else ("nonauto3",) * 3
    pars = [(m, names[k], 0.3 - .2 * k, 0.15 + .05 * k) for k, m in enumerate(methods)]
    obj = jax_systems()["nonauto3"] if shared else None
    nsteps = 2 if "epi3" in methods or "epi3_leja_im" in methods else 1
    want = []
    for m, s, t0, dt in pars:
        with contextlib.redirect_stdout(io.StringIO()):
            want.append(go(make(m, s, t0, obj), dt, nsteps))
            # compiled for every combination before the exploration
            go(make(m, s, t0, obj), dt, nsteps)

    def bodies():
        return [(lambda m=m, s=s, t0=t0, dt=dt: go(make(m, s, t0, obj), dt, nsteps)) for m, s, t0, dt in pars]
    par = "pexprb4" in methods
    explore(rec, bodies, want, bound, NARROW[:1] if par else NARROW if any("leja" in m for m in methods) else (REPO,), delays=par)


def drivers(rec, tier, bound):
    import jax.numpy as jnp
    from ormatex_py.integrate_wrapper import integrate

    def run(sysname, t0, dt, n, method):
        k = np_systems()[sysname][0]
        r = integrate(jax_systems()[sysname], jnp.asarray(Y0[:k]), t0, dt, n, method, max_krylov_dim=12, iom=12)
        return [np.float64(x) for x in r.t_res] + [np.asarray(y) for y in r.y_res]
    pars = [("nonauto3", 0.0, 0.1, 3, "epi3"), ("trig2", 0.5, 0.2, 2, "rk4")]
    with contextlib.redirect_stdout(io.StringIO()):
        want = [run(*p) for p in pars]
        [run(*p) for p in pars]
    explore(rec, lambda: [(lambda p=p: run(*p)) for p in pars], want, bound, (REPO + "/ode_", REPO + "/integrate_wrapper.py"))


def assembly(rec, tier, bound):
    """two systems assembled at the same time"""
    from ormatex_py.progression import advection_diffusion_1d as ad
    from checks.c16 import mesh_of

    def run(mn, p, per, par):
        S = ad.AdDiffSEM(mesh_of(mn, per), p=p, params=par)
        A, M, b = S.assemble()
        return [np.asarray(A.todense()), np.asarray(M), np.asarray(b), np.asarray(S.collocation_points())]
    pars = [("two", 2, False, dict(nu=.1, vel=.5)), ("graded", 3, True, dict(nu=.02, vel=-.4, tau=.01))]
    want = [run(*p) for p in pars]
    [run(*p) for p in pars]
    with contextlib.redirect_stdout(io.StringIO()):
        explore(rec, lambda: [(lambda p=p: run(*p)) for p in pars], want, bound, (REPO + "/progression/element_line_pp_nodal.py", REPO + "/progression/advection_diffusion_1d.py"))


RACY = '''
import threading
from concurrent.futures import ThreadPoolExecutor, wait
class C:
    def __init__(self): self.v = 0
    def inc(self):
        a = self.v
        a = a + 1
        self.v = a
def lost():
    c, ex = C(), ThreadPoolExecutor(2)
    for f in [ex.submit(c.inc) for _ in range(2)]:
        f.result()
    return c.v
def locked():
    c, l = C(), threading.Lock()
    def g():
        with l:
            c.inc()
    t = [threading.Thread(target=g) for _ in range(2)]
    [x.start() for x in t]
    [x.join() for x in t]
    return c.v
def dead():
    a, b, ex = threading.Lock(), threading.Lock(), ThreadPoolExecutor(2)
    def g(x, y):
        with x:
            z = 1
            with y:
                z = 2
    wait([ex.submit(g, a, b), ex.submit(g, b, a)])
    return 0
def nested():
    ex = ThreadPoolExecutor(1)
    return ex.submit(lambda: ex.submit(lambda: 1).result()).result()
'''


def selftest(rec, tier):
    """the scheduler finds the bugs of programs known to be wrong, and none in a correct one"""
    path = os.path.join(os.getcwd(), "racy_mod.py")
    with open(path, "w") as f:
        f.write(RACY)
    sys.path.insert(0, os.getcwd())
    import racy_mod
    want = {"lost": {(None, 1), (None, 2)}, "locked": {(None, 2)}, "dead": {(None, 0), ("deadlock", None)}, "nested": {("deadlock", None)}}
    for name, w in want.items():
        if not rec.want(name):
            continue
        with rec.case(name) as c:
            seen = set()
            with sched.controlled():
                n = sched.explore(lambda: [getattr(racy_mod, name)], 2, lambda s, o, p: seen.add((s.dead and "deadlock", o[0] and o[0][0])), files=(path[:-3],))
            c.equal(seen, w, "outcomes")
            rec.add("states", n["choices"])
            rec.add("transitions", n["steps"])
            rec.add("schedules", n["schedules"])
