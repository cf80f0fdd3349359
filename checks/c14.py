"""C14: integrators and systems do not influence each other"""
import itertools
import gc
import numpy as np
from mc import ref, model
from checks.c08 import make, tolerance

LEVEL = "model_checking"
RULE = ("two agents, each with its own script of operations (create, step, accept, step with an extra argument, reset, step); every interleaving of the two scripts is run "
        "on the real integrators for every method and every pairing (other parameters of the same class, other size, other static option of the class, other integrator options, "
        "other method on the same system object, the same system object) and every result compared with the agent alone; the results alone are compared with the formula model; "
        "sequences of whole integrations are enumerated likewise; non-trivial: the agents alternate at least once before the last operation of the first one")
BOUNDS = ("2 agents with 6 operations each (924 interleavings; quick: 5 operations, 252, for one pairing, 4 operations, 70, for the others; fewer for the Leja methods and pexprb4), 18 methods, 8 pairings; thorough: also 3 agents with 4 operations for four methods; "
          "every sequence of length 3 (thorough 4) over 7 integrate calls, and of length 3 over 3 systems (thorough 4) for the Leja methods with an estimated spectrum")
ASSUME = ["the model has one state per agent and no shared state: operations of different agents commute, so each agent's results are those of its own script",
          "results are compared to 1e-12 relative to the result (all runs use the same compiled code)"]

METHODS = ["epi3_leja_im", "pexprb4", "epi2_leja_im", "epi2_leja_re", "exprb3", "epi3", "exp3", "exp3_dense", "exp2", "exp2_dense", "exprb2", "epi2", "exprb2_dense", "exprb2_pfd", "exp_pfd",
           "exp1", "exp1_dense", "rk4"]


def jobs(tier):
    out = [(m, "pairs", dict(method=m)) for m in METHODS]
    out.append(("integrate", "runs", {}))
    out += [("estimated-" + m, "estimated", dict(method=m)) for m in ("epi2_leja_re", "epi2_leja_im", "epi3_leja_im")]
    if tier != "quick":
        out += [("three-" + m, "three", dict(method=m)) for m in ("exprb2", "exp3_dense", "epi2_leja_re", "epi3")]
    return out


_cls = None


def system():
    """one class for all systems: array parameter, number parameter, static parameter"""
    global _cls
    if _cls is None:
        import jax
        import jax.numpy as jnp
        import equinox as eqx
        from ormatex_py import ode_sys as o

        class Par(o.OdeSplitSys):
            A: jax.Array
            s: float
            kind: int = eqx.field(static=True)

            def __init__(self, A, s, kind=0):
                super().__init__()
                self.A, self.s, self.kind = jnp.asarray(A), s, kind

            def _frhs(self, t, u, **kw):
                g = kw.get("frhs_kwargs", {}).get("g", 0.0)
                nl = jnp.sin(u) if self.kind == 0 else u / (1 + u * u)
                return self.A @ u + self.s * jnp.cos(t) * nl + g

            def _fl(self, t, u, **kw):
                return o.MatrixLinOp(self.A)
        _cls = Par
    return _cls


A3 = np.array([[-1.0, 0.4, 0.0], [0.2, -2.0, 0.5], [0.0, 0.3, -0.5]])
B3 = np.array([[-0.3, 1.0, 0.2], [-1.0, -0.3, 0.0], [0.1, 0.0, -1.5]])
A2 = np.array([[-0.7, 0.2], [0.6, -1.2]])
# spec of a system: (matrix, s, kind)
P0 = (A3, 0.5, 0)
SPEC = {"base": P0, "matrix": (B3, 0.5, 0), "number": (A3, -0.8, 0), "static": (A3, 0.5, 1), "size": (A2, 0.5, 0)}
OPT = {"exprb": dict(max_krylov_dim=3, iom=2), "leja": dict(leja_a=-6.0, leja_c=2.0, leja_tol=1e-13, n_leja=150), "pfd": dict(pfd_method="cram_8"), "none": {}}
IC = {3: (0.1, np.array([0.7, -0.4, 1.1])), 2: (0.1, np.array([0.9, -0.3]))}
IC2 = {3: (-0.4, np.array([-0.2, 0.8, 0.5])), 2: (-0.4, np.array([0.3, 0.6]))}
SCRIPT = ("N", "S", "A", "G", "R", "T")
SHORT = ("N", "S", "B", "R", "T")
H = {"S": 0.1, "G": 0.2, "T": 0.1, "B": 0.2}


def opts_of(m):
    if "leja" in m:
        return OPT["leja"]
    if "pfd" in m:
        return OPT["pfd"]
    if "dense" in m or m == "rk4":
        return {}
    return OPT["exprb"]


def other(m):
    """another method of the same class, or of another one"""
    return {"exprb2": "epi3", "epi2": "exprb3", "exprb3": "epi3", "epi3": "exprb2", "exprb2_dense": "exprb2", "exprb2_pfd": "exp_pfd", "exp_pfd": "exprb2_pfd", "pexprb4": "exprb3",
            "epi2_leja_re": "epi2_leja_im", "epi2_leja_im": "epi2_leja_re", "epi3_leja_im": "epi3", "exp1": "exp3", "exp2": "exp1", "exp3": "exp2", "exp1_dense": "exp3_dense",
            "exp2_dense": "exp1_dense", "exp3_dense": "exp2_dense", "rk4": "exprb2"}[m]


class Agent:
    """executes its script on a real integrator and keeps what it observed"""

    def __init__(self, method, spec, opts, sysobj=None):
        self.method, self.spec, self.opts, self.sysobj = method, spec, opts, sysobj
        self.I = self.r = None
        self.seen = []

    def do(self, op):
        import jax.numpy as jnp
        n = len(self.spec[0])
        if op == "N":
            s = self.sysobj if self.sysobj is not None else system()(*self.spec)
            t, y = IC[n]
            self.I = make(self.method, s, t, jnp.asarray(y), **self.opts)
        elif op == "R":
            self.I.reset_ic(IC2[n][0], jnp.asarray(IC2[n][1]))
        elif op == "A":
            self.I.accept_step(self.r)
        else:
            if op == "B":                 # accept and step with an extra argument
                self.I.accept_step(self.r)
            self.r = self.I.step(H[op], frhs_kwargs={"g": 0.4}) if op in "GB" else self.I.step(H[op])
            self.seen.append((float(self.r.t), np.asarray(self.r.y)))
        if self.I is not None and op not in "SGT":
            self.seen.append((float(self.I.time), np.asarray(self.I.state)))

    def observe(self):
        return [(float(self.I.time), np.asarray(self.I.state))]


def np_functions(spec):
    A, s, kind = spec
    nl = (lambda u: np.sin(u)) if kind == 0 else (lambda u: u / (1 + u * u))
    dn = (lambda u: np.cos(u)) if kind == 0 else (lambda u: (1 - u * u) / (1 + u * u) ** 2)
    f = lambda t, u, g: ref.ld(A) @ u + s * np.cos(t) * nl(u) + g
    J = lambda t, u: ref.ld(A) + np.diag(s * np.cos(t) * dn(u))
    ft = lambda t, u: -s * np.sin(t) * nl(u)
    return f, J, ft


def against_model(c, method, spec, script, seen):
    """the results of an agent alone against the formula model"""
    f, J, ft = np_functions(spec)
    n = len(spec[0])
    L = spec[0] if method[:4] in ("exp1", "exp2", "exp3") else None
    t, y = IC[n]
    prev, last = None, None
    k = 0
    for op in script:
        if op in "AB" and last is not None:
            prev, (t, y) = (t, y), last
        if op == "R":
            t, y = IC2[n]
            prev = None
        if op in H:
            g = 0.4 if op in "GB" else 0.0
            want = model.step(method, lambda a, b: f(a, b, g), J, ft, L, t, y, prev, H[op])
            tt, got = seen[k]
            c.close(got, want, max(tolerance(method, 1.0), 1e-9) * 10, f"{op} of the script {script} alone", scale=1 + float(np.max(np.abs(np.asarray(want, float)))))
            c.close(tt, t + H[op], 1e-13, "time")
            last = (tt, got)
            k += 1
        if op not in "SGT":
            tt, got = seen[k]
            c.close(tt, t, 1e-13, f"reported time after {op}")
            c.close(got, y, 1e-14, f"reported state after {op}")
            k += 1


def run_alone(method, spec, opts, sysobj, script):
    a = Agent(method, spec, opts, sysobj)
    for op in script:
        a.do(op)
    return a.seen + a.observe()


def compare(c, got, want, who):
    c.equal(len(got), len(want), "number of observations")
    for k, ((t, y), (t2, y2)) in enumerate(zip(got, want)):
        c.close(t, t2, 1e-14, f"{who}: time of observation {k}")
        c.close(y, y2, 1e-12, f"{who}: observation {k}")


def merges(*lens):
    """all interleavings as tuples of agent numbers"""
    def rec(rest):
        if not any(rest):
            yield ()
            return
        for i, r in enumerate(rest):
            if r:
                for m in rec(rest[:i] + (r - 1,) + rest[i + 1:]):
                    yield (i,) + m
    return rec(tuple(lens))


def pairings(method):
    o = opts_of(method)
    out = {}
    for k in ("matrix", "number", "static", "size"):
        out[k] = [(method, P0, {}, None), (method, SPEC[k], {}, None)]
    out["same"] = [(method, P0, {}, "shared"), (method, P0, {}, "shared")]
    if o:
        out["options"] = [(method, P0, {}, "shared"), (method, P0, o, "shared")]
    m2 = other(method)
    out["method"] = [(method, P0, {}, "shared"), (m2, P0, {}, "shared")]
    out["method,matrix"] = [(method, P0, {}, None), (m2, SPEC["matrix"], {}, None)]
    return out


def explore(rec, c_prefix, spec, script, tier):
    """all interleavings of agents with the given specs; agents with the same script"""
    states = set()
    shared = system()(*P0)
    sp = [(m, s, o, shared if so == "shared" else None) for m, s, o, so in spec]
    alone = None
    for order in merges(*[len(script)] * len(sp)):
        cid = f"{c_prefix},{''.join(map(str, order))}"
        if not rec.want(cid):
            continue
        first = alone is None
        with rec.case(cid, any(a != b for a, b in zip(order, order[1:]))) as c:
            if first:
                # the second agent alone first: whatever it leaves behind, the first one must not see
                alone = [run_alone(*a, script) for a in sp[::-1]][::-1]
            pos = [0] * len(sp)
            agents = [Agent(*a) for a in sp]
            for i in order:
                agents[i].do(script[pos[i]])
                pos[i] += 1
                states.add(tuple(pos))
            for i, a in enumerate(agents):
                compare(c, a.seen + a.observe(), alone[i], f"agent {i} ({a.method})")
            if first:
                for i, a in enumerate(sp):
                    if "iom" in a[2]:
                        continue          # truncated orthogonalization: no accuracy to check
                    against_model(c, a[0], a[1], script, alone[i])
        rec.add("transitions", len(order))
        rec.add("traces_validated_against_impl")
    rec.add("states", len(states))


def pairs(rec, tier, method):
    slow = "leja" in method or method == "pexprb4"
    for name, spec in pairings(method).items():
        # accept and step in one operation, except for the pairing most likely to interact
        script = ("N", "S", "B", "T")
        if slow and name not in ("matrix", "options"):
            script = ("N", "S", "B")
        elif name == "matrix" and not slow:
            script = SHORT
        if tier != "quick":
            script = SHORT if slow else SCRIPT
        explore(rec, name, spec, script, tier)
        gc.collect()
    # histories of creations and deletions: a new object may get the address of an old one
    for k, seq in enumerate(itertools.product(("base", "matrix", "number"), repeat=4)):
        cid = "lifetimes," + "-".join(seq)
        if not rec.want(cid):
            continue
        with rec.case(cid, len(set(seq)) > 1) as c:
            for s in seq:
                seen = run_alone(method, SPEC[s], {}, None, ("N", "S", "A", "S"))
                against_model(c, method, SPEC[s], ("N", "S", "A", "S"), seen)


def three(rec, tier, method):
    spec = [(method, P0, {}, None), (method, SPEC["matrix"], {}, None), (other(method), SPEC["size"], {}, None)]
    explore(rec, "three", spec, ("N", "S", "B", "T"), tier)


def runs(rec, tier):
    """every short sequence of whole integrations"""
    import jax.numpy as jnp
    from ormatex_py.integrate_wrapper import integrate
    calls = {"a": ("exprb2", "base", {}), "b": ("exprb2", "matrix", {}), "c": ("exp2_dense", "matrix", {}), "d": ("exp2_dense", "base", {}), "e": ("dopri5", "number", {}), "f": ("dopri5", "base", {}),
             "g": ("implicit_esdirk3", "size", {})}
    want = {}

    def call(k):
        m, s, kw = calls[k]
        n = len(SPEC[s][0])
        t, y = IC[n]
        r = integrate(system()(*SPEC[s]), jnp.asarray(y), t, 0.1, 4, m, **kw)
        return np.asarray(r.t_res), np.asarray([np.asarray(v) for v in r.y_res])

    for seq in itertools.product(calls, repeat=3 if tier == "quick" else 4):
        cid = "".join(seq)
        if not rec.want(cid):
            continue
        with rec.case(cid, len(set(seq)) > 1) as c:
            for k in seq:
                t, y = call(k)
                if k not in want:
                    m, s, kw = calls[k]
                    f, J, ft = np_functions(SPEC[s])
                    n = len(SPEC[s][0])
                    e = model.solve(lambda a, b: f(a, b, ref.LD(0)), IC[n][0], IC[n][1], 0.4)
                    c.close(y[-1], e, 5e-3, f"{calls[k]} against the exact solution")
                    want[k] = (t, y)
                c.close(t, want[k][0], 1e-14, f"times of {calls[k]}")
                c.close(y, want[k][1], 1e-12, f"states of {calls[k]} after {cid}")
        rec.add("transitions", len(seq))
        rec.add("traces_validated_against_impl")
    rec.add("states", len(calls))


def estimated(rec, tier, method):
    """Leja methods with an estimated spectrum and a coarse tolerance: the estimate of one run must not be that of another"""
    import jax.numpy as jnp
    from ormatex_py.integrate_wrapper import integrate
    mats = {"a": np.diag([-1.0, -50.0, -2.0]), "b": np.diag([-60.0, -1.0, -0.5]), "c": A3, "d": A2}
    if tier == "quick":
        del mats["c"]
    want = {}
    for seq in itertools.product(mats, repeat=3):
        cid = "".join(seq)
        if not rec.want(cid):
            continue
        with rec.case(cid, len(set(seq)) > 1) as c:
            for k in seq:
                n = len(mats[k])
                r = integrate(system()(mats[k], 0.1, 0), jnp.asarray(IC[n][1]), IC[n][0], 0.1, 2, method, leja_tol=1e-3)
                y = np.asarray([np.asarray(v) for v in r.y_res])
                if k not in want:
                    want[k] = y
                    f = np_functions((mats[k], 0.1, 0))[0]
                    e = model.solve(lambda a, b: f(a, b, ref.LD(0)), IC[n][0], IC[n][1], 0.2)
                    c.close(y[-1], e, 2e-2, f"{method} on matrix {k} against the exact solution")
                c.close(y, want[k], 1e-12, f"states on matrix {k} after {cid}")
        rec.add("transitions", len(seq))
        rec.add("traces_validated_against_impl")
    rec.add("states", len(mats))
