"""C07: exponential integrators are exact on linear problems"""
import itertools
import numpy as np
from mc import ref

LEVEL = "exploration"
RULE = ("every matrix x forcing x start time x step size history x method (and method option); every accepted step is compared with the "
        "exact solution from the step's starting state; non-trivial: the exact solution moves")
BOUNDS = ("27 named matrices scaled so that the largest step has norm <= 8, 3 forcings (none, constant, linear in time), start times "
          "-0.7, 0, 3, all histories of up to 3 steps over {0.1, 0.25}, 17 methods, 6 fraction tables, Krylov and Leja options; units of time 1e-9..1e9 and of the state 1e-20..1e12 (thorough to 1e15, 1e-100..1e20)")
ASSUME = ["exact solution in 80 bit arithmetic",
          "tolerances: 4e-6*(1+norm) relative (plus 2e-5 of the time derivative term) for Krylov and dense methods (accuracy of the small dense phi evaluation), 1e-9 for the Leja methods, "
          "the accuracy of the table for the partial fraction method"]

TOL = 4e-6
DTS = (0.1, 0.25)
RB = ["exprb2", "exprb3", "pexprb4", "epi2", "epi3", "exprb2_dense"]
SPLIT = ["exp1", "exp2", "exp3", "exp1_dense", "exp2_dense", "exp3_dense"]
LEJA = ["epi2_leja_re", "epi2_leja_im", "epi3_leja_im"]
STABLE = ["scal-2", "zero2", "def2", "lap3", "stiff3", "cyc3", "chain4", "lap5s", "adv5", "nonnorm2"]


def alphabet():
    out = {}
    for k, A in ref.mat_alphabet().items():
        nrm = float(np.max(np.sum(np.abs(A), axis=1)))
        out[k] = A * min(1.0, 32.0 / nrm) if nrm > 0 else A
    return out


def forcings(n):
    i = np.arange(n)
    c, d = 1.0 - 0.5 * (i % 3), 0.4 * (-1.0) ** i * (1 + i % 2)
    z = np.zeros(n)
    return {"hom": (z, z), "const": (c, z), "lin": (c, d), "ponly": (z, d)}


def histories(n):
    return [h for L in range(1, n + 1) for h in itertools.product(DTS, repeat=L)]


def leaves(n):
    """histories that are not a proper prefix of another one: every prefix is checked on the way"""
    return list(itertools.product(DTS, repeat=n))


def jobs(tier):
    out = []
    sizes = sorted({len(a) for a in alphabet().values()}, reverse=True)
    out += [("jacobian-variants", "variants", {}), ("leja-options", "lejaopt", {}), ("invariants", "invariants", {}), ("krylov-options", "krylovopt", {}), ("scales", "scales", {}), ("late", "late", {})]
    for n in (2, 3):
        out.append((f"rb-{n}", "exact", dict(n=n, methods=RB)))
        out.append((f"leja-{n}", "leja", dict(n=n)))
    out.append(("pfd", "pfd", {}))
    for n in sizes:
        if n not in (2, 3):
            out.append((f"rb-{n}", "exact", dict(n=n, methods=RB)))
            out.append((f"leja-{n}", "leja", dict(n=n)))
        out.append((f"split-{n}", "exact", dict(n=n, methods=SPLIT)))
    out.append(("float32", "float32", {}))
    return out


def _mk():
    import jax
    import jax.numpy as jnp
    from ormatex_py import ode_sys as o

    class Aff(o.OdeSplitSys):
        A: jax.Array
        c: jax.Array
        d: jax.Array

        def __init__(self, A, c, d):
            super().__init__()
            self.A, self.c, self.d = jnp.asarray(A), jnp.asarray(c), jnp.asarray(d)

        def _frhs(self, t, u, **kw):
            return self.A @ u + self.c + self.d * t

        def _fl(self, t, u, **kw):
            return o.MatrixLinOp(self.A)

    class AffCustom(Aff):
        def _fjac(self, t, u, **kw):
            return o.CustomJacLinOp(t, u, self.frhs, self.A, self.d, frhs_kwargs=kw)

    class AffCustomFdt(Aff):
        def _fjac(self, t, u, **kw):
            return o.CustomJacLinOp(t, u, self.frhs, self.A, frhs_kwargs=kw)

    class AffFd(Aff):
        def _fjac(self, t, u, **kw):
            return o.FdJacLinOp(t, u, self.frhs, frhs_kwargs=kw)

    return Aff, AffCustom, AffCustomFdt, AffFd


def make(method, sys, t0, y0, **kw):
    from ormatex_py import ode_exp as e
    for cls in (e.ExpRBIntegrator, e.ExpLejaIntegrator, e.ExpSplitIntegrator):
        if method in cls._valid_methods:
            return cls(sys, t0, y0, method=method, **kw)
    raise KeyError(method)


class Exact:
    """step propagators, cached per (matrix, step)"""

    def __init__(self, A):
        self.A, self.n, self.p = ref.ld(A), len(A), {}

    def step(self, y, c, d, t, dt):
        if dt not in self.p:
            self.p[dt] = ref.phis(self.A * ref.LD(dt), 2)
        p = self.p[dt]
        h = ref.LD(dt)
        g = ref.ld(c) + ref.ld(d) * ref.LD(t)
        y = ref.ld(y)
        want = p[0] @ y + h * (p[1] @ g) + h * h * (p[2] @ ref.ld(d))
        f = self.A @ y + g
        amp = [float(np.max(np.sum(np.abs(q), axis=1))) for q in p]
        sc = max(float(np.max(np.abs(y))), amp[1] * dt * float(np.max(np.abs(f))), amp[2] * dt * dt * float(np.max(np.abs(d))), 1e-300)
        return want, sc


def walk(c, I, ex, cc, d, t0, y0, hist, tol, atol=0.0):
    y, t = np.asarray(y0), t0
    for i, dt in enumerate(hist):
        r = I.step(dt)
        I.accept_step(r)
        want, sc = ex.step(y, cc, d, t, dt)
        if tol >= TOL:      # phi_2 of small arguments is a cubic polynomial
            sc = sc + 2e-5 / tol * dt * dt * float(np.max(np.abs(d)))
        c.close(r.y, want, tol, f"step {i + 1} of {hist} from t={t:g}", scale=sc + atol / tol)
        t = t + dt
        c.close(r.t, t, 1e-14, "time after the step")
        c.close(I.t, t, 1e-14, "time of the integrator")
        y = np.asarray(r.y)


def exact(rec, tier, n, methods):
    import jax.numpy as jnp
    Aff = _mk()[0]
    times = (0.0, -0.7, 3.0)
    L = 3 if tier == "quick" else 4
    for name, A in alphabet().items():
        if len(A) != n:
            continue
        ex = Exact(A)
        nrm = 0.25 * float(np.max(np.sum(np.abs(A), axis=1)))
        for fn, (cc, d) in forcings(n).items():
            sys = Aff(A, cc, d)
            for t0 in times:
                if tier == "quick" and t0 == -0.7 and fn != "lin":
                    continue
                for m in methods:
                    if m in ("exp1", "exp1_dense") and np.any(d):
                        continue
                    if t0 != 0.0 and tier == "quick":
                        hs = [(0.1, 0.25, 0.1), (0.25, 0.1, 0.1)]
                    elif m in ("epi3", "exprb3") or m.endswith("_dense") or tier != "quick":
                        hs = leaves(L)
                    else:
                        hs = [(0.1, 0.25, 0.1), (0.25, 0.1, 0.25), (0.25, 0.25, 0.1)]
                    for y0n in ("mix",) if t0 != 0.0 else ("mix", "zero"):
                        for h in hs if y0n == "mix" else hs[:1] + hs[-2:-1]:
                            cid = f"{m},{name},{fn},t0={t0:g},y0={y0n},{'-'.join(map(str, h))}"
                            if not rec.want(cid):
                                continue
                            with rec.case(cid, bool(np.any(A) or np.any(cc) or np.any(d))) as c:
                                y0 = ref.vec(n, y0n)
                                I = make(m, sys, t0, jnp.asarray(y0))
                                walk(c, I, ex, cc, d, t0, y0, h, TOL * (1 + nrm))


def leja(rec, tier, n):
    import jax.numpy as jnp
    Aff = _mk()[0]
    L = 3
    for name, A in alphabet().items():
        if len(A) != n:
            continue
        ex = Exact(A)
        zero = not np.any(A)
        for fn, (cc, d) in forcings(n).items():
            sys = Aff(A, cc, d)
            for t0 in (0.0, 3.0):
                if t0 == 3.0 and fn != "lin":
                    continue
                hs = [(0.1, 0.25, 0.1), (0.25, 0.25, 0.1)] if tier == "quick" else leaves(L)
                for m in LEJA:
                    for h in hs:
                        cid = f"{m},{name},{fn},t0={t0:g},{'-'.join(map(str, h))}"
                        if not rec.want(cid):
                            continue
                        with rec.case(cid, not zero) as c:
                            y0 = ref.vec(n, "mix")
                            I = make(m, sys, t0, jnp.asarray(y0))
                            # either accurate or an error; an error is only acceptable outside
                            # the methods' documented region, which these matrices do not leave
                            walk(c, I, ex, cc, d, t0, y0, h, 1e-9)


def lejaopt(rec, tier):
    import jax.numpy as jnp
    Aff = _mk()[0]
    M = alphabet()
    opts = {"substep-off": dict(leja_substep=False), "tol-8": dict(leja_tol=1e-8), "tol-12": dict(leja_tol=1e-12), "n80": dict(n_leja=80),
            "n150-nosub": dict(n_leja=150, leja_substep=False), "pade": dict(dd_method="pade"), "recursive": dict(dd_method="recursive", n_leja=100),
            "zeros0": dict(leja_n_zeros=0), "zeros1": dict(leja_n_zeros=1), "scale2": dict(leja_max_re_eig_scale=2.0), "a-explicit": dict(leja_a="A"),
            "ac-explicit": dict(leja_a="A", leja_c="C"), "n10": dict(n_leja=10), "n24": dict(n_leja=24)}
    raised = 0
    for e in (0.1, 1e-2, 1e-3, 1e-5, 1e-7, 1e-9, 1e-12):
        M[f"damped{e:g}"] = np.array([[-e, 1.0], [-1.0, -e]])
    damped = [k for k in M if k.startswith("damped")]
    for name in damped + ["scal-2", "def2", "rot2", "lap3", "cyc3", "chain4", "full4", "adv5", "lap5s"]:
        A = M[name]
        n = len(A)
        ex = Exact(A)
        ev = np.linalg.eigvals(A)
        for on, kw in opts.items():
            if name in damped and on not in ("tol-8", "substep-off", "recursive"):
                continue
            if on == "recursive" and name in damped and name not in ("damped0.001", "damped1e-05", "damped1e-07"):
                continue
            kw = dict(kw)
            if kw.get("leja_a") == "A":
                kw["leja_a"] = float(-1.3 * np.max(np.abs(ev)))
            if kw.get("leja_c") == "C":
                kw["leja_c"] = float(1.3 * max(0.5, np.max(np.abs(ev.imag))))
            for m in LEJA:
                cid = f"{m},{name},{on}"
                if not rec.want(cid):
                    continue
                with rec.case(cid) as c:
                    cc, d = forcings(n)["lin"]
                    y0 = ref.vec(n, "mix")
                    I = make(m, Aff(A, cc, d), 0.5, jnp.asarray(y0), **kw)
                    tol = 1e3 * max(kw.get("leja_tol", 1e-15), 1e-12)
                    y, t = y0, 0.5
                    for dt in (0.1, 0.25, 0.1):
                        try:
                            r = I.step(dt)
                        except RuntimeError:
                            raised += 1
                            rec.add("steps refused with an error")
                            break
                        I.accept_step(r)
                        want, sc = ex.step(y, cc, d, t, dt)
                        c.close(r.y, want, tol, f"step dt={dt} from t={t:g} with {kw}", scale=sc)
                        y, t = np.asarray(r.y), t + dt
    if rec.only is None:
        with rec.case("not everything refused") as c:
            c.true(raised < 60, f"{raised} of the option runs refused with an error")


def _rational(A, k, which):
    """r_k of implicit Euler 1/(1-z) and Crank-Nicolson (1+z/2)/(1-z/2)"""
    n = len(A)
    I = np.eye(n, dtype=ref.LD)
    from numpy.linalg import solve
    if which == "IE":        # r1 = 1/(1-z), r2 = (r1-1)/z = 1/(1-z)
        return solve((I - A).astype(float), np.eye(n))
    r1 = solve((I - A / 2).astype(float), np.eye(n))      # r1 = 1/(1-z/2)
    return r1 if k == 1 else r1 / 2                        # r2 = (r1-1)/z = (1/2)/(1-z/2)


def pfd(rec, tier):
    import jax.numpy as jnp
    Aff = _mk()[0]
    M = alphabet()
    tables = {"cram_16": 1e-10, "cram_8": 4e-6, "pade_8_8": 1e-8, "pade_7_8": 3e-6, "pade_16_16": 1e-6, "IE": None, "CN": None}
    for name in STABLE:
        A = M[name]
        n = len(A)
        ex = Exact(A)
        for tb, tl in tables.items():
            for fn, (cc, d) in forcings(n).items():
                for t0 in (0.0, 3.0):
                    for m in ("exprb2_pfd", "exp_pfd"):
                        if m == "exp_pfd" and (fn != "hom" or tl is None):
                            continue
                        for h in ((0.25, 0.1, 0.25),) if tier == "quick" else leaves(3):
                            cid = f"{m},{tb},{name},{fn},t0={t0:g},{'-'.join(map(str, h))}"
                            if not rec.want(cid):
                                continue
                            with rec.case(cid) as c:
                                y0 = ref.vec(n, "mix")
                                I = make(m, Aff(A, cc, d), t0, jnp.asarray(y0), pfd_method=tb)
                                nrm = 0.25 * float(np.max(np.sum(np.abs(A), axis=1)))
                                if tl is not None:
                                    walk(c, I, ex, cc, d, t0, y0, h, tl * (1 + nrm))
                                    continue
                                y, t = y0, t0
                                for dt in h:
                                    r = I.step(dt)
                                    I.accept_step(r)
                                    f = A @ y + cc + d * t
                                    want = y + dt * (_rational(dt * A, 1, tb) @ f) + dt * dt * (_rational(dt * A, 2, tb) @ d)
                                    c.close(r.y, want, 1e-11, f"linearly implicit step dt={dt} from t={t:g}", scale=max(1.0, float(np.max(np.abs(f))) * dt))
                                    y, t = np.asarray(r.y), t + dt


def variants(rec, tier):
    """user supplied and finite difference Jacobians"""
    import jax.numpy as jnp
    _, AC, ACF, AF = _mk()
    M = alphabet()
    for name in ("scal3", "def2", "rot2", "cyc3", "stiff3", "full4") + (("nonnorm2", "hess6") if tier != "quick" else ()):
        A = M[name]
        n = len(A)
        ex = Exact(A)
        nrm = 0.25 * float(np.max(np.sum(np.abs(A), axis=1)))
        for vn, cls, atol in (("custom", AC, 0.0), ("custom-fdt", ACF, 1e-6), ("fd", AF, 1e-5)):
            for fn, (cc, d) in forcings(n).items():
                for m in ("exprb2", "exprb3", "pexprb4", "epi2", "epi3", "exprb2_dense", "epi2_leja_re", "epi3_leja_im"):
                    if vn == "fd" and m in ("exprb2_dense", "epi2_leja_re", "epi3_leja_im"):
                        continue
                    for y0n in ("mix", "zero"):
                        if y0n == "zero" and fn in ("hom", "const") and tier == "quick" and vn != "fd":
                            continue
                        cid = f"{vn},{m},{name},{fn},{y0n}"
                        if not rec.want(cid):
                            continue
                        with rec.case(cid) as c:
                            y0 = ref.vec(n, y0n)
                            I = make(m, cls(A, cc, d), 0.4, jnp.asarray(y0))
                            walk(c, I, ex, cc, d, 0.4, y0, (0.1, 0.25, 0.1), TOL * (1 + nrm), atol=atol * (1 + nrm))


def krylovopt(rec, tier):
    import jax.numpy as jnp
    Aff = _mk()[0]
    M = alphabet()
    for name in ("rot2", "lap3", "full4", "hess6") + (("nonnorm2", "cyc3", "full7") if tier != "quick" else ()):
        A = M[name]
        n = len(A)
        ex = Exact(A)
        nrm = 0.25 * float(np.max(np.sum(np.abs(A), axis=1)))
        for on, kw in {"dim=n+5": dict(max_krylov_dim=n + 5), "dim=500": dict(max_krylov_dim=500), "iom=n+5": dict(iom=n + 5), "iom=500": dict(iom=500),
                       "tol_fdt=0": dict(tol_fdt=0.0), "tol_fdt=-1": dict(tol_fdt=-1.0), "both": dict(iom=n + 6, max_krylov_dim=n + 6, tol_fdt=1e-12)}.items():
            for fn, (cc, d) in forcings(n).items():
                for m in ("exprb2", "exprb3", "pexprb4", "epi2", "epi3", "exp1", "exp2", "exp3"):
                    if m in ("exprb2", "exprb3", "pexprb4", "epi3") and "-1" in on and np.any(d):
                        continue
                    if m == "exp1" and np.any(d):
                        continue
                    cid = f"{m},{name},{on},{fn}"
                    if not rec.want(cid):
                        continue
                    with rec.case(cid) as c:
                        y0 = ref.vec(n, "mix")
                        I = make(m, Aff(A, cc, d), 0.4, jnp.asarray(y0), **kw)
                        walk(c, I, ex, cc, d, 0.4, y0, (0.1, 0.25), TOL * (1 + nrm))


def scales(rec, tier):
    """units of time and of the state: stiff systems with tiny steps, slow systems with huge steps, trace amounts and huge amounts"""
    import jax.numpy as jnp
    Aff = _mk()[0]
    M = alphabet()
    for name in ("rot2", "lap3", "chain4") + (("def2", "full4", "stiff3") if tier != "quick" else ()):
        A = M[name]
        n = len(A)
        nrm = 0.25 * float(np.max(np.sum(np.abs(A), axis=1)))
        for s in (1e-9, 1e9) + ((1e-3, 1e15) if tier != "quick" else ()):
            ex = Exact(A / s)
            for q in (1.0, 1e-20, 1e12) + ((1e-100, 1e20) if tier != "quick" else ()):
                for m in RB + SPLIT + LEJA + ["exprb2_pfd"]:
                    if q > 1e15 and m in LEJA:
                        continue            # refused with an error
                    cid = f"{m},{name},time*{s:g},state*{q:g}"
                    if not rec.want(cid):
                        continue
                    with rec.case(cid) as c:
                        cc, d = forcings(n)["const" if m in ("exp1", "exp1_dense") else "lin"]
                        cc, d, y0 = cc * q / s, d * q / s / s, ref.vec(n, "mix") * q
                        I = make(m, Aff(A / s, cc, d), 0.5 * s, jnp.asarray(y0), **(dict(tol_fdt=0.0) if m in RB or "pfd" in m else {}))
                        walk(c, I, ex, cc, d, 0.5 * s, y0, [h * s for h in (0.1, 0.25, 0.25, 0.1)], 1e-9 if m in LEJA else TOL * (1 + nrm))


def late(rec, tier):
    """late times and slow changes (seconds, but years), with every kind of Jacobian"""
    import jax.numpy as jnp
    Aff, AC, ACF, AF = _mk()
    M = alphabet()
    for name in ("rot2", "lap3") + (("def2", "full4", "chain4") if tier != "quick" else ()):
        A = M[name]
        n = len(A)
        nrm = 0.25 * float(np.max(np.sum(np.abs(A), axis=1)))
        for s in (1e4, 1e9) + ((1e2, 1e7, 1e12) if tier != "quick" else ()):
            ex = Exact(A / s)
            cc, d = forcings(n)["lin"]
            cc, d, y0 = cc / s, d / s / s, ref.vec(n, "mix")
            for vn, cls, atol in (("ad", Aff, 0.0), ("custom", AC, 0.0), ("custom-fdt", ACF, 2e-6), ("fd", AF, 1e-5)):
                for m in RB + LEJA:
                    if vn == "fd" and (m in LEJA or "dense" in m):
                        continue
                    for t0 in (1.5, -2.0):
                        cid = f"{m},{name},{vn},time*{s:g},t0={t0:g}"
                        if not rec.want(cid):
                            continue
                        with rec.case(cid) as c:
                            I = make(m, cls(A / s, cc, d), t0 * s, jnp.asarray(y0), **({} if m in LEJA else dict(tol_fdt=0.0)))
                            walk(c, I, ex, cc, d, t0 * s, y0, [h * s for h in (0.25, 0.1, 0.25)], 1e-8 if m in LEJA else TOL * (1 + nrm), atol=atol * (1 + nrm))


def invariants(rec, tier):
    """long runs: equilibria stay, linear invariants are kept"""
    import jax.numpy as jnp
    Aff = _mk()[0]
    M = alphabet()
    N = 40 if tier == "quick" else 200
    for m in RB + SPLIT + LEJA + ["exprb2_pfd"]:
        # equilibria: A y = -c
        for name in ("scal-2", "def2", "rot2", "lap3", "full4", "adv5"):
            cid = f"{m},equilibrium,{name}"
            if not rec.want(cid):
                continue
            A = M[name]
            n = len(A)
            with rec.case(cid) as c:
                ye = np.array([1.0, -2.0, 3.0, 0.5, 2.0])[:n]
                cc = -A @ ye
                I = make(m, Aff(A, cc, np.zeros(n)), 1.0, jnp.asarray(ye))
                for i in range(N):
                    try:
                        r = I.step(0.2)
                    except RuntimeError:
                        c.fail("raised at an equilibrium")
                    I.accept_step(r)
                c.close(I.y_hist[0], ye, 1e-9, f"equilibrium after {N} steps")
                c.close(I.t, 1.0 + 0.2 * N, 1e-12, "time")
        # invariants: w^T A = 0
        for name, w in (("cyc3", np.ones(3)), ("chain4", np.ones(4)), ("sing2", np.array([2.0, -1.0]))):
            cid = f"{m},invariant,{name}"
            if not rec.want(cid):
                continue
            A = M[name] * (0.1 if name == "sing2" else 1.0)
            n = len(A)
            with rec.case(cid) as c:
                y0 = 1.0 + np.arange(n)
                I = make(m, Aff(A, np.zeros(n), np.zeros(n)), 0.0, jnp.asarray(y0))
                NN = N if name != "sing2" else 5
                for i in range(NN):
                    r = I.step(0.2)
                    I.accept_step(r)
                y = np.asarray(I.y_hist[0])
                c.close(w @ y, w @ y0, 1e-9 * NN, f"invariant after {NN} steps", scale=float(np.max(np.abs(y))) + 1)


def float32(rec, tier):
    """single precision: the library's default when 64 bit mode is not switched on"""
    import jax
    jax.config.update("jax_enable_x64", False)
    try:
        _float32(rec)
    finally:
        jax.config.update("jax_enable_x64", True)


def _float32(rec):
    import jax.numpy as jnp
    Aff = _mk()[0]
    M = alphabet()
    for name in ("scal-2", "rot2", "lap3", "full4"):
        A = M[name].astype(np.float32)
        n = len(A)
        ex = Exact(A)
        for fn, (cc, d) in forcings(n).items():
            cc, d = cc.astype(np.float32), d.astype(np.float32)
            for m in ("exprb2", "exprb3", "epi2", "epi3", "exprb2_dense", "exp2", "exp3"):
                cid = f"{m},{name},{fn}"
                if not rec.want(cid):
                    continue
                with rec.case(cid) as c:
                    y0 = ref.vec(n, "mix").astype(np.float32)
                    I = make(m, Aff(A, cc, d), 0.25, jnp.asarray(y0))
                    walk(c, I, ex, cc, d, 0.25, y0, (0.1, 0.25), 2e-4)
