"""C08: step formulas and orders"""
import itertools
import functools
import numpy as np
from mc import ref, model
from mc.systems import np_systems, states

LEVEL = "exploration"
RULE = ("every method x system x initial state x start time x step size history; each accepted step is compared with an independent model of the "
        "documented formula started from the integrator's own previous states; orders from halved steps; non-trivial: the right-hand side is non-zero")
BOUNDS = ("6 systems with a non-trivial remainder (sizes 1..6) and one with an inexact Jacobian, 5 initial states, start times 0 and 0.7, "
          "all histories of 3 steps over {0.05, 0.2}, another extra argument in every step, 17 methods")
ASSUME = ["mc/model.py: formulas in 80 bit arithmetic with hand-written derivatives",
          "tolerance 4e-6*(1+norm) relative to the update for the Krylov/dense methods, 1e-9 for Leja, 1e-13 for rk4",
          "the dense split methods evaluate L once (documented); they are run with constant L"]

DTS = (0.05, 0.2)
RB = ["exprb2", "exprb3", "pexprb4", "epi2", "epi3", "exprb2_dense"]
PFD = ["exprb2_pfd", "exp_pfd"]
LEJA = ["epi2_leja_re", "epi2_leja_im", "epi3_leja_im"]
SPLIT = ["exp1", "exp2", "exp3"]
KRY = ["exprb2", "exprb3", "pexprb4", "epi2", "epi3", "exp1", "exp2", "exp3"]
SPLITD = ["exp1_dense", "exp2_dense", "exp3_dense"]


def jobs(tier):
    out = []
    for s in ("stiff6", "nonauto3", "linear4", "trig2", "lv2", "logistic1"):
        out.append((f"rb-{s}", "formula", dict(name=s, methods=RB + PFD)))
        out.append((f"leja-{s}", "formula", dict(name=s, methods=LEJA + ["rk4"])))
        out.append((f"split-{s}", "formula", dict(name=s, methods=SPLIT + SPLITD)))
    out.append(("inexact", "inexact", {}))
    for m in KRY:
        out.append((f"krylov-{m}", "krylov", dict(method=m)))
    for m in RB + ["exprb2_pfd"] + LEJA + SPLIT + SPLITD + ["rk4"]:
        out.append((f"order-{m}", "order", dict(method=m)))
    out.append(("order-diffrax", "order_diffrax", {}))
    return out


def lin_of(name, n):
    """constant L of the split form: a crude splitting, different from the Jacobian"""
    d = {"stiff6": np.diag([-40.0, -10, -3, -1, -0.2, 0.1]), "nonauto3": np.array([[-1.0, 0.5, 0], [0, -2, 0], [0.2, 0, -0.3]]),
         "linear4": np.diag([-0.5, -1.0, -2.0, -0.3]), "trig2": np.array([[0.0, 1.0], [-1.0, -1.0]]), "lv2": np.diag([0.8, -0.6]), "logistic1": np.array([[1.0]])}
    return d[name]


def lin_state(name, n, t, u):
    """state and time dependent L"""
    return lin_of(name, n) + np.diag(0.1 * np.asarray(u) + 0.05 * t)


@functools.lru_cache(None)
def split_systems():
    """the test systems in split form: name -> (constant L, state dependent L)"""
    import jax.numpy as jnp
    from ormatex_py import ode_sys as o
    from mc.systems import jax_systems
    out = {}
    for name, s in jax_systems().items():
        n = np_systems()[name][0]
        L0 = lin_of(name, n)

        def mk(base, L0):
            class SplitC(o.OdeSplitSys):
                def _frhs(self, t, u, **kw):
                    return base._frhs(t, u, **kw)

                def _fl(self, t, u, **kw):
                    return o.MatrixLinOp(jnp.asarray(L0))

            class SplitS(o.OdeSplitSys):
                def _frhs(self, t, u, **kw):
                    return base._frhs(t, u, **kw)

                def _fl(self, t, u, **kw):
                    return o.MatrixLinOp(jnp.asarray(L0) + jnp.diag(0.1 * u + 0.05 * t))
            return SplitC(), SplitS()
        out[name] = mk(s, L0)
    return out


def make(method, sys, t0, y0, **kw):
    from ormatex_py import ode_exp as e, ode_explicit as x
    for cls in (e.ExpRBIntegrator, e.ExpLejaIntegrator, e.ExpSplitIntegrator, x.RKIntegrator):
        if method in cls._valid_methods:
            return cls(sys, t0, y0, method=method, **kw)
    raise KeyError(method)


def tolerance(m, nrm):
    if m == "rk4":
        return 1e-13
    if "leja" in m:
        return 1e-9
    if "pfd" in m:
        return 1e-9 * (1 + nrm)
    return 4e-6 * (1 + nrm)


def run_history(c, m, I, f, jac, ft, lin, t0, y0, hist, gs, kw=True):
    """walk a history; every step against the model started from the integrator's own states"""
    t, y, prev = t0, np.asarray(y0), None
    for i, (h, g) in enumerate(zip(hist, gs)):
        r = I.step(h, frhs_kwargs={"g": g}) if kw else I.step(h)
        I.accept_step(r)
        fg = lambda tt, yy: f(tt, yy, g)
        jg = lambda tt, yy: jac(tt, yy, g)
        fd = lambda tt, yy: ft(tt, yy, g)
        L = None if lin is None else lin(t, y)
        want = model.step(m, fg, jg, fd, L, t, y, prev, h)
        M = L if L is not None else jg(t, y)
        nrm = h * float(np.max(np.sum(np.abs(np.asarray(M, float)), axis=1)))
        F = np.asarray(fg(t, y), float)
        vt = np.asarray(fd(t, y), float)
        inc = float(np.max(np.abs(np.asarray(want - ref.ld(y), float))))
        sc = max(inc, h * float(np.max(np.abs(F))), 20 * h * h * float(np.max(np.abs(vt)))) * max(1.0, np.exp(min(nrm, 6.0)) if nrm < 6 else 1.0)
        if m in ("rk4", "exp_pfd") or "leja" in m:
            sc = max(sc, float(np.max(np.abs(y))))
        if "leja" in m:      # relative to the augmented vector (y_update, 1)
            sc = max(sc, 1.0)
        c.close(r.y, want, tolerance(m, nrm), f"step {i + 1} of {hist} ({m}, t={t:g}, extra argument {g})", scale=sc + 1e-12 * max(1.0, float(np.max(np.abs(y)))) / tolerance(m, nrm))
        c.close(r.t, t + h, 1e-14, "time")
        prev = (t, y)
        t, y = t + h, np.asarray(r.y)


def formula(rec, tier, name, methods):
    import jax.numpy as jnp
    from mc.systems import jax_systems
    n, f, J, ft = np_systems()[name]
    sysj = jax_systems()[name]
    sp = split_systems()[name]
    hs = list(itertools.product(DTS, repeat=3))
    if tier != "quick":
        hs += list(itertools.product(DTS, repeat=4)) + [(0.02,) * 8]
    G = (0.0, 0.4, -0.3, 0.2, 0.1, 0.0, 0.3, -0.2)
    for m in methods:
        if m == "exp_pfd" and name not in ("linear4", "logistic1", "lv2"):
            continue
        if "pfd" in m and name in ("trig2",):
            pass
        for sn in ("pos", "mix", "zero", "small", "ones") if tier == "quick" else states(n):
            y0 = states(n)[sn]
            for t0 in (0.0, 0.7):
                multi = m.startswith("epi3") or m in ("exprb3", "exp3_dense")
                use = hs if (multi and sn in ("pos", "mix")) or tier != "quick" else [(0.05, 0.2, 0.05), (0.2, 0.2, 0.05)] if t0 == 0.0 else [(0.2, 0.05, 0.2)]
                for h in use:
                    for lv in ("C", "S") if m in SPLIT else ("",):
                        cid = f"{m}{lv},{sn},t0={t0:g},{'-'.join(map(str, h))}"
                        if not rec.want(cid):
                            continue
                        with rec.case(cid) as c:
                            lin = None
                            s = sysj
                            if m in SPLIT or m in SPLITD:
                                s = sp[1] if lv == "S" else sp[0]
                                lin = (lambda t, u: lin_state(name, n, t, u)) if lv == "S" else (lambda t, u: lin_of(name, n))
                            I = make(m, s, t0, jnp.asarray(y0))
                            run_history(c, m, I, f, J, ft, lin, t0, y0, h, G)


def inexact(rec, tier):
    """a user supplied Jacobian that is not the derivative: the formulas use it consistently"""
    import jax.numpy as jnp
    from mc.systems import jax_systems
    from ormatex_py import ode_sys as o
    for name in ("trig2", "nonauto3"):
        n, f, J, ft = np_systems()[name]
        base = jax_systems()[name]
        L0 = lin_of(name, n)
        w0 = 0.3 * np.ones(n)

        class Inexact(o.OdeSys):
            def _frhs(self, t, u, **kw):
                return base._frhs(t, u, **kw)

            def _fjac(self, t, u, **kw):
                return o.CustomJacLinOp(t, u, self.frhs, jnp.asarray(L0) + jnp.diag(0.1 * u + 0.05 * t), jnp.asarray(w0), frhs_kwargs=kw)

        jac = lambda t, u, g: ref.ld(L0) + np.diag(ref.LD(1) / 10 * u + ref.LD(5) / 100 * t)
        for m in RB + LEJA:
            for sn in ("pos", "mix"):
                for h in itertools.product(DTS, repeat=3):
                    cid = f"{m},{name},{sn},{'-'.join(map(str, h))}"
                    if not rec.want(cid):
                        continue
                    with rec.case(cid) as c:
                        y0 = states(n)[sn]
                        I = make(m, Inexact(), 0.7, jnp.asarray(y0))
                        run_history(c, m, I, f, jac, lambda t, u, g: w0, None, 0.7, y0, h, (0.0, 0.4, -0.3))


def krylov(rec, tier, method):
    """Krylov options: a symmetric Jacobian needs a window of two vectors only, a small step only a few vectors"""
    import jax.numpy as jnp
    from ormatex_py import ode_sys as o
    n = 16
    i = np.arange(n)
    m = method

    for st in (1.0, 8.0):
        D = st * (-2 * np.eye(n) + np.eye(n, k=1) + np.eye(n, k=-1))
        f = lambda t, u, g: D @ u - (1 + np.sin(t) / 5) * u ** 3 / 3 + np.cos(t + i) / 3 + g
        J = lambda t, u, g: ref.ld(D) - np.diag((1 + np.sin(ref.LD(t)) / 5) * u ** 2)
        ft = lambda t, u, g: -np.cos(t) / 15 * u ** 3 - np.sin(t + i) / 3

        class Diff(o.OdeSplitSys):
            def _frhs(self, t, u, **kw):
                return jnp.asarray(D) @ u - (1 + jnp.sin(t) / 5) * u ** 3 / 3 + jnp.cos(t + i) / 3 + kw["frhs_kwargs"]["g"]

            def _fl(self, t, u, **kw):
                return o.MatrixLinOp(jnp.asarray(D))

        opts = {"full": dict(max_krylov_dim=16, iom=16), "iom=2": dict(iom=2), "iom=2,dim=16": dict(iom=2, max_krylov_dim=16), "iom=2,dim=300": dict(iom=2, max_krylov_dim=300),
                "iom=3,dim=40": dict(iom=3, max_krylov_dim=40), "iom=20,dim=17": dict(iom=20, max_krylov_dim=17), "dim=13": dict(max_krylov_dim=13), "iom=2,dim=14": dict(iom=2, max_krylov_dim=14)}
        for on, kw in opts.items():
            if st > 1 and kw.get("max_krylov_dim", 100) < n:
                continue
            for sn, y0 in (("wave", np.cos(i * .7) + .2), ("hump", np.exp(-(i - 5.) ** 2 / 8)), ("unit", np.eye(n)[3])):
                for t0, h in ((0.0, (0.2, 0.05, 0.2)), (0.7, (0.05, 0.2, 0.05))):
                    cid = f"{m},{st:g},{on},{sn},t0={t0:g},{'-'.join(map(str, h))}"
                    if not rec.want(cid):
                        continue
                    with rec.case(cid) as c:
                        I = make(m, Diff(), t0, jnp.asarray(y0), **kw)
                        run_history(c, m, I, f, J, ft, (lambda t, u: D) if m in SPLIT else None, t0, y0, h, (0.0, 0.4, -0.3))


def _orders(errs):
    return [float(np.log2(a / b)) for a, b in zip(errs[:-1], errs[1:])]


PROBLEMS = [("logistic1", np.array([0.4]), 1.6), ("lv2", np.array([1.5, 0.8]), 1.0), ("nonauto3", np.array([0.5, 0.3, 0.9]), 1.0), ("trig2", np.array([0.4, -0.2]), 1.0)]


def order(rec, tier, method):
    import jax.numpy as jnp
    from mc.systems import jax_systems
    p = model.ORDER[method]
    sp = split_systems()
    for name, y0, T in PROBLEMS:
        n, f, J, ft = np_systems()[name]
        for t0 in (0.3,) if tier == "quick" else (0.0, 0.3, -1.1):
            cid = f"{name},t0={t0}"
            if not rec.want(cid):
                continue
            with rec.case(cid) as c:
                exact = model.solve(lambda t, y: f(t, y, ref.LD(0)), t0, y0, T)
                Ns = (8, 16, 32) if p >= 3 else (16, 32, 64)
                errs = []
                for N in Ns:
                    s = sp[name][0] if method in SPLIT + SPLITD else jax_systems()[name]
                    I = make(method, s, t0, jnp.asarray(y0))
                    for i in range(N):
                        I.accept_step(I.step(T / N))
                    c.close(I.t, t0 + T, 1e-13, "end time")
                    errs.append(float(np.max(np.abs(ref.ld(np.asarray(I.y_hist[0])) - exact))))
                obs = _orders(errs)
                rec.note(f"{method} {name}: errors {['%.1e' % e for e in errs]} orders {['%.2f' % o for o in obs]}")
                c.true(errs[-1] < 5e-2, f"error {errs[-1]:.2e} with {Ns[-1]} steps")
                c.true(max(obs) > p - 0.35 or errs[-1] < 1e-8, f"observed orders {obs} for a method of order {p}, errors {errs}")


def order_diffrax(rec, tier):
    import jax.numpy as jnp
    from mc.systems import jax_systems
    from ormatex_py.integrate_wrapper import integrate
    P = {"euler": 1, "heun": 2, "midpoint": 2, "bosh3": 3, "dopri5": 5, "implicit_euler": 1, "implicit_esdirk3": 3, "implicit_esdirk4": 4, "rk4": 4}
    for m, p in P.items():
        for name, y0, T in (PROBLEMS[1:3] if tier == "quick" else PROBLEMS):
            n, f, J, ft = np_systems()[name]
            cid = f"{m},{name}"
            if not rec.want(cid):
                continue
            with rec.case(cid) as c:
                exact = model.solve(lambda t, y: f(t, y, ref.LD(0)), 0.3, y0, T)
                errs = []
                Ns = (4, 8) if p >= 4 else (16, 32)
                for N in Ns:
                    r = integrate(jax_systems()[name], jnp.asarray(y0), 0.3, T / N, N, m)
                    c.equal(len(r.y_res), N + 1, "number of states")
                    errs.append(float(np.max(np.abs(ref.ld(np.asarray(r.y_res[-1])) - exact))))
                c.true(_orders(errs)[0] > p - 0.6 or errs[-1] < 1e-8, f"observed order {_orders(errs)} for {m} of order {p}, errors {errs}")
