"""C10: the integration driver"""
import itertools
import numpy as np
from mc import ref, model
from mc.systems import np_systems, jax_systems
from checks import c08
from checks.c08 import make, split_systems, lin_of, lin_state

LEVEL = "model_checking"
RULE = ("every method x callback configuration x start time x step size x number of steps; the driver model predicts the complete event trace (callback calls with "
        "time and state, step results, returned lists), which must equal the recorded one; every callback failure position; states are compared with the step "
        "formula model fed with the callback's result; non-trivial: at least two steps or a callback")
BOUNDS = "18 library methods, 8 diffrax methods, n<=4 steps (8 thorough), 4 callback configurations, 3 start times, 2 step sizes, a failure at every callback position"
ASSUME = ["step formulas of mc/model.py (C08)", "diffrax itself is trusted for the two Kvaerno methods (checked for accuracy and grid only)"]

METHODS = ["exprb2", "exprb3", "pexprb4", "epi2", "epi3", "exprb2_dense", "exprb2_pfd", "rk4",
           "epi2_leja_re", "epi2_leja_im", "epi3_leja_im", "exp1", "exp2", "exp3", "exp1_dense", "exp2_dense", "exp3_dense"]
SYS = "nonauto3"


def jobs(tier):
    slow = ("pexprb4", "epi3_leja_im", "epi2_leja_im", "epi2_leja_re")
    out = [(m, "driver", dict(method=m)) for m in sorted(METHODS, key=lambda m: m not in slow)]
    out.append(("exp_pfd", "driver", dict(method="exp_pfd", sysname="linear4")))
    for m in ("euler", "heun", "midpoint", "bosh3", "dopri5", "implicit_euler", "implicit_esdirk3", "implicit_esdirk4"):
        out.append((f"diffrax-{m}", "diffrax", dict(method=m)))
    out.append(("diffrax-grid", "grid", {}))
    out += [("options", "options", {}), ("unknown", "unknown", {})]
    return out


class Boom(Exception):
    pass


def driver(rec, tier, method, sysname=SYS):
    import jax.numpy as jnp
    from ormatex_py.integrate_wrapper import integrate
    n, f, J, ft = np_systems()[sysname]
    split = method[:4] in ("exp1", "exp2", "exp3")
    sys = (split_systems()[sysname][0]) if split else jax_systems()[sysname]
    lin = (lambda t, u: lin_of(sysname, n)) if split else None
    y0 = np.array([0.6, -0.3, 0.8, 0.2])[:n]
    G = [0.4, -0.3, 0.2, 0.0, 0.5, -0.1, 0.3, 0.15]
    nmax = 4 if tier == "quick" else 8
    npmodel = method != "exp_pfd"
    for t0, dt in ((0.0, 0.05), (0.7, 0.2), (-1.2, 0.05), (3.0, 0.2)):
        for N in range(1, nmax + 1):
            if tier == "quick" and N == 3 and t0 != 0.7:
                continue
            for before, after in itertools.product((0, 1), repeat=2):
                cid = f"t0={t0:g},dt={dt:g},n={N},before={before},after={after}"
                if not rec.want(cid):
                    continue
                rec.add("states", 1 + N * (1 + before + after))
                rec.add("transitions", N * (1 + before + after))
                rec.add("traces_validated_against_impl")
                with rec.case(cid, N > 1 or before or after) as c:
                    ev = []
                    y0j = jnp.asarray(y0)

                    def cb_before(s, t, y):
                        k = sum(e[0] == "before" for e in ev)
                        ev.append(("before", s, float(t), np.array(y)))
                        return {"g": G[k]}

                    def cb_after(s, t, y):
                        ev.append(("after", s, float(t), np.array(y)))
                        return ("token", len(ev))

                    kw = {}
                    if before:
                        kw["callback_before_step"] = cb_before
                    if after:
                        kw["callback_after_step_accept"] = cb_after
                    r = integrate(sys, y0j, t0, dt, N, method, **kw)
                    T, Y = r.t_res, r.y_res
                    c.equal(len(T), N + 1, "number of times")
                    c.equal(len(Y), N + 1, "number of states")
                    c.close(np.array([float(x) for x in T]), t0 + dt * np.arange(N + 1), 1e-13, "time grid")
                    c.same(Y[0], y0, "first state")
                    # predicted event trace
                    want = []
                    for i in range(N):
                        if before:
                            want.append(("before", i))
                        if after:
                            want.append(("after", i + 1))
                    c.equal([e[0] for e in ev], [w[0] for w in want], "order of the callback calls")
                    for e, (kind, i) in zip(ev, want):
                        c.true(e[1] is sys, f"{kind} callback of step {i}: system argument")
                        c.close(e[2], t0 + dt * i, 1e-13, f"time given to the {kind} callback")
                        c.same(e[3], Y[i], f"state given to the {kind} callback")
                    cb = r.cb
                    c.equal(list(cb.get("callback_before_step", [])), [{"g": G[k]} for k in range(N)] if before else [], "returned results of the before callback")
                    idx = [k + 1 for k, w in enumerate(want) if w[0] == "after"]
                    c.equal(list(cb.get("callback_after_step_accept", [])), [("token", k) for k in idx], "returned results of the after callback")
                    # states: formula with the extra argument of that step
                    prev = None
                    for i in range(N):
                        t = t0 + dt * i
                        g = G[i] if before else 0.0
                        y = np.asarray(Y[i])
                        w = model.step(method, lambda a, b: f(a, b, g), lambda a, b: J(a, b, g), lambda a, b: ft(a, b, g),
                                       None if lin is None else lin(t, y), t, y, prev, dt)
                        M = np.asarray(lin(t, y) if lin else J(t, y, g), float)
                        nrm = dt * float(np.max(np.sum(np.abs(M), axis=1)))
                        c.close(Y[i + 1], w, c08.tolerance(method, nrm), f"state {i + 1} (extra argument {g})")
                        prev = (t, y)
                    # stepping by hand
                    I = make(method, sys, t0, y0j)
                    for i in range(N):
                        s = I.step(dt, frhs_kwargs={"g": G[i]}) if before else I.step(dt)
                        I.accept_step(s)
                        c.close(Y[i + 1], s.y, 1e-12, f"state {i + 1} and stepping by hand")
    # the arguments of one step are not those of another: every pattern of steps with and without an extra argument
    for pat in itertools.product((0, 1), repeat=3 if tier == "quick" else 5):
        cid = "pattern," + "".join(map(str, pat))
        if not rec.want(cid) or len(set(pat)) == 1:
            continue
        N = len(pat)
        rec.add("states", N + 1)
        rec.add("transitions", N)
        rec.add("traces_validated_against_impl")
        with rec.case(cid) as c:
            t0, dt, k = 0.7, 0.1, []

            def cb_pattern(s, t, y):
                k.append(t)
                return {"g": G[len(k) - 1]} if pat[len(k) - 1] else {}
            r = integrate(sys, jnp.asarray(y0), t0, dt, N, method, callback_before_step=cb_pattern)
            c.equal(list(r.cb["callback_before_step"]), [{"g": G[i]} if p else {} for i, p in enumerate(pat)], "returned results of the before callback")
            I = make(method, sys, t0, jnp.asarray(y0))
            for i, p in enumerate(pat):
                s = I.step(dt, frhs_kwargs={"g": G[i]} if p else {})
                I.accept_step(s)
                c.close(r.y_res[i + 1], s.y, 1e-12, f"state {i + 1}, extra arguments in the steps {pat}")
    # a callback that fails: the caller sees the exception, no further call is made
    N = 3
    for kind in ("before", "after"):
        for k in range(N):
            cid = f"fault,{kind},{k}"
            if not rec.want(cid):
                continue
            rec.add("states", N)
            rec.add("transitions", k + 1)
            rec.add("traces_validated_against_impl")
            with rec.case(cid) as c:
                calls = {"before": 0, "after": 0}

                def mk(name):
                    def cb(s, t, y):
                        calls[name] += 1
                        if name == kind and calls[name] == k + 1:
                            raise Boom()
                        return {"g": 0.1} if name == "before" else None
                    return cb
                try:
                    integrate(sys, jnp.asarray(y0), 0.7, 0.1, N, method, callback_before_step=mk("before"), callback_after_step_accept=mk("after"))
                    c.fail("the exception of the callback was swallowed")
                except Boom:
                    pass
                c.equal(calls, {"before": k + 1, "after": k + (kind == "after")}, "number of callback calls")


def _np_step(method, F, t, y, h):
    """explicit Runge-Kutta formulas of the diffrax methods"""
    if method == "euler":
        return y + h * F(t, y)
    k1 = F(t, y)
    if method == "heun":
        return y + h / 2 * (k1 + F(t + h, y + h * k1))
    if method == "midpoint":
        return y + h * F(t + h / 2, y + h / 2 * k1)
    if method == "bosh3":
        k2 = F(t + h / 2, y + h / 2 * k1)
        k3 = F(t + 3 * h / 4, y + 3 * h / 4 * k2)
        return y + h * (2 * k1 + 3 * k2 + 4 * k3) / 9
    if method == "dopri5":
        A = [[], [1 / 5], [3 / 40, 9 / 40], [44 / 45, -56 / 15, 32 / 9], [19372 / 6561, -25360 / 2187, 64448 / 6561, -212 / 729],
             [9017 / 3168, -355 / 33, 46732 / 5247, 49 / 176, -5103 / 18656]]
        cs = [0, 1 / 5, 3 / 10, 4 / 5, 8 / 9, 1]
        b = [35 / 384, 0, 500 / 1113, 125 / 192, -2187 / 6784, 11 / 84]
        k = []
        for a, ci in zip(A, cs):
            k.append(F(t + ci * h, y + h * sum((x * q for x, q in zip(a, k)), 0 * y)))
        return y + h * sum(x * q for x, q in zip(b, k))
    return None


def _esdirk(method, F, J, t, y, h):
    """singly diagonally implicit Runge-Kutta methods (tables of Kvaerno), the stage equations solved by Newton's method"""
    import diffrax
    tb = {"implicit_esdirk3": diffrax.Kvaerno3, "implicit_esdirk4": diffrax.Kvaerno4}[method].tableau
    y = np.asarray(y, float)
    k = [F(t, y)]
    for c, low, g in zip(tb.c, tb.a_lower, tb.a_diagonal[1:]):
        base = y + h * sum(a * q for a, q in zip(low, k))
        Y = base + h * g * k[-1]
        for _ in range(30):
            Y = Y - np.linalg.solve(np.eye(len(y)) - h * g * np.asarray(J(t + c * h, Y), float), np.asarray(Y - base - h * g * F(t + c * h, Y), float))
        k.append(F(t + c * h, Y))
    return y + h * sum(b * q for b, q in zip(tb.b_sol, k))


def diffrax(rec, tier, method):
    import jax.numpy as jnp
    from ormatex_py.integrate_wrapper import integrate
    for name in ("trig2", "nonauto3") if tier == "quick" else ("trig2", "nonauto3", "lv2", "linear4"):
        n, f, J, ft = np_systems()[name]
        F = lambda t, y: f(t, y, 0.0)
        for t0, dt, N in ((0.0, 0.1, 3), (0.7, 0.2, 2), (-1.2, 0.05, 4), (3.0, 0.125, 1)):
            tight = dict(rtol=1e-12, atol=1e-12)
            kws = {"default": {}, "qr": {"lin_solver": "qr"}, "tight": {**tight, "lin_rtol": 1e-13, "lin_atol": 1e-13}, "qr-tight": {"lin_solver": "qr", **tight}}
            for kn, kw in kws.items() if method.startswith("implicit") else (("default", {}),):
                if "tight" in kn and t0 < 0 and tier == "quick":
                    continue
                cid = f"{name},t0={t0:g},dt={dt:g},n={N},{kn}"
                if not rec.want(cid):
                    continue
                rec.add("states", N + 1)
                rec.add("transitions", N)
                rec.add("traces_validated_against_impl")
                with rec.case(cid) as c:
                    y0 = np.array([0.6, -0.3, 0.8, 0.2])[:n]
                    r = integrate(jax_systems()[name], jnp.asarray(y0), t0, dt, N, method, **kw)
                    T, Y = np.asarray(r.t_res), np.asarray(r.y_res)
                    c.equal(T.shape, (N + 1,), "times")
                    c.equal(Y.shape, (N + 1, n), "states")
                    c.close(T, t0 + dt * np.arange(N + 1), 1e-12, "time grid")
                    c.same(Y[0], y0, "first state")
                    for i in range(N):
                        t = t0 + dt * i
                        w = _np_step(method, F, t, Y[i], dt)
                        if w is not None:
                            c.close(Y[i + 1], w, 1e-12, f"state {i + 1}")
                        elif method == "implicit_euler":
                            c.close(Y[i + 1], Y[i] + dt * F(t + dt, Y[i + 1]), 1e-11 if "tight" in kn else 1e-6, f"implicit Euler equation of step {i + 1}")
                        else:
                            w = _esdirk(method, F, lambda a, b: J(a, b, 0.0), t, Y[i], dt)
                            c.close(Y[i + 1], w, 1e-11 if "tight" in kn else 1e-6, f"state {i + 1} of the documented method")
                            ex = model.solve(lambda a, b: f(a, b, ref.LD(0)), t, Y[i], dt, n=20)
                            c.close(Y[i + 1], ex, 2e-3, f"state {i + 1} close to the solution")


def grid(rec, tier):
    """accumulated rounding must not cost or add a step"""
    import jax.numpy as jnp
    from ormatex_py.integrate_wrapper import integrate
    for t0 in (0.0, 0.3, 0.7, -1.2, 3.0, 10.0) if tier == "quick" else (0.0, 0.1, 0.3, 0.7, -1.2, 3.0, 10.0, 1e3):
        for dt in (0.1, 0.05, 0.2) if tier == "quick" else (0.1, 0.05, 0.2, 0.3, 1 / 3, 1e-3):
            for N in (2, 3) if tier == "quick" else (2, 3, 7, 10):
                cid = f"t0={t0:g},dt={dt:g},n={N}"
                if not rec.want(cid):
                    continue
                rec.add("states", N + 1)
                rec.add("transitions", N)
                rec.add("traces_validated_against_impl")
                with rec.case(cid) as c:
                    r = integrate(jax_systems()["logistic1"], jnp.asarray([0.4]), t0, dt, N, "euler")
                    c.close(np.asarray(r.t_res), t0 + dt * np.arange(N + 1), 1e-12, "time grid")
                    y = 0.4
                    for i in range(N):
                        y = y + dt * 1.5 * y * (1 - y / 3)
                    c.close(np.asarray(r.y_res)[-1], np.array([y]), 1e-11, "last state")


def options(rec, tier):
    """options given to the driver reach the integrator"""
    import jax.numpy as jnp
    from ormatex_py.integrate_wrapper import integrate
    n, f, J, ft = np_systems()["linear4"]
    s, sp = jax_systems()["linear4"], split_systems()["linear4"][0]
    y0 = np.array([0.6, -0.3, 0.8, 0.2])
    O = {"exprb2": [dict(max_krylov_dim=2), dict(iom=1), dict(tol_fdt=-1.0), {}], "exprb3": [dict(max_krylov_dim=2), {}], "epi2": [dict(max_krylov_dim=3), {}],
         "epi3": [dict(max_krylov_dim=3), {}], "pexprb4": [dict(max_krylov_dim=2), {}], "exprb2_pfd": [dict(pfd_method="IE"), dict(pfd_method="cram_4"), {}],
         "exp_pfd": [dict(pfd_method="IE"), {}], "exp1": [dict(max_krylov_dim=1), {}], "exp2": [dict(max_krylov_dim=1), {}], "exp3": [dict(max_krylov_dim=1), {}],
         "epi2_leja_re": [dict(leja_tol=1e-3), dict(leja_a=-30.0), {}], "epi2_leja_im": [dict(leja_tol=1e-3), dict(leja_a=-20.0, leja_c=3.0), {}],
         "epi3_leja_im": [dict(leja_tol=1e-3), {}]}
    default = {}
    differs = {}
    for m, opts in O.items():
        sysm = sp if m in ("exp1", "exp2", "exp3") else s
        for kw in reversed(opts):
            cid = f"{m},{kw}"
            if not rec.want(cid) and kw:
                continue
            rec.add("traces_validated_against_impl")
            rec.add("states", 3)
            rec.add("transitions", 2)
            with rec.case(cid) as c:
                r = integrate(sysm, jnp.asarray(y0), 0.3, 0.5, 2, m, **kw)
                I = make(m, sysm, 0.3, jnp.asarray(y0), **kw)
                for i in range(2):
                    q = I.step(0.5)
                    I.accept_step(q)
                    c.close(r.y_res[i + 1], q.y, 1e-12, f"state {i + 1} with {kw}")
                if not kw:
                    default[m] = np.asarray(r.y_res[-1])
                elif m in default and "tol_fdt" not in kw and "leja_a" not in kw:
                    d = float(np.max(np.abs(np.asarray(r.y_res[-1]) - default[m])))
                    c.true(d > 1e-14, f"option {kw} has no effect through the driver")


def unknown(rec, tier):
    import jax.numpy as jnp
    from ormatex_py.integrate_wrapper import integrate
    from ormatex_py import ode_exp as e, ode_explicit as x
    s = jax_systems()["lv2"]
    for m in ("", "foo", "EXPRB2", "exprb2 ", "exprb", "epi", "rk5", "exprb2_rs", "epi3_rs", "bdf2_rs", "cn_rs", "exp4", "leja", "epi2_leja", "euler2", "implicit"):
        cid = f"integrate,{m!r}"
        if rec.want(cid):
            rec.add("states")
            rec.add("transitions")
            rec.add("traces_validated_against_impl")
            with rec.case(cid) as c:
                try:
                    integrate(s, jnp.ones(2), 0.0, 0.1, 2, m)
                except Exception:
                    continue
                c.fail("an unknown or unavailable method did not raise an error")
        for cls in (e.ExpRBIntegrator, e.ExpLejaIntegrator, e.ExpSplitIntegrator, x.RKIntegrator):
            cid = f"{cls.__name__},{m!r}"
            if rec.want(cid):
                with rec.case(cid) as c:
                    try:
                        cls(s, 0.0, jnp.ones(2), method=m)
                    except Exception:
                        continue
                    c.fail("an unknown method was accepted")
