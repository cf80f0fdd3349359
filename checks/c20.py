"""C20: the Rust integrators and the Newton solver"""
import itertools
import numpy as np
from mc import model, ref, rust
from mc.systems import np_systems, states

LEVEL = "model_checking"
RULE = ("every operation sequence over {step with dt1, step with dt2, accept the newest pending result, accept an older one, reset} for every method x system, "
        "run in lockstep with a reference model of the documented formulas; every start point for the Newton solver; non-trivial: a step moved the state")
BOUNDS = ("sequences of 4 operations (thorough 6), 11 methods, 6 systems (2 non autonomous), start times 0 and 0.7, exact and finite difference Jacobians, "
          "Pade and pole evaluations of the small phi functions; Newton: 6 systems x 7..25 start points")
ASSUME = ["Rust modules compiled unchanged against stand-ins of the crates that are not available offline (see C19)",
          "bdf2 is the formula for equal steps: histories with two step sizes are not used for it",
          "model: formulas in 80 bit arithmetic, implicit equations solved to rounding by Newton iteration with the exact Jacobian"]

METHODS = ["rk1", "rk2", "rk3", "rk4", "bdf1", "bdf2", "cn", "epi2", "epi3", "exprb2", "exprb3"]
SYS = ["logistic1", "lv2", "nonauto3", "trig2", "linear4", "stiff6"]
BT = {"rk1": ([0], [[]], [1]), "rk2": ([0, .5], [[], [.5]], [0, 1]), "rk3": ([0, .5, 1], [[], [.5], [-1, 2]], [1 / ref.LD(6), 2 / ref.LD(3), 1 / ref.LD(6)]),
      "rk4": ([0, .5, .5, 1], [[], [.5], [0, .5], [0, 0, 1]], [1 / ref.LD(6), 1 / ref.LD(3), 1 / ref.LD(3), 1 / ref.LD(6)])}
LD = ref.LD


def jobs(tier):
    out = [("newton", "newton", {}), ("options", "options", {}), ("convergence", "convergence", {}), ("equilibrium", "equilibrium", {}), ("late", "late", {})]
    for m in METHODS:
        out.append((f"ops-{m}", "ops", dict(method=m)))
    for m in METHODS:
        out.append((f"steps-{m}", "steps", dict(method=m)))
    return out


def solve(G, dG, y):
    """root of G near y to rounding"""
    y = ref.ld(y).copy()
    for _ in range(60):
        g = G(y)
        d = ref.ld(np.linalg.solve(np.asarray(dG(y), dtype=float), np.asarray(g, dtype=float)))
        y = y - d
        if float(np.max(np.abs(d))) < 1e-17 * max(1.0, float(np.max(np.abs(y)))):
            return y
    return y * np.nan  # no root near y


def formula(method, f, J, ft, t, y, prev, h):
    """reference step from the documented formulas"""
    t, h, y = LD(t), LD(h), ref.ld(y)
    I = np.eye(len(y))
    if method in BT:
        c, a, b = BT[method]
        k = []
        for i in range(len(c)):
            k.append(f(t + LD(c[i]) * h, y + h * sum((LD(a[i][j]) * k[j] for j in range(i)), 0 * y)))
        return y + h * sum(LD(b[i]) * k[i] for i in range(len(c)))
    if method == "bdf1" or (method == "bdf2" and prev is None):
        return solve(lambda z: z - y - h * f(t + h, z), lambda z: I - h * J(t + h, z), y)
    if method == "bdf2":
        yp = ref.ld(prev[1])
        return solve(lambda z: z - 4 * y / 3 + yp / 3 - 2 * h / 3 * f(t + h, z), lambda z: I - 2 * h / 3 * J(t + h, z), y)
    if method == "cn":
        f0 = f(t, y)
        return solve(lambda z: z - y - h / 2 * (f(t + h, z) + f0), lambda z: I - h / 2 * J(t + h, z), y)
    if method == "epi3" and prev is None:
        method = "epi2"
    return model.step(method, f, J, ft, None, t, y, prev, h)


def tol(method, J, t, y, h, f, ft, m=None):
    n = float(np.max(np.sum(np.abs(np.asarray(J(t, y), dtype=float)), axis=1))) * abs(h)
    s = max(1.0, float(np.max(np.abs(np.asarray(y, dtype=float)))))
    if method in BT:
        return 1e-13 * (1 + n) ** 4 * s
    if method in ("bdf1", "bdf2", "cn"):
        # stopping test of the Newton iteration: updates below 1e-6 (1 + norm), quadratically convergent, linear solves to 1e-8
        return 1e-6 * (1 + n) * s
    # finite difference time derivative of the right-hand side
    v = float(np.max(np.abs(np.asarray(ft(t, y), dtype=float))))
    fs = max(1.0, float(np.max(np.abs(np.asarray(f(t, y), dtype=float)))))
    return (1e-10 * (1 + n) ** 2 * s + h * h * (3e-8 * (v + 1) * (1 + n) + (1e-7 * fs if v > 0 else 0.0)) * (1 + n))


class Ctx:
    def __init__(self, sname):
        self.n, self.f0, self.J0, self.ft0 = np_systems()[sname]
        self.f = lambda t, u: np.asarray(self.f0(t, u, 0.0))
        self.J = lambda t, u: np.asarray(self.J0(t, u, 0.0))
        self.ft = lambda t, u: np.asarray(self.ft0(t, u, 0.0))
        self.L = rust.lib()
        self.sid = self.L.register(self.n, self.f, self.J)


DT = (0.125, 0.05)


def alphabet(method):
    return ["a", "A", "b", "o", "r"] if method != "bdf2" else ["a", "A", "o", "r"]


def ops(rec, tier, method):
    """a/b: step with dt1/dt2 and accept it; A: step only (pending); o: accept the oldest pending; r: reset to another state and time"""
    depth = 4 if tier == "quick" else 6
    for sname in (["nonauto3", "lv2"] if tier == "quick" else ["nonauto3", "lv2", "logistic1", "trig2"]):
        X = Ctx(sname)
        y0 = states(X.n)["pos"]
        y1 = states(X.n)["ones"] * 0.7
        memo = {}

        def ref_step(t, y, prev, h):
            key = (t, y.tobytes(), None if prev is None else (prev[0], prev[1].tobytes()) if method in ("bdf2", "epi3") else None, h)
            if key not in memo:
                memo[key] = np.asarray(formula(method, X.f, X.J, X.ft, t, y, prev if method in ("bdf2", "epi3") else None, h), dtype=float)
            return memo[key]
        for seq in itertools.product(alphabet(method), repeat=depth):
            # pending results only matter when one of them is accepted later
            s = "".join(seq)
            cid = f"{sname},{s}"
            if not rec.want(cid):
                continue
            with rec.case(cid, nontrivial=("a" in s or "b" in s or ("A" in s and "o" in s))) as c:
                it = rust.Integ(X.L, method, X.sid, X.n, 0.3, y0, m=20, iom=20)
                t, hist, pend = 0.3, [(0.3, y0)], []
                try:
                    for q, op in enumerate(s):
                        if op in "abA":
                            h = DT[1] if op == "b" else DT[0]
                            r = it.step(h)
                            ty, y = hist[-1]
                            want = ref_step(ty, y, hist[-2] if len(hist) > 1 else None, h)
                            T = tol(method, X.J, ty, y, h, X.f, X.ft)
                            c.close(r.y, want, T, f"operation {q + 1} ({op}): state after the step")
                            c.close(r.t, ty + h, 1e-14, "time after the step")
                            c.equal(r.dt, h, "step size in the result")
                            if method == "exprb3":
                                c.true(np.isfinite(r.err) and r.err >= 0, f"error estimate {r.err}")
                            # the model continues from the state of the implementation: errors do not accumulate
                            if op == "A":
                                pend.append(r)
                            else:
                                it.accept(r)
                                hist.append((r.t, r.y))
                        elif op == "o" and pend:
                            r = pend.pop(0)
                            it.accept(r)
                            hist.append((r.t, r.y))
                        elif op == "r":
                            it.reset(-0.2, y1)
                            hist = [(-0.2, y1)]
                        tt, yy = it.state()
                        c.equal(tt, hist[-1][0], f"operation {q + 1} ({op}): current time")
                        c.equal(yy.tolist(), hist[-1][1].tolist(), f"operation {q + 1} ({op}): current state")
                        rec.add("transitions")
                finally:
                    it.close()
        rec.add("model states", len(memo))


def steps(rec, tier, method):
    """one and several steps from every state"""
    exp = method[:2] == "ep" or method[:2] == "ex"
    for sname in SYS:
        X = Ctx(sname)
        for sn, y0 in states(X.n).items():
            for t0 in (0.0, 0.7):
                for h in (0.1, 0.02, 0.4):
                    if sn == "big" and (method not in BT and not exp or h > 0.02):
                        continue
                    for fd in (0, 1):
                        cid = f"{sname},{sn},t={t0:g},h={h:g},{'fd' if fd else 'exact'}"
                        if fd and (method in BT or (h == 0.02) or sn in ("big", "small")) or not rec.want(cid):
                            continue
                        if sname == "stiff6" and h > 0.1 and method in BT:
                            continue
                        with rec.case(cid, nontrivial=sn != "zero") as c:
                            it = rust.Integ(X.L, method, X.sid, X.n, t0, y0, m=20, iom=20, fd=fd)
                            hist = [(t0, y0)]
                            for q in range(4):
                                t, y = hist[-1]
                                want = np.asarray(formula(method, X.f, X.J, X.ft, t, y, hist[-2] if q and method in ("bdf2", "epi3") else None, h), dtype=float)
                                if not np.all(np.isfinite(want)) or float(np.max(np.abs(want))) > 1e4:
                                    break
                                r = it.step(h)
                                T = tol(method, X.J, t, y, h, X.f, X.ft)
                                if fd and exp:
                                    T += h * 2e-6 * max(1.0, float(np.max(np.abs(X.f(t, y))))) ** 2
                                c.close(r.y, want, T, f"step {q + 1}")
                                it.accept(r)
                                hist.append((r.t, r.y))
                            it.close()


def options(rec, tier):
    """Krylov dimension and window, evaluation of the small phi functions, switched off time derivative"""
    X = Ctx("stiff6")
    y0 = states(6)["pos"]
    f, J, ft = X.f, X.J, X.ft
    for method in ("epi2", "epi3", "exprb2", "exprb3"):
        for kind, order, kn in ((0, 12, "pade"), (1, 16, "cram"), (2, 32, "parabolic32")):
            for m, iom in ((6, 6), (9, 9), (20, 2), (20, 100)):
                cid = f"{method},{kn},m={m},iom={iom}"
                if rec.want(cid):
                    with rec.case(cid) as c:
                        it = rust.Integ(X.L, method, X.sid, 6, 0.0, y0, kind=kind, order=order, m=m, iom=iom)
                        hist = [(0.0, y0)]
                        for q in range(3):
                            t, y = hist[-1]
                            want = formula(method, f, J, ft, t, y, hist[-2] if q and method == "epi3" else None, 0.02)
                            r = it.step(0.02)
                            c.close(r.y, np.asarray(want, dtype=float), 1e-7, f"step {q + 1}")
                            it.accept(r)
                            hist.append((r.t, r.y))
    X = Ctx("nonauto3")
    for method in ("epi2", "exprb2"):
        cid = f"{method},time derivative switched off"
        if rec.want(cid):
            with rec.case(cid) as c:
                y0 = states(3)["pos"]
                it = rust.Integ(X.L, method, X.sid, 3, 0.3, y0, tol_fdt=-1.0)
                want = formula(method, X.f, X.J, lambda t, u: 0 * u, 0.3, y0, None, 0.1)
                c.close(it.step(0.1).y, np.asarray(want, dtype=float), 1e-9, "step without the time derivative")


def convergence(rec, tier):
    """order of accuracy over a fixed interval"""
    order = {"rk1": 1, "rk2": 2, "rk3": 3, "rk4": 4, "bdf1": 1, "bdf2": 2, "cn": 2, "epi2": 2, "epi3": 3, "exprb2": 2, "exprb3": 3}
    for sname in ("nonauto3", "trig2", "lv2"):
        X = Ctx(sname)
        y0 = states(X.n)["pos"]
        ex = np.asarray(model.solve(X.f, 0.2, y0, 1.0, n=100), dtype=float)
        for method in METHODS:
            cid = f"{sname},{method}"
            if not rec.want(cid):
                continue
            with rec.case(cid) as c:
                e = []
                for N in (10, 20, 40):
                    it = rust.Integ(X.L, method, X.sid, X.n, 0.2, y0, m=10, iom=10)
                    for _ in range(N):
                        it.accept(it.step(1.0 / N))
                    e.append(float(np.max(np.abs(it.state()[1] - ex))))
                    it.close()
                p = np.log2(e[1] / e[2]) if e[2] > 3e-9 else order[method]
                c.true(p > order[method] - 0.35, f"observed order {p:.2f} < {order[method]} (errors {e})")


def slow(T, q):
    """y = q x(t/T): changes over the length T and has the size q"""
    A = np.array([[-1.0, 0.5], [0.3, -2.0]])
    return (lambda t, u: np.asarray((A @ u + q * np.array([np.sin(t / T), np.cos(2 * t / T)]) - np.array([u[0] ** 2 / q, 0 * t])) / T),
            lambda t, u: np.asarray((A + np.array([[-2 * u[0] / q, 0 * t], [0 * t, 0 * t]])) / T),
            lambda t, u: q / T / T * np.asarray(np.array([np.cos(t / T), -2 * np.sin(2 * t / T)]) + 0 * u))


class Slow:
    def __init__(self, T, q):
        self.n = 2
        self.f, self.J, self.ft = slow(T, q)
        self.L = rust.lib()
        self.sid = self.L.register(self.n, self.f, self.J)


def late(rec, tier):
    """late times and slow changes (seconds, but years)"""
    for T in (1.0, 1e4, 1e8, 1e9, 1e12):
      for Q in ((T * T,) if T > 1 else (1.0, 1e-13, 1e-30, 1e8, 1e16, 1e50)):
        X = Slow(T, Q)
        for method in METHODS:
            if Q < 1 and method in ("bdf1", "bdf2", "cn"):
                continue  # the tolerance of the nonlinear solver is absolute for small states
            for t0 in (1.5, -2.0, 9.0):
                for x in ((0.3, -0.2), (1.0, 2.0)):
                    cid = f"{method},T={T:g},size={Q:g},t={t0:g}T,{x}"
                    if not rec.want(cid):
                        continue
                    with rec.case(cid) as c:
                        y0 = np.array(x) * Q
                        it = rust.Integ(X.L, method, X.sid, 2, t0 * T, y0, m=10, iom=10, tol_fdt=1e-8 if Q >= 1 else 0.0)
                        hist = [(t0 * T, y0)]
                        h = 0.2 * T
                        for q in range(3):
                            t, y = hist[-1]
                            want = np.asarray(formula(method, X.f, X.J, X.ft, t, y, hist[-2] if q and method in ("bdf2", "epi3") else None, h), dtype=float)
                            r = it.step(h)
                            c.close(r.y, want, 1e-12 if method in BT else 1e-6, f"step {q + 1}", scale=Q * 3)
                            c.close(r.t, t + h, 1e-14, "time after the step", scale=abs(t) + h)
                            it.accept(r)
                            hist.append((r.t, r.y))
                        it.close()


def equilibrium(rec, tier):
    """a state where the right-hand side vanishes is kept by every method"""
    eqs = {"lv2": [np.zeros(2), np.array([2.0, 1.6])], "logistic1": [np.zeros(1), np.array([3.0])]}
    for sname, ys in eqs.items():
        X = Ctx(sname)
        for i, y0 in enumerate(ys):
            for method in METHODS:
                for fd in (0, 1):
                    for h in (0.1, 2.0):
                        cid = f"{sname},{i},{method},h={h:g},{'fd' if fd else 'exact'}"
                        if rec.want(cid):
                            with rec.case(cid) as c:
                                it = rust.Integ(X.L, method, X.sid, X.n, 0.0, y0, m=10, iom=10, fd=fd)
                                for q in range(3):
                                    r = it.step(h)
                                    c.close(r.y, y0, 1e-12, f"step {q + 1}")
                                    it.accept(r)


def newton_systems():
    A = np.array([[2.0, -1.0], [0.5, 3.0]])
    return {
        "square": (1, lambda t, x: x * x - 9.0, lambda t, x: np.diag(2 * x), [[v] for v in (0.5, 1.0, 2.0, 2.9, 3.0, 5.0, 40.0, -1.0, -30.0)]),
        "cube": (1, lambda t, x: x ** 3 - 2 * x + 2 + t, lambda t, x: np.diag(3 * x * x - 2), [[v] for v in (-3.0, -2.0, -1.5, -10.0)]),
        "exp": (1, lambda t, x: np.exp(x) - 2.0, lambda t, x: np.diag(np.exp(x)), [[v] for v in (-1.0, 0.0, 1.0, 3.0, 10.0)]),
        "circle": (2, lambda t, x: np.array([x[0] ** 2 + x[1] ** 2 - 25.0, x[0] - x[1] + 1.0]), lambda t, x: np.array([[2 * x[0], 2 * x[1]], [1.0, -1.0]]),
                   [[a, b] for a in (1.0, 2.5, 6.0) for b in (0.5, 3.0, 9.0)]),
        "linear": (2, lambda t, x: A @ x - np.array([1.0, 2.0 + t]), lambda t, x: A, [[a, b] for a in (0.0, 1.0, -50.0) for b in (0.0, 1e3, -2.0)]),
        "zero": (2, lambda t, x: np.array([x[0] + x[1] ** 2, x[1] - x[0] * x[1]]), lambda t, x: np.array([[1.0, 2 * x[1]], [-x[1], 1 - x[0]]]),
                 [[a, b] for a in (0.0, 0.1, -0.2) for b in (0.0, 0.1, -0.2)]),
    }


def newton(rec, tier):
    """a returned solution is a root; the iteration without a root reports failure"""
    L = rust.lib()
    for name, (n, f, J, starts) in newton_systems().items():
        sid = L.register(n, f, J)
        for x0 in starts:
            for which in (0, 1):
                for fd in (0, 1):
                    for tolr in (1e-6, 1e-9):
                        cid = f"{name},x0={x0},{'shifted' if which else 'system'},{'fd' if fd else 'exact'},tol={tolr:g}"
                        if tolr < 1e-6 and (fd or name == "zero"):
                            continue  # below the noise of the difference quotient; linear solve of a vanishing residual
                        if rec.want(cid):
                            with rec.case(cid) as c:
                                x = L.newton(which, sid, 0.5, x0, tolr, 1e-8, 100, fd)
                                Ji = np.linalg.inv(np.asarray(J(0.5, x), dtype=float))
                                c.close(Ji @ f(0.5, x), np.zeros(n), 2 * tolr, "distance to the root", scale=1.0 + float(np.linalg.norm(x)))
    sid = L.register(1, lambda t, x: x * x + 1.0, lambda t, x: np.diag(2 * x))
    for which in (0, 1):
        for x0 in (0.3, 2.0, -7.0):
            cid = f"no root,{which},x0={x0:g}"
            if rec.want(cid):
                with rec.case(cid) as c:
                    try:
                        x = L.newton(which, sid, 0.0, [x0], 1e-8, 1e-8, 60)
                    except rust.Failed:
                        continue
                    c.fail(f"success reported for an equation without root: {x}")
